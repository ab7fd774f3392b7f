#include "vf.h"
int vf_main(int argc, char **argv, void (*h)(void));
extern void VF_ENTRY(void);
int main(int argc, char **argv) { return vf_main(argc, argv, VF_ENTRY); }
