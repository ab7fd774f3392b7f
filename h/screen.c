/* Native screening of expression trees: evaluates the harness of opt.c on
 * concrete leaf values to select trees for which an obligation is generated.
 * Counts nothing as proved.
 * argv: FILE samples mode constraints edges  (one tree per line; prints "BAD line why") */
#define SCREEN
#define SCR_ARENA
#include <stdlib.h>
#include <stddef.h>
static char scr_mem[1 << 20]; static size_t scr_top;
static void *scr_alloc(size_t n) { n = (n + 15) & ~(size_t)15; if (scr_top + n > sizeof(scr_mem)) abort(); void *p = scr_mem + scr_top; __builtin_memset(p, 0, n); scr_top += n; return p; }
struct ir_mode; extern struct ir_mode *scr_mode; extern int scr_constraints, scr_edges;
#define MODE scr_mode
#define CONSTRAINTS scr_constraints
#define EDGES scr_edges
#define FACTS scr_facts
extern int scr_facts;
#define TREES
#include "opt.c"
#include <sys/wait.h>
#include <sys/mman.h>
ir_mode *scr_mode; int scr_constraints, scr_edges = 1, scr_facts;
int vf_verbose, vf_replaying; jmp_buf vf_jmp;
static struct { int line; char why[200]; } *scr_shm;
static int scr_line;
static u64 scr_rng, scr_consts[16]; static unsigned scr_nconst;
static u64 rnd(void) { scr_rng ^= scr_rng << 13; scr_rng ^= scr_rng >> 7; scr_rng ^= scr_rng << 17; return scr_rng * 0x2545F4914F6CDD1Dull; }
static void pr(ir_node *n, int d);
static ir_node *scr_root;
void vf_fail(const char *id) { if (getenv("SCR_SHOW")) { printf("\n  X=%lld Y=%lld ", (long long)mval(X->mode, GVAL(X)), (long long)mval(Y->mode, GVAL(Y))); pr(vf_orig, 6); printf("\n  -> "); pr(vf_repl, 8); printf("\n"); fflush(stdout); } snprintf(scr_shm->why, sizeof(scr_shm->why), "%s", id); _exit(1); }
uint64_t vf_native_in(const char *name, unsigned idx, unsigned bits)
{
	u64 c = rnd();
	switch ((c >> 50) & 15) {
	case 0: return 0; case 1: return 1; case 2: return ~(u64)0;
	case 3: return 0x80 + (c & 1) * ~(u64)0; /* extremes of 8 bit */
	case 4: return ((u64)1 << (c & 31)); case 5: return ((u64)1 << (c & 31)) - 1; case 6: return ~(((u64)1 << (c & 31)) - 1);
	case 7: return (c & 1) ? 0x80000000u : 0x7fffffffu;
	case 8: return c & 15;
	case 9: case 10: case 11: if (scr_nconst) { u64 k = scr_consts[(c & 255) % scr_nconst]; return k + ((c >> 8) & 3) - 1; } return c & 63;
	default: return c >> 20;
	}
}
static void pr(ir_node *n, int d)
{
	if (n == X) { printf("X"); return; } if (n == Y) { printf("Y"); return; } if (n == B) { printf("B"); return; } if (n == Q) { printf("Q"); return; }
	printf("%s", n->op->name);
	if (n->op == op_Const) printf(":%lld", (long long)mval(n->mode, vf_off(n->attr.con.tarval)));
	if (n->op == op_Cmp) printf("%d", n->attr.cmp.relation);
	if (mode_is_data(n->mode)) printf("[%s=%lld%s]", (char*)n->mode->name, (long long)mval(n->mode, GVAL(n)), GDEF(n) ? "" : "?");
	if (d && get_irn_arity(n) > 0) { printf("("); for (int i = 0; i < get_irn_arity(n); ++i) { if (i) printf(", "); if (n->in[i + 1]) pr(n->in[i + 1], d - 1); } printf(")"); }
}
static void on_sig(int s) { snprintf(scr_shm->why, sizeof(scr_shm->why), "signal %d", s); _exit(1); }
void scr_die(char const *t) { fprintf(stderr, "cannot parse: %s\n", t); _exit(3); }
/* ---- parser of the tree language */
static char const *p;
static void ws(void) { while (*p == ' ') ++p; }
static void eat(char c) { ws(); if (*p != c) scr_die(p); ++p; }
static long num(void) { ws(); char *e; long v = strtol(p, &e, 0); if (e == p) scr_die(p); p = e; return v; }
static ir_mode *pmode(void)
{
	ws(); char n[8]; int i = 0; while ((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z')) n[i++] = *p++; n[i] = 0;
	if (!strcmp(n, "b")) return mode_b; if (!strcmp(n, "Bs")) return mode_Bs; if (!strcmp(n, "Bu")) return mode_Bu; if (!strcmp(n, "Hs")) return mode_Hs;
	if (!strcmp(n, "Hu")) return mode_Hu; if (!strcmp(n, "Is")) return mode_Is; if (!strcmp(n, "Iu")) return mode_Iu; if (!strcmp(n, "P")) return mode_P;
	scr_die(n); return NULL;
}
static ir_node *expr(void)
{
	ws(); char n[16]; int i = 0; while ((*p >= 'A' && *p <= 'Z') && i < 15) n[i++] = *p++; n[i] = 0;
	ws();
	if (*p != '(') { if (!strcmp(n, "X")) return X; if (!strcmp(n, "Y")) return Y; if (!strcmp(n, "B")) return B; if (!strcmp(n, "Q")) return Q; scr_die(n); }
	eat('(');
	ir_node *r = NULL, *a, *b, *c; ir_mode *m; long k;
#define IS(s) (!strcmp(n, s))
	if (IS("K")) { k = num(); if (scr_nconst < 16) scr_consts[scr_nconst++] = k; r = K(k); }
	else if (IS("SH")) { k = num(); r = SH(k); }
	else if (IS("KM")) { m = pmode(); eat(','); k = num(); if (scr_nconst < 16) scr_consts[scr_nconst++] = k; r = vf_konst(m, (u64)k); }
	else if (IS("LM")) { m = pmode(); r = leaf(m, ANYV("l", 0, m)); }
	else if (IS("CONV")) { m = pmode(); eat(','); a = expr(); r = cse(new_rd_Conv(NULL, vf_block, a, m)); }
	else if (IS("CMP")) { k = num(); eat(','); a = expr(); eat(','); b = expr(); r = CMP(k, a, b); }
	else if (IS("CFM")) { a = expr(); eat(','); k = num(); eat(','); b = expr(); r = CFM(a, k, b); }
	else if (IS("FACT")) { a = expr(); eat(','); k = num(); eat(','); long o = num(); r = fact(a, (u64)k, (u64)o); }
	else {
		a = expr();
		if (IS("NOT")) r = NOT(a); else if (IS("NEG")) r = NEG(a);
		else {
			eat(','); b = expr();
			if (IS("ADD")) r = ADD(a, b); else if (IS("SUB")) r = SUB(a, b); else if (IS("MUL")) r = MUL(a, b); else if (IS("AND")) r = AND(a, b);
			else if (IS("OR")) r = OR(a, b); else if (IS("EOR")) r = EOR(a, b); else if (IS("SHL")) r = SHL(a, b); else if (IS("SHR")) r = SHR(a, b);
			else if (IS("SHRS")) r = SHRS(a, b); else if (IS("DIV")) r = DIV(a, b); else if (IS("DIVX")) r = DIVX(a, b); else if (IS("MOD")) r = MOD(a, b);
			else if (IS("MUX")) { eat(','); c = expr(); r = MUX(a, b, c); }
			else scr_die(n);
		}
	}
	eat(')');
	return r;
}
int main(int argc, char **argv)
{
	int samples = atoi(argv[2]); char const *mn = argv[3]; scr_constraints = (int)strtol(argv[4], NULL, 0); scr_edges = atoi(argv[5]); scr_facts = atoi(argv[6]);
	FILE *f = fopen(argv[1], "r"); if (!f) return 2;
	static char *lines[1 << 20]; int n = 0; char buf[1024];
	while (fgets(buf, sizeof(buf), f)) { buf[strcspn(buf, "\n")] = 0; lines[n++] = strdup(buf); }
	scr_shm = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	volatile unsigned long ran = 0;
	for (int next = 0; next < n; ) {
		fflush(stdout);
		scr_shm->why[0] = 0;
		pid_t pid = fork();
		if (pid == 0) {
			signal(SIGABRT, on_sig); signal(SIGSEGV, on_sig); signal(SIGFPE, on_sig); signal(SIGALRM, on_sig); signal(SIGBUS, on_sig); signal(SIGILL, on_sig);
			vf_init(); p = mn; scr_mode = pmode();
			ir_register_opt_node_ops();
			size_t top0 = scr_top;
			for (volatile int i = next; i < n; ++i) {
				scr_shm->line = i; scr_rng = 0x9E3779B97F4A7C15ull ^ ((u64)i * 0xBF58476D1CE4E5B9ull) ^ strtoul(getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1", NULL, 0);
				alarm(10);
				scr_nconst = 0;
				for (volatile int s = 0; s < samples; ++s)
					if (setjmp(vf_jmp) == 0) { scr_top = top0; tree_start(0); p = lines[i]; check(expr()); }
			}
			_exit(0);
		}
		int st; waitpid(pid, &st, 0);
		if (st == 0) break;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
		printf("BAD %d %s\n", scr_shm->line, scr_shm->why);
		next = scr_shm->line + 1;
	}
	printf("DONE %d\n", n);
	return 0;
}
