#include "vf.h"
/* Native side: replay (VF_REPLAY=file) or random search (VF_SEARCH=iterations,
 * VF_SEED, VF_OUT=file for the inputs of a failing run, VF_TIME=seconds). */
jmp_buf vf_jmp;
int vf_verbose, vf_replaying;
typedef struct { char name[40]; unsigned idx; uint64_t v; int used; } vf_rec;
static vf_rec *recs; static unsigned n_recs, cap_recs;
static const char *out_file;
static uint64_t rng;
static uint64_t rnd(void)
{
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return rng * 0x2545F4914F6CDD1Dull;
}
static void add_rec(const char *name, unsigned idx, uint64_t v)
{
	if (n_recs == cap_recs) { cap_recs = cap_recs ? 2*cap_recs : 256; recs = realloc(recs, cap_recs * sizeof *recs); }
	vf_rec *r = &recs[n_recs++];
	snprintf(r->name, sizeof r->name, "%s", name); r->idx = idx; r->v = v; r->used = 0;
}
void vf_native_fix(const char *name, unsigned idx, uint64_t v)
{
	for (unsigned i = n_recs; i-- > 0; )
		if (recs[i].idx == idx && strcmp(recs[i].name, name) == 0) { recs[i].v = v; return; }
}
uint64_t vf_native_in(const char *name, unsigned idx, unsigned bits)
{
	uint64_t mask = bits >= 64 ? ~0ull : (1ull << bits) - 1, v;
	if (vf_replaying) {
		for (unsigned i = 0; i < n_recs; ++i)
			if (!recs[i].used && recs[i].idx == idx && strcmp(recs[i].name, name) == 0) {
				recs[i].used = 1; return recs[i].v & mask;
			}
		return 0;
	}
	uint64_t c = rnd();
	switch ((c >> 60) & 15) {
	case 0: v = 0; break;
	case 1: v = 1; break;
	case 2: v = ~0ull; break;
	case 3: v = 1ull << ((c >> 8) & 63); break;
	case 4: v = (1ull << ((c >> 8) & 63)) - 1; break;
	case 5: v = ~((1ull << ((c >> 8) & 63)) - 1); break;
	case 6: v = (1ull << ((c >> 8) & 63)) + 1; break;
	case 7: case 8: v = (c >> 8) & 15; break;
	case 9: v = -(uint64_t)((c >> 8) & 15); break;
	case 10: v = ((c >> 8) & 1) ? 1ull << (bits - 1) : (1ull << (bits - 1)) - 1; break;
	case 11: v = rnd() & 0xff; break;
	case 12: v = rnd() >> ((c >> 8) & 63); break;
	default: v = rnd(); break;
	}
	v &= mask;
	add_rec(name, idx, v);
	return v;
}
static void dump(const char *why)
{
	if (!vf_replaying && out_file) {
		FILE *f = fopen(out_file, "w");
		if (f) {
			for (unsigned i = 0; i < n_recs; ++i)
				fprintf(f, "%s %u %llu\n", recs[i].name, recs[i].idx, (unsigned long long)recs[i].v);
			fclose(f);
		}
	}
	fprintf(stderr, "VF-FAILED %s\n", why);
	fflush(stderr);
	_exit(1);
}
static const char *cur_fail;
void vf_fail(const char *id) { cur_fail = id; dump(id); }
static void on_sig(int s)
{
	dump(s == SIGABRT ? "abort (assertion, panic or sanitizer report in the code under test)" :
	     s == SIGALRM || s == SIGVTALRM || s == SIGPROF ? "does not terminate" : s == SIGFPE ? "SIGFPE" : "crash");
}
int vf_main(int argc, char **argv, void (*h)(void))
{
	(void)argc; (void)argv;
	signal(SIGABRT, on_sig); signal(SIGSEGV, on_sig); signal(SIGFPE, on_sig); signal(SIGALRM, on_sig); signal(SIGBUS, on_sig); signal(SIGILL, on_sig);
	const char *rp = getenv("VF_REPLAY");
	vf_verbose = getenv("VF_VERBOSE") != NULL;
	out_file = getenv("VF_OUT");
	if (rp) {
		vf_replaying = 1;
		FILE *f = fopen(rp, "r"); char nm[64]; unsigned i; unsigned long long v; char line[256];
		if (!f) return 2;
		while (fgets(line, sizeof line, f))
			if (line[0] != '#' && sscanf(line, "%60s %u %llu", nm, &i, &v) == 3) add_rec(nm, i, v);
		fclose(f);
		alarm(20);
		if (setjmp(vf_jmp) == 0) { h(); fprintf(stderr, "VF-OK\n"); return 0; }
		fprintf(stderr, "VF-ASSUME-FALSE\n");
		return 77;
	}
	unsigned long n = strtoul(getenv("VF_SEARCH") ? getenv("VF_SEARCH") : "100000", NULL, 0);
	unsigned long tmax = strtoul(getenv("VF_TIME") ? getenv("VF_TIME") : "20", NULL, 0);
	rng = 0x9E3779B97F4A7C15ull ^ (strtoul(getenv("VF_SEED") ? getenv("VF_SEED") : "1", NULL, 0) * 0xBF58476D1CE4E5B9ull);
	struct timeval t0, t; gettimeofday(&t0, NULL);
	volatile unsigned long ok = 0, skipped = 0;
	for (volatile unsigned long i = 0; i < n; ++i) {
		n_recs = 0;
		if ((i & 255) == 0) {
			gettimeofday(&t, NULL);
			if ((unsigned long)(t.tv_sec - t0.tv_sec) > tmax) break;
			alarm(20);
		}
		if (setjmp(vf_jmp) == 0) { h(); ok++; } else skipped++;
	}
	fprintf(stderr, "VF-SEARCH-OK ran=%lu skipped=%lu\n", (unsigned long)ok, (unsigned long)skipped);
	return 0;
}
