/* Native back end of the contract DSL: runs a harness on concrete inputs against the real code.
 *   prog replay FILE          inputs from FILE (one hex u64 per line), then PRNG seeded 1
 *   prog seed S               inputs from the PRNG with seed S
 * exit 0: contract held; 77: a precondition rejected the inputs; 1: an obligation failed
 * (anything else: the code under test crashed: sanitizer, assert, signal).  */
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static FILE *in_file;
static uint64_t rng = 1;
static FILE *log_file;
static int replaying;

static uint64_t next(void) {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1DULL;
}
static int from_file(uint64_t *v) {
    unsigned long long x;
    if (in_file && fscanf(in_file, "%llx", &x) == 1) { *v = x; return 1; }
    return 0;
}
static uint64_t rec(uint64_t v) { if (log_file) { fprintf(log_file, "%llx\n", (unsigned long long)v); fflush(log_file); } return v; }
void vc_reject(const char *why) { if (getenv("VC_VERBOSE")) fprintf(stderr, "REJECT %s\n", why); _exit(77); }
void vc_fail(const char *what, const char *expr, const char *file, int line) {
    printf("CONTRACT VIOLATED: %s\n  clause: %s\n  at %s:%d\n", what, expr, file, line);
    fflush(stdout); _exit(1);
}
static uint64_t interesting(void) {
    static const uint64_t k[] = {0, 1, 2, 3, 7, 8, 127, 128, 255, 256, 257, (uint64_t)-1, (uint64_t)-2, 0x7fffffff, 0x80000000ull,
        0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 'a', 'A', '0', '\n', '"', '\\', ' ', 0x3ff0000000000000ull, 0xbff0000000000000ull,
        0x4000000000000000ull, 0x7ff0000000000000ull, 0x7ff8000000000000ull};
    uint64_t r = next();
    switch (r % 4) {
        case 0: case 1: return k[(r >> 8) % (sizeof k / sizeof *k)];
        case 2: return (r >> 8) & 0xff;
        default: return next();
    }
}
uint64_t vc_in(void) { uint64_t v; if (from_file(&v)) return rec(v); return rec(interesting()); }
uint64_t in_u64(void) { return vc_in(); }
double in_f64(void) { union { uint64_t u; double d; } c; c.u = vc_in(); return c.d; }
int64_t in_range(int64_t lo, int64_t hi) {
    uint64_t v; int64_t x;
    if (from_file(&v)) { x = (int64_t)v; rec(v); if (x < lo || x > hi) vc_reject("range"); return x; }
    if (hi < lo) vc_reject("empty range");
    uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
    uint64_t r = next();
    if (span == 0) x = (int64_t)interesting();
    else if (r % 8 == 0) x = lo;
    else if (r % 8 == 1) x = hi;
    else if (r % 8 < 4 && span > 16) x = lo + (int64_t)((r >> 8) % 16);
    else x = (int64_t)((uint64_t)lo + (r >> 3) % span);
    rec((uint64_t)x);
    return x;
}
void vc_bulk(void *p, size_t n) { unsigned char *b = p; for (size_t i = 0; i < n; i++) b[i] = (unsigned char)next(); }

void harness(void);
static void on_alarm(int s) { (void)s; static const char m[] = "CONTRACT VIOLATED: no result within the time limit (non-termination)\n"; if (write(1, m, sizeof m - 1)) {} _exit(1); }
int main(int argc, char **argv) {
    if (getenv("VC_LOG")) log_file = fopen(getenv("VC_LOG"), "w");
    signal(SIGALRM, on_alarm);
    alarm(10);
    if (argc == 3 && !strcmp(argv[1], "replay")) { in_file = fopen(argv[2], "r"); replaying = 1; rng = 88172645463325252ULL; harness(); return 0; }
    if (argc == 3 && !strcmp(argv[1], "seed")) {
        rng = 88172645463325252ULL ^ (strtoull(argv[2], 0, 10) * 0x9E3779B97F4A7C15ULL);
        if (!rng) rng = 1;
        for (int i = 0; i < 8; i++) next();
        harness(); return 0;
    }
    fprintf(stderr, "usage: %s replay FILE | seed N\n", argv[0]);
    return 2;
}
