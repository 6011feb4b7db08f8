/* Replay support: seeded case generation, an operation log printed when the
 * code under test misbehaves (oracle mismatch, sanitizer report, crash, hang,
 * unexpected exit). */
#ifndef RP_H
#define RP_H
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <limits.h>
#include <math.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/time.h>

void __sanitizer_set_death_callback(void (*)(void));
static char rp_log[1 << 16];
static size_t rp_len;
static bool rp_finished;
static uint64_t rp_s;
static double rp_secs, rp_start;
static unsigned long rp_evals, rp_cases, rp_nontrivial;
static unsigned long long rp_seen[1 << 16];

static inline double rp_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static inline uint64_t rp_r64(void) { rp_s ^= rp_s << 13; rp_s ^= rp_s >> 7; rp_s ^= rp_s << 17; return rp_s * 2685821657736338717ULL; }
static inline uint64_t rnd(uint64_t n) { return n ? (rp_r64() >> 11) % n : 0; }
static void rp_dump(void) { if (rp_len) { printf("FAILING INPUT (operations in order):\n%s\n", rp_log); } fflush(stdout); rp_len = 0; }
static void rp_death(void) { rp_finished = true; rp_dump(); }
static void rp_alarm(int s) { printf("the code under test did not terminate\n"); rp_finished = true; rp_dump(); _exit(3); }
static void rp_exit(void) { if (!rp_finished) { printf("the code under test called exit\n"); rp_dump(); _exit(4); } }
static void rp_init(int argc, char **argv)
{
	uint64_t seed = argc > 1 ? strtoull(argv[1], NULL, 10) : 1;
	rp_secs = argc > 2 ? atof(argv[2]) : 5;
	rp_s = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
	for (int i = 0; i < 8; i++) rp_r64();
	rp_start = rp_now();
	__sanitizer_set_death_callback(rp_death);
	atexit(rp_exit);
	signal(SIGALRM, rp_alarm);
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	FILE *quiet = fopen("/dev/null", "w");	/* the code's own diagnostics; sanitizers write to descriptor 2 */
	if (quiet) stderr = quiet;
}
static bool rp_more(void) { return rp_now() - rp_start < rp_secs; }
static void L(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void L(const char *fmt, ...)
{
	if (rp_len > sizeof(rp_log) - 600) return;
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(rp_log + rp_len, 500, fmt, ap);
	va_end(ap);
	if (n > 499) n = 499;
	rp_len += n; rp_log[rp_len++] = '\n'; rp_log[rp_len] = 0;
}
/* printable rendering of bytes */
static const char *Q(const void *p, size_t n)
{
	static char bufs[8][600]; static int w;
	char *b = bufs[w = (w + 1) & 7], *o = b; const unsigned char *s = p;
	*o++ = '"';
	for (size_t i = 0; i < n && o < b + 560; i++) {
		if (s[i] >= 32 && s[i] < 127 && s[i] != '"' && s[i] != '\\') *o++ = s[i];
		else o += sprintf(o, "\\x%02x", s[i]);
	}
	*o++ = '"'; *o = 0;
	return b;
}
/* the first `n` operations of a case decide its identity for the statistics */
static void rp_note(bool nontrivial)
{
	uint64_t h = 1469598103934665603ULL;
	for (size_t i = 0; i < rp_len; i++) h = (h ^ (unsigned char)rp_log[i]) * 1099511628211ULL;
	unsigned long long *c = &rp_seen[h & 65535];
	if (nontrivial && *c != h) { rp_nontrivial++; *c = h; }
}
static void rp_case(void) { rp_len = 0; rp_log[0] = 0; rp_cases++; if ((rp_cases & 63) == 1) alarm(20); }
static void rp_fail(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	printf("MISMATCH: "); vprintf(fmt, ap); printf("\n");
	va_end(ap);
	rp_finished = true; rp_dump(); _exit(1);
}
#define CHECK(c, ...) do { rp_evals++; if (!(c)) rp_fail(__VA_ARGS__); } while (0)
static int rp_end(void)
{
	alarm(0);
	rp_finished = true;
	printf("STATS {\"evaluations\": %lu, \"cases\": %lu, \"distinct_nontrivial\": %lu, \"seconds\": %.1f}\n", rp_evals, rp_cases, rp_nontrivial, rp_now() - rp_start);
	fflush(stdout);
	return 0;
}
#endif
