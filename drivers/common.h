// helpers of the native drivers: current case log, failure reporting, random numbers, expected stops
#ifndef COMMON_H
#define COMMON_H
#define _GNU_SOURCE
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

static char *case_buf;
static long n_eval, n_fail, n_distinct;
static double t_end;
static int thorough;
static uint64_t rng_s;
static sigjmp_buf stop_jmp;
static volatile int stop_expected;

static double now_s(void) {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static uint64_t rnd(void) {
	rng_s += 0x9E3779B97F4A7C15ULL;
	uint64_t z = rng_s;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}
static int rn(int n) { return (int)(rnd() % (uint64_t)n); }

__attribute__((no_sanitize_address)) static void on_signal(int sig) {
	if (stop_expected) {
		stop_expected = 0;
		siglongjmp(stop_jmp, sig);
	}
	const char *m = "";
	char b[4600];
	int n = snprintf(b, sizeof b, "\nFAIL signal %d (%s) in the real code on: %.4000s\n", sig, strsignal(sig), case_buf);
	fflush(stdout);
	write(1, b, n);
	_exit(3);
}

static void drv_init(void) {
	char *l = getenv("CASE_LOG");
	int fd = -1;
	if (l) fd = open(l, O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (fd >= 0 && ftruncate(fd, 8192) == 0)
		case_buf = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	else
		case_buf = calloc(1, 8192);
	char *s = getenv("VERIF_SEED");
	rng_s = s ? strtoull(s, 0, 10) : 1;
	char *d = getenv("DRIVER_SECONDS");
	t_end = now_s() + (d ? atof(d) : 30);
	char *t = getenv("VERIF_TIER");
	thorough = t && !strcmp(t, "thorough");
	static char alt[1 << 16];
	stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
	sigaltstack(&ss, 0);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_signal;
	sa.sa_flags = SA_ONSTACK | SA_NODEFER;
	int sigs[] = {SIGILL, SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGTRAP};
	for (int i = 0; i < 6; i++) sigaction(sigs[i], &sa, 0);
	setvbuf(stdout, 0, _IOLBF, 0);
}
static int time_left(void) { return now_s() < t_end; }

#define CASE(...) do { n_eval++; snprintf(case_buf, 8000, __VA_ARGS__); } while (0)
#define DISTINCT() (n_distinct++)
#define CHECK(c, ...)                                                                             \
	do {                                                                                      \
		if (!(c)) {                                                                       \
			if (n_fail++ < 10) {                                                      \
				printf("FAIL %s -- ", case_buf);                                  \
				printf(__VA_ARGS__);                                              \
				printf("\n");                                                     \
			}                                                                         \
		}                                                                                 \
	} while (0)
// 1 when running e stops the program (trap, abort, fault)
#define STOPS(e)                                                                                  \
	({                                                                                        \
		int stops_ = 0;                                                                   \
		if (sigsetjmp(stop_jmp, 1) == 0) {                                                \
			stop_expected = 1;                                                        \
			e;                                                                        \
			stop_expected = 0;                                                        \
		} else {                                                                          \
			stops_ = 1;                                                               \
		}                                                                                 \
		stops_;                                                                           \
	})
static int drv_done(const char *rule) {
	printf("RULE %s\n", rule);
	printf("SAMPLE %.600s\n", case_buf);
	printf("STAT evaluations=%ld distinct=%ld\n", n_eval, n_distinct);
	fflush(stdout);
	_exit(n_fail ? 1 : 0);
}
#endif
