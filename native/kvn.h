/* helpers of the native search drivers: usage EXE SEED SECONDS [PROPERTY]; exit 3 and print VIOLATES on a failing input */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <time.h>
static uint64_t kvn_s;
static const char *kvn_want;
static uint32_t rnd(void)
{
	kvn_s ^= kvn_s << 13;
	kvn_s ^= kvn_s >> 7;
	kvn_s ^= kvn_s << 17;
	return kvn_s >> 16;
}
static uint32_t below(uint32_t n) { return n ? rnd() % n : 0; }
static char kvn_log[1 << 16];
static size_t kvn_n;
static void note(const char *f, ...)
{
	va_list a;
	va_start(a, f);
	if (kvn_n < sizeof kvn_log - 512)
		kvn_n += vsnprintf(kvn_log + kvn_n, 512, f, a) ;
	va_end(a);
}
static void note_reset(void) { kvn_n = 0; kvn_log[0] = 0; }
static void violates(const char *prop, const char *msg)
{
	if (kvn_want && !strstr(kvn_want, prop))
		return;
	printf("VIOLATES %s: %s\ninput: %s\n", prop, msg, kvn_log);
	fflush(stdout);
	_Exit(3);
}
/* run f() until the time is up */
static int kvn_main(int argc, char **argv, void (*f)(void))
{
	struct timespec t0, t;
	long n = 0;
	kvn_s = 88172645463325252ull ^ (strtoull(argc > 1 ? argv[1] : "1", 0, 0) * 0x9E3779B97F4A7C15ull);
	if (argc > 3)
		kvn_want = argv[3];
	clock_gettime(CLOCK_MONOTONIC, &t0);
	do {
		int i;
		for (i = 0; i < 20; i++, n++) {
			note_reset();
			f();
		}
		clock_gettime(CLOCK_MONOTONIC, &t);
	} while (t.tv_sec - t0.tv_sec < atoi(argc > 2 ? argv[2] : "5"));
	fprintf(stderr, "%ld runs\n", n);
	return 0;
}
