/* Executable forms of the contracts, run against the real code on enumerated and random inputs (ASan/UBSan).
 * They replay and search failing inputs for obligations the verifier could not discharge, and they are the
 * labelled bounded stand-in for functions out of its reach. */
#pragma once
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <inttypes.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <ctype.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
static char cur_[8192] = "(none)"; static long ncases_; static double budget_ = 5; static uint64_t rs_ = 88172645463325252ull; static struct timespec t0_;
static int ofd_ = 1;
static const char *prop_ = "";
static uint64_t rnd(void) { rs_ ^= rs_ << 13; rs_ ^= rs_ >> 7; rs_ ^= rs_ << 17; return rs_; }
static unsigned rn(unsigned n) { return n ? (unsigned)((rnd() >> 11) % n) : 0; }
static int one_in(unsigned n) { return rn(n) == 0; }
static double secs(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0_.tv_sec) + (t.tv_nsec - t0_.tv_nsec) / 1e9; }
static int more(void) { return secs() < budget_; }
static void finish_witness(const char *what) { dprintf(ofd_, "WITNESS property=%s %s\n  case: %s\n", prop_, what, cur_); _exit(3); }
__attribute__((format(printf, 1, 2))) static void wit(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); finish_witness(b); }
__attribute__((format(printf, 1, 2))) static void casef(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(cur_, sizeof cur_, f, a); va_end(a); ncases_++; alarm(20); }
static void onsig(int s) {
	char b[200]; snprintf(b, sizeof b, "%s", s == SIGALRM ? "no termination within 20 s" : s == SIGABRT ? "abort" : "fatal signal");
	finish_witness(b); }
static void ondeath(void) { dprintf(ofd_, "WITNESS property=%s the address/undefined behaviour sanitizer stopped the program\n  case: %s\n", prop_, cur_); }
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=0:exitcode=3:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=1:max_malloc_fill_size=4096:malloc_fill_byte=190"; }
const char *__ubsan_default_options(void) { return "halt_on_error=1:print_stacktrace=0:exitcode=3"; }
static void nat_init(int argc, char **argv) {
	prop_ = argc > 1 ? argv[1] : "?"; if (argc > 2) budget_ = atof(argv[2]); if (argc > 3) rs_ += strtoull(argv[3], 0, 10) * 0x9E3779B97F4A7C15ull;
	ofd_ = dup(1); setvbuf(stdout, NULL, _IONBF, 0); freopen("/dev/null", "w", stdout); if (!getenv("NAT_ERR")) freopen("/dev/null", "w", stderr);   /* the code under test logs to both */
	{ time_t t = time(NULL); char b[99]; strftime(b, 99, "%c", localtime(&t)); printf("%s\n", b); fprintf(stderr, "\n"); }   /* libc's own first-use allocations */
	clock_gettime(CLOCK_MONOTONIC, &t0_); signal(SIGALRM, onsig); signal(SIGABRT, onsig); __sanitizer_set_death_callback(ondeath); }
static int nat_done(void) { alarm(0); dprintf(ofd_, "CLEAN property=%s cases=%ld seconds=%.1f\n", prop_, ncases_, secs()); _exit(0); return 0; }
static size_t heap(void) { return __sanitizer_get_current_allocated_bytes(); }
/* printable form of bytes */
static const char *show(const void *p, size_t n) {
	static char b[4][3000]; static int w; char *o = b[w++ & 3]; const unsigned char *s = p; size_t k = 0;
	if (!p) return "(null)";
	o[k++] = '"';
	for (size_t i = 0; i < n && k < 2900; i++) {
		if (s[i] >= 32 && s[i] < 127 && s[i] != '"' && s[i] != '\\') o[k++] = s[i]; else k += sprintf(o + k, "\\x%02x", s[i]); }
	if (k >= 2900) k += sprintf(o + k, "...(%zu bytes)", n);
	o[k++] = '"'; o[k] = 0; return o; }
/* allocation failures: the fail_at-th wrapped allocation from now fails (0: never) */
static long fail_at_ = 0, alloc_n_ = 0, failed_n_ = 0;
#ifdef WRAP
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
static int fails(void) { alloc_n_++; if (fail_at_ && alloc_n_ == fail_at_) { failed_n_++; return 1; } return 0; }
void *__wrap_malloc(size_t n) { return fails() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return fails() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return fails() ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return fails() ? NULL : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return fails() ? NULL : __real_strndup(s, n); }
static void oom(long n) { fail_at_ = n; alloc_n_ = 0; failed_n_ = 0; }
#else
#define __real_malloc malloc
#define __real_calloc calloc
#endif
static void *exact(const void *p, size_t n) { char *q = __real_malloc(n ? n : 1); if (n) memcpy(q, p, n); return q; }   /* heap copy without slack */
static char *exacts(const char *s) { return exact(s, strlen(s) + 1); }
static unsigned char rbyte(void) { switch (rn(6)) { case 0: return 0; case 1: return 255; case 2: return 128 + rn(128); default: return rn(256); } }
#define N(a) (sizeof(a) / sizeof((a)[0]))
