// Native side of the harness: replays the inputs of one explored path against the compiled code.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <malloc.h>
#include <pthread.h>
#include <dlfcn.h>
#include <signal.h>
#include <sys/syscall.h>
typedef uint64_t u64;
long sx_raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f; long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void out(const char *k, const char *m, u64 ml) { printf("%s: %.*s\n", k, (int)ml, m); fflush(stdout); }
static void quit(int c) { fflush(stdout); sx_raw_syscall(SYS_exit_group, c, 0, 0, 0, 0, 0); __builtin_unreachable(); }
// replay file: lines "name hex"
static struct rec { char *name; unsigned char *d; size_t n; } *recs; static size_t nrec, cur; static int notefd_verbose;
void sxrt_load(const char *path) {
  FILE *f = fopen(path, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", path); exit(3); }
  char *line = 0; size_t cap = 0; ssize_t l;
  while ((l = getline(&line, &cap, f)) > 0) {
    char *sp = strrchr(line, ' '); if (!sp) continue; *sp++ = 0; size_t hl = strlen(sp); while (hl && (sp[hl - 1] == '\n')) hl--;
    recs = realloc(recs, sizeof *recs * (nrec + 1)); struct rec *r = &recs[nrec++]; r->name = strdup(line); r->n = hl / 2; r->d = malloc(r->n + 1);
    for (size_t i = 0; i < r->n; i++) { char b[3] = {sp[2 * i], sp[2 * i + 1], 0}; r->d[i] = strtoul(b, 0, 16); }
  }
  free(line); fclose(f);
}
static struct rec *next(const char *name, u64 nl, u64 n) {
  if (cur >= nrec) { static struct rec z; if (z.n < n) { free(z.d); z.d = calloc(1, n + 1); z.n = n; } return &z; }
  struct rec *r = &recs[cur++];
  if (strlen(r->name) != nl || memcmp(r->name, name, nl) || r->n != n) { printf("REPLAY-DIVERGED: expected input %s[%zu], program asked for %.*s[%llu]\n", r->name, r->n, (int)nl, name, (unsigned long long)n); quit(78); }
  return r;
}
void sx_symbolic(unsigned char *p, u64 n, const char *name, u64 nl) { struct rec *r = next(name, nl, n); memcpy(p, r->d, n); }
u64 sx_pick(u64 n, const char *name, u64 nl) { u64 v = next(name, nl, 1)->d[0]; if (v >= n) { out("REPLAY-DIVERGED", "pick out of range", 17); quit(78); } return v; }
void sx_assume(u64 c) { if (!c) { out("ASSUME-FALSE", "", 0); quit(77); } }
void sx_check(u64 c, const char *m, u64 ml) { if (!c) { out("CHECK-FAILED", m, ml); quit(1); } }
void sx_reach(const char *m, u64 ml) { (void)m; (void)ml; }
void sx_end(void) { out("PATH-OK", "", 0); quit(0); }
void sx_note(u64 v) { printf("NOTE: %llu\n", (unsigned long long)v); }
u64 sx_concretize(u64 v) { return v; }
u64 sx_maybe(u64 c) { return c; }
u64 sx_ctor(u64 i) { (void)i; return 0; } // they have run
u64 sx_in_engine(void) { return 0; }
/* fresh memory is filled with 0xA5 here */
u64 sx_is_init(const void *p, u64 n) { const unsigned char *c = p; for (u64 i = 0; i < n; i++) if (c[i] == 0xA5) return 0; return 1; }
u64 sx_heap_live(void) { return 0; }
void sx_fail(const char *k, u64 kl, const char *m, u64 ml) { printf("FAILED[%.*s]: %.*s\n", (int)kl, k, (int)ml, m); quit(1); }
void sx_inconclusive(const char *m, u64 ml) { out("INCONCLUSIVE", m, ml); quit(79); }
void sx_trace(const char *m, u64 ml, u64 v) { if (notefd_verbose) { printf("trace %.*s %llu\n", (int)ml, m, (unsigned long long)v); } }
u64 sx_is_symbolic(u64 v) { (void)v; return 0; }
// shared memory
u64 sx_shm_new(u64 n) { long fd = sx_raw_syscall(SYS_memfd_create, (long)"sx", 0, 0, 0, 0, 0); if (fd < 0) quit(3); if (sx_raw_syscall(SYS_ftruncate, fd, n, 0, 0, 0, 0) < 0) quit(3); return fd; }
void *sx_shm_map(u64 h, u64 off, u64 len) { return (void *)sx_raw_syscall(SYS_mmap, 0, len, 3, 1, h, off); }
void sx_shm_unmap(void *p, u64 len) { sx_raw_syscall(SYS_munmap, (long)p, len, 0, 0, 0, 0); }
void sx_shm_free(u64 h) { sx_raw_syscall(SYS_close, h, 0, 0, 0, 0, 0); }
// threads: one runs at a time
#define MAXT 128
static struct { pthread_t t; u64 f, arg; volatile int go; } T[MAXT]; static int nT = 1; static __thread int me;
static void fwait(volatile int *p) { while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) sx_raw_syscall(SYS_futex, (long)p, 0, 0, 0, 0, 0); __atomic_store_n(p, 0, __ATOMIC_RELEASE); }
static void fwake(volatile int *p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); sx_raw_syscall(SYS_futex, (long)p, 1, 1, 0, 0, 0); }
static void *tramp(void *a) { me = (int)(intptr_t)a; fwait(&T[me].go); ((void (*)(u64))T[me].f)(T[me].arg); out("FAILED[engine]", "thread function returned", 24); quit(80); return 0; }
u64 sx_thread_create(u64 f, u64 arg) {
  int (*pc)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = dlvsym(RTLD_NEXT, "pthread_create", "GLIBC_2.34");
  if (!pc || nT >= MAXT) quit(3);
  int t = nT++; T[t].f = f; T[t].arg = arg; T[t].go = 0; 
  if (pc(&T[t].t, 0, tramp, (void *)(intptr_t)t)) quit(3);
  return t;
}
u64 sx_self(void) { return me; }
void sx_switch(u64 t) { int m = me; if ((int)t == m) return; fwake(&T[t].go); fwait(&T[m].go); }
static void onsig(int s) { printf("FAILED[signal]: signal %d\n", s); quit(1); }
int sxrt_main(int argc, char **argv, void (*fn)(void)) {
  (void)argc; mallopt(M_PERTURB, 0x5A); setvbuf(stdout, 0, _IOLBF, 0);
  notefd_verbose = getenv("SX_TRACE") != 0;
  static char alt[65536]; stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt}; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE}; for (int i = 0; i < 5; i++) sigaction(sigs[i], &sa, 0);
  if (argv[2]) sxrt_load(argv[2]);
  fn(); sx_end(); return 0;
}
