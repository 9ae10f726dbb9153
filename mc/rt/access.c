/* Run-time part of the instrumented build: every load, store and atomic operation of the code
 * compiled with -Zsanitizer=thread calls one of these functions. Accesses to memory that threads can
 * share - the static data of the program, blocks of the heap that an earlier call left behind, and
 * whatever is accessed atomically - are recorded, or made scheduling points. */
#include <stdint.h>
#include <string.h>

extern char __data_start, _end;
/* absent in build scripts */
extern void mc_access(void) __attribute__((weak));

#define NREC 4096
#define NBLK 1024
static struct { uintptr_t a; int w; } rec[NREC];
static int nrec;
static struct { uintptr_t a, n; } shared[NBLK];
static int nshared;
static __thread int busy;
static __thread int mode; /* 1: record, 2: scheduling points */

void mc_mode(int m) { mode = m; }
/* not now: code of the explorer */
int mc_hold(int on) { int old = busy; busy = on; return old; }
void mc_rec_clear(void) { nrec = 0; }
int mc_rec_len(void) { return nrec; }
uintptr_t mc_rec_addr(int i) { return rec[i].a - (uintptr_t)&__data_start; }
int mc_rec_write(int i) { return rec[i].w; }
void mc_share(void *p, unsigned long n) {
  if (nshared < NBLK) { shared[nshared].a = (uintptr_t)p; shared[nshared].n = n; nshared++; }
}
void mc_unshare(void *p) {
  for (int i = 0; i < nshared; i++)
    if (shared[i].a == (uintptr_t)p) { shared[i] = shared[--nshared]; return; }
}

static void slow(uintptr_t p, int w) {
  busy = 1;
  if (mode == 1) {
    uintptr_t a = p & ~(uintptr_t)7;
    int i;
    for (i = 0; i < nrec && rec[i].a != a; i++) {}
    if (i < nrec) rec[i].w |= w;
    else if (nrec < NREC) { rec[nrec].a = a; rec[nrec].w = w; nrec++; }
  } else if (mc_access) mc_access();
  busy = 0;
}
static inline void acc(volatile const void *q, unsigned long n, int w, int atomic) {
  if (!mode || busy) return;
  uintptr_t p = (uintptr_t)q;
  int in = p >= (uintptr_t)&__data_start && p < (uintptr_t)&_end;
  for (int i = 0; !in && i < nshared; i++)
    in = p + n > shared[i].a && p < shared[i].a + shared[i].n;
  if (in || atomic) slow(p, w);
}

void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void *p) { acc(p, n, 0, 0); } void __tsan_write##n(void *p) { acc(p, n, 1, 0); } \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, 0, 0); } void __tsan_unaligned_write##n(void *p) { acc(p, n, 1, 0); } \
  void __tsan_volatile_read##n(void *p) { acc(p, n, 0, 0); } void __tsan_volatile_write##n(void *p) { acc(p, n, 1, 0); } \
  void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, 0, 0); } void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, 1, 0); } \
  void __tsan_read_write##n(void *p) { acc(p, n, 1, 0); } void __tsan_unaligned_read_write##n(void *p) { acc(p, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }
void __tsan_read_range(void *p, unsigned long n) { acc(p, n, 0, 0); }
void __tsan_write_range(void *p, unsigned long n) { acc(p, n, 1, 0); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { acc(s, n, 0, 0); acc(d, n, 1, 0); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { acc(s, n, 0, 0); acc(d, n, 1, 0); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { acc(d, n, 1, 0); return memset(d, c, n); }
#define FETCH(b, t, f) \
  t __tsan_atomic##b##_fetch_##f(volatile t *p, t v, int o) { (void)o; acc(p, b / 8, 1, 1); return __atomic_fetch_##f(p, v, 5); }
#define AT(b, t) \
  t __tsan_atomic##b##_load(const volatile t *p, int o) { (void)o; acc(p, b / 8, 0, 1); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##b##_store(volatile t *p, t v, int o) { (void)o; acc(p, b / 8, 1, 1); __atomic_store_n(p, v, 5); } \
  t __tsan_atomic##b##_exchange(volatile t *p, t v, int o) { (void)o; acc(p, b / 8, 1, 1); return __atomic_exchange_n(p, v, 5); } \
  FETCH(b, t, add) FETCH(b, t, sub) FETCH(b, t, and) FETCH(b, t, or) FETCH(b, t, xor) FETCH(b, t, nand) \
  int __tsan_atomic##b##_compare_exchange_strong(volatile t *p, t *e, t v, int o, int f) { (void)o; (void)f; acc(p, b / 8, 1, 1); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile t *p, t *e, t v, int o, int f) { (void)o; (void)f; acc(p, b / 8, 1, 1); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  t __tsan_atomic##b##_compare_exchange_val(volatile t *p, t e, t v, int o, int f) { (void)o; (void)f; acc(p, b / 8, 1, 1); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int o) { (void)o; }
