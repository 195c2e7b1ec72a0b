// Simulated kernel + controlled scheduler, interposed below the unmodified
// server at the libc / thread-sanitizer-ABI boundary.
//
//  * Every Rust atomic operation of the instrumented crates calls into
//    __tsan_atomic*; on addresses shared by several server threads that is a
//    scheduling point.
//  * io_uring (setup/enter/mmap), sockets, eventfd, futex, clocks, randomness,
//    and thread creation are interpreted here, so which completion is seen
//    when, how many bytes a send takes, what the time is, is a choice.
//  * Without control (g_ctl == 0) everything is passed to the real kernel.
#define _GNU_SOURCE
#include "simk.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <stddef.h>
#include <sys/wait.h>
#include <sys/auxv.h>

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

static inline long rsys(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static inline long fix(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

// ---------------------------------------------------------------- state
static volatile int g_ctl;       // controlled execution (in the child)
static int g_record;             // record pthread_create instead of starting
static int g_ncpu;               // simulated number of CPUs (0 = real)
static cpu_set_t g_cpus;         // the ones we may use
static uint32_t g_held;          // threads which do not start by themselves
static int g_phase;              // 0 = start-up, 1 = exploring
static struct shm *S;
static struct result *R;
static struct scenario *SC;
static const uint8_t *blob;
static uint8_t *outbuf;          // SC->outcap bytes per connection
static volatile uint64_t *visited; static uint64_t visited_mask;
static uint64_t *shset; static uint64_t shset_mask;
static __thread int mytid = -1;
static uint64_t vnow = 5000ull * 1000000000ull;
static uint64_t g_seed = 1;
static uint64_t rng_state;
static int cur = -1;
static int nthr;
static uint32_t g_step;
static uint8_t bleft[NBUD];

struct thr {
  void *(*fn)(void *); void *arg;
  size_t stack;
  uint64_t sp, fs;         // suspended context
  volatile int parked;
  int state;
  uint64_t hist;
  int ring;                // fd index when in T_ENTER
  uint32_t *faddr; uint32_t fbits; int fwoken; uint64_t forder;
  uint64_t deadline;       // 0 = none
  int timedout;
  uint32_t spin;
  pthread_t pt;
};
static struct thr T[MAXTHR];
static uint64_t forder_next = 1;
static int ifac_auto_time;
static uint32_t g_storm; // accepts failed so far

// fds
enum { F_FREE = 0, F_LISTEN, F_STREAM, F_EVENT, F_RING };
#define FDBASE 1000
#define MAXFD 1200
#define MAXOPS 1200
struct op { uint8_t code, cancelled; int fd; uint64_t off, addr, ud; uint32_t len, opf; uint64_t deadline; };
struct fdent {
  uint8_t kind, listening, fam6, err_once, reuse;
  int conn;              // stream
  int owner;             // thread
  uint64_t ver;
  uint64_t counter;      // eventfd
  // ring
  uint8_t *mem; uint8_t *sqes; uint32_t sq_n, cq_n; size_t memlen;
  struct op *ops; int nops;
  // listener
  int accq[MAXCONN]; int accn;
  struct sockaddr_storage laddr; socklen_t laddrlen;
};
static struct fdent *FD;
static int fd_hi;
static int lst_of_thr[MAXTHR]; // fd index of listener of thread
struct conn {
  int fd;  // fd index or -1
  uint64_t rxpos, rxlim; // in blob
  uint64_t txspace;
  uint64_t ver;
  uint8_t eof, rst, rst_reported, dead, refused;
  uint32_t scan; int64_t pend; // reply scanner
  int lst;
};
static struct conn C[MAXCONN];
struct actor { uint32_t pos; uint32_t off; };
static struct actor A[MAXACT];
static uint64_t env_hist;

static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 2));
  x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32;
  return x;
}

// ---------------------------------------------------------------- allocator
// Per-thread bump arenas at fixed addresses (deterministic addresses), tail
// canaries (heap overruns are found at the end of every execution), freed
// blocks are poisoned and never reused under control.
#define ARENA_BASE 0x100000000000ull
#define ARENA_SIZE (1ull << 40)
#define NARENA 64
struct hdr { struct hdr *prev; uint64_t size; uint32_t magic; uint32_t arena; uint64_t pad; };
#define MAGIC 0x51a7b10cu
#define MAGICF 0xdeadb10cu
static const uint64_t CANARY = 0x5ca1ab1e0ddba11eull;
// Blocks allocated under control: where they start, one bit per 16 bytes.
#define BLKARENA 8
#define BLKWORDS 4096
static uint64_t blkbase[BLKARENA]; static uint64_t blkmap[BLKARENA][BLKWORDS];
static struct { uint8_t *cur; uint8_t *hi; struct hdr *last; struct hdr *fl[64]; struct hdr *forkmark; } AR[NARENA];
static int ar_next = MAXTHR + 1;
static __thread int myarena = -1;
static int ar_id(void) {
  if (LIKELY(myarena >= 0)) return myarena;
  if (g_ctl && mytid >= 0) myarena = mytid + 1;
  else if (!g_ctl && !AR[0].cur) myarena = 0;
  else myarena = __atomic_fetch_add(&ar_next, 1, __ATOMIC_SEQ_CST);
  if (myarena >= NARENA) { myarena = NARENA - 1; }
  return myarena;
}
static int cls(uint64_t n) { int c = 0; while ((32ull << c) < n) c++; return c; }
static void ar_grow(int a, uint8_t *to) {
  if (!AR[a].cur) {
    uint8_t *b = (uint8_t *)(ARENA_BASE + (uint64_t)a * ARENA_SIZE);
    long r = rsys(SYS_mmap, (long)b, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (long)b) { rsys(SYS_write, 2, (long)"simk: arena mmap failed\n", 24, 0, 0, 0); rsys(SYS_exit_group, 97, 0, 0, 0, 0, 0); }
    AR[a].cur = b; AR[a].hi = b;
  }
  (void)to;
}
static pthread_mutex_t lastlock = PTHREAD_MUTEX_INITIALIZER;
// Largest single allocation granted; what a request declares must not be able
// to ask for more.
static uint64_t g_maxalloc = 1ull << 40;
static int64_t g_blocks, g_bytes; // allocated and not freed again under control
void simk_maxalloc(uint64_t n) { g_maxalloc = n; }
void *simk_alloc(uint64_t size, uint64_t align, int zero) {
  if (UNLIKELY(size > g_maxalloc)) return 0;
  int a = ar_id();
  int shared = (a == NARENA - 1);
  if (shared) pthread_mutex_lock(&lastlock);
  ar_grow(a, 0);
  if (align < 16) align = 16;
  int c = cls(size + 8);
  struct hdr *h;
  if (!g_ctl && align == 16 && !shared && AR[a].fl[c]) {
    h = AR[a].fl[c]; AR[a].fl[c] = (struct hdr *)h->pad;
    h->size = size; h->magic = MAGIC;
    void *p = h + 1;
    if (zero && c < 20) memset(p, 0, size);
    memcpy((uint8_t *)p + size, &CANARY, 8);
    return p;
  }
  uint64_t p = (uint64_t)AR[a].cur + sizeof(struct hdr);
  p = (p + align - 1) & ~(align - 1);
  h = (struct hdr *)p - 1;
  uint64_t room = (align == 16 && !g_ctl) ? (32ull << c) : size + 8;
  AR[a].cur = (uint8_t *)((p + room + 15) & ~15ull);
  if ((uint64_t)AR[a].cur > ARENA_BASE + (uint64_t)(a + 1) * ARENA_SIZE) { return 0; }
  h->prev = AR[a].last; h->size = size; h->magic = MAGIC; h->arena = a; h->pad = 0;
  if (g_ctl) {
    g_blocks++; g_bytes += size;
    AR[a].last = h;
    if (a < BLKARENA) {
      if (!blkbase[a]) blkbase[a] = (uint64_t)h & ~15ull;
      uint64_t k = (p - blkbase[a]) >> 4;
      if (k < BLKWORDS * 64ull) blkmap[a][k >> 6] |= 1ull << (k & 63);
    }
  }
  memcpy((uint8_t *)p + size, &CANARY, 8);
  if (shared) pthread_mutex_unlock(&lastlock);
  return (void *)p;
}
static void die(int st, const char *m);
void simk_free(void *p, uint64_t size, uint64_t align) {
  struct hdr *h = (struct hdr *)p - 1;
  (void)size;
  if (h->magic != MAGIC) die(ST_HEAP, "free of a block that is not live");
  if (memcmp((uint8_t *)p + h->size, &CANARY, 8)) die(ST_HEAP, "heap block overrun (found at free)");
  if (g_ctl) {
    g_blocks--; g_bytes -= h->size;
    h->magic = MAGICF;
    uint64_t n = h->size < 4096 ? h->size : 4096;
    memset(p, 0xDD, n);
    return;
  }
  int a = ar_id();
  int c = cls(h->size + 8);
  if ((int)h->arena == a && a != NARENA - 1 && align <= 16) {
    h->magic = MAGICF;
    if (c >= 20) {
      uint64_t lo = ((uint64_t)p + 4095) & ~4095ull, hi = ((uint64_t)p + h->size + 8) & ~4095ull;
      if (hi > lo) rsys(SYS_madvise, lo, hi - lo, MADV_DONTNEED, 0, 0, 0);
      memset(p, 0, lo - (uint64_t)p); memset((void *)hi, 0, (uint64_t)p + h->size + 8 - hi);
    }
    h->pad = (uint64_t)AR[a].fl[c]; AR[a].fl[c] = h;
  }
}
static const char *heap_check(void) {
  for (int a = 0; a < NARENA; a++)
    for (struct hdr *h = AR[a].last; h; h = h->prev) {
      if (h->magic != MAGIC && h->magic != MAGICF) return "heap block header overwritten";
      if (memcmp((uint8_t *)(h + 1) + h->size, &CANARY, 8)) return "heap block overrun";
    }
  return 0;
}

// ---------------------------------------------------------------- finish
// Server threads are created for real (own stack, own thread-local storage)
// but their kernel threads stay parked for ever; their contexts are switched
// here, on the exploring thread, by swapping stack and fs base.  That is what
// makes the initialised server forkable with all its threads.
static uint64_t main_sp, main_fs;
static int have_fsgs;
__attribute__((naked, noinline)) static void ctx_switch(uint64_t *save, uint64_t load, uint64_t fs, int fsgs) {
  __asm__ volatile(
      "push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n"
      "mov %rsp, (%rdi)\n"
      "mov %rsi, %rsp\n"
      "test %ecx, %ecx\n je 1f\n"
      "wrfsbase %rdx\n jmp 2f\n"
      "1: mov $158, %eax\n mov $0x1002, %edi\n mov %rdx, %rsi\n syscall\n"
      "2: pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");
}
static uint64_t get_fs(void) { uint64_t v; __asm__("mov %%fs:0, %0" : "=r"(v)); return v; }
static int g_runner, need_seed;
#define ACCIDX 16384
static struct { uint64_t addr; uint64_t cls; uint32_t rm, wm; uint8_t shared; uint64_t ver; } ACC[ACCIDX];
static uint16_t acc_idx[ACCIDX]; static int acc_n = 1; // slot 0 unused

// The name of an address that is the same in every execution: blocks allocated
// under control go by their owner, size and offset.
static uint64_t addr_class(uint64_t x) {
  if (x < ARENA_BASE || x >= ARENA_BASE + BLKARENA * ARENA_SIZE) return x;
  int a = (int)((x - ARENA_BASE) / ARENA_SIZE);
  if (!blkbase[a] || x < blkbase[a]) return x;
  uint64_t k = (x - blkbase[a]) >> 4;
  if (k >= BLKWORDS * 64ull) return x;
  int64_t w = (int64_t)(k >> 6);
  uint64_t m = blkmap[a][w] & (~0ull >> (63 - (k & 63)));
  while (!m) { if (--w < 0) return x; m = blkmap[a][w]; }
  uint64_t p = blkbase[a] + ((((uint64_t)w << 6) + 63 - __builtin_clzll(m)) << 4);
  struct hdr *h = (struct hdr *)p - 1;
  uint64_t off = x - p;
  if (off >= h->size) return x;
  return 1ull << 63 | (uint64_t)a << 56 | (h->size & 0xffffffff) << 20 | (off & 0xfffff);
}
static int in_shset(uint64_t a) {
  if (!shset) return 0;
  uint64_t i = mix(a, 1) & shset_mask;
  while (shset[i]) { if (shset[i] == a) return 1; i = (i + 1) & shset_mask; }
  return 0;
}
static uint64_t fp_all(void) {
  uint64_t h = 0x1234567;
  for (int i = 0; i < nthr; i++) h = mix(h, mix(T[i].hist, T[i].state));
  h = mix(h, env_hist); h = mix(h, vnow);
  for (int i = 0; i < MAXCONN && i < (int)R->nconn; i++) h = mix(h, C[i].ver);
  for (int i = 0; i < fd_hi; i++) if (FD[i].kind) h = mix(h, FD[i].ver);
  return h;
}
static void finish(int st) __attribute__((noreturn));
static void finish(int st) {
  R->now = vnow; R->steps = g_step;
  for (uint32_t i = 0; i < SC->nactors; i++) R->apos[i] = A[i].pos;
  for (int i = 0; i < nthr; i++) R->thr_state[i] = T[i].state;
  R->open_fds = 0;
  for (int i = 0; i < fd_hi; i++) if (FD[i].kind == F_STREAM) R->open_fds++;
  R->final_fp = fp_all();
  uint32_t n = 0;
  for (int i = 1; i < acc_n; i++) {
    if (__builtin_popcount(ACC[i].rm | ACC[i].wm) >= 2 && ACC[i].wm && !in_shset(ACC[i].cls) && n < NEWADDR)
      R->newaddr[n++] = ACC[i].cls;
  }
  R->nnew = n;
  if (st == ST_DONE) {
    const char *m = heap_check();
    if (m) { st = ST_HEAP; strcpy(R->msg, m); }
  }
  R->status = st;
  if (g_runner) { uint64_t dummy; g_ctl = 0; ctx_switch(&dummy, main_sp, main_fs, have_fsgs); }
  rsys(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
static void die(int st, const char *m) {
  if (!g_ctl) { rsys(SYS_write, 2, (long)m, strlen(m), 0, 0, 0); rsys(SYS_write, 2, (long)"\n", 1, 0, 0, 0); abort(); }
  snprintf(R->msg, sizeof R->msg, "%s", m);
  finish(st);
}
static void logev(int kind, int a, uint32_t b, uint32_t c) {
  g_step++;
  if (R->nlog >= MAXLOG) { if (!R->log_overflow) { R->log_overflow = 1; die(ST_LIMIT, "log full"); } return; }
  // work without an end which gets nowhere: nothing comes in, goes out, or ends
  static uint32_t progress;
  if (R->nlog < progress) progress = 0;
  if (!(kind == L_IDLE || (kind == L_RX && (!b || b >> 31)) || (kind == L_TX && !c))) progress = R->nlog;
  if (R->nlog - progress > 50000) die(ST_HANG, "the server works without an end");
  struct logent *e = &R->log[R->nlog++];
  e->step = g_step; e->kind = kind; e->a = a; e->b = b; e->c = c;
}

// ---------------------------------------------------------------- choices
// Note the present state; 1 if it was seen before.
static int visit(uint64_t tag) {
  uint64_t h = mix(fp_all(), tag);
  for (int b = 0; b < NBUD; b++) h = mix(h, bleft[b]);
  for (uint32_t j = 0; j < SC->nactors; j++) h = mix(h, ((uint64_t)A[j].pos << 32) | A[j].off);
  if (!h) h = 1;
  uint64_t x = h & visited_mask; int probes = 0;
  for (;;) {
    uint64_t v = visited[x];
    if (v == h) return 1;
    if (!v) {
      if (__sync_bool_compare_and_swap(&visited[x], 0, h)) { R->new_states++; return 0; }
      continue;
    }
    x = (x + 1) & visited_mask;
    if (++probes > 4096) return 0;
  }
}
static int choose(int tag, int n, const uint8_t *cost) {
  int map[64], k = 0;
  for (int i = 0; i < n && k < 64; i++)
    if (!cost || cost[i] == 0xff || bleft[cost[i]] > 0) map[k++] = i;
  if (k == 0) die(ST_INTERNAL, "no option");
  int c = 0;
  if (k > 1) {
    uint32_t i = R->nchoice;
    if (i >= MAXCHOICE) die(ST_LIMIT, "too many choices");
    if (i < S->prefix_len) {
      c = S->prefix[i];
      if (c >= k) die(ST_DIVERGED, "replay diverged");
    } else if (SC->stateful && !S->no_prune) {
      if (visit(mix(tag * 131 + cur, k))) finish(ST_PRUNED);
    } else if (i >= S->prefix_len) R->new_states++;
    R->choice[i] = c; R->nopts[i] = k; R->nchoice = i + 1;
  }
  if (R->nchoice > S->prefix_len || (k <= 1 && R->nchoice >= S->prefix_len)) R->transitions++;
  int o = map[c];
  if (cost && cost[o] != 0xff) bleft[cost[o]]--;
  return o;
}

// ---------------------------------------------------------------- client side
// What the order of past events contributes to a state, see struct scenario.
static void env_note(uint64_t x) { if (SC->order >= 2) env_hist = mix(env_hist, x); }
static uint64_t env_act(uint64_t x) {
  if (SC->order == 0) { env_hist += x; return x; }
  env_hist = mix(env_hist, x);
  if (SC->order == 1)
    for (uint32_t c = 0; c < R->nconn; c++) env_hist = mix(env_hist, ((uint64_t)R->conn[c].replies << 2) | R->conn[c].srv_closed * 2 | R->conn[c].srv_shut);
  return env_hist;
}
static void reply_scan(int c) {
  struct connres *r = &R->conn[c];
  uint8_t *o = outbuf + (uint64_t)c * SC->outcap;
  struct conn *k = &C[c];
  uint32_t lim = r->outlen < SC->outcap ? r->outlen : SC->outcap;
  if (r->badreply) return;
  for (;;) {
    if (k->scan >= lim) return;
    uint32_t p = k->scan, e = p;
    while (e + 1 < lim && !(o[e] == '\r' && o[e + 1] == '\n')) e++;
    if (e + 1 >= lim) return;
    int64_t v = 0; int neg = 0, bad = 0;
    uint8_t t = o[p];
    if (t == '$' || t == '*' || t == '%') {
      uint32_t q = p + 1;
      if (q < e && o[q] == '-') { neg = 1; q++; }
      if (q == e) bad = 1;
      for (; q < e; q++) { if (o[q] < '0' || o[q] > '9' || v > 1000000000) { bad = 1; break; } v = v * 10 + (o[q] - '0'); }
    }
    if (k->pend == 0) k->pend = 1;
    if (bad) { r->badreply = 1; return; }
    switch (t) {
      case '+': case '-': case ':': case '_': k->pend--; k->scan = e + 2; break;
      case '$':
        if (neg) { k->pend--; k->scan = e + 2; break; }
        if ((uint64_t)e + 2 + v + 2 > lim) return;
        k->scan = e + 2 + v + 2; k->pend--; break;
      case '*': k->scan = e + 2; k->pend += (neg ? 0 : v) - 1; break;
      case '%': k->scan = e + 2; k->pend += 2 * v - 1; break;
      default: r->badreply = 1; return;
    }
    if (k->pend == 0) { logev(L_REPLY, c, r->replies, k->scan); r->replies++; env_note(77 + c); }
  }
}
static int act_enabled(int i) {
  struct actor *a = &A[i];
  if (a->pos >= SC->nsteps[i]) return 0;
  struct action *x = &SC->act[i][a->pos];
  switch (x->kind) {
    case A_END: return 0;
    case A_CONNECT: return lst_of_thr[x->arg] >= 0;
    case A_WAIT_REPLIES: return R->conn[x->conn].replies >= x->arg || R->conn[x->conn].badreply || R->conn[x->conn].srv_closed || R->conn[x->conn].srv_shut;
    case A_WAIT_EOF: return R->conn[x->conn].srv_closed || R->conn[x->conn].srv_shut;
    case A_START: return T[x->arg].state == T_HOLD;
    case A_WAIT_ACTOR: return A[x->arg].pos >= x->arg2;
    default: return 1;
  }
}
static void act_do(int i) {
  struct actor *a = &A[i];
  struct action *x = &SC->act[i][a->pos];
  struct conn *c = &C[x->conn]; struct connres *r = &R->conn[x->conn];
  uint32_t n = 0;
  uint64_t ev = env_act(mix(((uint64_t)i << 40) ^ ((uint64_t)a->pos << 20) ^ a->off, 5));
  switch (x->kind) {
    case A_CONNECT: {
      struct fdent *l = &FD[lst_of_thr[x->arg]];
      if (x->conn >= R->nconn) R->nconn = x->conn + 1;
      c->fd = -1; c->rxpos = c->rxlim = 0; c->txspace = 1ull << 40; c->lst = x->arg;
      r->connected = 1; r->fd = -1;
      l->accq[l->accn++] = x->conn;
      l->ver = mix(l->ver, ev);
      break;
    }
    case A_SEND: {
      uint32_t left = x->len - a->off;
      n = left;
      if ((x->flags & 1) && left > 1 && bleft[B_SPLIT]) {
        uint8_t cost[64]; int m = 1; cost[0] = 0xff;
        uint32_t pos[64]; pos[0] = left;
        uint32_t start = 0;
        // positions are offered in pages of 60, one binary page choice each
        for (;;) {
          m = 1; pos[0] = left;
          uint32_t p;
          for (p = start + 1; p < left && m < 62; p++) { pos[m] = p; cost[m++] = B_SPLIT; }
          int more = p < left;
          if (more) { pos[m] = 0; cost[m++] = 0xff; }
          int o = choose(0x50, m, cost);
          if (more && o == m - 1) { start = p - 1; continue; }
          n = pos[o];
          break;
        }
      }
      if (c->rxpos == c->rxlim) { c->rxpos = c->rxlim = x->off + a->off; }
      c->rxlim = x->off + a->off + n;
      r->rx_sent += n;
      c->ver = mix(c->ver, mix(ev, n));
      if (n < left) { a->off += n; logev(L_ACT, i, a->pos, n); return; }
      break;
    }
    case A_HALF_CLOSE: c->eof = 1; r->cl_half = 1; c->ver = mix(c->ver, ev); break;
    case A_CLOSE: c->eof = 1; c->dead = 1; r->cl_closed = 1; c->ver = mix(c->ver, ev); break;
    case A_RST: c->rst = 1; r->cl_rst = 1; c->ver = mix(c->ver, ev); break;
    case A_ADVANCE: vnow += x->arg; logev(L_TIME, i, (uint32_t)(vnow / 1000), (uint32_t)(vnow / 1000 >> 32)); break;
    case A_PAUSE_READ: c->txspace = x->arg; c->ver = mix(c->ver, ev); break;
    case A_RESUME_READ: c->txspace = 1ull << 40; c->ver = mix(c->ver, ev); break;
    case A_START: T[x->arg].state = T_RUN; T[x->arg].hist = mix(T[x->arg].hist, ev); break;
    case A_MARK: {
      int n = 0;
      for (int k = 0; k < fd_hi; k++) n += FD[k].kind == F_STREAM;
      logev(L_MARK, n, (uint32_t)g_blocks, (uint32_t)g_bytes);
      break;
    }
    default: break;
  }
  logev(L_ACT, i, a->pos, n);
  a->pos++; a->off = 0;
  if ((x->flags & 2) && act_enabled(i)) act_do(i);
}

// Waits are guards without an effect: passed as soon as they hold.
static void act_waits(void) {
  for (int again = 1; again;) {
    again = 0;
    for (uint32_t i = 0; i < SC->nactors; i++) {
      struct actor *a = &A[i];
      while (a->pos < SC->nsteps[i]) {
        int k = SC->act[i][a->pos].kind;
        if (k != A_WAIT_REPLIES && k != A_WAIT_EOF && k != A_WAIT_ACTOR) break;
        if (!act_enabled(i)) break;
        logev(L_ACT, i, a->pos, 0);
        a->pos++; a->off = 0; again = 1;
      }
    }
  }
}
// ---------------------------------------------------------------- readiness
static int op_ready(struct op *o) {
  if (o->cancelled) return 1;
  if (o->code == 11) return vnow >= o->deadline;
  if (o->code == 14 || o->code == 19 || o->code == 0 || o->code == 34) return 1;
  struct fdent *f = (o->fd >= 0 && o->fd < MAXFD) ? &FD[o->fd] : 0;
  if (!f || !f->kind) return 1;
  if (f->kind == F_EVENT) return f->counter > 0;
  if (f->kind == F_LISTEN) return f->accn > 0;
  if (f->kind == F_STREAM) {
    struct conn *c = &C[f->conn];
    switch (o->code) {
      case 27: case 22: case 1: case 10: return c->rxpos < c->rxlim || c->eof || c->rst;
      case 6: return (o->opf & 4) ? 1 : (c->rxpos < c->rxlim || c->eof || c->rst);
      case 26: case 23: case 2: case 9: return c->rst || c->dead || c->txspace > 0;
    }
  }
  return 1;
}
static int ring_ready(int ring) {
  struct fdent *f = &FD[ring];
  uint32_t *cqh = (uint32_t *)(f->mem + 64), *cqt = (uint32_t *)(f->mem + 68);
  if (*cqh != *cqt) return 1;
  for (int i = 0; i < f->nops; i++) if (op_ready(&f->ops[i])) return 1;
  return 0;
}
static int thr_runnable(int t) {
  switch (T[t].state) {
    case T_RUN: case T_YIELD: return 1;
    case T_ENTER: return ring_ready(T[t].ring) || (T[t].deadline && vnow >= T[t].deadline);
    case T_FUTEX: return T[t].fwoken || (T[t].deadline && vnow >= T[t].deadline);
    case T_SLEEP: return vnow >= T[t].deadline;
  }
  return 0;
}
static uint64_t next_deadline(void) {
  uint64_t d = 0;
  for (int i = 0; i < nthr; i++)
    if (T[i].deadline && T[i].state != T_RUN && T[i].state != T_DONE && (!d || T[i].deadline < d)) d = T[i].deadline;
  for (int i = 0; i < fd_hi; i++)
    if (FD[i].kind == F_RING)
      for (int j = 0; j < FD[i].nops; j++)
        if (FD[i].ops[j].code == 11 && (!d || FD[i].ops[j].deadline < d)) d = FD[i].ops[j].deadline;
  return d;
}

// ---------------------------------------------------------------- scheduler
static void handoff(int n) {
  int me = mytid;
  if (n == me) { cur = me; return; }
  cur = n;
  if (me >= 0) { T[me].spin = 0; ctx_switch(&T[me].sp, T[n].sp, T[n].fs, have_fsgs); }
  else ctx_switch(&main_sp, T[n].sp, T[n].fs, have_fsgs);
}
static void begin_seed(void) {
  need_seed = 0; g_seed = 1;
  if (SC->nseeds > 1) { uint8_t cost[64]; memset(cost, 0xff, 64); g_seed = 1 + choose(0x01, SC->nseeds, cost); }
  env_hist = mix(g_seed, S->salt);
  rng_state = g_seed * 0x1234567;
}
// pick who runs next.  The caller has set its own state.
static void sched(int tag, int allow_act) {
  int me = mytid;
  if (UNLIKELY(need_seed) && g_phase == 1) begin_seed();
  for (;;) {
    if (g_phase == 0) {
      int n = -1;
      if (me >= 0 && thr_runnable(me) && T[me].state != T_YIELD) n = me;
      for (int k = 0; n < 0 && k < nthr; k++) { int t = (me + 1 + k) % nthr; if (t >= 0 && thr_runnable(t)) n = t; }
      if (n < 0) { ctx_switch(me >= 0 ? &T[me].sp : &main_sp, main_sp, main_fs, have_fsgs); if (need_seed) begin_seed(); continue; } // back to the explorer until phase 1
      handoff(n); return;
    }
    int opt[MAXTHR + MAXACT]; uint8_t cost[MAXTHR + MAXACT]; int n = 0, run = 0;
    int me_ok = me >= 0 && thr_runnable(me);
    int me_cont = me_ok && T[me].state == T_RUN;
    if (me_cont) { opt[n] = me; cost[n++] = 0xff; run++; }
    for (int k = 0; k < nthr; k++) {
      int t = ((me < 0 ? 0 : me + 1) + k) % nthr;
      if (t == me) continue;
      if (!thr_runnable(t)) continue;
      opt[n] = t; cost[n++] = me_cont ? B_PREEMPT : (run && !SC->free_threads) ? B_PREEMPT : 0xff; run++;
    }
    if (me_ok && !me_cont) {
      if (T[me].state == T_YIELD) { if (!run) { opt[n] = me; cost[n++] = 0xff; run++; } }
      else { opt[n] = me; cost[n++] = (run && !SC->free_threads) ? B_PREEMPT : 0xff; run++; }
    }
    if (allow_act || !run) act_waits();
    if (allow_act || !run)
      for (uint32_t i = 0; i < SC->nactors; i++)
        if (act_enabled(i)) { opt[n] = 100 + i; cost[n++] = run ? B_EARLY : 0xff; }
    if (n == 0) {
      uint64_t d = next_deadline();
      if (d && ifac_auto_time < 200 + 2 * (int)SC->storm) { ifac_auto_time++; if (d > vnow) vnow = d; logev(L_TIME, 999, (uint32_t)(vnow / 1000), (uint32_t)(vnow / 1000 >> 32)); continue; }
      finish(ST_DONE);
    }
    int o = opt[n == 1 ? 0 : choose(tag, n, cost)];
    if (o >= 100) {
      if (n == 1 && R->nchoice >= S->prefix_len && !S->no_prune) { visit(0xac7); R->transitions++; }
      act_do(o - 100); continue;
    }
    handoff(o); return;
  }
}

// ---------------------------------------------------------------- atomics
static inline __attribute__((always_inline)) int tracked(void) { return UNLIKELY(g_ctl) && mytid >= 0 && g_phase == 1; }
// nothing was and nothing will be chosen: the run is the only one
static int only_run(void) {
  if (R->nchoice) return 0;
  for (int b = 0; b < NBUD; b++) if (SC->budget[b]) return 0;
  return 1;
}
static int acc_slot(uint64_t a) {
  uint64_t h = mix(a, 7) & (ACCIDX - 1);
  int i;
  while ((i = acc_idx[h]) && ACC[i].addr != a) h = (h + 1) & (ACCIDX - 1);
  if (!i) {
    // tearing down a whole table: only what threads share matters then
    if (acc_n >= ACCIDX * 3 / 4) { if (in_shset(addr_class(a)) && !only_run()) die(ST_LIMIT, "too many atomics"); return 0; }
    i = acc_idx[h] = acc_n++;
    ACC[i].addr = a; ACC[i].cls = addr_class(a); ACC[i].shared = in_shset(ACC[i].cls);
  }
  return (int)i;
}
static __attribute__((noinline)) int at_pre(uint64_t a, int maybe_write) {
  int i = acc_slot(a);
  if (UNLIKELY(!i)) return 0;
  uint32_t bit = 1u << mytid;
  if (!ACC[i].shared && __builtin_popcount(ACC[i].rm | ACC[i].wm | bit) >= 2 && (ACC[i].wm || maybe_write)) ACC[i].shared = 2;
  if (ACC[i].shared) {
    R->shared_ops++;
    struct thr *t = &T[mytid];
    if (nthr > 1) {
      if (++t->spin > 3000) { t->state = T_YIELD; t->spin = 0; sched(0x11, 0); t->state = T_RUN; }
      else { t->state = T_RUN; if (bleft[B_PREEMPT]) sched(0x10, 0); }
    }
  }
  return i;
}
static __attribute__((noinline)) void at_post(int i, int wrote, int op) {
  if (UNLIKELY(!i)) return;
  uint32_t bit = 1u << mytid;
  struct thr *t = &T[mytid];
  if (ACC[i].shared) {
    t->hist = mix(t->hist, mix(ACC[i].addr + op, ACC[i].ver));
    if (wrote) ACC[i].ver = t->hist;
  } else if (wrote) ACC[i].ver = mix(t->hist, ACC[i].ver + 1);
  if (wrote) ACC[i].wm |= bit; else ACC[i].rm |= bit;
}

typedef __int128 i128;
#define ATOMICS(N, TY) \
  TY __tsan_atomic##N##_load(const volatile TY *a, int mo) { \
    if (tracked()) { int i = at_pre((uint64_t)a, 0); TY r = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_post(i, 0, 1); return r; } \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile TY *a, TY v, int mo) { \
    if (tracked()) { int i = at_pre((uint64_t)a, 1); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); at_post(i, 1, 2); return; } \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) { \
    if (tracked()) { int i = at_pre((uint64_t)a, 1); int ok = __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_post(i, ok, 3); return c; } \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) { \
    TY o = *c; TY r = __tsan_atomic##N##_compare_exchange_val(a, o, v, mo, fmo); *c = r; return r == o; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) { \
    return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); }
#define RMW(N, TY, NAME, BUILTIN) \
  TY __tsan_atomic##N##_##NAME(volatile TY *a, TY v, int mo) { \
    if (tracked()) { int i = at_pre((uint64_t)a, 1); TY r = BUILTIN(a, v, __ATOMIC_SEQ_CST); at_post(i, 1, 4); return r; } \
    return BUILTIN(a, v, __ATOMIC_SEQ_CST); }
#define ALLRMW(N, TY) \
  RMW(N, TY, exchange, __atomic_exchange_n) RMW(N, TY, fetch_add, __atomic_fetch_add) RMW(N, TY, fetch_sub, __atomic_fetch_sub) \
  RMW(N, TY, fetch_and, __atomic_fetch_and) RMW(N, TY, fetch_or, __atomic_fetch_or) RMW(N, TY, fetch_xor, __atomic_fetch_xor) \
  RMW(N, TY, fetch_nand, __atomic_fetch_nand)
ATOMICS(8, uint8_t) ALLRMW(8, uint8_t)
ATOMICS(16, uint16_t) ALLRMW(16, uint16_t)
ATOMICS(32, uint32_t) ALLRMW(32, uint32_t)
ATOMICS(64, uint64_t) ALLRMW(64, uint64_t)
// 128-bit: executions are serialised, outside control no 128-bit atomics are
// used concurrently by the server.
i128 __tsan_atomic128_load(const volatile i128 *a, int mo) { return *a; }
void __tsan_atomic128_store(volatile i128 *a, i128 v, int mo) { *a = v; }
i128 __tsan_atomic128_compare_exchange_val(volatile i128 *a, i128 c, i128 v, int mo, int f) { i128 o = *a; if (o == c) *a = v; return o; }
i128 __tsan_atomic128_exchange(volatile i128 *a, i128 v, int mo) { i128 o = *a; *a = v; return o; }
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) {}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) {}
void __tsan_vptr_read(void **p) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }

// ---------------------------------------------------------------- fds
static int fd_alloc(int kind) {
  for (int i = 0; i < MAXFD; i++)
    if (!FD[i].kind) {
      memset(&FD[i], 0, sizeof FD[i]);
      FD[i].kind = kind; FD[i].owner = mytid; FD[i].conn = -1;
      if (i >= fd_hi) fd_hi = i + 1;
      return i;
    }
  return -1;
}
static struct fdent *fget(int fd) {
  if (!g_ctl || fd < FDBASE || fd >= FDBASE + MAXFD) return 0;
  struct fdent *f = &FD[fd - FDBASE];
  return f->kind ? f : 0;
}
static void merge(uint64_t *ver, uint64_t v) {
  if (mytid < 0) return;
  T[mytid].hist = mix(T[mytid].hist, mix(*ver, v)); *ver = T[mytid].hist;
}
static int fd_close(int i) {
  struct fdent *f = &FD[i];
  if (f->kind == F_STREAM) {
    logev(L_SRVCLOSE, f->conn, 0, 0);
    R->conn[f->conn].srv_closed = 1; env_note(99 + f->conn);
    merge(&C[f->conn].ver, 0xc105e);
    C[f->conn].fd = -1;
  }
  if (f->kind == F_LISTEN && mytid >= 0 && lst_of_thr[mytid] == i) lst_of_thr[mytid] = -1;
  f->kind = F_FREE;
  return 0;
}
static void mkaddr(struct sockaddr_storage *ss, socklen_t *l, uint32_t ip, int port) {
  memset(ss, 0, sizeof *ss);
  struct sockaddr_in *a = (void *)ss;
  a->sin_family = AF_INET; a->sin_port = htons(port); a->sin_addr.s_addr = htonl(ip);
  *l = sizeof *a;
}
static void mkaddr6(struct sockaddr_storage *ss, socklen_t *l, int last, int port) {
  memset(ss, 0, sizeof *ss);
  struct sockaddr_in6 *a = (void *)ss;
  a->sin6_family = AF_INET6; a->sin6_port = htons(port); a->sin6_addr.s6_addr[15] = last;
  *l = sizeof *a;
}
static void client_addr(int conn, int fam6, struct sockaddr_storage *ss, socklen_t *l) {
  if (fam6) mkaddr6(ss, l, 1 + conn % 2, 40000 + conn / 2); else mkaddr(ss, l, 0x7f000001 + conn % 2, 40000 + conn / 2);
}
// the address the server was reached at, one of those it listens on
static void reached_addr(int conn, struct sockaddr_storage *ss, socklen_t *l) {
  struct sockaddr_in *a = (void *)ss;
  struct sockaddr_in6 *b = (void *)ss;
  if (a->sin_family == AF_INET && a->sin_addr.s_addr == 0) mkaddr(ss, l, 0x7f000001 + conn / 2 % 2, ntohs(a->sin_port));
  if (b->sin6_family == AF_INET6 && !memcmp(&b->sin6_addr, &in6addr_any, 16)) mkaddr6(ss, l, 1 + conn / 2 % 2, ntohs(b->sin6_port));
}

// ---------------------------------------------------------------- io_uring
static int pick_fault(int what_mask, const int *errs, int n) {
  // 0 = no fault, else index+1
  if (!bleft[B_FAULT] || !(SC->fault_mask & what_mask)) return 0;
  uint8_t cost[16]; cost[0] = 0xff;
  if (!(SC->fault_mask & F_ERRNOS) && n > 1 && what_mask != 3) n = 1;
  for (int i = 0; i < n; i++) cost[i + 1] = B_FAULT;
  int e = choose(0x60 + 256 * what_mask, n + 1, cost);
  T[mytid].hist = mix(T[mytid].hist, 0xFA00 + what_mask); // asked once more
  return e ? errs[e - 1] : 0;
}
// the errno every such call of this connection fails with, or 0
static int ever(int what, int conn) { return (SC->ever & what) && conn >= (int)SC->ever_from ? (int)SC->ever_errno : 0; }
static const int ACC_ERRS[] = {EMFILE, ECONNABORTED, ENFILE, ENOBUFS, ENOMEM, EPROTO, EINTR, EPERM, ENETDOWN, ETIMEDOUT};
static const int RECV_ERRS[] = {ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENOMEM, ENOBUFS, EINTR, EIO};
static const int SEND_ERRS[] = {EPIPE, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENOMEM, ENOBUFS, EINTR, EIO};
// the kernel is short of memory for now: the connection itself is fine
static int fault_passes(int e) { return e == ENOMEM || e == ENOBUFS || e == EINTR; }
static long do_recv(struct fdent *f, uint8_t *buf, uint64_t len) {
  struct conn *c = &C[f->conn]; struct connres *r = &R->conn[f->conn];
  if ((SC->fault_mask | SC->ever) & 4) {
    int e = ever(4, f->conn);
    if (!e) e = pick_fault(4, RECV_ERRS, sizeof RECV_ERRS / sizeof(int));
    if (e) {
      logev(L_FAULT, f->conn, 4, e);
      if (fault_passes(e)) { merge(&c->ver, 0x2200 + e); return -e; }
      c->rst = 1; c->rxpos = c->rxlim; r->cl_rst = 1;
      if (e != ECONNRESET) { merge(&c->ver, 0x2100 + e); return -e; }
    }
  }
  if (c->rxpos < c->rxlim) {
    uint64_t n = c->rxlim - c->rxpos; if (n > len) n = len;
    memcpy(buf, blob + c->rxpos, n);
    c->rxpos += n; r->rx_taken += n;
    merge(&c->ver, 0x1000 + n);
    logev(L_RX, f->conn, (uint32_t)n, 0);
    return (long)n;
  }
  if (c->rst && !c->rst_reported) { c->rst_reported = 1; merge(&c->ver, 0x2000); logev(L_RX, f->conn, 0x80000000u | ECONNRESET, 0); return -ECONNRESET; }
  merge(&c->ver, 0x3000); logev(L_RX, f->conn, 0, 0);
  return 0;
}
static long do_send(struct fdent *f, const uint8_t *buf, uint64_t len) {
  struct conn *c = &C[f->conn]; struct connres *r = &R->conn[f->conn];
  if ((SC->fault_mask | SC->ever) & 8) {
    int e = ever(8, f->conn);
    if (!e) e = pick_fault(8, SEND_ERRS, sizeof SEND_ERRS / sizeof(int));
    if (e) {
      logev(L_FAULT, f->conn, 8, e);
      if (fault_passes(e)) { merge(&c->ver, 0x5200 + e); return -e; }
      c->rst = 1; r->cl_rst = 1;
      if (e != EPIPE) { merge(&c->ver, 0x5100 + e); return -e; }
    }
  }
  if (r->srv_shut) { merge(&c->ver, 0x5001); return -EPIPE; }
  if (c->rst) { merge(&c->ver, 0x5000); c->rst_reported = 1; return -EPIPE; }
  if (c->dead) { c->rst = 1; merge(&c->ver, 0x5002); return (long)len; }
  uint64_t n = len;
  if (n > c->txspace) n = c->txspace;
  if (n > 1 && bleft[B_SHORT]) {
    uint64_t cand[4] = {n, 1, n / 2, n - 1}; uint8_t cost[4] = {0xff, B_SHORT, B_SHORT, B_SHORT};
    int m = 1;
    for (int i = 1; i < 4; i++) { int dup = cand[i] < 1; for (int j = 0; j < m; j++) dup |= cand[j] == cand[i]; if (!dup) cand[m++] = cand[i]; }
    n = cand[choose(0x61, m, cost)];
  }
  uint64_t keep = n;
  if (r->outlen >= SC->outcap) keep = 0; else if (keep > SC->outcap - r->outlen) keep = SC->outcap - r->outlen;
  memcpy(outbuf + (uint64_t)f->conn * SC->outcap + r->outlen, buf, keep);
  logev(L_TX, f->conn, r->outlen, (uint32_t)n);
  r->outlen += n;
  if (c->txspace < (1ull << 39)) c->txspace -= n;
  merge(&c->ver, 0x4000 + n);
  if (n) reply_scan(f->conn);
  return (long)n;
}
static long op_exec(struct fdent *ring, struct op *o) {
  (void)ring;
  if (o->cancelled) return -ECANCELED;
  if (o->code == 0) return 0;
  if (o->code == 11) return -ETIME;
  if (o->code == 14) return (long)(int)o->len; // cancel result precomputed
  struct fdent *f = (o->fd >= 0 && o->fd < MAXFD && FD[o->fd].kind) ? &FD[o->fd] : 0;
  if (!f) return -EBADF;
  switch (o->code) {
    case 19: return fd_close(o->fd);
    case 34:
      if (f->kind != F_STREAM) return -ENOTCONN;
      if (o->len >= 1) { R->conn[f->conn].srv_shut = 1; env_note(199 + f->conn); logev(L_SHUT, f->conn, 0, 0); }
      merge(&C[f->conn].ver, 0x7000);
      return 0;
    case 6: merge(f->kind == F_STREAM ? &C[f->conn].ver : &f->ver, 0x8000); return o->opf;
    case 13: {
      if (f->kind != F_LISTEN) return -EINVAL;
      if (g_storm < SC->storm) { g_storm++; logev(L_FAULT, 0, 1, SC->storm_errno); merge(&f->ver, 0xE000 + SC->storm_errno); return -(int)SC->storm_errno; }
      if (ever(1, f->accq[0]) && !C[f->accq[0]].refused) { int e = ever(1, f->accq[0]); C[f->accq[0]].refused = 1; logev(L_FAULT, 0, 1, e); merge(&f->ver, 0xE000 + e); return -e; }
      if (SC->fault_mask & 3) {
        int e = pick_fault(3, ACC_ERRS, SC->fault_mask & F_ERRNOS ? (int)(sizeof ACC_ERRS / sizeof(int)) : 2);
        if (e) { logev(L_FAULT, 0, 1, e); merge(&f->ver, 0xE000 + e); return -e; }
      }
      int c = f->accq[0];
      f->accn--; memmove(f->accq, f->accq + 1, sizeof(int) * f->accn);
      merge(&f->ver, 0xACC);
      int fam6 = f->fam6; struct sockaddr_storage la = f->laddr; socklen_t lal = f->laddrlen;
      int i = fd_alloc(F_STREAM);
      if (i < 0) return -EMFILE;
      reached_addr(c, &la, &lal);
      FD[i].conn = c; FD[i].laddr = la; FD[i].laddrlen = lal; FD[i].fam6 = fam6;
      C[c].fd = i;
      R->conn[c].accepted = 1; R->conn[c].fd = i + FDBASE; R->conn[c].thr = mytid;
      merge(&C[c].ver, 0xACC);
      logev(L_ACCEPT, c, i + FDBASE, mytid);
      if (o->addr) {
        struct sockaddr_storage ss; socklen_t l; client_addr(c, fam6, &ss, &l);
        socklen_t *pl = (socklen_t *)o->off;
        if (pl) { socklen_t cap = *pl; memcpy((void *)o->addr, &ss, l < cap ? l : cap); *pl = l; }
      }
      return i + FDBASE;
    }
    case 27: return f->kind == F_STREAM ? do_recv(f, (void *)o->addr, o->len) : -ENOTSOCK;
    case 22:
      if (f->kind == F_EVENT) { uint64_t v = f->counter; f->counter = 0; merge(&f->ver, 1); memcpy((void *)o->addr, &v, 8); return 8; }
      return f->kind == F_STREAM ? do_recv(f, (void *)o->addr, o->len) : -EINVAL;
    case 26: case 23: return f->kind == F_STREAM ? do_send(f, (void *)o->addr, o->len) : -EINVAL;
    case 1: {
      struct iovec *v = (void *)o->addr;
      for (uint32_t i = 0; i < o->len; i++) if (v[i].iov_len) return do_recv(f, v[i].iov_base, v[i].iov_len);
      return 0;
    }
    case 2: {
      struct iovec *v = (void *)o->addr; uint64_t tot = 0;
      for (uint32_t i = 0; i < o->len; i++) tot += v[i].iov_len;
      uint8_t *tmp = (uint8_t *)rsys(SYS_mmap, 0, tot + 4096, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      uint64_t p = 0;
      for (uint32_t i = 0; i < o->len; i++) { memcpy(tmp + p, v[i].iov_base, v[i].iov_len); p += v[i].iov_len; }
      long r = do_send(f, tmp, tot);
      rsys(SYS_munmap, (long)tmp, tot + 4096, 0, 0, 0, 0);
      return r;
    }
  }
  snprintf(R->msg, sizeof R->msg, "io_uring opcode %d is not modelled", o->code);
  finish(ST_BADOP);
}
static void cq_push(struct fdent *f, uint64_t ud, int32_t res) {
  uint32_t *t = (uint32_t *)(f->mem + 68);
  uint8_t *cqes = f->mem + 128;
  uint32_t i = *t & (f->cq_n - 1);
  memcpy(cqes + 16 * i, &ud, 8); memcpy(cqes + 16 * i + 8, &res, 4); memset(cqes + 16 * i + 12, 0, 4);
  __atomic_store_n(t, *t + 1, __ATOMIC_SEQ_CST);
}
static void complete(struct fdent *f, int k) {
  struct op o = f->ops[k];
  f->nops--; memmove(&f->ops[k], &f->ops[k + 1], sizeof(struct op) * (f->nops - k));
  long r = op_exec(f, &o);
  cq_push(f, o.ud, (int32_t)r);
}
// Mapped ahead of time, so that threads may start while exploring.
static uint8_t *ringpool; static size_t ringpool_len, ringpool_at;
static void *ring_mem(size_t n) {
  n = (n + 4095) & ~4095ull;
  if (ringpool_at + n > ringpool_len) return (void *)rsys(SYS_mmap, 0, n, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void *p = ringpool + ringpool_at; ringpool_at += n;
  return p;
}
static long sim_setup(uint32_t entries, uint8_t *p) {
  int i = fd_alloc(F_RING);
  struct fdent *f = &FD[i];
  uint32_t n = 1; while (n < entries) n <<= 1;
  f->sq_n = n; f->cq_n = 2 * n;
  uint32_t cqes = 128, arr = 128 + 16 * f->cq_n;
  f->memlen = arr + 4 * n;
  f->mem = ring_mem(f->memlen);
  f->sqes = ring_mem(64 * n);
  f->ops = ring_mem(sizeof(struct op) * MAXOPS);
  uint32_t *m = (void *)f->mem;
  m[2] = n - 1; m[3] = n; m[18] = f->cq_n - 1; m[19] = f->cq_n;
  // struct io_uring_params
  uint32_t *q = (void *)p;
  q[0] = n; q[1] = f->cq_n; q[5] = 1 | 2 | 4 | 8 | 32 | 256; // features
  uint32_t *sqo = q + 10, *cqo = q + 20;
  sqo[0] = 0; sqo[1] = 4; sqo[2] = 8; sqo[3] = 12; sqo[4] = 16; sqo[5] = 20; sqo[6] = arr;
  cqo[0] = 64; cqo[1] = 68; cqo[2] = 72; cqo[3] = 76; cqo[4] = 80; cqo[5] = cqes; cqo[6] = 84;
  return i + FDBASE;
}
static long sim_enter(int fd, uint32_t to_submit, uint32_t minc, uint32_t flags, void *arg, size_t sz) {
  int ri = fd - FDBASE;
  struct fdent *f = &FD[ri];
  uint32_t *sqh = (uint32_t *)f->mem, *sqt = (uint32_t *)(f->mem + 4);
  uint32_t *arr = (uint32_t *)(f->mem + 128 + 16 * f->cq_n);
  uint32_t done = 0;
  while (*sqh != *sqt && done < to_submit) {
    uint8_t *e = f->sqes + 64 * arr[*sqh & (f->sq_n - 1)];
    struct op o; memset(&o, 0, sizeof o);
    o.code = e[0]; int32_t ofd; memcpy(&ofd, e + 4, 4); o.fd = ofd - FDBASE;
    memcpy(&o.off, e + 8, 8); memcpy(&o.addr, e + 16, 8); memcpy(&o.len, e + 24, 4); memcpy(&o.opf, e + 28, 4); memcpy(&o.ud, e + 32, 8);
    if (e[1] & ~0x10) { snprintf(R->msg, sizeof R->msg, "sqe flags %x not modelled", e[1]); finish(ST_BADOP); }
    (*sqh)++; done++;
    if (o.code == 11) { struct timespec ts; memcpy(&ts, (void *)o.addr, 16); o.deadline = vnow + ts.tv_sec * 1000000000ull + ts.tv_nsec; if (o.opf & 1) o.deadline -= vnow; }
    if (o.code == 14) {
      int res = -ENOENT;
      // what can complete at once has completed when the cancellation is seen
      for (int i = 0; i < f->nops; i++) if (f->ops[i].ud == o.addr && f->ops[i].code != 14 && !op_ready(&f->ops[i])) { f->ops[i].cancelled = 1; res = 0; }
      o.len = (uint32_t)res;
    }
    if (f->nops >= MAXOPS) { strcpy(R->msg, "too many pending operations"); finish(ST_LIMIT); }
    f->ops[f->nops++] = o;
  }
  struct thr *t = &T[mytid];
  int wait = (flags & 1) && minc > 0;
  t->deadline = 0; t->ring = ri;
  if (wait && (flags & 8) && arg) {
    uint64_t tsp; memcpy(&tsp, (uint8_t *)arg + 16, 8);
    if (tsp) { struct timespec ts; memcpy(&ts, (void *)tsp, 16); t->deadline = vnow + ts.tv_sec * 1000000000ull + ts.tv_nsec; if (!t->deadline) t->deadline = 1; }
  }
  t->state = wait ? T_ENTER : T_RUN;
  if (wait && g_phase == 1) logev(L_IDLE, mytid, 0, 0);
  sched(wait ? 0x20 : 0x21, 1);
  t->state = T_RUN; t->spin = 0;
  // deliver
  int rd[64], n = 0;
  for (int i = 0; i < f->nops && n < 64; i++) if (op_ready(&f->ops[i])) rd[n++] = i;
  int only = -2; // all
  int cqn = *(uint32_t *)(f->mem + 68) - *(uint32_t *)(f->mem + 64);
  if (g_phase == 1 && bleft[B_ORDER] && n > 0) {
    int opts[64]; uint8_t cost[64]; int m = 0;
    opts[m] = -2; cost[m++] = 0xff;
    if (!wait || cqn) { opts[m] = -1; cost[m++] = B_ORDER; }
    if (n >= 2) for (int i = 0; i < n && m < 60; i++) { opts[m] = i; cost[m++] = B_ORDER; }
    if (m > 1) only = opts[choose(0x30, m, cost)];
  }
  if (only == -2) {
    // operations that are ready now, in submission order
    for (int i = 0, seen = 0; i < f->nops && seen < 1000; seen++) { if (op_ready(&f->ops[i])) complete(f, i); else i++; }
  } else if (only >= 0) complete(f, rd[only]);
  int avail = *(uint32_t *)(f->mem + 68) - *(uint32_t *)(f->mem + 64);
  if (wait && !avail && t->deadline && vnow >= t->deadline) { t->deadline = 0; T[mytid].hist = mix(T[mytid].hist, vnow); if (!done) return -ETIME; return done; }
  t->deadline = 0;
  return done;
}

// ---------------------------------------------------------------- futex
static long sim_futex(uint32_t *a, int op, uint32_t val, struct timespec *ts, uint32_t *a2, uint32_t val3) {
  int cmd = op & 127;
  struct thr *t = &T[mytid];
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (*a != val) { t->hist = mix(t->hist, (uint64_t)a); return -EAGAIN; }
    t->faddr = a; t->fbits = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u; t->fwoken = 0; t->forder = forder_next++;
    t->deadline = 0;
    if (ts) {
      uint64_t d = ts->tv_sec * 1000000000ull + ts->tv_nsec;
      t->deadline = cmd == FUTEX_WAIT ? vnow + d : d;
      if (!t->deadline) t->deadline = 1;
    }
    t->state = T_FUTEX;
    sched(0x40, 1);
    t->state = T_RUN;
    long r = t->fwoken ? 0 : -ETIMEDOUT;
    t->deadline = 0; t->faddr = 0;
    t->hist = mix(t->hist, (uint64_t)a + r);
    return r;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t bits = cmd == FUTEX_WAKE_BITSET ? val3 : ~0u; long n = 0;
    while (n < (long)val) {
      int b = -1;
      for (int i = 0; i < nthr; i++)
        if (T[i].state == T_FUTEX && T[i].faddr == a && !T[i].fwoken && (T[i].fbits & bits) && (b < 0 || T[i].forder < T[b].forder)) b = i;
      if (b < 0) break;
      T[b].fwoken = 1; T[b].hist = mix(T[b].hist, t->hist); n++;
    }
    t->hist = mix(t->hist, (uint64_t)a + n);
    return n;
  }
  snprintf(R->msg, sizeof R->msg, "futex op %d is not modelled", cmd);
  finish(ST_BADOP);
}

// ---------------------------------------------------------------- libc interposition
static uint64_t rng_next(void) { rng_state += 0x9E3779B97F4A7C15ull; uint64_t z = rng_state; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static int g_realrand;
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (g_realrand) return fix(rsys(SYS_getrandom, (long)b, n, fl, 0, 0, 0));
  uint8_t *p = b; for (size_t i = 0; i < n; i++) p[i] = (uint8_t)rng_next();
  return n;
}
long sk_syscall(long n, long a, long b, long c, long d, long e, long f) __asm__("syscall");
long sk_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (n == SYS_getrandom) return getrandom((void *)a, b, c);
  if (g_ctl && mytid >= 0) {
    switch (n) {
      case 425: return fix(sim_setup((uint32_t)a, (void *)b));
      case 426: return fix(sim_enter((int)a, b, c, d, (void *)e, f));
      case 427: return fix(-EINVAL);
      case SYS_futex: return fix(sim_futex((void *)a, (int)b, (uint32_t)c, (void *)d, (void *)e, (uint32_t)f));
    }
  }
  return fix(rsys(n, a, b, c, d, e, f));
}
void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  struct fdent *f = fget(fd);
  if (f && f->kind == F_RING) {
    if (off == 0x10000000) return f->sqes;
    return f->mem;
  }
  // a thread which starts while exploring: what it maps is undone like the rest
  if (g_ctl && mytid >= 0 && fd < 0 && !addr && ringpool_at + len + 4096 <= ringpool_len) return ring_mem(len);
  return (void *)fix(rsys(SYS_mmap, (long)addr, len, prot, flags, fd, off));
}
void *mmap64(void *addr, size_t len, int prot, int flags, int fd, off_t off) { return mmap(addr, len, prot, flags, fd, off); }
int close(int fd) {
  struct fdent *f = fget(fd);
  if (f) return fd_close(fd - FDBASE);
  return (int)fix(rsys(SYS_close, fd, 0, 0, 0, 0, 0));
}
int socket(int dom, int type, int proto) {
  if (g_ctl && mytid >= 0) { int i = fd_alloc(F_LISTEN); FD[i].fam6 = dom == AF_INET6; return i + FDBASE; }
  return (int)fix(rsys(SYS_socket, dom, type, proto, 0, 0, 0));
}
int bind(int fd, const struct sockaddr *a, socklen_t l) {
  struct fdent *f = fget(fd);
  if (f) {
    for (int i = 0; i < fd_hi; i++) if (FD[i].kind == F_LISTEN && &FD[i] != f && FD[i].laddrlen == l && !memcmp(&FD[i].laddr, a, l) && !(FD[i].reuse && f->reuse)) { errno = EADDRINUSE; return -1; }
    memcpy(&f->laddr, a, l); f->laddrlen = l; return 0;
  }
  return (int)fix(rsys(SYS_bind, fd, (long)a, l, 0, 0, 0));
}
int listen(int fd, int bl) {
  struct fdent *f = fget(fd);
  if (f) { f->listening = 1; lst_of_thr[mytid] = fd - FDBASE; return 0; }
  return (int)fix(rsys(SYS_listen, fd, bl, 0, 0, 0, 0));
}
int setsockopt(int fd, int lv, int o, const void *v, socklen_t l) {
  struct fdent *f = fget(fd);
  if (f) {
    if (lv == SOL_SOCKET && o == SO_REUSEPORT && l >= 4) f->reuse = *(const int *)v != 0;
    static const int errs[] = {EINVAL, ENOMEM, ENOPROTOOPT};
    int e = f->kind == F_STREAM ? (ever(F_OPT, f->conn) ?: pick_fault(F_OPT, errs, 3)) : 0;
    if (e) { logev(L_FAULT, f->conn, 32, e); merge(&f->ver, 0xE000 + e); errno = e; return -1; }
    return 0;
  }
  return (int)fix(rsys(SYS_setsockopt, fd, lv, o, (long)v, l, 0));
}
int getsockopt(int fd, int lv, int o, void *v, socklen_t *l) {
  struct fdent *f = fget(fd);
  if (f) { if (v && l) memset(v, 0, *l); return 0; }
  return (int)fix(rsys(SYS_getsockopt, fd, lv, o, (long)v, (long)l, 0));
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
  struct fdent *f = fget(fd);
  if (f) {
    static const int errs[] = {ENOTCONN, ENOBUFS, EINVAL};
    int e = f->kind == F_STREAM ? (ever(F_NAME, f->conn) ?: pick_fault(F_NAME, errs, 3)) : 0;
    if (e) { logev(L_FAULT, f->conn, 16, e); merge(&f->ver, 0xE000 + e); errno = e; return -1; }
    memcpy(a, &f->laddr, *l < f->laddrlen ? *l : f->laddrlen); *l = f->laddrlen; return 0;
  }
  return (int)fix(rsys(SYS_getsockname, fd, (long)a, (long)l, 0, 0, 0));
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  struct fdent *f = fget(fd);
  if (f) {
    if (f->kind != F_STREAM || C[f->conn].rst) { errno = ENOTCONN; return -1; }
    struct sockaddr_storage ss; socklen_t n; client_addr(f->conn, f->fam6, &ss, &n);
    memcpy(a, &ss, *l < n ? *l : n); *l = n; return 0;
  }
  return (int)fix(rsys(SYS_getpeername, fd, (long)a, (long)l, 0, 0, 0));
}
int shutdown(int fd, int how) {
  struct fdent *f = fget(fd);
  if (f) {
    if (f->kind == F_STREAM && how >= 1) { R->conn[f->conn].srv_shut = 1; env_note(199 + f->conn); logev(L_SHUT, f->conn, 0, 0); merge(&C[f->conn].ver, 0x7000); }
    return 0;
  }
  return (int)fix(rsys(SYS_shutdown, fd, how, 0, 0, 0, 0));
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
  struct fdent *f = fget(fd);
  if (f) { if (f->kind != F_STREAM) { errno = ENOTSOCK; return -1; } if (!C[f->conn].txspace) { errno = EAGAIN; return -1; } return fix(do_send(f, b, n)); }
  return fix(rsys(SYS_sendto, fd, (long)b, n, fl, 0, 0));
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
  struct fdent *f = fget(fd);
  if (f) {
    if (f->kind != F_STREAM) { errno = ENOTSOCK; return -1; }
    struct conn *c = &C[f->conn];
    if (c->rxpos >= c->rxlim && !c->eof && !c->rst) { errno = EAGAIN; return -1; }
    return fix(do_recv(f, b, n));
  }
  return fix(rsys(SYS_recvfrom, fd, (long)b, n, fl, 0, 0));
}
int eventfd(unsigned v, int fl) {
  if (g_ctl && mytid >= 0) { int i = fd_alloc(F_EVENT); FD[i].counter = v; return i + FDBASE; }
  return (int)fix(rsys(SYS_eventfd2, v, fl, 0, 0, 0, 0));
}
ssize_t write(int fd, const void *b, size_t n) {
  struct fdent *f = fget(fd);
  if (f && f->kind == F_EVENT) { uint64_t v; memcpy(&v, b, 8); f->counter += v; merge(&f->ver, 2); return 8; }
  if (f && f->kind == F_STREAM) return send(fd, b, n, 0);
  return fix(rsys(SYS_write, fd, (long)b, n, 0, 0, 0));
}
ssize_t read(int fd, void *b, size_t n) {
  struct fdent *f = fget(fd);
  if (f && f->kind == F_EVENT) { uint64_t v = f->counter; f->counter = 0; merge(&f->ver, 1); memcpy(b, &v, 8); return 8; }
  if (f && f->kind == F_STREAM) return recv(fd, b, n, 0);
  return fix(rsys(SYS_read, fd, (long)b, n, 0, 0, 0));
}
int sk_fcntl(int fd, int cmd, long arg) __asm__("fcntl");
int sk_fcntl64(int fd, int cmd, long arg) __asm__("fcntl64");
int sk_open64(const char *p, int fl, mode_t m) __asm__("open64");
int sk_fcntl(int fd, int cmd, long arg) {
  struct fdent *f = fget(fd);
  if (f) {
    if (cmd == F_GETFL) return O_RDWR;
    if (cmd == F_GETFD) return FD_CLOEXEC;
    return 0;
  }
  return (int)fix(rsys(SYS_fcntl, fd, cmd, arg, 0, 0, 0));
}
int sk_fcntl64(int fd, int cmd, long arg) { return sk_fcntl(fd, cmd, arg); }
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (g_ctl && mytid >= 0) {
    uint64_t n = vnow + (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? 1700000000ull * 1000000000ull : 0);
    ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull;
    T[mytid].hist = mix(T[mytid].hist, vnow);
    return 0;
  }
  return (int)fix(rsys(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0));
}
static void sim_sleep(uint64_t d) {
  struct thr *t = &T[mytid];
  t->deadline = d; t->state = T_SLEEP; sched(0x41, 1); t->state = T_RUN; t->deadline = 0;
}
int nanosleep(const struct timespec *r, struct timespec *m) {
  if (g_ctl && mytid >= 0) { sim_sleep(vnow + r->tv_sec * 1000000000ull + r->tv_nsec); return 0; }
  return (int)fix(rsys(SYS_nanosleep, (long)r, (long)m, 0, 0, 0, 0));
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *r, struct timespec *m) {
  if (g_ctl && mytid >= 0) { uint64_t d = r->tv_sec * 1000000000ull + r->tv_nsec; sim_sleep(fl & 1 ? d : vnow + d); return 0; }
  return (int)-rsys(SYS_clock_nanosleep, id, fl, (long)r, (long)m, 0, 0);
}
int sched_yield(void) {
  if (g_ctl && mytid >= 0) { struct thr *t = &T[mytid]; t->state = T_YIELD; sched(0x42, 0); t->state = T_RUN; return 0; }
  return (int)fix(rsys(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
}
int sched_setaffinity(pid_t p, size_t n, const cpu_set_t *s) {
  if (g_ncpu) {
    for (size_t i = 0; i < 8 * n && i < CPU_SETSIZE; i++) if (CPU_ISSET(i, s) && CPU_ISSET(i, &g_cpus)) return 0;
    errno = EINVAL; return -1; // none of them is ours
  }
  return (int)fix(rsys(SYS_sched_setaffinity, p, n, (long)s, 0, 0, 0));
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  if (g_ncpu) { memset(s, 0, n); for (size_t i = 0; i < 8 * n && i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &g_cpus)) CPU_SET(i, s); return 0; }
  long r = rsys(SYS_sched_getaffinity, p, n, (long)s, 0, 0, 0);
  if (r < 0) return (int)fix(r);
  if ((size_t)r < n) memset((char *)s + r, 0, n - r);
  return 0;
}
int sk_open64(const char *p, int fl, mode_t m) {
  if (g_ncpu && (!strncmp(p, "/proc/self/cgroup", 17))) { errno = ENOENT; return -1; }
  return (int)fix(rsys(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0));
}
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int nrec;
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  if (g_record) {
    if (nrec >= MAXTHR) return EAGAIN;
    T[nrec].fn = fn; T[nrec].arg = arg; T[nrec].stack = 0;
    if (at) pthread_attr_getstacksize(at, &T[nrec].stack);
    nrec++;
    *t = (pthread_t)nrec;
    return 0;
  }
  if (g_ctl) { snprintf(R->msg, sizeof R->msg, "server thread started a thread: not modelled"); finish(ST_BADOP); }
  return real_pthread_create(t, at, fn, arg);
}
static void co_start(void) __attribute__((noreturn, used));
static void co_start(void) {
  int id = mytid;
  T[id].fn(T[id].arg);
  // a server thread never returns while the server is in service
  T[id].state = T_DONE;
  for (;;) sched(0x70, 1);
}
static void *thr_main(void *x) {
  int id = (int)(long)x;
  mytid = id; myarena = id + 1;
  uint64_t sp; __asm__ volatile("mov %%rsp, %0" : "=r"(sp));
  sp = (sp - 16384) & ~63ull;
  uint64_t *q = (uint64_t *)sp;
  *--q = 0;                       // alignment: rsp%16==8 at co_start entry
  *--q = (uint64_t)co_start;
  for (int i = 0; i < 6; i++) *--q = 0;
  T[id].sp = (uint64_t)q; T[id].fs = get_fs();
  __atomic_store_n(&T[id].parked, 1, __ATOMIC_SEQ_CST);
  for (;;) rsys(SYS_pause, 0, 0, 0, 0, 0, 0);
}

// ---------------------------------------------------------------- entry points for the explorer
// which processors there are, and which server threads wait for A_START
void simk_place(const uint8_t *cpus, int n, uint32_t held) {
  CPU_ZERO(&g_cpus);
  for (int i = 0; i < n && i < CPU_SETSIZE; i++) if (cpus[i]) CPU_SET(i, &g_cpus);
  g_held = held;
}
void simk_config(int ncpu, int record, int realrand, uint64_t seed) { if (ncpu) { CPU_ZERO(&g_cpus); for (int i = 0; i < ncpu; i++) CPU_SET(i, &g_cpus); } g_ncpu = ncpu; g_record = record; g_realrand = realrand; rng_state = seed; }
int simk_recorded(void) { return nrec; }
void simk_share(void *shm, const void *b, void *out, void *vis, uint64_t vmask, void *shs, uint64_t smask) {
  S = shm; R = &S->res; SC = &S->sc; blob = b; outbuf = out; visited = vis; visited_mask = vmask; shset = shs; shset_mask = smask;
}
static struct shm boot_shm;
// Create the recorded threads and run each of them until it waits for its
// first event.  Must run on the thread that later forks.
int simk_boot(void) {
  S = &boot_shm; R = &S->res; SC = &S->sc;
  have_fsgs = (getauxval(AT_HWCAP2) & 2) != 0;
  main_fs = get_fs();
  FD = (void *)rsys(SYS_mmap, 0, sizeof(struct fdent) * MAXFD, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  nthr = nrec; g_record = 0;
  mallopt(M_ARENA_MAX, 1); // libc's own blocks: no mapping while exploring
  free(malloc(1 << 16));
  ringpool_len = (size_t)nthr * (512 << 10);
  ringpool = (void *)rsys(SYS_mmap, 0, ringpool_len, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < MAXTHR; i++) lst_of_thr[i] = -1;
  for (int i = 0; i < NARENA; i++) AR[i].last = 0;
  for (int i = 0; i < nthr; i++) ar_grow(i + 1, 0); // some may start late
  for (int i = 0; i < nthr; i++) {
    T[i].state = i < 32 && g_held >> i & 1 ? T_HOLD : T_RUN; T[i].hist = mix(11, i);
    pthread_attr_t at; pthread_attr_init(&at);
    if (T[i].stack) pthread_attr_setstacksize(&at, T[i].stack);
    if (real_pthread_create(&T[i].pt, &at, thr_main, (void *)(long)i)) return -1;
    while (!__atomic_load_n(&T[i].parked, __ATOMIC_SEQ_CST)) usleep(100);
  }
  struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
  g_phase = 0; g_ctl = 1;
  int first = 0; while (first < nthr - 1 && T[first].state == T_HOLD) first++;
  handoff(first);
  g_ctl = 0;
  for (int i = 0; i < nthr; i++) if (T[i].state != T_HOLD) if (T[i].state == T_DONE || lst_of_thr[i] < 0) return -2;
  return 0;
}
static void exec_once(void) {
  g_maxalloc = 1ull << 30;
  memset(R, 0, offsetof(struct result, conn));
  memset(R->conn, 0, sizeof R->conn);
  memcpy(bleft, SC->budget, NBUD);
  g_step = 0; g_phase = 1; need_seed = 1; g_storm = 0;
  int b = cur; cur = -1;
  logev(L_TIME, 998, (uint32_t)(vnow / 1000), (uint32_t)(vnow / 1000 >> 32));
  g_ctl = 1;
  handoff(b);
}
// runs in the forked child; never returns
void simk_run_child(int cpu_secs) {
  struct rlimit rl = {cpu_secs, cpu_secs + 2}; setrlimit(RLIMIT_CPU, &rl);
  alarm(cpu_secs * 20);
  exec_once();
  for (;;) rsys(SYS_pause, 0, 0, 0, 0, 0, 0);
}

// ---------------------------------------------------------------- runner
// A runner process performs many executions: all writable private memory is
// write-protected once, the first write to a page saves its content, and after
// every execution the saved pages are copied back.  A crash only loses the
// runner; the explorer forks a new one.
#define HOTMAX 16384
struct runner { int nrg; struct { uint64_t a, b; } rg[512]; int nhot; uint64_t hot[HOTMAX]; uint8_t *save; uint8_t *alt; };
static struct runner *RN;
static void on_segv(int sg, siginfo_t *si, void *u) {
  (void)u;
  uint64_t p = (uint64_t)si->si_addr & ~4095ull;
  int ok = sg == SIGSEGV && si->si_code == SEGV_ACCERR && RN->nhot < HOTMAX;
  if (ok) {
    ok = 0;
    for (int i = 0; i < RN->nrg; i++) if (p >= RN->rg[i].a && p < RN->rg[i].b) { ok = 1; break; }
  }
  if (ok) {
    uint64_t *s = (uint64_t *)(RN->save + (uint64_t)RN->nhot * 4096), *d = (uint64_t *)p;
    for (int i = 0; i < 512; i++) s[i] = d[i];
    RN->hot[RN->nhot++] = p;
    rsys(SYS_mprotect, p, 4096, PROT_READ | PROT_WRITE, 0, 0, 0);
    return;
  }
  struct sigaction d; memset(&d, 0, sizeof d); d.sa_handler = SIG_DFL; sigaction(sg, &d, 0);
}
static void runner_protect(void) {
  static char buf[1 << 18];
  int fd = (int)rsys(SYS_openat, AT_FDCWD, (long)"/proc/self/maps", O_RDONLY, 0, 0, 0);
  size_t len = 0; long r;
  while (len < sizeof buf - 1 && (r = rsys(SYS_read, fd, (long)buf + len, sizeof buf - 1 - len, 0, 0, 0)) > 0) len += r;
  buf[len] = 0; rsys(SYS_close, fd, 0, 0, 0, 0, 0);
  uint64_t ex[3][2] = {{main_fs - 8192, main_fs + 8192}, {(uint64_t)RN, (uint64_t)(RN + 1)}, {(uint64_t)RN->save, (uint64_t)RN->alt + 65536}};
  for (char *l = buf; *l;) {
    char *e = strchr(l, '\n'); if (!e) break; *e = 0;
    unsigned long a, b; char pr[8]; char path[256] = "";
    int k = sscanf(l, "%lx-%lx %7s %*s %*s %*s %255s", &a, &b, pr, path);
    l = e + 1;
    if (k < 3 || pr[0] != 'r' || pr[1] != 'w' || pr[3] != 'p' || !strcmp(path, "[stack]")) continue;
    for (int i = 0; i < NARENA; i++) {
      uint64_t base = ARENA_BASE + (uint64_t)i * ARENA_SIZE;
      // only the used part; the rest is handed out zeroed and cleaned afterwards
      if (a <= base && base < b) { /* arenas may be merged into one mapping: handled below */ }
    }
    if (a >= ARENA_BASE && a < ARENA_BASE + NARENA * ARENA_SIZE) continue;
    // subtract the exclusions
    uint64_t seg[8][2]; int n = 1; seg[0][0] = a; seg[0][1] = b;
    for (int x = 0; x < 3; x++) {
      uint64_t ea = ex[x][0] & ~4095ull, eb = (ex[x][1] + 4095) & ~4095ull; int m = n;
      for (int i = 0; i < m; i++) {
        if (eb <= seg[i][0] || ea >= seg[i][1]) continue;
        uint64_t sa = seg[i][0], sb = seg[i][1];
        seg[i][1] = ea > sa ? ea : sa;
        if (eb < sb && n < 8) { seg[n][0] = eb; seg[n++][1] = sb; }
      }
    }
    for (int i = 0; i < n; i++) if (seg[i][0] < seg[i][1] && RN->nrg < 400) { RN->rg[RN->nrg].a = seg[i][0]; RN->rg[RN->nrg++].b = seg[i][1]; }
  }
  for (int i = 0; i < NARENA; i++) if (AR[i].cur) {
    uint64_t base = ARENA_BASE + (uint64_t)i * ARENA_SIZE;
    RN->rg[RN->nrg].a = base; RN->rg[RN->nrg++].b = ((uint64_t)AR[i].cur + 4095) & ~4095ull;
  }
  for (int i = 0; i < RN->nrg; i++) rsys(SYS_mprotect, RN->rg[i].a, RN->rg[i].b - RN->rg[i].a, PROT_READ, 0, 0, 0);
}
static void fut(volatile uint32_t *p, int op, uint32_t v, struct timespec *ts) { rsys(SYS_futex, (long)p, op, v, (long)ts, 0, 0); }
void simk_runner(int cpu_secs) {
  RN = (void *)rsys(SYS_mmap, 0, (sizeof(struct runner) + 4095) & ~4095ull, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  RN->save = (void *)rsys(SYS_mmap, 0, HOTMAX * 4096ull + 65536, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  RN->alt = RN->save + HOTMAX * 4096ull;
  stack_t ss = {.ss_sp = RN->alt, .ss_size = 65536}; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0);
  sa.sa_flags = 0; sa.sa_handler = SIG_DFL; sigaction(SIGBUS, &sa, 0);
  g_runner = 1;
  uint64_t ar_top[NARENA];
  for (int i = 0; i < NARENA; i++) ar_top[i] = ((uint64_t)AR[i].cur + 4095) & ~4095ull;
  runner_protect();
  for (;;) {
    int spin = 0;
    while (__atomic_load_n(&S->go, __ATOMIC_ACQUIRE) != 1) {
      if (++spin < 1) { __builtin_ia32_pause(); continue; }
      uint32_t v = __atomic_load_n(&S->go, __ATOMIC_ACQUIRE);
      if (v != 1) { struct timespec ts = {5, 0}; fut(&S->go, FUTEX_WAIT, v, &ts); if (getppid() == 1) rsys(SYS_exit_group, 0, 0, 0, 0, 0, 0); }
    }
    struct itimerval it = {{0, 0}, {cpu_secs, 0}};
    rsys(SYS_setitimer, ITIMER_PROF, (long)&it, 0, 0, 0, 0);
    exec_once();
    // back: undo everything the execution did to memory
    uint64_t top[NARENA];
    for (int i = 0; i < NARENA; i++) top[i] = (uint64_t)AR[i].cur;
    for (int i = 0; i < RN->nhot; i++) memcpy((void *)RN->hot[i], RN->save + (uint64_t)i * 4096, 4096);
    for (int i = 0; i < NARENA; i++) {
      uint64_t t = top[i];
      if (!t) continue;
      uint64_t lo = ar_top[i] ? ar_top[i] : ARENA_BASE + (uint64_t)i * ARENA_SIZE;
      if (t <= lo) continue;
      if (t - lo > (1 << 19)) { rsys(SYS_madvise, lo, (t - lo + 4095) & ~4095ull, MADV_DONTNEED, 0, 0, 0); }
      else memset((void *)lo, 0, t - lo);
    }
    S->hot_pages = RN->nhot;
    __atomic_store_n(&S->go, 2, __ATOMIC_RELEASE);
    fut(&S->go, FUTEX_WAKE, 1, 0);
    if (RN->nhot > HOTMAX - 2000) rsys(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  }
}
// called by the explorer: run one execution in runner `pid`.
// 0 = finished, 1 = the runner died (status filled), 2 = wall-clock limit
int simk_request(void *shm, int pid, int *status) {
  struct shm *s = shm;
  __atomic_store_n(&s->go, 1, __ATOMIC_RELEASE);
  fut(&s->go, FUTEX_WAKE, 1, 0);
  int spin = 0, waits = 0;
  while (__atomic_load_n(&s->go, __ATOMIC_ACQUIRE) != 2) {
    if (++spin < 1) { __builtin_ia32_pause(); continue; }
    struct timespec ts = {0, 20000000};
    fut(&s->go, FUTEX_WAIT, 1, &ts);
    if (__atomic_load_n(&s->go, __ATOMIC_ACQUIRE) == 2) break;
    long r = rsys(SYS_wait4, pid, (long)status, WNOHANG, 0, 0, 0);
    if (r == pid) { if (__atomic_load_n(&s->go, __ATOMIC_ACQUIRE) == 2) { *status = -1; return 1; } return 1; }
    if (++waits > 50 * 160) { rsys(SYS_kill, pid, SIGKILL, 0, 0, 0, 0); rsys(SYS_wait4, pid, (long)status, 0, 0, 0, 0); return 2; }
  }
  return 0;
}
