#include "vf.h"
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <initializer_list>

#include "vsched.h"

namespace vf {

enum { PMAX = 16384, SMAX = 1 << 18, MSGMAX = 4096, DESCMAX = 16384, NLAB = 160, LABLEN = 48, HMAX = 8192, NSAMP = 4 };

struct Lab {
  char name[LABLEN];
  uint64_t n;
};
struct Slot {
  volatile uint64_t heartbeat;
  volatile uint64_t case_idx;
  uint32_t np, ns, overflow;
  uint32_t failed;  // 1 = vf::fail
  char msg[MSGMAX];
  char phase[128];
  uint32_t ndesc;
  char desc[DESCMAX];
  uint64_t evals, nontriv, discards;
  uint32_t nhash;
  uint64_t hash[HMAX];
  uint32_t nlab;
  Lab lab[NLAB];
  uint32_t nsamp;
  char samp[NSAMP][2048];
  uint32_t p[PMAX];
  uint32_t s[SMAX];
};

static Mode* g_modes;
Mode::Mode(const char* n, const char* r, void (*f)(), int b, bool l)
    : name(n), rule(r), fn(f), batch(b), leakcheck(l), next(g_modes) {
  g_modes = this;
}

static Slot* S;  // slot of this process
static bool g_replay;
static const uint32_t* g_rp;
static const uint32_t* g_rs;
static uint32_t g_rnp, g_rns, g_ip, g_is;
static bool g_nontrivial, g_discard;
static bool g_quiet_desc;

static uint64_t prng[4], prng2[4], prng3[4];
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t xo(uint64_t* s) {
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}
static uint64_t sm(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t hstr(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
  return h;
}
static void seed_case(uint64_t seed, const char* mode, uint64_t idx) {
  uint64_t x = seed * 0x9e3779b97f4a7c15ull ^ hstr(mode) ^ (idx * 0xd1342543de82ef95ull + 1);
  for (auto& v : prng) v = sm(x);
  for (auto& v : prng2) v = sm(x);
  for (auto& v : prng3) v = sm(x);
}
bool replaying() { return g_replay; }
uint64_t fresh() { return xo(prng3); }

static uint32_t rec_p(uint32_t v) {
  if (S->np < PMAX) S->p[S->np] = v, S->np = S->np + 1;
  else S->overflow = 1;
  return v;
}
static uint32_t rec_s(uint32_t v) {
  if (S->ns < SMAX) S->s[S->ns] = v, S->ns = S->ns + 1;
  else S->overflow = 1;
  return v;
}
uint32_t pick(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (g_replay) v = g_ip < g_rnp ? g_rp[g_ip++] % n : 0;
  else v = (uint32_t)((xo(prng) >> 32) * (uint64_t)n >> 32);
  return rec_p(v);
}
uint32_t pick_w(const uint32_t* w, uint32_t n) {
  if (g_replay) {  // a changed choice must not select what the generator excludes
    uint32_t i = pick(n);
    for (uint32_t k = 0; k < n && !w[i]; ++k) i = (i + 1) % n;
    return i;
  }
  uint64_t t = 0;
  for (uint32_t i = 0; i < n; ++i) t += w[i];
  uint64_t r = xo(prng) % t;
  uint32_t i = 0;
  while (r >= w[i]) r -= w[i++];
  if (n <= 1) return 0;
  return rec_p(i);
}
bool chance(uint32_t num, uint32_t den) {
  uint32_t v;
  if (g_replay) v = g_ip < g_rnp ? (g_rp[g_ip++] & 1) : 0;
  else v = (xo(prng) >> 11) % den < num;
  return rec_p(v);
}
uint32_t small(uint32_t max) {
  if (max == 0) return 0;
  uint32_t v;
  if (g_replay) v = g_ip < g_rnp ? g_rp[g_ip++] % (max + 1) : 0;
  else {
    uint64_t r = xo(prng);
    switch (r & 3) {
      case 0: v = 0; break;
      case 1: v = (uint32_t)(r >> 8) % 3; break;
      case 2: v = (uint32_t)(r >> 8) % 8; break;
      default: v = (uint32_t)(r >> 8) % (max + 1);
    }
    if (v > max) v = max;
  }
  return rec_p(v);
}
uint32_t sdecide(uint32_t n, uint32_t proposed) {
  if (n <= 1) return 0;
  uint32_t v;
  if (g_replay) v = g_is < g_rns ? g_rs[g_is++] % n : 0;
  else v = proposed < n ? proposed : 0;
  return rec_s(v);
}
uint32_t spick(uint32_t n) { return sdecide(n, n > 1 ? (uint32_t)((xo(prng2) >> 33) % n) : 0); }
uint32_t spick_p(uint32_t n, uint32_t num, uint32_t den) {
  if (n <= 1) return 0;
  uint64_t r = xo(prng2);
  uint32_t v = (r >> 40) % den < num ? 1 + (uint32_t)((r >> 8) & 0xffffff) % (n - 1) : 0;
  return sdecide(n, v);
}

void desc(const char* fmt, ...) {
  if (!S) return;
  va_list a;
  va_start(a, fmt);
  uint32_t left = DESCMAX - S->ndesc;
  if (left > 2) {
    int k = vsnprintf(S->desc + S->ndesc, left, fmt, a);
    if (k > 0) S->ndesc += (uint32_t)k < left ? k : left - 1;
  }
  va_end(a);
}
void label(const char* name, uint64_t n) {
  for (uint32_t i = 0; i < S->nlab; ++i)
    if (!strncmp(S->lab[i].name, name, LABLEN - 1)) { S->lab[i].n += n; return; }
  if (S->nlab < NLAB) {
    strncpy(S->lab[S->nlab].name, name, LABLEN - 1);
    S->lab[S->nlab].n = n;
    S->nlab++;
  }
}
void nontrivial() { g_nontrivial = true; }
void discard() { g_discard = true; }
void set_phase(const char* w) { strncpy(S->phase, w, sizeof S->phase - 1); }

void fail(const char* fmt, ...) {
  va_list a;
  va_start(a, fmt);
  if (S) {
    S->failed = 1;
    vsnprintf(S->msg, MSGMAX, fmt, a);
  } else {
    vfprintf(stderr, fmt, a);
  }
  va_end(a);
  _exit(77);
}

// ---- heap balance -------------------------------------------------------------
static long g_live;
static uint64_t g_mallocs;
static bool g_hooks;
long live_blocks() { return __atomic_load_n(&g_live, __ATOMIC_RELAXED); }
uint64_t total_mallocs() { return __atomic_load_n(&g_mallocs, __ATOMIC_RELAXED); }
static const volatile void* g_last_ptr;
static size_t g_last_size;
void* last_malloc(size_t* n) {
  *n = g_last_size;
  return (void*)g_last_ptr;
}
static void on_malloc(const volatile void* p, size_t n) {
  g_last_ptr = p;
  g_last_size = n;
  __atomic_fetch_add(&g_live, 1, __ATOMIC_RELAXED);
  __atomic_fetch_add(&g_mallocs, 1, __ATOMIC_RELAXED);
}
static void on_free(const volatile void*) { __atomic_fetch_sub(&g_live, 1, __ATOMIC_RELAXED); }

}  // namespace vf

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                                         void (*)(const volatile void*)) __attribute__((weak));
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));

namespace vf {

// ---- running one case -----------------------------------------------------------
static void begin_case(uint64_t idx) {
  S->case_idx = idx;
  S->np = S->ns = S->overflow = 0;
  S->failed = 0;
  S->ndesc = 0;
  S->desc[0] = S->msg[0] = S->phase[0] = 0;
  g_ip = g_is = 0;
  g_nontrivial = g_discard = false;
  S->heartbeat = S->heartbeat + 1;
}

static void arm_timer(int sec) {
  struct itimerval t = {};
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
}
static void on_prof(int) {
  if (S) {
    S->failed = 1;
    strncpy(S->msg, "non-termination: the case used 20 s of CPU without finishing", MSGMAX - 1);
  }
  _exit(79);
}

static void run_once(Mode* m) {
  long before = live_blocks();
  m->fn();
  if (vs_active()) vs_end();
  long d = live_blocks() - before;
  if (g_hooks && m->leakcheck && d > 0) {
    // confirm on the same choices: one-time initialisation does not repeat
    static uint32_t pp[PMAX];
    static uint32_t ss[SMAX];
    uint32_t np = S->np, ns = S->ns;
    memcpy(pp, S->p, np * 4);
    memcpy(ss, S->s, ns * 4);
    bool r0 = g_replay;
    auto *rp0 = g_rp, *rs0 = g_rs;
    auto np0 = g_rnp, ns0 = g_rns;
    bool nt = g_nontrivial;
    bool all = true;
    long dd = 0;
    for (int i = 0; i < 2 && all; ++i) {
      g_replay = true; g_rp = pp; g_rs = ss; g_rnp = np; g_rns = ns; g_ip = g_is = 0;
      S->np = S->ns = 0; S->ndesc = 0;
      long b = live_blocks();
      m->fn();
      if (vs_active()) vs_end();
      dd = live_blocks() - b;
      if (dd <= 0) all = false;
    }
    g_replay = r0; g_rp = rp0; g_rs = rs0; g_rnp = np0; g_rns = ns0;
    g_nontrivial = nt;
    if (all) fail("memory leak: %ld heap block(s) still allocated at the end of the case", dd);
  }
}

static void finish_case() {
  S->evals++;
  if (g_discard) { S->discards++; return; }
  if (!g_nontrivial) return;
  S->nontriv++;
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](const uint32_t* a, uint32_t n) {
    for (uint32_t i = 0; i < n; ++i) { h ^= a[i] + 0x9e37u; h *= 1099511628211ull; h ^= h >> 29; }
    h ^= 0xabcdef; h *= 1099511628211ull;
  };
  mix(S->p, S->np);
  mix(S->s, S->ns);
  if (S->nhash < HMAX) S->hash[S->nhash++] = h;
  if (S->nsamp < NSAMP && S->ndesc) {
    strncpy(S->samp[S->nsamp], S->desc, sizeof S->samp[0] - 1);
    S->nsamp++;
  }
}

static void child_setup(int slotno) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct sigaction sa = {};
  sa.sa_handler = on_prof;
  sigaction(SIGPROF, &sa, nullptr);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  cpu_set_t all;
  if (slotno >= 0 && sched_getaffinity(0, sizeof all, &all) == 0) {
    int n = CPU_COUNT(&all);
    if (n > 1) {
      int want = slotno % n, k = 0;
      for (int c = 0; c < CPU_SETSIZE; ++c)
        if (CPU_ISSET(c, &all) && k++ == want) {
          cpu_set_t one;
          CPU_ZERO(&one);
          CPU_SET(c, &one);
          sched_setaffinity(0, sizeof one, &one);
          break;
        }
    }
  }
  if (__sanitizer_install_malloc_and_free_hooks) {
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    g_hooks = true;
  }
}

static int g_errfd = -1;

struct Result {
  int bad;  // 0 ok, 1 failed
  char kind[64];
  char msg[MSGMAX + 256];
};

static void redirect_stderr() {
  if (g_errfd >= 0) {
    ftruncate(g_errfd, 0);
    lseek(g_errfd, 0, SEEK_SET);
    dup2(g_errfd, 2);
    dup2(g_errfd, 1);
  }
}

static void classify(int st, Slot* sl, Result& r, const char* extra) {
  r.bad = 1;
  const char* ph = sl->phase[0] ? sl->phase : "";
  if (sl->failed && WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 79)) {
    snprintf(r.kind, sizeof r.kind, WEXITSTATUS(st) == 79 ? "hang" : "check");
    snprintf(r.msg, sizeof r.msg, "%s", sl->msg);
  } else if (WIFEXITED(st)) {
    snprintf(r.kind, sizeof r.kind, "exit%d", WEXITSTATUS(st));
    snprintf(r.msg, sizeof r.msg, "process ended with exit code %d (sanitizer report or exit) %s %s", WEXITSTATUS(st), ph,
             extra);
  } else if (WIFSIGNALED(st)) {
    snprintf(r.kind, sizeof r.kind, "signal%d", WTERMSIG(st));
    snprintf(r.msg, sizeof r.msg, "process died from signal %d (%s) %s %s", WTERMSIG(st), strsignal(WTERMSIG(st)), ph,
             extra);
  }
}

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static Slot* map_slot() {
  void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  return (Slot*)p;
}

// runs cases in a fresh child; used by replay and shrinking
static Result exec_choices(Mode* m, const uint32_t* p, uint32_t np, const uint32_t* s, uint32_t ns, Slot* sl, int wall) {
  Result r = {};
  memset((void*)sl->msg, 0, sizeof sl->msg);
  sl->evals = sl->nontriv = sl->nhash = sl->nlab = sl->nsamp = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    S = sl;
    child_setup(-1);
    redirect_stderr();
    g_replay = true;
    g_rp = p; g_rnp = np; g_rs = s; g_rns = ns;
    begin_case(0);
    arm_timer(20);
    run_once(m);
    arm_timer(0);
    finish_case();
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  for (useconds_t us = 200;; us = us < 4000 ? us * 2 : us) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (now() - t0 > wall) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      r.bad = 1;
      snprintf(r.kind, sizeof r.kind, "wallhang");
      snprintf(r.msg, sizeof r.msg, "hang: no progress within %d s of wall time (blocked) %s", wall, sl->phase);
      return r;
    }
    usleep(us);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
  classify(st, sl, r, "");
  return r;
}

// runs [from..to] of the generated sequence in one child
static Result exec_range(Mode* m, uint64_t seed, uint64_t from, uint64_t to, Slot* sl, int wall) {
  Result r = {};
  pid_t pid = fork();
  if (pid == 0) {
    S = sl;
    child_setup(-1);
    redirect_stderr();
    for (uint64_t i = from; i <= to; ++i) {
      seed_case(seed, m->name, i);
      begin_case(i);
      arm_timer(20);
      run_once(m);
      arm_timer(0);
    }
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (now() - t0 > wall) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      r.bad = 1;
      snprintf(r.kind, sizeof r.kind, "wallhang");
      snprintf(r.msg, sizeof r.msg, "hang: no progress within %d s of wall time (blocked)", wall);
      return r;
    }
    usleep(2000);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
  classify(st, sl, r, "");
  return r;
}

// ---- JSON output -----------------------------------------------------------------
static void jstr(FILE* f, const char* s, size_t max = 1u << 30) {
  fputc('"', f);
  for (size_t i = 0; s[i] && i < max; ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c == '\n') fputs("\\n", f);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
static char* read_err() {
  static char buf[24000];
  buf[0] = 0;
  if (g_errfd >= 0) {
    ssize_t n = pread(g_errfd, buf, sizeof buf - 1, 0);
    if (n > 0) buf[n] = 0;
  }
  return buf;
}

// ---- shrinking -------------------------------------------------------------------
struct Choices {
  uint32_t *p, *s;
  uint32_t np, ns;
};
static int g_shrink_left;
static double g_shrink_deadline;
static Slot* g_sh;
static Mode* g_sm;
static char g_kind[64];
static bool try_choices(Choices& c, Choices& best) {
  if (g_shrink_left-- <= 0 || now() > g_shrink_deadline) return false;
  Result r = exec_choices(g_sm, c.p, c.np, c.s, c.ns, g_sh, 15);
  if (!r.bad || strcmp(r.kind, g_kind)) return false;
  // adopt what was really consumed when it is no longer than the candidate
  uint32_t np = g_sh->np, ns = g_sh->ns;
  if (np > c.np) np = c.np;
  if (ns > c.ns) ns = c.ns;
  memmove(best.p, c.p, np * 4);
  memmove(best.s, c.s, ns * 4);
  best.np = np;
  best.ns = ns;
  return true;
}
static void shrink(Choices& best) {
  static uint32_t tp[PMAX], ts[SMAX];
  Choices t{tp, ts, 0, 0};
  auto load = [&] {
    memcpy(tp, best.p, best.np * 4);
    memcpy(ts, best.s, best.ns * 4);
    t.np = best.np;
    t.ns = best.ns;
  };
  bool progress = true;
  // cheap first: no schedule at all, then truncated ones
  load(); t.ns = 0; try_choices(t, best);
  while (progress && g_shrink_left > 0 && now() < g_shrink_deadline) {
    progress = false;
    for (int which = 0; which < 2; ++which) {
      // delete blocks
      uint32_t n0 = which ? best.ns : best.np;
      for (uint32_t k = n0 / 2; k >= 1; k = k > 8 ? k / 2 : k - 1) {
        uint32_t i = 0;
        while (i + k <= (which ? best.ns : best.np)) {
          if (which && k < 4 && best.ns > 200) break;
          load();
          uint32_t* a = which ? t.s : t.p;
          uint32_t& n = which ? t.ns : t.np;
          memmove(a + i, a + i + k, (n - i - k) * 4);
          n -= k;
          if (try_choices(t, best)) progress = true;
          else i += k;
          if (g_shrink_left <= 0 || now() > g_shrink_deadline) return;
        }
      }
      // zero blocks
      for (uint32_t k = n0 / 2; k >= 1; k /= 2) {
        for (uint32_t i = 0; i + k <= (which ? best.ns : best.np); i += k) {
          load();
          uint32_t* a = which ? t.s : t.p;
          bool any = false;
          for (uint32_t j = 0; j < k; ++j) any |= a[i + j] != 0, a[i + j] = 0;
          if (any && try_choices(t, best)) progress = true;
          if (g_shrink_left <= 0 || now() > g_shrink_deadline) return;
        }
      }
      // lower single values
      if (!which)
        for (uint32_t i = 0; i < best.np; ++i)
          for (uint32_t v : {best.p[i] / 2, best.p[i] - 1}) {
            if (i >= best.np || best.p[i] == 0 || v >= best.p[i]) continue;
            load();
            t.p[i] = v;
            if (try_choices(t, best)) progress = true;
            if (g_shrink_left <= 0 || now() > g_shrink_deadline) return;
          }
    }
  }
}

// simple open-addressing set of hashes
static uint64_t* hs;
static size_t hs_cap, hs_n;
static void hs_add(uint64_t h) {
  if (!h) h = 1;
  if (hs_n * 2 >= hs_cap) {
    size_t oc = hs_cap;
    uint64_t* o = hs;
    hs_cap = oc ? oc * 2 : 1 << 16;
    hs = (uint64_t*)calloc(hs_cap, 8);
    hs_n = 0;
    for (size_t i = 0; i < oc; ++i)
      if (o[i]) hs_add(o[i]);
    free(o);
  }
  size_t i = h & (hs_cap - 1);
  while (hs[i]) {
    if (hs[i] == h) return;
    i = (i + 1) & (hs_cap - 1);
  }
  hs[i] = h;
  hs_n++;
}

static Lab T[NLAB];
static uint32_t nT;
static void add_lab(const char* n, uint64_t c) {
  for (uint32_t i = 0; i < nT; ++i)
    if (!strcmp(T[i].name, n)) { T[i].n += c; return; }
  if (nT < NLAB) { strcpy(T[nT].name, n); T[nT++].n = c; }
}

static void write_replay(const char* path, const char* binname, Mode* m, const char* kind, const char* msg, const Choices* c,
                         uint64_t seed, uint64_t idx, uint64_t from, uint64_t to, const char* dsc, const char* err) {
  FILE* f = fopen(path, "w");
  if (!f) { perror(path); return; }
  fprintf(f, "{\"harness\": ");
  jstr(f, binname);
  fprintf(f, ", \"mode\": ");
  jstr(f, m->name);
  fprintf(f, ", \"kind\": ");
  jstr(f, kind);
  fprintf(f, ",\n \"message\": ");
  jstr(f, msg);
  fprintf(f, ",\n \"seed\": %llu, \"case\": %llu", (unsigned long long)seed, (unsigned long long)idx);
  if (c) {
    fprintf(f, ",\n \"p\": [");
    for (uint32_t i = 0; i < c->np; ++i) fprintf(f, "%s%u", i ? "," : "", c->p[i]);
    fprintf(f, "],\n \"s\": [");
    for (uint32_t i = 0; i < c->ns; ++i) fprintf(f, "%s%u", i ? "," : "", c->s[i]);
    fprintf(f, "]");
  } else {
    fprintf(f, ",\n \"from\": %llu, \"to\": %llu", (unsigned long long)from, (unsigned long long)to);
  }
  fprintf(f, ",\n \"case_text\": ");
  jstr(f, dsc);
  fprintf(f, ",\n \"output\": ");
  jstr(f, err);
  fprintf(f, "}\n");
  fclose(f);
}

static const char* arg(int argc, char** argv, const char* k, const char* d) {
  for (int i = 1; i + 1 < argc; ++i)
    if (!strcmp(argv[i], k)) return argv[i + 1];
  return d;
}

static int do_run(int argc, char** argv, Mode* m) {
  uint64_t N = strtoull(arg(argc, argv, "--cases", "1000"), 0, 10);
  uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), 0, 10);
  int J = atoi(arg(argc, argv, "--jobs", "8"));
  const char* out = arg(argc, argv, "--out", "/dev/stdout");
  const char* rep = arg(argc, argv, "--replay-out", "replay.json");
  double wallcap = atof(arg(argc, argv, "--wall", "600"));
  int batch = atoi(arg(argc, argv, "--batch", "0"));
  if (!batch) batch = m->batch;
  if (batch > HMAX) batch = HMAX;
  if (J > 64) J = 64;
  struct W {
    pid_t pid;
    uint64_t from, to;
    Slot* sl;
    uint64_t hb;
    double t;
    int errfd;
  };
  static W w[64];
  for (int i = 0; i < J; ++i) {
    w[i].sl = map_slot();
    w[i].errfd = memfd_create("err", MFD_CLOEXEC);
  }
  double t0 = now();
  uint64_t next = 0, evals = 0, nontriv = 0, discards = 0;
  static char samples[8][2048];
  int nsamples = 0;
  bool stop = false, capped = false;
  int active = 0;
  uint64_t fail_idx = ~0ull, fail_from = 0;
  Result fres = {};
  static uint32_t fp[PMAX], fs[SMAX];
  uint32_t fnp = 0, fns = 0;
  static char fdesc[DESCMAX];
  static char ferr[24000];
  for (;;) {
    for (int i = 0; i < J && !stop && next < N; ++i)
      if (!w[i].pid) {
        if (now() - t0 > wallcap) { capped = true; stop = true; break; }
        Slot* sl = w[i].sl;
        w[i].from = next;
        w[i].to = next + batch < N ? next + batch : N;
        next = w[i].to;
        sl->evals = sl->nontriv = sl->discards = sl->nhash = sl->nlab = sl->nsamp = 0;
        for (auto& l : sl->lab) l = Lab{};
        memset(sl->samp, 0, sizeof sl->samp);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
          S = sl;
          g_errfd = w[i].errfd;
          child_setup(i);
          redirect_stderr();
          for (uint64_t k = w[i].from; k < w[i].to; ++k) {
            seed_case(seed, m->name, k);
            begin_case(k);
            arm_timer(20);
            run_once(m);
            arm_timer(0);
            finish_case();
          }
          _exit(0);
        }
        w[i].pid = pid;
        w[i].hb = ~0ull;
        w[i].t = now();
        active++;
      }
    if (!active) break;
    bool any = false;
    for (int i = 0; i < J; ++i)
      if (w[i].pid) {
        int st = 0;
        pid_t r = waitpid(w[i].pid, &st, WNOHANG);
        Slot* sl = w[i].sl;
        bool dead = r == w[i].pid, hung = false;
        if (!dead) {
          if (sl->heartbeat != w[i].hb) { w[i].hb = sl->heartbeat; w[i].t = now(); }
          else if (now() - w[i].t > 60) {
            kill(w[i].pid, SIGKILL);
            waitpid(w[i].pid, &st, 0);
            dead = hung = true;
          }
        }
        if (!dead) continue;
        any = true;
        w[i].pid = 0;
        active--;
        evals += sl->evals;
        nontriv += sl->nontriv;
        discards += sl->discards;
        for (uint32_t k = 0; k < sl->nhash; ++k) hs_add(sl->hash[k]);
        for (uint32_t k = 0; k < sl->nlab; ++k) add_lab(sl->lab[k].name, sl->lab[k].n);
        for (uint32_t k = 0; k < sl->nsamp && nsamples < 3; ++k) strcpy(samples[nsamples++], sl->samp[k]);
        if (hung || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          stop = true;
          if (sl->case_idx < fail_idx) {
            fail_idx = sl->case_idx;
            fail_from = w[i].from;
            g_errfd = w[i].errfd;
            if (hung) {
              fres.bad = 1;
              snprintf(fres.kind, sizeof fres.kind, "wallhang");
              snprintf(fres.msg, sizeof fres.msg, "hang: no progress within 60 s of wall time (blocked) %s", sl->phase);
            } else classify(st, sl, fres, "");
            fnp = sl->np; fns = sl->ns;
            memcpy(fp, sl->p, fnp * 4);
            memcpy(fs, sl->s, fns * 4);
            memcpy(fdesc, sl->desc, DESCMAX);
            strncpy(ferr, read_err(), sizeof ferr - 1);
          }
        }
      }
    if (!any) usleep(500);
  }
  double wall = now() - t0;
  int rc = 0;
  bool confirmed = false, byrange = false;
  int hits = 0, tries = 0, shrunk = 0;
  g_errfd = w[0].errfd;
  Choices best{fp, fs, fnp, fns};
  if (fres.bad) {
    Slot* sl = w[0].sl;
    int hw = !strcmp(fres.kind, "wallhang") ? 20 : 60;
    char kind1[64] = "";
    for (tries = 0; tries < 3; ++tries) {
      Result r = exec_choices(m, fp, fnp, fs, fns, sl, hw);
      if (r.bad) { hits++; strcpy(kind1, r.kind); }
    }
    if (hits < 3) {
      // is it a matter of memory layout?  replay the batch prefix
      int h2 = 0;
      for (int k = 0; k < 3; ++k) {
        Result r = exec_range(m, seed, fail_from, fail_idx, sl, 120);
        if (r.bad) h2++;
      }
      if (h2 >= 2) { confirmed = true; byrange = true; hits = h2; tries = 3; }
      else if (hits) {
        for (; tries < 10; ++tries) {
          Result r = exec_choices(m, fp, fnp, fs, fns, sl, hw);
          if (r.bad) { hits++; strcpy(kind1, r.kind); }
        }
        confirmed = hits >= 3;
      }
    } else confirmed = true;
    if (confirmed) {
      rc = 10;
      if (!byrange && strcmp(fres.kind, "wallhang")) {
        g_shrink_left = atoi(arg(argc, argv, "--shrink", "1500"));
        g_shrink_deadline = now() + atof(arg(argc, argv, "--shrink-wall", "45"));
        g_sh = sl;
        g_sm = m;
        strcpy(g_kind, kind1);
        uint32_t a = best.np + best.ns;
        shrink(best);
        shrunk = a - (best.np + best.ns);
        Result r = exec_choices(m, best.p, best.np, best.s, best.ns, sl, hw);
        if (r.bad) {
          fres = r;
          memcpy(fdesc, sl->desc, DESCMAX);
          strncpy(ferr, read_err(), sizeof ferr - 1);
        }
      }
      write_replay(rep, argv[0], m, fres.kind, fres.msg, byrange ? nullptr : &best, seed, fail_idx, fail_from, fail_idx, fdesc,
                   ferr);
    }
  }
  FILE* f = fopen(out, "w");
  if (!f) { perror(out); return 2; }
  fprintf(f, "{\"mode\": ");
  jstr(f, m->name);
  fprintf(f, ", \"rule\": ");
  jstr(f, m->rule);
  fprintf(f, ", \"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"discarded\": %llu, \"wall_s\": %.2f, "
             "\"capped\": %s",
          (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)hs_n, (unsigned long long)discards, wall,
          capped ? "true" : "false");
  fprintf(f, ", \"labels\": {");
  for (uint32_t i = 0; i < nT; ++i) {
    if (i) fputs(", ", f);
    jstr(f, T[i].name);
    fprintf(f, ": %llu", (unsigned long long)T[i].n);
  }
  fprintf(f, "}, \"samples\": [");
  for (int i = 0; i < nsamples; ++i) {
    if (i) fputs(", ", f);
    jstr(f, samples[i], 1500);
  }
  fprintf(f, "]");
  if (fres.bad) {
    fprintf(f, ", \"failure\": {\"confirmed\": %s, \"reproduced\": \"%d/%d\", \"by_range\": %s, \"kind\": ",
            confirmed ? "true" : "false", hits, tries, byrange ? "true" : "false");
    jstr(f, fres.kind);
    fprintf(f, ", \"message\": ");
    jstr(f, fres.msg);
    fprintf(f, ", \"case\": %llu, \"case_text\": ", (unsigned long long)fail_idx);
    jstr(f, fdesc, 6000);
    fprintf(f, ", \"shrunk_by\": %d, \"choices\": %u, \"output\": ", shrunk, best.np + best.ns);
    jstr(f, ferr, 6000);
    fprintf(f, "}");
  }
  fprintf(f, "}\n");
  fclose(f);
  return rc;
}

static uint32_t* parse_list(const char* txt, const char* key, uint32_t& n, uint32_t max) {
  n = 0;
  const char* k = strstr(txt, key);
  if (!k) return nullptr;
  k = strchr(k, '[');
  if (!k) return nullptr;
  uint32_t* a = (uint32_t*)malloc(max * 4);
  ++k;
  while (*k && *k != ']' && n < max) {
    char* e;
    unsigned long v = strtoul(k, &e, 10);
    if (e == k) break;
    a[n++] = v;
    k = *e == ',' ? e + 1 : e;
  }
  return a;
}

static int do_replay(int argc, char** argv, Mode* m, const char* file) {
  FILE* f = fopen(file, "r");
  if (!f) { perror(file); return 2; }
  static char txt[8 << 20];
  size_t n = fread(txt, 1, sizeof txt - 1, f);
  txt[n] = 0;
  fclose(f);
  uint32_t np, ns;
  uint32_t* p = parse_list(txt, "\"p\":", np, PMAX);
  uint32_t* s = parse_list(txt, "\"s\":", ns, SMAX);
  g_errfd = memfd_create("err", MFD_CLOEXEC);
  Slot* sl = map_slot();
  Result r = {};
  int k = 0;
  for (; k < 5 && !r.bad; ++k) {
    if (p) r = exec_choices(m, p, np, s, ns, sl, 60);
    else {
      auto num = [&](const char* key) { const char* q = strstr(txt, key); return q ? strtoull(q + strlen(key), 0, 10) : 0ull; };
      r = exec_range(m, num("\"seed\": "), num("\"from\": "), num("\"to\": "), sl, 120);
    }
  }
  printf("case:\n%s\n", sl->desc);
  if (r.bad) printf("REPRODUCED (try %d) %s: %s\n%s\n", k, r.kind, r.msg, read_err());
  else printf("not reproduced in %d tries\n", k);
  return r.bad ? 10 : 0;
}

}  // namespace vf

extern "C" const char* __asan_default_options() {
  return "abort_on_error=0:exitcode=78:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:"
         "handle_abort=0:quarantine_size_mb=16:malloc_context_size=8:detect_odr_violation=0:halt_on_error=1:symbolize=1:alloc_dealloc_mismatch=1";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=78:print_stacktrace=1"; }
extern "C" const char* __tsan_default_options() {
  return "halt_on_error=1:exitcode=78:report_thread_leaks=0:report_signal_unsafe=0:history_size=3:second_deadlock_stack=1:"
         "detect_deadlocks=0:report_atomic_races=1:atexit_sleep_ms=0";
}

int main(int argc, char** argv) {
  using namespace vf;
  if (!getenv("VF_NO_REEXEC")) {
    setenv("VF_NO_REEXEC", "1", 1);
    int cur = personality(0xffffffff);
    if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1) {
      execv("/proc/self/exe", argv);
    }
  }
  if (argc > 1 && !strcmp(argv[1], "list")) {
    for (Mode* m = g_modes; m; m = m->next) printf("%s\n", m->name);
    return 0;
  }
  const char* mn = arg(argc, argv, "--mode", "");
  Mode* m = g_modes;
  while (m && strcmp(m->name, mn)) m = m->next;
  if (!m) { fprintf(stderr, "no mode '%s'\n", mn); return 2; }
  if (argc > 1 && !strcmp(argv[1], "replay")) return do_replay(argc, argv, m, arg(argc, argv, "--file", ""));
  return do_run(argc, argv, m);
}
