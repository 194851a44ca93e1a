#include "vsched.h"
#include "vf.h"
#include <linux/futex.h>
#include <sys/syscall.h>
#include <string.h>
#include <stdio.h>

namespace {

inline long sys_futex(int* a, int op, int v) {
  long r;
  register long r10 __asm__("r10") = 0;
  register long r8 __asm__("r8") = 0;
  register long r9 __asm__("r9") = 0;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"((long)SYS_futex), "D"(a), "S"((long)op), "d"((long)v), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}

enum St { FREE, RUNNABLE, BLOCKED, TIMED, WAITCELL, JOINING, WAITALL, DONE };
struct Th {
  int st;
  int go;
  const void* addr;
  const char* what;
  int cell, cellv;
  int join;
  int timedout;
  uint64_t prio;
};
enum { MAXT = 64, MAXLOG = 1 << 16 };
Th th[MAXT];
int nth;
bool active;
int cur;
uint64_t steps, switches;
int cells[VS_CELLS];
vs_ev logv[MAXLOG];
int nlog;
int fail_at, created;
int nopreempt;

// policy
int policy;  // 0 random walk, 1 PCT, 2 sequential-ish (rare)
uint32_t pnum, pden;
uint64_t chpt[8];
int nch;
uint64_t lowprio;
int spur_num;

thread_local int self_id __attribute__((tls_model("initial-exec"))) = -1;

enum { STEP_FAIR = 30000, STEP_MAX = 90000 };

void wait_baton(int me) {
  while (__atomic_load_n(&th[me].go, __ATOMIC_ACQUIRE) == 0) sys_futex(&th[me].go, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&th[me].go, 0, __ATOMIC_RELAXED);
}
void give_baton(int to) {
  cur = to;
  __atomic_store_n(&th[to].go, 1, __ATOMIC_RELEASE);
  sys_futex(&th[to].go, FUTEX_WAKE_PRIVATE, 1);
}

const char* stname(int s) {
  static const char* n[] = {"free", "runnable", "blocked", "timed-wait", "wait-cell", "joining", "wait-all", "done"};
  return n[s];
}

bool runnable(int i) {
  Th& t = th[i];
  switch (t.st) {
    case RUNNABLE: return true;
    case WAITCELL: return cells[t.cell] >= t.cellv;
    case JOINING: return th[t.join].st == DONE;
    case WAITALL:
      for (int k = 0; k < nth; ++k)
        if (k != i && th[k].st != DONE) return false;
      return true;
    default: return false;
  }
}

[[noreturn]] void deadlock() {
  char buf[1500];
  int n = snprintf(buf, sizeof buf, "deadlock: no thread can run:");
  for (int i = 0; i < nth && n < 1300; ++i)
    if (th[i].st != DONE)
      n += snprintf(buf + n, sizeof buf - n, " [T%d %s%s%s]", i, stname(th[i].st), th[i].what ? " in " : "",
                    th[i].what ? th[i].what : "");
  vf::fail("%s", buf);
}

// picks the next thread; me_ok: the current thread may continue
int choose(int me, bool me_ok, bool voluntary) {
  int cand[MAXT], n = 0;
  if (me_ok) cand[n++] = me;
  for (int k = 1; k <= nth; ++k) {
    int i = (me + k) % nth;
    if (i != me && runnable(i)) cand[n++] = i;
  }
  if (n == 0) {
    // fire a timed wait if there is one
    for (int i = 0; i < nth; ++i)
      if (th[i].st == TIMED) {
        th[i].timedout = 1;
        th[i].st = RUNNABLE;
        return i;
      }
    deadlock();
  }
  if (n == 1) return cand[0];
  uint32_t prop = 0;
  if (steps > STEP_FAIR) return cand[1 % n];  // fair round robin, no choice recorded
  if (!vf::replaying()) {
    if (policy == 1) {
      for (int c = 0; c < nch; ++c)
        if (chpt[c] == steps && me_ok) th[me].prio = lowprio--;
      if (voluntary && me_ok) th[me].prio = lowprio--;
      uint32_t b = 0;
      for (int i = 1; i < n; ++i)
        if (th[cand[i]].prio > th[cand[b]].prio) b = i;
      prop = b;
    } else {
      uint64_t r = vf::fresh();
      if (!me_ok || voluntary) prop = (r >> 20) % n;
      else if ((r >> 40) % pden < pnum) prop = 1 + (r >> 8) % (n - 1);
    }
  }
  return cand[vf::sdecide(n, prop)];
}

void switch_to(int me, int to) {
  if (to == me) return;
  switches++;
  if (th[to].st == WAITCELL || th[to].st == JOINING || th[to].st == WAITALL) th[to].st = RUNNABLE;
  give_baton(to);
  wait_baton(me);
}

void step_check() {
  if (++steps > STEP_MAX) vf::fail("livelock: %d steps without finishing under fair scheduling", (int)steps);
}

void block_common(int me) {
  step_check();
  int to = choose(me, false, true);
  if (to == me) { th[me].st = RUNNABLE; return; }  // only when timed out self
  switch_to(me, to);
}

}  // namespace

extern "C" {

int vs_active() { return active; }
int vs_self() { return active ? self_id : -1; }
uint64_t vs_steps() { return steps; }
uint64_t vs_switches() { return switches; }
void vs_no_preempt(int on) { nopreempt += on ? 1 : -1; }

void vs_begin() {
  memset(th, 0, sizeof th);
  memset(cells, 0, sizeof cells);
  nlog = 0;
  nth = 1;
  th[0].st = RUNNABLE;
  steps = switches = 0;
  self_id = 0;
  cur = 0;
  created = fail_at = 0;
  nopreempt = 0;
  lowprio = 1000000;
  nch = 0;
  if (!vf::replaying()) {
    uint64_t r = vf::fresh();
    policy = r % 5 < 2 ? 1 : 0;
    static const uint32_t nums[] = {1, 1, 1, 1, 1, 2};
    static const uint32_t dens[] = {2, 4, 8, 16, 40, 3};
    int k = (r >> 8) % 6;
    pnum = nums[k];
    pden = dens[k];
    nch = (r >> 16) % 5;
    uint64_t len = 20 + ((r >> 24) % 4) * 60;
    for (int i = 0; i < nch; ++i) chpt[i] = 1 + vf::fresh() % len;
    spur_num = (r >> 32) % 3 == 0 ? 8 : (r >> 34) % 2 ? 2 : 0;
    th[0].prio = 2000000 + vf::fresh() % 1000000;
  }
  active = true;
}

static void finish_wait() {
  int me = self_id;
  th[me].st = WAITALL;
  th[me].what = "end of case: waiting for all threads to finish";
  if (!runnable(me)) block_common(me);
  th[me].st = RUNNABLE;
}
void vs_end() {
  if (!active) return;
  nopreempt = 0;
  finish_wait();
  active = false;
  self_id = -1;
}

void vs_point() {
  if (!active || self_id < 0) return;
  step_check();
  if (nopreempt > 0) return;
  int me = self_id;
  int to = choose(me, true, false);
  switch_to(me, to);
}
void vs_point_after() { vs_point(); }
void vs_yield() {
  if (!active || self_id < 0) return;
  step_check();
  int me = self_id;
  switch_to(me, choose(me, true, true));
}

void vs_block(const void* addr, const char* what) {
  int me = self_id;
  th[me].st = BLOCKED;
  th[me].addr = addr;
  th[me].what = what;
  block_common(me);
  th[me].what = nullptr;
}
int vs_block_timed(const void* addr, const char* what) {
  int me = self_id;
  th[me].st = TIMED;
  th[me].addr = addr;
  th[me].what = what;
  th[me].timedout = 0;
  if (vf::spick_p(2, 1, 4)) {  // time out at once
    th[me].st = RUNNABLE;
    th[me].timedout = 1;
    vs_yield();
  } else
    block_common(me);
  th[me].what = nullptr;
  return th[me].timedout;
}
int vs_wake(const void* addr, int all) {
  int c[MAXT], n = 0;
  for (int i = 0; i < nth; ++i)
    if ((th[i].st == BLOCKED || th[i].st == TIMED) && th[i].addr == addr) c[n++] = i;
  if (!n) return 0;
  if (all) {
    for (int i = 0; i < n; ++i) th[c[i]].st = RUNNABLE;
    return n;
  }
  int k = n > 1 ? vf::spick(n) : 0;
  th[c[k]].st = RUNNABLE;
  return 1;
}

void vs_mutex_lock(int* owner) {
  if (!active || self_id < 0) return;
  vs_point();
  while (*owner != -1) {
    if (*owner == self_id) vf::fail("self-deadlock: a thread locks a mutex it already holds");
    vs_block(owner, "mutex lock");
  }
  *owner = self_id;
}
int vs_mutex_trylock(int* owner) {
  if (!active || self_id < 0) return 1;
  vs_point();
  if (*owner != -1) return 0;
  *owner = self_id;
  return 1;
}
void vs_mutex_unlock(int* owner) {
  if (!active || self_id < 0) return;
  *owner = -1;
  vs_wake(owner, 1);
}
int vs_spurious() {
  if (!active || self_id < 0 || nopreempt > 0 || steps > STEP_FAIR) return 0;
  return vf::spick_p(2, spur_num, 32);
}

void vs_fail_thread_creation_at(int n) { fail_at = n ? created + n : 0; }
int vs_threads_created() { return created; }
int vs_thread_create() {
  if (!active) return -2;
  ++created;
  if (fail_at && created == fail_at) return -1;
  if (nth >= MAXT) vf::fail("harness: too many threads");
  int s = nth++;
  memset(&th[s], 0, sizeof th[s]);
  th[s].st = RUNNABLE;
  th[s].prio = 2000000 + vf::fresh() % 1000000;
  return s;
}
void vs_thread_enter(int slot) {
  if (slot < 0) return;
  self_id = slot;
  wait_baton(slot);
}
void vs_thread_exit() {
  if (!active || self_id < 0) return;
  int me = self_id;
  th[me].st = DONE;
  step_check();
  int to = choose(me, false, true);
  switches++;
  if (th[to].st == WAITCELL || th[to].st == JOINING || th[to].st == WAITALL) th[to].st = RUNNABLE;
  self_id = -1;
  give_baton(to);
}
void vs_thread_join(int slot) {
  if (!active || self_id < 0 || slot < 0) return;
  vs_point();
  if (th[slot].st == DONE) return;
  int me = self_id;
  th[me].st = JOINING;
  th[me].join = slot;
  th[me].what = "thread join";
  block_common(me);
  th[me].st = RUNNABLE;
  th[me].what = nullptr;
}

int vs_get(int c) { return cells[c]; }
void vs_set(int c, int v) { cells[c] = v; }
int vs_add(int c, int d) { return cells[c] += d; }
void vs_wait_ge(int c, int v, const char* what) {
  if (!active || self_id < 0) {
    if (cells[c] < v) vf::fail("would wait forever: %s", what);
    return;
  }
  vs_point();
  if (cells[c] >= v) return;
  int me = self_id;
  th[me].st = WAITCELL;
  th[me].cell = c;
  th[me].cellv = v;
  th[me].what = what;
  block_common(me);
  th[me].st = RUNNABLE;
  th[me].what = nullptr;
}
int vs_log(int kind, int a, int b, int c) {
  if (nlog >= MAXLOG) vf::fail("harness: log overflow");
  logv[nlog] = vs_ev{kind, a, b, c, active ? self_id : -1};
  return nlog++;
}
int vs_nlog() { return nlog; }
vs_ev vs_log_at(int i) { return logv[i]; }
}
