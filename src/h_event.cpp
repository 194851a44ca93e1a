// C15 events, C16 callbacks and combined event waits, C17 latch: every interleaving of subscribers and notifiers.
#include "mt.hpp"

namespace {

struct Msg {  // owns memory; every receiver has its own copy
  VF_NO_SHORTCUTS(Msg)
  std::vector<int> v;
  Msg() = default;
  explicit Msg(int k) : v(1 + k % 5, k) {}
};
inline int key(const Msg& m) {
  if (m.v.empty()) return -1;
  for (int x : m.v)
    if (x != m.v[0] || (int)m.v.size() != 1 + m.v[0] % 5) return -2;
  return m.v[0];
}
inline int key(int k) { return k; }
inline int key(const dd::nullstruct&) { return -3; }

// log kinds: a = wait id, b = notification id, c = event
enum { SUB_LO = 1, SUB_HI, N_LO, N_HI, WAKE, CB_SET_LO, CB_SET_HI };
enum { C_DONE = 0, C_NOTIF = 1, C_PENDING = 2 };

// Which notification resumes a coroutine: either it runs inside notify_all (the notifying thread remembers its number) or
// the executor was given it (the table remembers the number under the coroutine's handle).  Relaxed builtins: invisible
// to the scheduler and to TSAN, they order nothing.
thread_local int cur_notif = -1;
struct Given {
  enum { N = 512 };
  void* h[N];
  int k[N];
  int n;
  void put(void* a, int v) {
    int i = __atomic_fetch_add(&n, 1, __ATOMIC_RELAXED);
    VF_CHECK(i < N, "harness: too many hand-overs");
    __atomic_store_n(&k[i], v, __ATOMIC_RELAXED);
    __atomic_store_n(&h[i], a, __ATOMIC_RELAXED);
  }
  int take(void* a) {
    int m = __atomic_load_n(&n, __ATOMIC_RELAXED);
    for (int i = 0; i < m && i < N; ++i)
      if (__atomic_load_n(&h[i], __ATOMIC_RELAXED) == a) {
        __atomic_store_n(&h[i], (void*)nullptr, __ATOMIC_RELAXED);
        return __atomic_load_n(&k[i], __ATOMIC_RELAXED);
      }
    return -1;
  }
};
Given given;

// executors: inline, a worker of the crew (node poisoned: it belongs to the executor now), type-erased
struct CrewExec {
  mt::Crew* c;
  int k;
  int notif;
  void attach(dd::task_node* n) {
    VF_CHECK(n && n->task, "attach of an empty node");
    auto h = n->task;
    n->next = (dd::task_node*)0x30;
    given.put(h.address(), notif);
    c->post(k, h);
  }
};
struct InlineExec {
  void attach(dd::task_node* n) {
    VF_CHECK(n && n->task, "attach of an empty node");
    n->next = (dd::task_node*)0x30;
    n->task.resume();
  }
};

thread_local int last_by = -1;  // of the wake-up that is under way on this thread

// logs the subscription interval of any awaiter
template <typename A>
struct Logged {
  A a;
  int id, ev;
  void* self = nullptr;
  int by = -1;  // the notification that resumed it
  bool await_ready() { return a.await_ready(); }
  auto await_suspend(std::coroutine_handle<> h) {
    int i = id, e = ev;
    self = h.address();
    vs_log(SUB_LO, i, 0, e);
    if constexpr (std::is_void_v<decltype(a.await_suspend(h))>) {
      a.await_suspend(h);
      vs_log(SUB_HI, i, 0, e);
    } else {
      auto r = a.await_suspend(h);
      vs_log(SUB_HI, i, 0, e);
      return r;
    }
  }
  decltype(auto) await_resume() {
    by = given.take(self);
    if (by < 0) by = cur_notif;
    last_by = by;
    return a.await_resume();
  }
};
template <typename A>
Logged(A, int, int) -> Logged<A>;

struct Wait {  // one wait (a round of a subscriber, a callback, a combined wait)
  int woken = 0;
  int plain = 0;     // written before waiting, read after
  int by = -1;       // notification
  int index = -1;    // of a first-of wait
  int by_all[3] = {-1, -1, -1};
};

struct World {
  mt::Crew* crew = nullptr;
  std::vector<Wait> waits;
  int n_ev = 1;
  int total = 0;  // waits that must complete
};

struct Interval {
  int lo = -1, hi = 1 << 30;
};
struct Hist {
  std::vector<Interval> sub;                     // per wait
  std::vector<Interval> nt;                      // per notification
  std::vector<int> nev, nret;                    // event and result of each notification
  explicit Hist(const World& w) {
    sub.resize(w.waits.size());
    for (int i = 0; i < vs_nlog(); ++i) {
      vs_ev e = vs_log_at(i);
      if (e.kind == SUB_LO) sub[e.a].lo = i;
      if (e.kind == SUB_HI) sub[e.a].hi = i;
      if (e.kind == N_LO) {
        if ((int)nt.size() <= e.b) nt.resize(e.b + 1), nev.resize(e.b + 1, -1), nret.resize(e.b + 1, -1);
        nt[e.b].lo = i;
        nev[e.b] = e.c;
      }
      if (e.kind == N_HI) nt[e.b].hi = i, nret[e.b] = e.a;
    }
  }
  // could wait w on event ev have been woken by notification k?
  void check(int w, int k, int ev) {
    VF_CHECK(k >= 0 && k < (int)nt.size() && nev[k] == ev, "wait %d on event %d got the input of notification %d, which is none of that event", w, ev, k);
    VF_CHECK(nt[k].hi > sub[w].lo, "wait %d was woken by notification %d, which ended before it subscribed", w, k);
    for (int j = 0; j < (int)nt.size(); ++j)
      if (nev[j] == ev && j != k && nt[j].lo > sub[w].hi && nt[j].hi < nt[k].lo)
        vf::fail("wait %d slept through notification %d and was woken by the later %d", w, j, k);
    // a notification collects its waiters at one instant, before it wakes the first of them
    for (int i = 0; i < sub[w].lo; ++i) {
      vs_ev e = vs_log_at(i);
      if (e.kind == WAKE && e.b == k) vf::fail("wait %d was woken by notification %d, which had already woken wait %d before it subscribed", w, k, e.a);
    }
  }
};

// notifies event ev; returns what notify_all returned
template <typename In, typename Ex>
bool notify_with(dd::event<In>& e, int ev, int k, Ex&& ex) {
  vs_log(N_LO, 0, k, ev);
  bool r;
  int outer = std::exchange(cur_notif, k);
  if constexpr (std::is_void_v<In>) r = e.notify_all(ex);
  else r = e.notify_all(ex, In(k));
  cur_notif = outer;
  vs_log(N_HI, r, k, ev);
  return r;
}
template <typename In>
bool notify(World& w, dd::event<In>& e, int ev, int how, int wk) {
  int k = vs_add(C_NOTIF, 1) - 1;
  switch (how) {
    case 0: {
      InlineExec x;
      return notify_with(e, ev, k, x);
    }
    case 1: {
      CrewExec x{w.crew, wk, k};
      return notify_with(e, ev, k, x);
    }
    case 2: {
      InlineExec x;
      return notify_with(e, ev, k, dd::any_executor_ref(x));
    }
    default: return notify_with(e, ev, k, dd::this_thread_executor);
  }
}

void wake(World& w, int id, int k) {
  Wait& x = w.waits[id];
  VF_CHECK(++x.woken == 1, "wait %d was woken %d times", id, x.woken);
  VF_CHECK(x.plain == id + 1, "wait %d: what it wrote before waiting is lost", id);
  x.by = k;
  vs_log(WAKE, id, k, 0);
}

// a subscriber waits `rounds` times, with consecutive wait ids
template <typename In>
dd::job subscriber(World& w, dd::event<In>& e, int ev, int id, int rounds) {
  for (int r = 0; r < rounds; ++r, ++id) {
    w.waits[id].plain = id + 1;
    if constexpr (std::is_void_v<In>) {
      (void)co_await Logged{e.operator co_await(), id, ev};
      VF_CHECK(last_by >= 0, "wait %d continues outside of every notification", id);
      wake(w, id, last_by);
    } else {
      auto in = co_await Logged{e.operator co_await(), id, ev};
      VF_CHECK(key(in) == last_by, "wait %d: resumed by notification %d with the input of %d", id, last_by, key(in));
      wake(w, id, key(in));
      in = In(99);  // its own copy
    }
  }
  vs_add(C_DONE, rounds);
}

enum { OP_SUB, OP_NOTIFY, OP_YIELD };
struct Op {
  int kind = 0, ev = 0, id = 0, rounds = 1, how = 0, wk = 0, form = 0;
};

template <typename In>
void run_events() {
  World w;
  given.n = 0;
  cur_notif = -1;
  w.n_ev = vf::range(1, 2);
  int nt = vf::range(1, 3), nw = vf::range(1, 2);
  std::vector<std::vector<Op>> ops(nt);
  int subs = 0, notifs = 0;
  for (int t = 0; t < nt; ++t) {
    int n = vf::range(1, 5);
    for (int i = 0; i < n; ++i) {
      Op o;
      static const uint32_t ww[] = {5, 5, 1};
      o.kind = vf::pick_w(ww, 3);
      o.ev = vf::pick(w.n_ev);
      if (o.kind == OP_SUB) {
        o.rounds = 1 + vf::small(2);
        o.id = w.total;
        w.total += o.rounds;
        ++subs;
      }
      if (o.kind == OP_NOTIFY) o.how = vf::pick(4), o.wk = vf::pick(nw), ++notifs;
      static const char* hn[] = {"inline", "worker", "erased", "this thread"};
      if (o.kind == OP_SUB) vf::desc("T%d: subscriber on event %d, %d rounds (waits %d..)\n", t, o.ev, o.rounds, o.id);
      if (o.kind == OP_NOTIFY) vf::desc("T%d: notify event %d on %s executor\n", t, o.ev, hn[o.how]);
      if (o.kind == OP_YIELD) vf::desc("T%d: yield\n", t);
      ops[t].push_back(o);
    }
  }
  w.waits.resize(w.total);
  bool global = vf::chance(1, 4);
  if (global) vf::desc("events: event_v\n");
  bool flush_false = true;
  {
    dd::event<In> local[2];
    // the default interaction points: one event per type and tag
    dd::event<In>* glob[2] = {&dd::event_v<In>, &dd::event_v<In, World>};
    struct Of {
      dd::event<In>* p[2];
      dd::event<In>& operator[](int i) { return *p[i]; }
    } evs = global ? Of{glob[0], glob[1]} : Of{&local[0], &local[1]};
    VF_CHECK(&evs[0] != &evs[1], "tags share an event");
    vs::Run run;
    mt::Crew crew(nw);
    w.crew = &crew;
    auto client = [&](int t) {
      for (auto& o : ops[t]) {
        if (o.kind == OP_SUB) subscriber(w, evs[o.ev], o.ev, o.id, o.rounds);
        if (o.kind == OP_NOTIFY) notify(w, evs[o.ev], o.ev, o.how, o.wk);
        if (o.kind == OP_YIELD) vs_yield();
      }
    };
    std::vector<std::vs_thread> ts;
    for (int t = 1; t < nt; ++t) ts.emplace_back([&, t] { client(t); });
    client(0);
    for (auto& t : ts) t.join();
    crew.quiesce();
    // whoever still waits is woken by further notifications
    for (int i = 0; i < 40 && vs_get(C_DONE) < w.total; ++i) {
      int before = vs_nlog();
      bool any = false;
      for (int e = 0; e < w.n_ev; ++e) any |= notify(w, evs[e], e, 0, 0);
      bool woke = false;
      for (int k = before; k < vs_nlog(); ++k) woke |= vs_log_at(k).kind == WAKE;
      VF_CHECK(any == woke, "notify_all returned %d, woken: %d", any, woke);
      VF_CHECK(woke, "%d waits are lost: nobody wakes them any more", w.total - vs_get(C_DONE));
    }
    VF_CHECK(vs_get(C_DONE) == w.total, "%d of %d waits completed", vs_get(C_DONE), w.total);
    for (int e = 0; e < w.n_ev; ++e) flush_false &= !notify(w, evs[e], e, 0, 0);
    crew.stop();
  }
  VF_CHECK(flush_false, "notify_all returned true with nobody waiting");
  Hist h(w);
  std::vector<int> woke(h.nt.size());
  for (int i = 0; i < w.total; ++i) {
    VF_CHECK(w.waits[i].woken == 1, "wait %d woken %d times", i, w.waits[i].woken);
    int ev = -1;
    for (auto& v : ops)
      for (auto& o : v)
        if (o.kind == OP_SUB && o.id <= i && i < o.id + o.rounds) ev = o.ev;
    h.check(i, w.waits[i].by, ev);
    woke[w.waits[i].by]++;
  }
  for (size_t k = 0; k < h.nt.size(); ++k)
    VF_CHECK(h.nret[k] == (woke[k] > 0), "notification %d returned %d, but woke %d", (int)k, h.nret[k], woke[k]);
  vf::label("waits", w.total);
  vf::label("notifications", h.nt.size());
  if (subs >= 1 && notifs >= 1 && nt >= 2 && vs_switches() >= 3) vf::nontrivial();
}
VF_MODE(event_mt, 20, true,
        "1-3 threads start subscribers (1-3 rounds, awaiting again inside their wake-up) and notify 1-2 events with copyable inputs or none on inline, "
        "worker and type-erased executors, under a random schedule; non-trivial: >=2 threads, >=1 subscriber, >=1 notification, >=3 switches") {
  switch (vf::pick(3)) {
    case 0: return run_events<int>();
    case 1: return run_events<Msg>();
    default: return run_events<void>();
  }
}

// ---------------------------------------------------------------- C16
using E0 = dd::event<int>;
using E1 = dd::event<Msg>;
using E2 = dd::event<void>;
struct Evs {
  E0 a;
  E1 b;
  E2 c;
};
bool notify_ev(World& w, Evs& e, int ev, int how, int wk) {
  if (ev == 0) return notify(w, e.a, 0, how, wk);
  if (ev == 1) return notify(w, e.b, 1, how, wk);
  return notify(w, e.c, 2, how, wk);
}
enum { F_CB, F_ALL_AB, F_ALL_ABC, F_ALL_BA, F_ALL_CC, F_ALL_A, F_ANY_AB, F_ANY_ABC, F_ANY_CA, F_ANY_BB, F_N };
const char* formname(int f) {
  static const char* n[] = {"callback", "all(0,1)", "all(0,1,2)", "all(1,0)", "all(2,2)", "all(0)", "any(0,1)", "any(0,1,2)", "any(2,0)", "any(1,1)"};
  return n[f];
}
std::vector<int> form_events(int f, int cb_ev) {
  switch (f) {
    case F_CB: return {cb_ev};
    case F_ALL_AB:
    case F_ANY_AB: return {0, 1};
    case F_ALL_ABC:
    case F_ANY_ABC: return {0, 1, 2};
    case F_ALL_BA: return {1, 0};
    case F_ALL_CC: return {2, 2};
    case F_ALL_A: return {0};
    case F_ANY_CA: return {2, 0};
    default: return {1, 1};
  }
}
template <typename... E>
dd::job all_waiter(World& w, int id, E&... e) {
  w.waits[id].plain = id + 1;
  auto in = co_await Logged{dd::when_all(e...), id, 0};
  wake(w, id, -4);
  [&]<size_t... I>(std::index_sequence<I...>) { ((w.waits[id].by_all[I] = key(std::get<I>(in))), ...); }(std::index_sequence_for<E...>{});
  vs_add(C_DONE, 1);
}
template <typename... E>
dd::job any_waiter(World& w, int id, E&... e) {
  w.waits[id].plain = id + 1;
  auto in = co_await Logged{dd::when_any(e...), id, 0};
  int k = std::visit([](auto& x) { return key(x); }, in);
  wake(w, id, k);
  w.waits[id].index = (int)in.index();
  vs_add(C_DONE, 1);
}
template <typename In>
void set_cb(World& w, dd::event<In>& e, int id, int ev) {
  w.waits[id].plain = id + 1;
  vs_log(SUB_LO, id, 0, ev);
  auto token = std::make_unique<int>(id);  // owned by the callback: its destruction is leak-checked
  if constexpr (std::is_void_v<In>)
    e.set_callback([&w, t = std::move(token)] {
      wake(w, *t, -3);
      vs_add(C_DONE, 1);
    });
  else
    e.set_callback([&w, t = std::move(token)](In in) {
      wake(w, *t, key(in));
      vs_add(C_DONE, 1);
    });
  vs_log(SUB_HI, id, 0, ev);
}

VF_MODE(evcomb_mt, 20, true,
        "1-3 threads set callbacks, await all-of / first-of 1-3 events of three input types, and notify those events on inline and worker executors, "
        "under a random schedule; non-trivial: >=2 threads, a combined wait or callback, >=2 notifications, >=3 switches") {
  World w;
  given.n = 0;
  cur_notif = -1;
  int nt = vf::range(1, 3), nw = vf::range(1, 2);
  std::vector<std::vector<Op>> ops(nt);
  std::vector<Op> byid;
  int notifs = 0;
  for (int t = 0; t < nt; ++t) {
    int n = vf::range(1, 5);
    for (int i = 0; i < n; ++i) {
      Op o;
      static const uint32_t ww[] = {4, 6, 1};
      o.kind = vf::pick_w(ww, 3);
      o.ev = vf::pick(3);
      if (o.kind == OP_SUB) {
        o.form = vf::pick(F_N);
        o.id = w.total++;
        byid.push_back(o);
        vf::desc("T%d: wait %d: %s", t, o.id, formname(o.form));
        if (o.form == F_CB) vf::desc(" on event %d", o.ev);
        vf::desc("\n");
      } else if (o.kind == OP_NOTIFY) {
        o.how = vf::pick(4), o.wk = vf::pick(nw), ++notifs;
        static const char* hn[] = {"inline", "worker", "erased", "this thread"};
        vf::desc("T%d: notify event %d on %s executor\n", t, o.ev, hn[o.how]);
      } else vf::desc("T%d: yield\n", t);
      ops[t].push_back(o);
    }
  }
  w.waits.resize(w.total);
  {
    Evs e;
    vs::Run run;
    mt::Crew crew(nw);
    w.crew = &crew;
    auto start = [&](const Op& o) {
      switch (o.form) {
        case F_CB:
          if (o.ev == 0) set_cb(w, e.a, o.id, 0);
          else if (o.ev == 1) set_cb(w, e.b, o.id, 1);
          else set_cb(w, e.c, o.id, 2);
          break;
        case F_ALL_AB: all_waiter(w, o.id, e.a, e.b); break;
        case F_ALL_ABC: all_waiter(w, o.id, e.a, e.b, e.c); break;
        case F_ALL_BA: all_waiter(w, o.id, e.b, e.a); break;
        case F_ALL_CC: all_waiter(w, o.id, e.c, e.c); break;
        case F_ALL_A: all_waiter(w, o.id, e.a); break;
        case F_ANY_AB: any_waiter(w, o.id, e.a, e.b); break;
        case F_ANY_ABC: any_waiter(w, o.id, e.a, e.b, e.c); break;
        case F_ANY_CA: any_waiter(w, o.id, e.c, e.a); break;
        default: any_waiter(w, o.id, e.b, e.b);
      }
    };
    auto client = [&](int t) {
      for (auto& o : ops[t]) {
        if (o.kind == OP_SUB) start(o);
        if (o.kind == OP_NOTIFY) notify_ev(w, e, o.ev, o.how, o.wk);
        if (o.kind == OP_YIELD) vs_yield();
      }
    };
    std::vector<std::vs_thread> ts;
    for (int t = 1; t < nt; ++t) ts.emplace_back([&, t] { client(t); });
    client(0);
    for (auto& t : ts) t.join();
    crew.quiesce();
    // nothing that needs an event not yet notified since it subscribed may have fired; then flush
    for (int ev = 0; ev < 3; ++ev) notify_ev(w, e, ev, 0, 0);
    VF_CHECK(vs_get(C_DONE) == w.total, "%d of %d waits completed although every event was notified", vs_get(C_DONE), w.total);
    for (int ev = 0; ev < 3; ++ev) VF_CHECK(!notify_ev(w, e, ev, 0, 0), "event %d: something is still subscribed", ev);
    crew.stop();
  }
  Hist h(w);
  for (int i = 0; i < w.total; ++i) {
    Wait& x = w.waits[i];
    VF_CHECK(x.woken == 1, "wait %d woken %d times", i, x.woken);
    int wake_at = -1;
    for (int k = 0; k < vs_nlog(); ++k)
      if (vs_log_at(k).kind == WAKE && vs_log_at(k).a == i) wake_at = k;
    auto es = form_events(byid[i].form, byid[i].ev);
    int f = byid[i].form;
    if (f == F_CB) {
      if (es[0] != 2) h.check(i, x.by, es[0]);
    } else if (f < F_ANY_AB) {
      for (size_t j = 0; j < es.size(); ++j) {
        if (es[j] != 2) h.check(i, x.by_all[j], es[j]);
        bool could = false;  // some notification of this event may have followed the subscription and preceded the wake-up
        for (size_t k = 0; k < h.nt.size(); ++k) could |= h.nev[k] == es[j] && h.nt[k].hi > h.sub[i].lo && h.nt[k].lo < wake_at;
        VF_CHECK(could, "all-of wait %d continued before event %d was notified", i, es[j]);
      }
    } else {
      VF_CHECK(x.index >= 0 && x.index < (int)es.size(), "first-of wait %d: index %d", i, x.index);
      int ev = es[x.index];
      if (ev != 2) {
        int k = x.by;
        VF_CHECK(k >= 0 && k < (int)h.nt.size() && h.nev[k] == ev, "first-of wait %d: index %d with the input of another event", i, x.index);
        VF_CHECK(h.nt[k].hi > h.sub[i].lo, "first-of wait %d woken by notification %d, which ended before it", i, k);
      } else VF_CHECK(x.by == -3, "first-of wait %d: wrong input", i);
      // had it to wake up earlier?  inline executors run before notify returns
      for (size_t j = 0; j < h.nt.size(); ++j)
        for (int ee : es)
          if (h.nev[j] == ee && h.nt[j].lo > h.sub[i].hi && ev != 2 && (int)j != x.by && h.nt[j].hi < h.nt[x.by].lo) {
            // a notification on a worker only hands over (it decides when the worker runs it), and another notification
            // that began before may have collected the waiters of this event and not run them yet
            bool handed = false;
            for (auto& v : ops)
              for (auto& o : v) handed |= o.kind == OP_NOTIFY && o.how == 1;
            for (size_t q = 0; q < h.nt.size(); ++q)
              if (h.nev[q] == ee && h.nt[q].lo < h.nt[j].hi && h.nt[q].hi > h.nt[x.by].lo) handed = true;
            if (!handed) vf::fail("first-of wait %d slept through notification %d and was woken by the later %d", i, (int)j, x.by);
          }
    }
  }
  vf::label("waits", w.total);
  vf::label("notifications", h.nt.size());
  if (w.total && notifs >= 2 && nt >= 2 && vs_switches() >= 3) vf::nontrivial();
}

// ---------------------------------------------------------------- C17
struct LatchWorld {
  int total = 0, data[8] = {}, dec[8] = {}, n_down = 0;  // dec: by how much; a count-down by 0 precedes nothing
  std::vector<int> woken;
};
enum { L_BEGUN = 10, L_ENDED = 11, L_WOKEN = 12 };

dd::job latch_waiter(LatchWorld& w, dd::latch& l, int id, int arrive, int slot, bool inline_exec) {
  int tid0 = vs_self();
  bool at_once = false;
  if (arrive >= 0) {
    w.data[slot] = slot + 1;
    vs_add(L_BEGUN, arrive);
    co_await l.arrive_and_wait(arrive);
  } else {
    auto a = l.wait();
    at_once = a.await_ready();  // looks only; await below decides
    co_await std::move(a);
  }
  VF_CHECK(vs_get(L_BEGUN) == w.total, "waiter %d continues at count %d of %d", id, vs_get(L_BEGUN), w.total);
  for (int i = 0; i < w.n_down; ++i)
    if (w.dec[i]) VF_CHECK(w.data[i] == i + 1, "waiter %d does not see what happened before count-down %d", id, i);
  // after the data: it synchronises
  VF_CHECK(l.ready(), "waiter %d continues, latch not ready", id);
  if (at_once) VF_CHECK(vs_self() == tid0, "waiter %d: latch was ready, it moved to another thread", id);
  if (!inline_exec && vs_self() != tid0) VF_CHECK(vs_self() >= vs_get(20) && vs_self() < vs_get(21), "waiter %d continues on a thread of a count-down, not on the executor", id);
  VF_CHECK(++w.woken[id] == 1, "waiter %d continued %d times", id, w.woken[id]);
  vs_add(L_WOKEN, 1);
}

VF_MODE(latch_mt, 20, true,
        "1-4 threads wait, count down by any amounts, arrive-and-wait and poll one latch (executor: inline or 1-2 workers) under a random schedule; "
        "non-trivial: >=1 waiter, >=2 threads, >=3 switches") {
  LatchWorld w;
  int nt = vf::range(1, 4), nw = vf::range(1, 2);
  bool inl = vf::chance(1, 3);
  struct LOp {
    int kind, n, id, slot;
  };
  std::vector<std::vector<LOp>> ops(nt);
  int waiters = 0;
  for (int t = 0; t < nt; ++t) {
    int n = vf::range(1, 3);
    for (int i = 0; i < n; ++i) {
      static const uint32_t ww[] = {4, 4, 3, 2, 1};
      LOp o{(int)vf::pick_w(ww, 5), 0, 0, 0};
      if (o.kind == 1 || o.kind == 2) {
        if (w.n_down >= 8) o.kind = 0;
        else {
          o.slot = w.n_down++;
          o.n = vf::chance(1, 8) ? 0 : 1 + vf::small(2);
          w.dec[o.slot] = o.n;
          w.total += o.n;
        }
      }
      if (o.kind == 0 || o.kind == 2) o.id = waiters++;
      static const char* kn[] = {"wait", "count_down", "arrive_and_wait", "ready?", "yield"};
      vf::desc("T%d: %s", t, kn[o.kind]);
      if (o.kind == 1 || o.kind == 2) vf::desc(" %d", o.n);
      if (o.kind == 0 || o.kind == 2) vf::desc(" (waiter %d)", o.id);
      vf::desc("\n");
      ops[t].push_back(o);
    }
  }
  vf::desc("initial count %d, %s\n", w.total, inl ? "inline executor" : "workers");
  w.woken.resize(waiters);
  {
    vs::Run run;
    vs_set(20, 1);
    mt::Crew crew(nw);
    vs_set(21, 1 + nw);
    InlineExec ie;
    CrewExec ce{&crew, 0};
    dd::latch l(w.total, inl ? dd::any_executor_ref(ie) : dd::any_executor_ref(ce));
    auto client = [&](int t) {
      for (auto& o : ops[t]) switch (o.kind) {
          case 0: latch_waiter(w, l, o.id, -1, 0, inl); break;
          case 1:
            w.data[o.slot] = o.slot + 1;
            vs_add(L_BEGUN, o.n);
            l.count_down(o.n);
            vs_add(L_ENDED, o.n);
            break;
          case 2:
            latch_waiter(w, l, o.id, o.n, o.slot, inl);
            vs_add(L_ENDED, o.n);
            break;
          case 3: {
            bool must = vs_get(L_ENDED) == w.total;
            bool r = l.ready();
            VF_CHECK(!must || r, "every count-down is over, the latch is not ready");
            VF_CHECK(!r || vs_get(L_BEGUN) == w.total, "the latch is ready at count %d of %d", vs_get(L_BEGUN), w.total);
            for (int i = 0; r && i < w.n_down; ++i)
              if (w.dec[i]) VF_CHECK(w.data[i] == i + 1, "ready, but what happened before count-down %d is not visible", i);
            break;
          }
          case 4: vs_yield();
        }
    };
    std::vector<std::vs_thread> ts;
    for (int t = 1; t < nt; ++t) ts.emplace_back([&, t] { client(t); });
    client(0);
    for (auto& t : ts) t.join();
    VF_CHECK(l.ready(), "every count-down is over, the latch is not ready");
    crew.quiesce();
    [](dd::latch& l, bool inl) -> dd::job {  // the executor it reports is the one it uses
      dd::any_executor_ref e = l.get_executor();
      (void)co_await dd::jump_on(e);
      VF_CHECK(inl ? vs_self() == 0 : vs_self() >= vs_get(20) && vs_self() < vs_get(21), "the latch reports another executor than it was given");
    }(l, inl);
    crew.quiesce();
    VF_CHECK(vs_get(L_WOKEN) == waiters, "%d of %d waiters continued although the count is zero", vs_get(L_WOKEN), waiters);
    crew.stop();
  }
  for (int i = 0; i < waiters; ++i) VF_CHECK(w.woken[i] == 1, "waiter %d continued %d times", i, w.woken[i]);
  vf::label("waiters", waiters);
  if (waiters && nt >= 2 && vs_switches() >= 3) vf::nontrivial();
}

}  // namespace
