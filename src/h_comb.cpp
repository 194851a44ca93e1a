// C13 when_all and C14 when_any over tasks, sequentially and on several threads (also C10 for combinators).
#include "mt.hpp"
#include "progs.hpp"
#include <any>
#include <optional>

namespace {

struct Tok {
  VF_NO_SHORTCUTS(Tok)
  std::unique_ptr<int> p;
  Tok() = default;
  explicit Tok(int v) : p(std::make_unique<int>(v)) {}
};
using EP = std::exception_ptr;  // also as a value: success and failure of the same type
EP make_ep(int id) {
  try {
    px::do_throw(id);
  } catch (...) {
    return std::current_exception();
  }
  return nullptr;
}
enum { EV_END = 1, EV_RESUMED = 2, EV_AWAITER = 3 };

struct Body {
  int id = 0, sus = 0, v = 0, where[4] = {};
  bool exc = false, pre = false;  // pre: throws before anything else when exc
  int inner = 0;                  // 1 awaits an all-of of two tasks first, 2 a first-of
  int begun = 0, finished = 0, dead = 0, eff = 0;
  std::exception_ptr ex;
  int n_owner = 0, n_start = 0, n_end = 0;
  void* owner = nullptr;
  int end_idx = -1, begin_idx = -1;
};
// context recording into the body
struct Cx {
  VF_NO_SHORTCUTS(Cx)
  Body* b = nullptr;
  template <typename O, typename T>
  void on_owner_setted(std::coroutine_handle<O> o, std::coroutine_handle<T>) noexcept {
    if (!b) return;
    b->n_owner++;
    b->owner = o.address();
    VF_CHECK(b->n_owner == 1 && b->n_start == 0 && b->begun == 0, "task %d: owner announced %d times or after the start", b->id, b->n_owner);
  }
  template <typename T>
  void on_start(std::coroutine_handle<T>) noexcept {
    if (!b) return;
    b->n_start++;
    VF_CHECK(b->n_start == 1 && b->n_owner == 1 && b->begun == 0, "task %d: start hook: start %d owner %d", b->id, b->n_start, b->n_owner);
  }
  template <typename T>
  void on_end(std::coroutine_handle<T>) noexcept {
    if (!b) return;
    b->n_end++;
    VF_CHECK(b->n_end == 1 && b->finished == 1, "task %d: end hook: fired %d times, body finished %d", b->id, b->n_end, b->finished);
  }
};
struct Guard {
  Body* b;
  explicit Guard(Body& b) : b(&b) {}
  Guard(Guard&& o) noexcept : b(std::exchange(o.b, nullptr)) {}
  ~Guard() {
    if (!b) return;
    VF_CHECK(++b->dead == 1, "body %d destroyed twice", b->id);
  }
};

struct World {
  mt::Crew* crew = nullptr;
  struct P {
    std::coroutine_handle<> h;
    int id;
  };
  std::vector<P> parked;
  int seq_end = 0;
};
struct Sus {
  World& w;
  int k, id;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) {
    if (w.crew) w.crew->post(k, h);
    else w.parked.push_back({h, id});
  }
  void await_resume() const noexcept {}
};

template <typename T>
dd::task<T, Cx> body(World& w, Body& b, Guard g);

template <typename T>
dd::task<T, Cx> make(World& w, Body& b) {
  auto t = body<T>(w, b, Guard(b));
  t.get_context()->b = &b;
  return t;
}
dd::task<int, Cx> leaf(World& w, int k, int v) {
  co_await Sus{w, k, -1};
  if (v < 0) px::do_throw(-v);
  co_return v;
}
template <typename T>
dd::task<T, Cx> body(World& w, Body& b, Guard g) {
  VF_CHECK(++b.begun == 1, "body %d began %d times", b.id, b.begun);
  b.begin_idx = vs_log(0, b.id, 0, 0);
  VF_CHECK(b.n_start == 1 && b.n_owner == 1, "body %d runs, hooks: owner %d start %d", b.id, b.n_owner, b.n_start);
  if (b.inner == 1) {
    auto [x, y] = co_await dd::when_all(leaf(w, b.where[0], 7), leaf(w, b.where[1], -9));
    VF_CHECK(x.has_value() && *x == 7 && !y && px::exc_id(y.error()) == 9, "inner all-of: wrong outcome");
  } else if (b.inner == 2) {
    auto r = co_await dd::when_any(leaf(w, b.where[0], -6), leaf(w, b.where[1], 8));
    VF_CHECK(r.index() == 2 && std::get<2>(r).has_value() && *std::get<2>(r) == 8, "inner first-of: wrong outcome");
  }
  for (int i = 0; i < b.sus; ++i) {
    co_await Sus{w, b.where[i & 3], b.id};
    b.eff++;
  }
  b.eff += 1000;
  b.finished = 1;
  b.end_idx = vs_log(EV_END, b.id, 0, 0);
  struct E {
    ~E() { vs_add(0, 1); }
  } e;
  if (b.exc) {
    try {
      px::do_throw(b.v);
    } catch (...) {
      b.ex = std::current_exception();
      throw;
    }
  }
  if constexpr (std::is_void_v<T>) co_return;
  else if constexpr (std::is_same_v<T, EP>) co_return make_ep(b.v);
  else if constexpr (std::is_same_v<T, std::any>) co_return std::any(b.v);
  else if constexpr (std::is_same_v<T, int>) co_return b.v;
  else co_return Tok(b.v);
}
void visible(Body& b, const char* who) {
  VF_CHECK(b.begun == 1 && b.finished == 1 && b.eff == 1000 + b.sus && b.n_end == 1, "%s: task %d: begun %d finished %d effects %d ended %d", who,
           b.id, b.begun, b.finished, b.eff, b.n_end);
}
template <typename T>
void check_expected1(dd::expected<T, std::exception_ptr>& e, Body& b, const char* who) {
  visible(b, who);
  VF_CHECK(e.has_value() == !b.exc && bool(e) == !b.exc, "%s: outcome of task %d is %s", who, b.id, b.exc ? "a value, it failed" : "a failure, it succeeded");
  const auto& ce = e;
  if (b.exc) {
    VF_CHECK(e.error() == b.ex && ce.error() == b.ex, "%s: task %d: another exception", who, b.id);
    VF_CHECK(px::exc_id(e.error()) == b.v, "%s: task %d: wrong exception", who, b.id);
  } else if constexpr (std::is_same_v<T, EP>) VF_CHECK(px::exc_id(*e) == b.v && px::exc_id(*ce) == b.v, "%s: outcome of task %d is another value", who, b.id);
  else if constexpr (std::is_same_v<T, std::any>) VF_CHECK(std::any_cast<int>(&*e) && *std::any_cast<int>(&*e) == b.v, "%s: outcome of task %d is another value", who, b.id);
  else if constexpr (std::is_same_v<T, int>) VF_CHECK(*e == b.v && *ce == b.v, "%s: outcome of task %d is %d, expected %d", who, b.id, *e, b.v);
  else if constexpr (std::is_same_v<T, Tok>) VF_CHECK((*e).p && *(*e).p == b.v, "%s: outcome of task %d is wrong", who, b.id);
}

template <typename T>
void check_expected(dd::expected<T, std::exception_ptr>& e, Body& b, const char* who) {
  check_expected1<T>(e, b, who);
  if constexpr (!std::is_same_v<T, Tok>) {  // users copy and assign outcomes
    auto copy = e;
    dd::expected<T, std::exception_ptr> copy2(std::as_const(copy)), other;
    other = copy;
    check_expected1<T>(copy, b, who);
    check_expected1<T>(copy2, b, who);
    check_expected1<T>(other, b, who);
  }
  auto moved = std::move(e);
  check_expected1<T>(moved, b, who);
  e = std::move(moved);
  check_expected1<T>(e, b, who);
}

// awaiter of the combination
struct Own {
  struct promise_type {
    Own get_return_object() { return Own{std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { vf::fail("unexpected exception %d in the awaiting coroutine", px::current_exc_id()); }
  };
  std::coroutine_handle<promise_type> h;
};

struct Case {
  World w;
  std::vector<std::unique_ptr<Body>> bs;
  Body comb;  // the combinator's own task
  int resumed = 0, win = -1;
  bool completed = false;
  bool mtmode = false;
  int workers = 1;

  int n() const { return (int)bs.size(); }
  void gen(int k, bool mt) {
    mtmode = mt;
    workers = mt ? vf::range(1, 3) : 1;
    int fail_style = vf::pick(4);  // 0 few failures, 1 half, 2 nearly all, 3 all
    for (int i = 0; i < k; ++i) {
      auto b = std::make_unique<Body>();
      b->id = i;
      b->v = 10 + 3 * i + vf::pick(3);
      b->sus = vf::small(3);
      static const int num[] = {1, 4, 7, 8};
      b->exc = vf::chance(num[fail_style], 8);
      for (int& x : b->where) x = vf::pick(workers);
      b->inner = vf::chance(1, 6) ? 1 + vf::pick(2) : 0;
      vf::desc("task %d: %ssuspends %d times, %s (%d)\n", i, b->inner == 1 ? "inner all-of, " : b->inner == 2 ? "inner first-of, " : "", b->sus,
               b->exc ? "throws" : "returns", b->v);
      bs.push_back(std::move(b));
    }
  }
  void hooks_all(void* comb_handle) {
    for (auto& b : bs) VF_CHECK(b->owner == comb_handle, "task %d: the announced owner is not the combinator's task", b->id);
  }
  // sequential: run until everything parked was resumed
  template <typename F>
  void drain(F&& between) {
    between();
    while (!w.parked.empty()) {
      size_t i = vf::pick(w.parked.size());
      auto p = w.parked[i];
      vf::desc("resume %d\n", p.id);
      w.parked.erase(w.parked.begin() + i);
      p.h.resume();
      between();
    }
  }
  void final_checks(bool all_must_run) {
    for (auto& b : bs) {
      VF_CHECK(b->dead == 1, "body %d destroyed %d times", b->id, b->dead);
      VF_CHECK(b->begun == b->finished, "body %d began %d times, finished %d times", b->id, b->begun, b->finished);
      if (all_must_run) VF_CHECK(b->begun == 1, "body %d never ran", b->id);
      b->ex = nullptr;
    }
  }
};

// ------------------------------------------------------------ all-of
template <typename... Ts, size_t... I>
auto mk_all(Case& c, std::index_sequence<I...>) {
  return dd::when_all(make<Ts>(c.w, *c.bs[I])...);
}
template <typename... Ts>
void check_all(Case& c, std::tuple<dd::expected<Ts, std::exception_ptr>...>& r) {
  [&]<size_t... I>(std::index_sequence<I...>) { (check_expected<Ts>(std::get<I>(r), *c.bs[I], "all-of"), ...); }(std::index_sequence_for<Ts...>{});
}
template <typename T>
void check_all(Case& c, std::vector<dd::expected<T, std::exception_ptr>>& r) {
  VF_CHECK((int)r.size() == c.n(), "all-of: %d outcomes for %d tasks", (int)r.size(), c.n());
  for (int i = 0; i < c.n(); ++i) check_expected<T>(r[i], *c.bs[i], "all-of");
}
template <typename Task>
Own await_all(Case& c, Task t) {
  auto r = co_await t;
  VF_CHECK(++c.resumed == 1, "the awaiter of all-of continued %d times", c.resumed);
  check_all(c, r);
  c.completed = true;
}
template <typename MkTask>
void run_all(Case& c, MkTask mk) {
  int unfinished_seen = 0;
  if (!c.mtmode) {
    auto t = mk();
    t.get_context()->b = &c.comb;
    for (auto& b : c.bs) VF_CHECK(!b->begun, "task %d ran before the combination was awaited", b->id);
    void* comb_h = t.raw_handle().address();
    c.comb.finished = 1;
    Own o = await_all(c, std::move(t));
    o.h.resume();
    for (auto& b : c.bs) VF_CHECK(b->begun == 1, "awaiting all-of did not start task %d", b->id);
    c.hooks_all(comb_h);
    c.drain([&] {
      int left = 0;
      for (auto& b : c.bs) left += !b->finished;
      unfinished_seen += left != 0;
      VF_CHECK(c.completed == (left == 0), left ? "all-of completed before all tasks ended" : "all tasks ended, all-of did not complete");
    });
    VF_CHECK(o.h.done(), "all-of: awaiter did not finish");
    o.h.destroy();
  } else {
    bool by_get = vf::chance(1, 3);
    int hop = vf::pick(c.workers + 1) - 1;
    vf::desc("%s%s, %d workers\n", by_get ? "blocking get" : "awaited", by_get || hop < 0 ? "" : " on a worker", c.workers);
    vs::Run run;
    mt::Crew crew(c.workers);
    c.w.crew = &crew;
    c.comb.finished = 1;
    if (by_get) {
      auto t = mk();
      void* comb_h = t.raw_handle().address();
      t.get_context()->b = &c.comb;
      auto r = t.get();
      c.resumed++;
      check_all(c, r);
      c.hooks_all(comb_h);
    } else {
      auto t = mk();
      void* comb_h = t.raw_handle().address();
      t.get_context()->b = &c.comb;
      auto a = [](Case& c, auto t, int hop) -> dd::async_task<void> {
        if (hop >= 0) co_await c.w.crew->hop(hop);
        // the combination dies on the thread which completed it, the starting thread may still be on its way out
        std::optional<std::decay_t<decltype(t.get())>> r;
        {
          auto tt = std::move(t);
          r.emplace(co_await tt);
          VF_CHECK(++c.resumed == 1, "the awaiter of all-of continued %d times", c.resumed);
        }
        check_all(c, *r);
      }(c, std::move(t), hop);
      a.wait();
      a.get();
      c.hooks_all(comb_h);
    }
    VF_CHECK(c.resumed == 1, "all-of completed %d times", c.resumed);
    vs_wait_ge(0, c.n(), "all bodies");
    crew.stop();
    c.w.crew = nullptr;
  }
  VF_CHECK(c.comb.n_owner == 1 && c.comb.n_start == 1 && c.comb.n_end == 1, "hooks of the combinator's own task: owner %d start %d end %d",
           c.comb.n_owner, c.comb.n_start, c.comb.n_end);
  c.final_checks(true);
}

// ------------------------------------------------------------ first-of
template <typename... Ts, size_t... I>
auto mk_any(Case& c, std::index_sequence<I...>) {
  return dd::when_any(make<Ts>(c.w, *c.bs[I])...);
}
template <typename... Ts>
void check_any(Case& c, std::variant<std::monostate, dd::expected<Ts, std::exception_ptr>...>& r) {
  VF_CHECK(r.index() > 0 && r.index() <= sizeof...(Ts), "first-of: the result is the empty alternative");
  c.win = (int)r.index() - 1;
  [&]<size_t... I>(std::index_sequence<I...>) {
    (void)((c.win == (int)I ? (check_expected<Ts>(std::get<I + 1>(r), *c.bs[I], "first-of"), 0) : 0), ...);
  }(std::index_sequence_for<Ts...>{});
}
template <typename Task>
Own await_any(Case& c, Task t) {
  auto r = co_await t;
  VF_CHECK(++c.resumed == 1, "the awaiter of first-of continued %d times", c.resumed);
  check_any(c, r);
  c.completed = true;
}
template <typename MkTask>
void run_any(Case& c, MkTask mk) {
  c.comb.finished = 1;
  if (!c.mtmode) {
    auto t = mk();
    t.get_context()->b = &c.comb;
    bool abandon = vf::chance(1, 6);
    for (auto& b : c.bs) VF_CHECK(!b->begun, "task %d ran before the combination was awaited", b->id);
    Own o = await_any(c, std::move(t));
    o.h.resume();
    int expect = -1;
    bool gone = false;
    auto decide = [&] {
      if (expect >= 0) return;
      // first success in order of ending, or the last failure when all have failed
      int best = -1, last = -1, ended = 0;
      for (auto& b : c.bs)
        if (b->finished) {
          ++ended;
          if (!b->exc && (best < 0 || b->end_idx < c.bs[best]->end_idx)) best = b->id;
          if (last < 0 || b->end_idx > c.bs[last]->end_idx) last = b->id;
        }
      if (best >= 0) expect = best;
      else if (ended == c.n()) expect = last;
    };
    c.drain([&] {
      decide();
      if (!gone) {
        VF_CHECK(c.completed == (expect >= 0), expect >= 0 ? "first-of is decided, but its awaiter did not continue" : "first-of completed too early");
        if (c.completed) VF_CHECK(c.win == expect, "first-of reports task %d, expected %d", c.win, expect);
        for (auto& b : c.bs) VF_CHECK(b->begun || expect >= 0, "task %d was not started although nothing is decided", b->id);
        if (abandon && vf::chance(1, 3)) {
          vf::desc("the awaiting coroutine and the combination die\n");
          vf::label("combination dies");
          o.h.destroy();
          gone = true;
        }
      }
    });
    if (!gone) {
      VF_CHECK(o.h.done(), "first-of: awaiter did not finish");
      o.h.destroy();
    }
    for (auto& b : c.bs) VF_CHECK(b->begun || expect >= 0, "task %d never started", b->id);
    if (!gone)
      VF_CHECK(c.comb.n_owner == 1 && c.comb.n_start == 1 && c.comb.n_end == 1, "hooks of the combinator's own task: owner %d start %d end %d",
               c.comb.n_owner, c.comb.n_start, c.comb.n_end);
  } else {
    bool by_get = vf::chance(1, 3);
    int hop = vf::pick(c.workers + 1) - 1;
    vf::desc("%s%s, %d workers\n", by_get ? "blocking get" : "awaited", by_get || hop < 0 ? "" : " on a worker", c.workers);
    {
      vs::Run run;
      mt::Crew crew(c.workers);
      crew.after_resume = [] { vs_log(EV_RESUMED, 0, 0, 0); };
      c.w.crew = &crew;
      auto t = mk();
      t.get_context()->b = &c.comb;
      if (by_get) {
        auto r = t.get();
        c.resumed++;
        check_any(c, r);
      } else {
        auto a = [](Case& c, auto t, int hop) -> dd::async_task<void> {
        if (hop >= 0) co_await c.w.crew->hop(hop);
        // the combination dies on the thread which completed it, the starting thread may still be on its way out
        std::optional<std::decay_t<decltype(t.get())>> r;
        {
          auto tt = std::move(t);
          r.emplace(co_await tt);
          VF_CHECK(++c.resumed == 1, "the awaiter of first-of continued %d times", c.resumed);
        }
        check_any(c, *r);
      }(c, std::move(t), hop);
        a.wait();
        a.get();
      }
      VF_CHECK(c.resumed == 1, "first-of completed %d times", c.resumed);
      crew.quiesce();
      crew.stop();
      c.w.crew = nullptr;
    }
    // order: an outcome whose processing was over before another body ended came first
    auto hi = [&](int i) {
      Body& b = *c.bs[i];
      int tid = vs_log_at(b.end_idx).tid;
      for (int k = b.end_idx + 1; k < vs_nlog(); ++k)
        if (vs_log_at(k).kind == EV_RESUMED && vs_log_at(k).tid == tid) return k;
      return 1 << 30;
    };
    bool any_ok = false, never = false;
    for (auto& b : c.bs) any_ok |= b->finished && !b->exc, never |= !b->begun;
    Body& wb = *c.bs[c.win];
    VF_CHECK(!wb.exc == any_ok, "first-of reports a %s although %s", wb.exc ? "failure" : "value", any_ok ? "a task succeeded" : "all failed");
    VF_CHECK(!never || any_ok, "a task was dropped although none succeeded");
    for (int i = 0; i < c.n(); ++i) {
      Body& b = *c.bs[i];
      if (i == c.win || !b.finished) continue;
      if (!wb.exc && !b.exc) VF_CHECK(hi(i) > wb.end_idx, "first-of reports task %d, but task %d had succeeded long before", c.win, i);
      if (wb.exc) VF_CHECK(hi(c.win) > b.end_idx, "first-of reports the failure of task %d, but task %d failed later", c.win, i);
    }
  }
  c.final_checks(false);
}

template <typename... Ts>
struct Pack {};
template <typename F>
void with_pack(F&& f) {
  switch (vf::pick(10)) {
    case 0: return f(Pack<int>{});
    case 1: return f(Pack<int, Tok>{});
    case 2: return f(Pack<void, int>{});
    case 3: return f(Pack<Tok, void, int>{});
    case 4: return f(Pack<int, int, int>{});
    case 5: return f(Pack<int, Tok, void, int>{});
    case 6: return f(Pack<void, void>{});
    case 7: return f(Pack<EP, int, EP>{});
    case 8: return f(Pack<std::any, EP, void>{});
    default: return f(Pack<int, int, int, int, int>{});
  }
}
void mark(Case& c) {
  int susp = 0, exc = 0;
  for (auto& b : c.bs) susp += b->sus > 0, exc += b->exc;
  vf::label("tasks", c.n());
  if (exc) vf::label("with failures");
  if (exc == c.n() && exc) vf::label("all fail");
  if (!susp) vf::label("all synchronous");
  if (c.n() >= 2 && (susp || exc)) vf::nontrivial();
}
void do_all(bool mt) {
  Case c;
  if (vf::chance(1, 2)) {
    int n = vf::small(6);
    c.gen(n, mt);
    auto go = [&]<typename T>() {
      run_all(c, [&] {
        std::vector<dd::task<T, Cx>> v;
        for (auto& b : c.bs) v.push_back(make<T>(c.w, *b));
        return dd::when_all(std::move(v));
      });
    };
    int ty = vf::pick(5);
    static const char* tn[] = {"int", "void", "move-only", "exception_ptr", "any"};
    vf::desc("list of %s tasks\n", tn[ty]);
    if (ty == 0) go.template operator()<int>();
    else if (ty == 1) go.template operator()<void>();
    else if (ty == 3) go.template operator()<EP>();
    else if (ty == 4) go.template operator()<std::any>();
    else go.template operator()<Tok>();
  } else {
    with_pack([&]<typename... Ts>(Pack<Ts...>) {
      c.gen(sizeof...(Ts), mt);
      run_all(c, [&] { return mk_all<Ts...>(c, std::index_sequence_for<Ts...>{}); });
    });
  }
  mark(c);
}
void do_any(bool mt) {
  Case c;
  with_pack([&]<typename... Ts>(Pack<Ts...>) {
    c.gen(sizeof...(Ts), mt);
    run_any(c, [&] { return mk_any<Ts...>(c, std::index_sequence_for<Ts...>{}); });
  });
  mark(c);
}

VF_MODE(all_seq, 200, true,
        "when_all over 0-6 tasks (list) or 1-5 tasks of mixed types (arguments) that suspend, fail or complete synchronously, resumed in random "
        "order; non-trivial: >=2 tasks and at least one suspends or fails") {
  do_all(false);
}
VF_MODE(any_seq, 200, true,
        "when_any over 1-5 tasks of mixed types that suspend, fail or complete synchronously, resumed in random order, sometimes the "
        "combination dies while it waits; non-trivial: >=2 tasks and at least one suspends or fails") {
  do_any(false);
}
VF_MODE(all_mt, 20, true, "as all_seq, bodies hop between 1-3 workers, awaited or blocked on, random schedule; same rule") { do_all(true); }
VF_MODE(any_mt, 20, true, "as any_seq, bodies hop between 1-3 workers, awaited or blocked on, random schedule; same rule") { do_any(true); }

}  // namespace
