// Random programs of awaiting coroutines (tasks that await tasks), run sequentially (they park, the case resumes
// them) or on several controlled threads (they hop to the workers of a Crew).
#pragma once
#include "vs_kelcoro.hpp"
#include "mt.hpp"
#include "progs.hpp"

namespace tp {

using px::do_throw;
using px::current_exc_id;

// result types
enum RT { RT_VOID, RT_INT, RT_REF, RT_TOK, RT_N };
struct Tok {  // move-only, owns memory
  VF_NO_SHORTCUTS(Tok)
  std::unique_ptr<int> p;
  Tok() = default;
  explicit Tok(int v) : p(std::make_unique<int>(v)) {}
};

struct Cell {  // what a reference result refers to
  VF_NO_SHORTCUTS(Cell)
  int v;
  Cell(int v = 0) : v(v) {}
  operator int() const { return v; }
};

// awaiting manners of a child
enum Manner {
  M_AWAIT, M_PRVALUE, M_WAIT_AWAIT, M_WAIT_GET, M_WAIT_IGNORE, M_PROXY, M_TWICE, M_UNSTARTED, M_DETACH, M_DETACH_STOP, M_RAW, M_N
};
inline const char* mname(int m) {
  static const char* n[] = {"await", "await prvalue", "wait+await", "wait+get", "wait, ignore", "wait with proxy owner+await",
                            "await twice", "never start", "start and detach", "start and detach, stop at end", "detach+resume"};
  return n[m];
}
// odd: ends with an exception
enum End { E_VALUE, E_THROW, E_RVO, E_RVO_THROW, E_RVO_VALUE, E_CONV_THROW, E_UNUSED, E_RVO_CONV_THROW };
template <typename T>
struct ConvThrow {  // the conversion to the result type fails
  int v;
  operator T() const {
    do_throw(v);
    return T();
  }
};

struct Prog;
struct Step {
  int kind = 0;  // 0 suspend, 1 child
  int where = 0;
  int manner = 0;
  bool propagate = false;  // a failure of the child ends this body too
  std::shared_ptr<Prog> child;
};
struct Prog {
  int id = 0, rt = 0, end = 0, v = 0;
  std::vector<Step> st;
  // expected outcome
  bool exc = false;
  int exc_id = 0;
  bool suspends = false;  // may suspend when run
  Cell cell;              // what a reference result refers to
};

struct Opts {
  bool detach = true;
  bool rvo = true;
  int budget = 14;
  int depth = 3;
  int sus_w = 3;
  int workers = 1;
};
struct Gen {
  Opts o;
  int next_id = 0, left = 0;
  std::vector<Prog*> all;

  std::shared_ptr<Prog> make(int depth, int rt = -1) {
    auto p = std::make_shared<Prog>();
    p->id = next_id++;
    all.push_back(p.get());
    p->rt = rt >= 0 ? rt : (int)vf::pick(RT_N);
    static const uint32_t we[] = {6, 2, 2, 1, 1, 1, 0, 1};
    p->end = vf::pick_w(we, 8);
    if (p->rt == RT_REF && p->end > E_RVO_VALUE) p->end = E_RVO_THROW;
    if (!o.rvo || p->rt == RT_VOID) p->end &= 1;
    p->v = 1 + p->id * 10 + (int)vf::pick(5);
    p->exc = p->end & 1;
    p->exc_id = p->v;
    int n = vf::small(3);
    for (int i = 0; i < n && left > 0; ++i) {
      --left;
      Step s;
      uint32_t w[] = {(uint32_t)o.sus_w, depth > 0 ? 3u : 0u};
      s.kind = vf::pick_w(w, 2);
      if (s.kind == 0) {
        s.where = vf::pick(o.workers);
        p->suspends = true;
      } else {
        static const uint32_t wm[] = {4, 3, 2, 2, 1, 2, 2, 1, 1, 1, 1};
        s.manner = vf::pick_w(wm, M_N);
        if (!o.detach && s.manner >= M_DETACH) s.manner = M_AWAIT;
        s.child = make(depth - 1);
        s.propagate = vf::chance(1, 4);
        if (s.manner < M_UNSTARTED && s.child->suspends) p->suspends = true;
        if (s.propagate && s.child->exc && s.manner < M_UNSTARTED && s.manner != M_WAIT_IGNORE) {
          p->exc = true;
          p->exc_id = s.child->exc_id;
          p->st.push_back(s);
          break;  // nothing after it runs
        }
      }
      p->st.push_back(std::move(s));
    }
    return p;
  }
};
inline void describe(const Prog& p, int ind = 0) {
  static const char* rts[] = {"void", "int", "int&", "Tok"};
  static const char* ends[] = {"value", "throw", "return place", "return place then throw", "the place and another value",
                               "a value whose conversion throws", "", "the place and a value whose conversion throws"};
  vf::desc("%*sbody %d -> %s: ends with %s (%d)\n", ind, "", p.id, rts[p.rt], ends[p.end], p.v);
  for (auto& s : p.st) {
    if (s.kind == 0) vf::desc("%*ssuspend @%d\n", ind + 2, "", s.where);
    else {
      vf::desc("%*schild, %s%s\n", ind + 2, "", mname(s.manner), s.propagate ? ", failure propagates" : "");
      describe(*s.child, ind + 4);
    }
  }
}

struct B {  // what happened to one body; accessed by its coroutine and by whoever legally learned it has finished
  bool allowed = false;
  int begun = 0, finished = 0;
  Cell other;
  int param_dead = 0, local_dead = 0;
  std::exception_ptr ex;
  void* place = nullptr;
  // hooks
  bool owner_expected = false, start_expected = false;
  void* exp_owner = nullptr;  // null with owner_expected: any
  void* exp_self = nullptr;
  int h_owner = 0, h_start = 0, h_end = 0;
  void* ctx = nullptr;
};
struct World;
struct Sus;

struct World {
  std::vector<B> b;
  mt::Crew* crew = nullptr;
  std::vector<Sus*> parked;
  void* proxy = nullptr;  // frame of some coroutine used as a proxy owner
  int finish_cell = -1;   // vs cell counting finished bodies
  // bodies whose finished frames are left to a holder
  std::vector<std::pair<std::coroutine_handle<>, int>> held;  // sequential only
  std::vector<std::coroutine_handle<>> mt_held;               // preallocated per id in mt runs
};

struct Guard {
  World* w;
  int id;
  bool local;
  Guard(World& w, int id, bool local) : w(&w), id(id), local(local) {}
  Guard(Guard&& o) noexcept : w(std::exchange(o.w, nullptr)), id(o.id), local(o.local) {}
  ~Guard() {
    if (!w) return;
    int& n = local ? w->b[id].local_dead : w->b[id].param_dead;
    VF_CHECK(++n == 1, "%s of body %d destroyed twice", local ? "locals" : "arguments", id);
  }
};

struct Sus {  // suspension point: parks or hops
  World& w;
  int k;
  std::coroutine_handle<> h{};
  Sus(World& w, int k) : w(w), k(k) {}
  Sus(const Sus&) = delete;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> c) {
    if (w.crew) {
      w.crew->post(k, c);
      return;
    }
    h = c;
    w.parked.push_back(this);
  }
  void await_resume() noexcept {}
  ~Sus() {
    if (w.crew) return;
    auto it = std::find(w.parked.begin(), w.parked.end(), this);
    if (it != w.parked.end()) w.parked.erase(it);
  }
};
inline void resume_parked(World& w, size_t i) {
  Sus* s = w.parked[i];
  w.parked.erase(w.parked.begin() + i);
  s->h.resume();
}

// plain coroutine of the harness that awaits tasks; destroyed by its holder
struct Own {
  struct promise_type {
    bool ended = false;
    Own get_return_object() { return Own{std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { vf::fail("unexpected exception %d in an awaiting coroutine", current_exc_id()); }
  };
  std::coroutine_handle<promise_type> h;
};

// recording context
struct Rec {
  VF_NO_SHORTCUTS(Rec)
  World* w = nullptr;
  int id = -1;
  Rec() = default;
  Rec(const Rec&) = delete;

  template <typename O, typename T>
  void on_owner_setted(std::coroutine_handle<O> o, std::coroutine_handle<T> t) noexcept {
    B& b = w->b[id];
    VF_CHECK(std::addressof(t.promise().ctx) == this, "body %d: owner announced on another context object", id);
    VF_CHECK(b.owner_expected, "body %d: an owner was announced, but nobody awaits it", id);
    VF_CHECK(o.address() && (!b.exp_owner || o.address() == b.exp_owner), "body %d: wrong owner announced", id);
    VF_CHECK(!b.exp_self || t.address() == b.exp_self, "body %d: owner announced with another task's handle", id);
    VF_CHECK(++b.h_owner == 1, "body %d: owner announced %d times", id, b.h_owner);
    VF_CHECK(b.h_start == 0 && b.begun == 0, "body %d: owner announced after the start", id);
  }
  template <typename T>
  void on_start(std::coroutine_handle<T> t) noexcept {
    B& b = w->b[id];
    VF_CHECK(std::addressof(t.promise().ctx) == this, "body %d: start on another context object", id);
    VF_CHECK(!b.exp_self || t.address() == b.exp_self, "body %d: start with another task's handle", id);
    VF_CHECK(b.start_expected, "body %d: unexpected start hook", id);
    VF_CHECK(b.h_owner == (b.owner_expected ? 1 : 0), "body %d: start hook, but owner announced %d times", id, b.h_owner);
    VF_CHECK(++b.h_start == 1, "body %d: start hook fired %d times", id, b.h_start);
    VF_CHECK(b.begun == 0, "body %d: start hook after the body began", id);
  }
  template <typename T>
  void on_end(std::coroutine_handle<T> t) noexcept {
    B& b = w->b[id];
    VF_CHECK(std::addressof(t.promise().ctx) == this, "body %d: end on another context object", id);
    VF_CHECK(!b.exp_self || t.address() == b.exp_self, "body %d: end with another task's handle", id);
    VF_CHECK(b.finished == 1 && b.local_dead == 1, "body %d: end hook before the body ended", id);
    VF_CHECK(++b.h_end == 1, "body %d: end hook fired %d times", id, b.h_end);
    VF_CHECK(b.param_dead == 0, "body %d: end hook after the frame was destroyed", id);
  }
};

template <int R>
using result_of = std::conditional_t<R == RT_VOID, void, std::conditional_t<R == RT_INT, int, std::conditional_t<R == RT_REF, Cell&, Tok>>>;
template <int R, typename C>
using task_of = dd::task<result_of<R>, C>;

template <typename C>
constexpr bool has_rec = std::is_same_v<C, Rec>;

template <int R, typename C>
task_of<R, C> tbody(World& w, const Prog& p, Guard param);

// creates the task of a program and prepares its bookkeeping
template <int R, typename C>
task_of<R, C> make_task(World& w, const Prog& p) {
  task_of<R, C> t = tbody<R, C>(w, p, Guard(w, p.id, false));
  B& b = w.b[p.id];
  VF_CHECK(!t.empty() && t && t.get_context(), "fresh task %d is empty", p.id);
  if constexpr (has_rec<C>) {
    t.get_context()->w = &w;
    t.get_context()->id = p.id;
    b.ctx = t.get_context();
  }
  b.exp_self = t.raw_handle().address();
  VF_CHECK(b.begun == 0, "body %d ran when it was created", p.id);
  return t;
}

// started and its awaiter goes on: everything must be over
template <typename C>
void check_over(World& w, const Prog& p) {
  B& b = w.b[p.id];
  VF_CHECK(b.begun == 1, "awaiter of %d continues, body began %d times", p.id, b.begun);
  VF_CHECK(b.finished == 1 && b.local_dead == 1, "awaiter of %d continues before its body finished", p.id);
  if constexpr (has_rec<C>) {
    VF_CHECK(b.h_end == 1, "awaiter of %d continues, end hook fired %d times", p.id, b.h_end);
    VF_CHECK(b.h_start == (b.start_expected ? 1 : 0), "body %d: start hook fired %d times", p.id, b.h_start);
    VF_CHECK(b.h_owner == (b.owner_expected ? 1 : 0), "body %d: owner announced %d times", p.id, b.h_owner);
  }
}
template <typename T>
void check_value(World& w, const Prog& p, T&& r) {  // r: what the awaiter got
  VF_CHECK(!p.exc, "body %d threw, but its awaiter got a value", p.id);
  using D = std::remove_cvref_t<T>;
  if constexpr (std::is_same_v<D, Tok>) VF_CHECK(r.p && *r.p == p.v, "body %d: result is %d, expected %d", p.id, r.p ? *r.p : -1, p.v);
  else VF_CHECK(r == p.v, "body %d: result is %d, expected %d", p.id, r, p.v);
}
inline void check_failure(World& w, const Prog& p) {  // inside a handler
  int id = current_exc_id();
  VF_CHECK(p.exc, "body %d returned, but its awaiter got exception %d", p.id, id);
  VF_CHECK(id == p.exc_id, "body %d: awaiter got exception %d, expected %d", p.id, id, p.exc_id);
  VF_CHECK(std::current_exception() == w.b[p.id].ex, "body %d: awaiter got another exception object", p.id);
}
template <int R, typename C>
void expect_awaited(World& w, const Prog& p, void* owner) {
  B& b = w.b[p.id];
  b.allowed = true;
  b.owner_expected = b.start_expected = true;
  b.exp_owner = owner;
}
// takes the result of a done task from its promise
template <int R, typename C, typename GetFn>
void check_get(World& w, const Prog& p, GetFn&& fn, bool by_ref = false) {
  try {
    if constexpr (R == RT_VOID) {
      fn();
      VF_CHECK(!p.exc, "body %d threw, but its awaiter got a value", p.id);
    } else {
      decltype(auto) r = fn();
      check_value(w, p, r);
      if constexpr (R == RT_REF) VF_CHECK(std::addressof(r) == std::addressof(p.cell), "body %d: reference to another object", p.id);
    }
  } catch (...) {
    check_failure(w, p);
  }
}

// awaits child t in the manner of the step; used inside coroutine bodies with `self` = own frame address.
// sets failed when the failure must propagate
#define TP_AWAIT_CHECKED(EXPR)                                                                                  \
  try {                                                                                                         \
    if constexpr (CR == RT_VOID) {                                                                              \
      EXPR;                                                                                                     \
      tp::check_over<C>(w, cp);                                                                                 \
      VF_CHECK(!cp.exc, "body %d threw, but its awaiter got a value", cp.id);                                   \
    } else {                                                                                                    \
      auto&& r = EXPR;                                                                                          \
      tp::check_over<C>(w, cp);                                                                                 \
      tp::check_value(w, cp, r);                                                                                \
      if constexpr (CR == RT_REF) VF_CHECK(std::addressof(r) == std::addressof(cp.cell), "body %d: reference to another object", cp.id); \
      else if (cp.end == tp::E_RVO)                                                                             \
        VF_CHECK((void*)std::addressof(r) == w.b[cp.id].place, "body %d: result is not at the return place", cp.id); \
    }                                                                                                           \
  } catch (...) {                                                                                               \
    tp::check_over<C>(w, cp);                                                                                   \
    tp::check_failure(w, cp);                                                                                   \
    if (s.propagate) throw;                                                                                     \
  }

// by value from a temporary task
#define TP_AWAIT_PRVALUE(EXPR)                                                          \
  try {                                                                                 \
    if constexpr (CR == RT_VOID) {                                                      \
      EXPR;                                                                             \
      VF_CHECK(!cp.exc, "body %d threw, but its awaiter got a value", cp.id);           \
    } else if constexpr (CR == RT_REF) {                                                \
      Cell& r = EXPR;                                                                   \
      VF_CHECK(std::addressof(r) == std::addressof(cp.cell), "body %d: reference to another object", cp.id);\
      tp::check_value(w, cp, r);                                                        \
    } else {                                                                            \
      auto r = EXPR;                                                                    \
      tp::check_value(w, cp, r);                                                        \
    }                                                                                   \
    tp::check_over<C>(w, cp);                                                           \
  } catch (...) {                                                                       \
    tp::check_over<C>(w, cp);                                                           \
    tp::check_failure(w, cp);                                                           \
    if (s.propagate) throw;                                                             \
  }

struct Sched {};

template <int CR, typename C>
void tp_detached(World& w, const Prog& cp, int manner) {
  B& b = w.b[cp.id];
  if (manner == M_DETACH || manner == M_DETACH_STOP) {
    auto t = make_task<CR, C>(w, cp);
    b.allowed = b.start_expected = true;
    auto raw = t.raw_handle();
    bool stop = manner == M_DETACH_STOP;
    auto h = t.start_and_detach(stop);
    VF_CHECK(t.empty() && !t, "task %d is not empty after it was detached", cp.id);
    if (stop) {
      VF_CHECK(h && h.address() == raw.address(), "start_and_detach returned another handle");
      if (w.crew) w.mt_held[cp.id] = h;
      else w.held.push_back({h, cp.id});
    }
  } else {
    auto t = make_task<CR, C>(w, cp);
    auto raw = t.raw_handle();
    b.allowed = true;
    auto h = t.detach();
    VF_CHECK(t.empty() && h.address() == raw.address(), "detach: handle or object wrong");
    if (w.crew) w.crew->post(cp.v, h);
    else h.resume();
  }
}

// one step with a child of result type CR
#define TP_CHILD(CRV)                                                     \
  case CRV: {                                                             \
    constexpr int CR = CRV;                                               \
    const tp::Prog& cp = *s.child;                                        \
    switch (s.manner) {                                                   \
      case M_AWAIT: {                                                     \
        auto t = tp::make_task<CR, C>(w, cp);                             \
        tp::expect_awaited<CR, C>(w, cp, self);                           \
        TP_AWAIT_CHECKED(co_await t)                                      \
        break;                                                            \
      }                                                                   \
      case M_PRVALUE: {                                                   \
        tp::expect_awaited<CR, C>(w, cp, self);                           \
        TP_AWAIT_PRVALUE((co_await tp::make_task<CR, C>(w, cp)))          \
        break;                                                            \
      }                                                                   \
      case M_WAIT_AWAIT:                                                  \
      case M_WAIT_GET:                                                    \
      case M_WAIT_IGNORE: {                                               \
        auto t = tp::make_task<CR, C>(w, cp);                             \
        tp::expect_awaited<CR, C>(w, cp, self);                           \
        co_await t.wait();                                                \
        tp::check_over<C>(w, cp);                                         \
        if (s.manner == M_WAIT_AWAIT) {                                   \
          TP_AWAIT_CHECKED(co_await t)                                    \
        } else if (s.manner == M_WAIT_GET) {                              \
          TP_AWAIT_PRVALUE(t.get())                                       \
        }                                                                 \
        break;                                                            \
      }                                                                   \
      case M_PROXY: {                                                     \
        auto t = tp::make_task<CR, C>(w, cp);                             \
        tp::expect_awaited<CR, C>(w, cp, w.proxy);                        \
        co_await t.wait_with_proxy_owner(std::coroutine_handle<tp::Own::promise_type>::from_address(w.proxy)); \
        tp::check_over<C>(w, cp);                                         \
        TP_AWAIT_CHECKED(co_await t)                                      \
        break;                                                            \
      }                                                                   \
      case M_TWICE: {                                                     \
        auto t = tp::make_task<CR, C>(w, cp);                             \
        tp::expect_awaited<CR, C>(w, cp, self);                           \
        {                                                                 \
          tp::Step s2 = s;                                                \
          s2.propagate = false;                                           \
          const tp::Step& s = s2;                                         \
          TP_AWAIT_CHECKED(co_await t)                                    \
        }                                                                 \
        TP_AWAIT_CHECKED(co_await t)                                      \
        break;                                                            \
      }                                                                   \
      case M_UNSTARTED: {                                                 \
        {                                                                 \
          auto t = tp::make_task<CR, C>(w, cp);                           \
        }                                                                 \
        VF_CHECK(w.b[cp.id].param_dead == 1 && w.b[cp.id].begun == 0, "unstarted body %d: ran or was not destroyed", cp.id); \
        break;                                                            \
      }                                                                   \
      default: tp::tp_detached<CR, C>(w, cp, s.manner);                   \
    }                                                                     \
    break;                                                                \
  }

#define TP_STEPS                                                \
  for (const tp::Step& s : p.st) {                              \
    if (s.kind == 0) {                                          \
      co_await Sus(w, s.where);                                 \
      continue;                                                 \
    }                                                           \
    switch (s.child->rt) {                                      \
      TP_CHILD(RT_VOID)                                         \
      TP_CHILD(RT_INT)                                          \
      TP_CHILD(RT_REF)                                          \
      TP_CHILD(RT_TOK)                                          \
    }                                                           \
  }

inline void body_begins(World& w, const Prog& p) {
  B& b = w.b[p.id];
  VF_CHECK(b.allowed, "body %d runs although nobody started it", p.id);
  VF_CHECK(++b.begun == 1, "body %d began %d times", p.id, b.begun);
  VF_CHECK(b.param_dead == 0, "body %d runs after its frame was destroyed", p.id);
}
struct Finish {  // outermost local: its destruction is the end of the body
  World& w;
  int id;
  ~Finish() {
    VF_CHECK(++w.b[id].finished == 1, "body %d finished twice", id);
  }
};
inline void body_done(World& w) {
  if (w.finish_cell >= 0) vs_add(w.finish_cell, 1);
}

template <int R, typename C>
task_of<R, C> tbody(World& w, const Prog& p, Guard param) {
  B& b = w.b[p.id];
  Guard local(w, p.id, true);
  body_begins(w, p);
  std::coroutine_handle<> self_h = co_await dd::this_coro::handle;
  void* self = self_h.address();
  VF_CHECK(self == b.exp_self || !b.exp_self, "body %d: this_coro::handle is another coroutine", p.id);
  if constexpr (has_rec<C>) {
    C& c = co_await dd::this_coro::context;
    VF_CHECK(std::addressof(c) == b.ctx && c.id == p.id, "body %d: another context object inside the body", p.id);
    VF_CHECK(b.h_start == (b.start_expected ? 1 : 0) && b.h_owner == (b.owner_expected ? 1 : 0) && b.h_end == 0,
             "body %d runs: hooks fired owner=%d start=%d end=%d", p.id, b.h_owner, b.h_start, b.h_end);
  }
  try {
    TP_STEPS
    if (p.end == E_THROW) do_throw(p.v);
    // every way out: 'finished' first, then the locals
    if constexpr (R == RT_VOID) {
      b.finished++;
      body_done(w);
      co_return;
    } else if constexpr (R == RT_REF) {
      const_cast<Prog&>(p).cell = p.v;
      if (p.end >= E_RVO) {
        Cell*& place = co_await dd::this_coro::return_place;
        place = const_cast<Cell*>(std::addressof(p.cell));
        if (p.end == E_RVO_VALUE) {  // the value returned counts, not what was put into the place before
          place = std::addressof(b.other);
          b.finished++;
          body_done(w);
          co_return const_cast<Cell&>(p.cell);
        }
        if (p.end == E_RVO_THROW) do_throw(p.v);
        b.finished++;
        body_done(w);
        co_return dd::rvo;
      }
      b.finished++;
      body_done(w);
      co_return const_cast<Cell&>(p.cell);
    } else {
      using T = result_of<R>;
      if (p.end == E_CONV_THROW) co_return ConvThrow<T>{p.v};
      if (p.end >= E_RVO) {
        T& place = co_await dd::this_coro::return_place;
        place = T(p.v);
        if (p.end == E_RVO_VALUE) {
          place = T(p.v + 1);
          b.finished++;
          body_done(w);
          co_return T(p.v);
        }
        if (p.end == E_RVO_CONV_THROW) co_return ConvThrow<T>{p.v};
        b.place = std::addressof(place);
        if (p.end == E_RVO_THROW) do_throw(p.v);
        b.finished++;
        body_done(w);
        co_return dd::rvo;
      }
      b.finished++;
      body_done(w);
      co_return T(p.v);
    }
  } catch (...) {
    b.ex = std::current_exception();
    b.finished++;
    body_done(w);
    throw;
  }
}

// a harness coroutine that awaits one program's task in one manner
template <typename C, int CR>
Own owner(World& w, task_of<CR, C> t, const Prog& cp, int manner) {
  Step s;  // never propagates
  std::coroutine_handle<> self_h = co_await dd::this_coro::handle;
  void* self = self_h.address();
  expect_awaited<CR, C>(w, cp, self);
  switch (manner) {
    case M_WAIT_AWAIT:
    case M_WAIT_GET:
    case M_WAIT_IGNORE:
      co_await t.wait();
      check_over<C>(w, cp);
      if (manner == M_WAIT_AWAIT) {
        TP_AWAIT_CHECKED(co_await t)
      } else if (manner == M_WAIT_GET) {
        TP_AWAIT_PRVALUE(t.get())
      }
      break;
    case M_PRVALUE: {
      TP_AWAIT_PRVALUE((co_await std::move(t)))
      break;
    }
    case M_TWICE: {
      TP_AWAIT_CHECKED(co_await t)
      TP_AWAIT_CHECKED(co_await t)
      break;
    }
    default: TP_AWAIT_CHECKED(co_await t)
  }
}

template <typename F>
decltype(auto) with_rt(int rt, F&& f) {
  switch (rt) {
    case RT_VOID: return f.template operator()<RT_VOID>();
    case RT_INT: return f.template operator()<RT_INT>();
    case RT_REF: return f.template operator()<RT_REF>();
    default: return f.template operator()<RT_TOK>();
  }
}

// after everything is over
template <typename C>
void check_final(World& w, const std::vector<Prog*>& all) {
  for (Prog* p : all) {
    B& b = w.b[p->id];
    if (!b.exp_self) continue;  // never created
    VF_CHECK(b.param_dead == 1, "frame of body %d was never destroyed", p->id);
    VF_CHECK(b.local_dead == b.begun, "locals of body %d destroyed %d times", p->id, b.local_dead);
    VF_CHECK(b.begun <= 1, "body %d ran twice", p->id);
    if (!b.begun) VF_CHECK(b.h_owner + b.h_start + b.h_end == 0, "hooks of a body that never ran");
    if (has_rec<C> && b.begun) {
      VF_CHECK(b.h_owner == (b.owner_expected ? 1 : 0) && b.h_start == (b.start_expected ? 1 : 0),
               "body %d ran: owner announced %d times, start hook fired %d times", p->id, b.h_owner, b.h_start);
      VF_CHECK(b.h_end == (b.finished ? 1 : 0), "body %d: finished %d, end hook fired %d times", p->id, b.finished, b.h_end);
    }
  }
}

}  // namespace tp
