// C31: foreign awaitables awaited in every coroutine kind, and the library's awaitables awaited in foreign coroutines.
// The oracle is differential: the same body in a plain coroutine, whose co_await is exactly the language's.
#include "kelcoro/algorithm.hpp"
#include "kelcoro/async_task.hpp"
#include "kelcoro/channel.hpp"
#include "kelcoro/events.hpp"
#include "kelcoro/generator.hpp"
#include "kelcoro/job.hpp"
#include "kelcoro/kelcoro.hpp"
#include "kelcoro/latch.hpp"
#include "kelcoro/logical_thread.hpp"
#include "kelcoro/task.hpp"
#include "kelcoro/thread_pool.hpp"
#include <deque>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include <vector>
#include "vf.h"

namespace {

enum Ev { E_STEP, E_OP, E_READY, E_SUSPEND, E_RESUME, E_COPY, E_MOVE, E_DEAD, E_ADEAD, E_VAL, E_CAUGHT, E_LOCAL, E_RES_DEAD, E_CHILD };
const char* ev_name[] = {"step", "operator co_await", "await_ready", "await_suspend", "await_resume", "awaitable copied", "awaitable moved", "awaiter destroyed",
                         "awaitable destroyed", "value", "exception", "locals destroyed", "result destroyed", "child"};
enum Q { Q_L = 1, Q_CL, Q_R, Q_GL, Q_GCL, Q_GR };  // which operator co_await

struct Later {
  std::vector<dd::task_node*> kept;
  void attach(dd::task_node* n) { kept.push_back(n); }
};
struct World {
  std::vector<std::array<int, 3>> log;
  std::deque<std::coroutine_handle<>> parked;
  Later later;
  dd::event<int> eve;
  int eve_waits = 0;
  std::unique_ptr<dd::latch> lat;
  std::vector<int> order;  // decisions of the driver
  size_t at = 0;
  int cell = 0;
  int done = 0;
  void* self = nullptr;
  void ev(int e, int a, int b = 0) {
    VF_CHECK(log.size() < 100000, "the history does not end");
    log.push_back({e, a, b});
  }
  int decide(int n) { return order.empty() ? 0 : order[at++ % order.size()] % n; }
};
struct Err {
  int id, where;
};

struct Imm {  // result that can neither be copied nor moved
  World* w;
  int v;
  Imm(World* w, int v) : w(w), v(v) {}
  Imm(Imm&&) = delete;
  ~Imm() { w->ev(E_RES_DEAD, v); }
};
struct Spec {
  int id = 0, v = 0;
  int thr = 0;      // 1 ready, 2 suspend, 3 resume, 4 operator co_await
  bool rdy = false;
  int sus = 0;      // bool: 0 continue 1 stay; handle: 0 itself 1 nobody
};
enum { R_VOID, R_INT, R_LREF, R_RREF, R_IMM, R_UPTR };
enum { S_VOID, S_BOOL, S_HANDLE };

template <int RES, int SUS>
struct Aw {
  enum { res = RES };
  World* w;
  Spec s;
  void* self = nullptr;
  Aw(World& w, Spec s) : w(&w), s(s) {}
  VF_NO_SHORTCUTS(Aw)
  Aw(const Aw& o) : w(o.w), s(o.s) { w->ev(E_COPY, s.id); }
  Aw(Aw&& o) : w(o.w), s(o.s) { w->ev(E_MOVE, s.id); }
  ~Aw() { w->ev(E_DEAD, s.id); }
  bool await_ready() {
    w->ev(E_READY, s.id);
    if (s.thr == 1) throw Err{s.id, 1};
    return s.rdy;
  }
  template <typename P>
  auto await_suspend(std::coroutine_handle<P> h) {
    w->ev(E_SUSPEND, s.id);
    VF_CHECK(std::coroutine_handle<P>::from_promise(h.promise()).address() == h.address(), "the handle given to await_suspend does not belong to its promise");
    VF_CHECK(!h.done(), "the awaiting coroutine is done");
    if (w->self) VF_CHECK(h.address() == w->self, "await_suspend is given another coroutine");
    if (s.thr == 2) throw Err{s.id, 2};
    if constexpr (SUS == S_VOID) {
      w->parked.push_back(h);
    } else if constexpr (SUS == S_BOOL) {
      if (s.sus) w->parked.push_back(h);
      return (bool)s.sus;
    } else {
      if (!s.sus) return std::coroutine_handle<>(h);
      w->parked.push_back(h);
      return std::coroutine_handle<>(std::noop_coroutine());
    }
  }
  decltype(auto) await_resume() {
    w->ev(E_RESUME, s.id);
    if (s.thr == 3) throw Err{s.id, 3};
    if constexpr (RES == R_VOID) return;
    else if constexpr (RES == R_INT) return int(s.v);
    else if constexpr (RES == R_LREF) return (w->cell);
    else if constexpr (RES == R_RREF) return std::move(w->cell);
    else if constexpr (RES == R_IMM) return Imm(w, s.v);
    else return std::make_unique<int>(s.v);
  }
};
// takes an untyped handle
struct AwErased {
  enum { res = R_INT };
  World* w;
  Spec s;
  AwErased(World& w, Spec s) : w(&w), s(s) {}
  AwErased(AwErased&&) = delete;
  VF_NO_SHORTCUTS(AwErased)
  ~AwErased() { w->ev(E_DEAD, s.id); }
  bool await_ready() const { return s.rdy; }
  void await_suspend(std::coroutine_handle<> h) {
    if (w->self) VF_CHECK(h.address() == w->self, "await_suspend is given another coroutine");
    w->ev(E_SUSPEND, s.id);
    w->parked.push_back(h);
  }
  int await_resume() const { return s.v; }
};
struct Base {
  World* w;
  Spec s;
  Base(World& w, Spec s) : w(&w), s(s) {}
  VF_NO_SHORTCUTS(Base)
  Base(const Base& o) : w(o.w), s(o.s) { w->ev(E_COPY, s.id); }
  Base(Base&& o) : w(o.w), s(o.s) { w->ev(E_MOVE, s.id); }
  ~Base() { w->ev(E_ADEAD, s.id); }
  void op(int q) const {
    w->ev(E_OP, s.id, q);
    if (s.thr == 4) throw Err{s.id, 4};
  }
};
template <typename A>
struct Mem : Base {  // member operator for every value category
  using Base::Base;
  A operator co_await() & { return op(Q_L), A(*w, s); }
  A operator co_await() const& { return op(Q_CL), A(*w, s); }
  A operator co_await() && { return op(Q_R), A(*w, s); }
};
template <typename A>
struct Glob : Base {
  using Base::Base;
};
template <typename A>
A operator co_await(Glob<A>& g) {
  return g.op(Q_GL), A(*g.w, g.s);
}
template <typename A>
A operator co_await(const Glob<A>& g) {
  return g.op(Q_GCL), A(*g.w, g.s);
}
template <typename A>
A operator co_await(Glob<A>&& g) {
  return g.op(Q_GR), A(*g.w, g.s);
}
template <typename A>
struct Inner : Base {  // immovable, its operator gives a reference to a part of itself
  A a;
  Inner(World& w, Spec s) : Base(w, s), a(w, s) {}
  Inner(Inner&&) = delete;
  A& operator co_await() {
    op(Q_L);
    return a;
  }
};

// awaiters themselves that have an operator co_await, too: the operator is what the language uses
template <typename A>
struct BothMem : A {
  using A::A;
  A operator co_await() & { return this->w->ev(E_OP, this->s.id, Q_L), A(*this->w, this->s); }
  A operator co_await() && { return this->w->ev(E_OP, this->s.id, Q_R), A(*this->w, this->s); }
};
template <typename A>
struct BothGlob : A {
  using A::A;
};
template <typename A>
A operator co_await(BothGlob<A>& g) {
  return g.w->ev(E_OP, g.s.id, Q_GL), A(*g.w, g.s);
}
template <typename A>
A operator co_await(BothGlob<A>&& g) {
  return g.w->ev(E_OP, g.s.id, Q_GR), A(*g.w, g.s);
}

// awaits through the awaiter itself, whatever operators it has
template <typename A>
struct Through {
  A& a;
  bool await_ready() { return a.await_ready(); }
  auto await_suspend(auto h) { return a.await_suspend(h); }
  decltype(auto) await_resume() { return a.await_resume(); }
};
template <typename A>
Through<A> through(A&& a) { return {a}; }
template <typename A>
Through<A> through(A& a) { return {a}; }

// ------------------------------------------------------------------ children of the library
struct Park {
  World* w;
  bool await_ready() const { return false; }
  void await_suspend(std::coroutine_handle<> h) { w->parked.push_back(h); }
  void await_resume() const {}
};
dd::task<int> kid(World& w, Spec s) {
  w.ev(E_CHILD, s.id);
  if (!s.rdy) co_await Park{&w};
  if (s.thr) throw Err{s.id, 9};
  co_return s.v;
}
dd::task<int&> kid_ref(World& w, Spec s) {
  if (!s.rdy) co_await Park{&w};
  if (s.thr) throw Err{s.id, 9};
  co_return w.cell;
}
dd::task<std::unique_ptr<int>> kid_pmr(World& w, Spec s, dd::with_pmr_resource) {
  if (!s.rdy) co_await Park{&w};
  if (s.thr) throw Err{s.id, 9};
  co_return std::make_unique<int>(s.v);
}
dd::channel<int> kid_chan(World& w, Spec s) {
  for (int i = 0; i < 3; ++i) {
    if (!s.rdy) co_await Park{&w};
    if (s.thr == i + 1) throw Err{s.id, 9};
    co_yield s.v + i;
  }
}

enum Form {
  A_PR, A_L, A_X, A_ERASED, M_PR, M_L, M_CL, M_X, G_PR, G_L, G_CL, G_X, I_L, B_AL, B_AX, B_ML, B_MX, B_GL, B_GX, B_MPR, B_MCL, B_GCL, B_I, B_TML, B_TMX, B_TGL, B_TGX, TM_X, TG_L, SUSP_AND,
  L_TASK, L_TASK_L, L_TASK_REF, L_TASK_PMR, L_WAIT, L_CHAN, L_NEXT, L_EVENT, L_LATCH, L_ARRIVE, L_JUMP, L_HANDLE, L_ALL, L_ANY, L_ALL_EV, N_FORM
};
const char* form_name[] = {"awaiter prvalue", "awaiter lvalue", "awaiter xvalue", "awaiter of untyped handle", "member operator, prvalue", "member operator, lvalue",
                           "member operator, const lvalue", "member operator, xvalue", "free operator, prvalue", "free operator, lvalue", "free operator, const lvalue",
                           "free operator, xvalue", "operator giving a reference", "build_awaiter(awaiter lvalue)", "build_awaiter(awaiter xvalue)",
                           "build_awaiter(member operator, lvalue)", "build_awaiter(member operator, xvalue)", "build_awaiter(free operator, lvalue)",
                           "build_awaiter(free operator, xvalue)", "build_awaiter(member operator, prvalue)", "build_awaiter(member operator, const lvalue)",
                           "build_awaiter(free operator, const lvalue)", "build_awaiter(operator giving a reference)", "build_awaiter(awaiter with member operator, lvalue)",
                           "build_awaiter(awaiter with member operator, xvalue)", "build_awaiter(awaiter with free operator, lvalue)", "build_awaiter(awaiter with free operator, xvalue)",
                           "awaiter with member operator, xvalue", "awaiter with free operator, lvalue", "suspend_and", "task prvalue", "task lvalue", "task<int&>",
                           "task from a memory resource", "task.wait, then get", "channel loop", "channel.next", "event", "latch wait", "latch arrive_and_wait", "jump_on", "handle",
                           "when_all of tasks", "when_any of tasks", "when_all of events"};
struct Step {
  int form;
  Spec s;
};

struct Plain {
  struct promise_type {
    Plain get_return_object() { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { vf::fail("an exception left the body"); }
  };
};

template <typename T>
struct is_chan : std::false_type {};
template <typename T>
struct is_chan<dd::channel<T>> : std::true_type {};
template <typename R>
constexpr bool returns_int = std::is_same_v<R, dd::task<int>> || std::is_same_v<R, dd::async_task<int>>;

struct Local {
  World& w;
  ~Local() { w.ev(E_LOCAL, 0); }
};


using A_void = Aw<R_VOID, S_VOID>;
using A_int = Aw<R_INT, S_BOOL>;
using A_lref = Aw<R_LREF, S_HANDLE>;
using A_rref = Aw<R_RREF, S_BOOL>;
using A_imm = Aw<R_IMM, S_VOID>;
using A_uptr = Aw<R_UPTR, S_HANDLE>;

template <typename R, typename... Tag>
R body(World& w, const std::vector<Step>& prog, bool reference, Tag...) {
  Local local{w};
  std::coroutine_handle<> self = co_await dd::this_coro::handle;
  w.self = self.address();
  for (const Step& st : prog) {
    const Spec& s = st.s;
    w.ev(E_STEP, s.id);
    w.cell = s.v;
    try {
      switch (st.form) {
        case A_PR: {
          int v = co_await A_int(w, s);
          w.ev(E_VAL, v);
          break;
        }
        case A_L: {
          A_lref a(w, s);
          int& v = co_await a;
          VF_CHECK(&v == &w.cell, "another object is the result");
          w.ev(E_VAL, v);
          break;
        }
        case A_X: {
          A_imm a(w, s);
          auto&& v = co_await std::move(a);
          w.ev(E_VAL, v.v);
          break;
        }
        case A_ERASED: w.ev(E_VAL, co_await AwErased(w, s)); break;
        case M_PR: {
          auto v = co_await Mem<A_uptr>(w, s);
          w.ev(E_VAL, *v);
          break;
        }
        case M_L: {
          Mem<A_rref> m(w, s);
          int&& v = co_await m;
          VF_CHECK(&v == &w.cell, "another object is the result");
          w.ev(E_VAL, v);
          break;
        }
        case M_CL: {
          const Mem<A_void> m(w, s);
          co_await m;
          break;
        }
        case M_X: {
          Mem<A_int> m(w, s);
          w.ev(E_VAL, co_await std::move(m));
          break;
        }
        case G_PR: co_await Glob<A_void>(w, s); break;
        case G_L: {
          Glob<A_uptr> m(w, s);
          w.ev(E_VAL, *co_await m);
          break;
        }
        case G_CL: {
          const Glob<A_int> m(w, s);
          w.ev(E_VAL, co_await m);
          break;
        }
        case G_X: {
          Glob<A_lref> m(w, s);
          int& v = co_await std::move(m);
          VF_CHECK(&v == &w.cell, "another object is the result");
          break;
        }
        case I_L: {
          Inner<A_int> m(w, s);
          w.ev(E_VAL, co_await m);
          break;
        }
        // build_awaiter against the language itself
        case B_AL: {
          A_int a(w, s);
          if (reference) w.ev(E_VAL, co_await a);
          else w.ev(E_VAL, co_await dd::build_awaiter(a));
          break;
        }
        case B_AX: {
          A_int a(w, s);
          if (reference) w.ev(E_VAL, co_await std::move(a));
          else w.ev(E_VAL, co_await dd::build_awaiter(std::move(a)));
          break;
        }
        case B_ML: {
          Mem<A_int> a(w, s);
          if (reference) w.ev(E_VAL, co_await a);
          else w.ev(E_VAL, co_await dd::build_awaiter(a));
          break;
        }
        case B_MX: {
          Mem<A_int> a(w, s);
          if (reference) w.ev(E_VAL, co_await std::move(a));
          else w.ev(E_VAL, co_await dd::build_awaiter(std::move(a)));
          break;
        }
        case B_GL: {
          Glob<A_int> a(w, s);
          if (reference) w.ev(E_VAL, co_await a);
          else w.ev(E_VAL, co_await dd::build_awaiter(a));
          break;
        }
        case B_GX: {
          Glob<A_int> a(w, s);
          if (reference) w.ev(E_VAL, co_await std::move(a));
          else w.ev(E_VAL, co_await dd::build_awaiter(std::move(a)));
          break;
        }
        case B_MPR: {
          if (reference) w.ev(E_VAL, co_await Mem<A_int>(w, s));
          else w.ev(E_VAL, co_await dd::build_awaiter(Mem<A_int>(w, s)));
          break;
        }
        case B_MCL: {
          const Mem<A_int> a(w, s);
          if (reference) w.ev(E_VAL, co_await a);
          else w.ev(E_VAL, co_await through(dd::build_awaiter(a)));
          break;
        }
        case B_GCL: {
          const Glob<A_int> a(w, s);
          if (reference) w.ev(E_VAL, co_await a);
          else w.ev(E_VAL, co_await through(dd::build_awaiter(a)));
          break;
        }
        case B_I: {
          Inner<A_int> a(w, s);
          if (reference) w.ev(E_VAL, co_await a);
          else w.ev(E_VAL, co_await through(dd::build_awaiter(a)));
          break;
        }
        case B_TML: {
          BothMem<A_int> a(w, s);
          if (reference) w.ev(E_VAL, co_await a);
          else w.ev(E_VAL, co_await through(dd::build_awaiter(a)));
          break;
        }
        case B_TMX: {
          BothMem<A_int> a(w, s);
          if (reference) w.ev(E_VAL, co_await std::move(a));
          else w.ev(E_VAL, co_await through(dd::build_awaiter(std::move(a))));
          break;
        }
        case B_TGL: {
          BothGlob<A_int> a(w, s);
          if (reference) w.ev(E_VAL, co_await a);
          else w.ev(E_VAL, co_await through(dd::build_awaiter(a)));
          break;
        }
        case B_TGX: {
          BothGlob<A_int> a(w, s);
          if (reference) w.ev(E_VAL, co_await std::move(a));
          else w.ev(E_VAL, co_await through(dd::build_awaiter(std::move(a))));
          break;
        }
        case TM_X: {
          BothMem<A_int> a(w, s);
          w.ev(E_VAL, co_await std::move(a));
          break;
        }
        case TG_L: {
          BothGlob<A_int> a(w, s);
          w.ev(E_VAL, co_await a);
          break;
        }
        case SUSP_AND: {
          bool stay = !s.rdy;
          co_await dd::this_coro::suspend_and([&w, stay](auto h) {
            VF_CHECK(h.address() == w.self, "suspend_and gives another coroutine");
            if (stay) w.parked.push_back(h);
            return stay;
          });
          break;
        }
        case L_TASK: w.ev(E_VAL, co_await kid(w, s)); break;
        case L_TASK_L: {
          auto t = kid(w, s);
          int&& v = co_await t;
          w.ev(E_VAL, v);
          break;
        }
        case L_TASK_REF: {
          auto t = kid_ref(w, s);
          int& v = co_await t;
          VF_CHECK(&v == &w.cell, "another object is the result");
          break;
        }
        case L_TASK_PMR: w.ev(E_VAL, *co_await kid_pmr(w, s, dd::with_pmr_resource(*std::pmr::new_delete_resource()))); break;
        case L_WAIT: {
          auto t = kid(w, s);
          co_await t.wait();
          w.ev(E_VAL, t.get());
          break;
        }
        case L_CHAN: {
          auto ch = kid_chan(w, s);
          for (auto it = co_await ch.begin(); it != ch.end(); (void)(co_await (++it))) w.ev(E_VAL, *it);
          break;
        }
        case L_NEXT: {
          auto ch = kid_chan(w, s);
          while (int* p = co_await ch.next()) w.ev(E_VAL, *p);
          if (auto e = ch.take_exception()) std::rethrow_exception(e);
          break;
        }
        case L_EVENT: {
          w.eve_waits++;
          int v = co_await w.eve;
          w.ev(E_VAL, v);
          break;
        }
        case L_LATCH: {
          w.lat = std::make_unique<dd::latch>(s.rdy ? 0 : 1, w.later);
          co_await w.lat->wait();
          VF_CHECK(w.lat->ready(), "latch is not ready");
          break;
        }
        case L_ARRIVE: {
          w.lat = std::make_unique<dd::latch>(s.rdy ? 1 : 2, w.later);
          co_await w.lat->arrive_and_wait();
          VF_CHECK(w.lat->ready(), "latch is not ready");
          break;
        }
        case L_JUMP: {
          dd::schedule_status r = co_await dd::jump_on(w.later);
          w.ev(E_VAL, (int)r.what);
          break;
        }
        case L_HANDLE: {
          std::coroutine_handle<> h = co_await dd::this_coro::handle;
          VF_CHECK(h.address() == w.self, "another handle");
          break;
        }
        case L_ALL: {
          Spec s2 = s;
          s2.rdy = !s.rdy;
          s2.thr = 0;
          auto [a, b, c] = co_await dd::when_all(kid(w, s), kid(w, s2), kid(w, s2));
          w.ev(E_VAL, a ? *a : -1);
          w.ev(E_VAL, *b + *c);
          break;
        }
        case L_ANY: {
          auto r = co_await dd::when_any(kid(w, s), kid(w, s));
          w.ev(E_VAL, r.index());
          break;
        }
        case L_ALL_EV: {
          w.eve_waits += 2;
          auto [a, b] = co_await dd::when_all(w.eve, w.eve);
          w.ev(E_VAL, a + b);
          break;
        }
      }
    } catch (Err& e) {
      w.ev(E_CAUGHT, e.id, e.where);
    }
    if constexpr (is_chan<R>::value) co_yield s.v;
  }
  w.done++;
  if constexpr (returns_int<R>) co_return 7;
}

// runs whatever waits until nothing does
void drive(World& w) {
  for (int i = 0; i < 2000; ++i) {
    int n = (int)w.parked.size();
    if (n) {
      int k = w.decide(n);
      auto h = w.parked[k];
      w.parked.erase(w.parked.begin() + k);
      h.resume();
    } else if (!w.later.kept.empty()) {
      auto* t = w.later.kept.back();
      w.later.kept.pop_back();
      t->task.resume();
    } else if (w.lat && !w.lat->ready()) {
      w.lat->count_down();
    } else if (w.eve_waits) {
      w.eve_waits = 0;
      w.eve.notify_all(dd::this_thread_executor, 1000 + i);
    } else {
      return;
    }
  }
  vf::fail("the case does not come to an end");
}

enum Kind { K_PLAIN, K_JOB, K_TASK, K_ASYNC, K_LT, K_CHAN, K_N };
const char* kind_name[] = {"plain coroutine", "job", "task", "async_task", "logical_thread", "channel"};

Plain run_task(World& w, dd::task<int> t) {
  int v = co_await t;
  VF_CHECK(v == 7, "the task returns %d", v);
  w.done++;
}
Plain run_chan(World& w, dd::channel<int> c, std::vector<int>& got) {
  while (int* p = co_await c.next()) got.push_back(*p);
  VF_CHECK(!c.take_exception(), "the channel failed");
  w.done++;
}

template <typename... Tag>
void run_kind(int kind, World& w, const std::vector<Step>& prog, Tag... tag) {
  int want = 1;
  switch (kind) {
    case K_JOB:
      body<dd::job>(w, prog, false, tag...);
      drive(w);
      break;
    case K_TASK:
      run_task(w, body<dd::task<int>>(w, prog, false, tag...));
      drive(w);
      want = 2;
      break;
    case K_ASYNC: {
      auto t = body<dd::async_task<int>>(w, prog, false, tag...);
      drive(w);
      VF_CHECK(t.ready() && t.get() == 7, "the async task is not ready or has another result");
      break;
    }
    case K_LT: {
      auto t = body<dd::logical_thread>(w, prog, false, tag...);
      drive(w);
      t.join();
      break;
    }
    case K_CHAN: {
      std::vector<int> got, exp;
      for (auto& s : prog) exp.push_back(s.s.v);
      run_chan(w, body<dd::channel<int>>(w, prog, false, tag...), got);
      drive(w);
      VF_CHECK(got == exp, "the channel delivers %d values of %d", (int)got.size(), (int)exp.size());
      want = 2;
      break;
    }
  }
  VF_CHECK(w.done == want, "the coroutine has not finished");
}

VF_MODE(await_diff, 100, true,
        "bodies of 1-8 co_awaits: foreign awaiters and awaitables of every value category, suspending or not, giving values, references, immovable objects or exceptions at every stage; "
        "the library's tasks, channels, events, latches, executors and combinations; awaited in a job, task, async task, logical thread or channel (plain or from a memory resource) and in "
        "a plain coroutine, whose history is the expected one; non-trivial: >=3 co_awaits of different forms, one of which suspends or fails") {
  std::vector<Step> prog;
  int n = 1 + vf::small(7), kind = 1 + vf::pick(K_N - 1), tag = vf::pick(2);
  unsigned long forms = 0;
  bool interesting = false;
  vf::desc("%s%s:\n", kind_name[kind], tag ? " (memory resource)" : "");
  for (int i = 0; i < n; ++i) {
    Step s;
    s.form = vf::pick(N_FORM);
    s.s.id = i + 1;
    s.s.v = 10 * (i + 1) + vf::pick(5);
    s.s.rdy = vf::chance(1, 3);
    s.s.sus = vf::pick(2);
    s.s.thr = vf::chance(1, 4) ? 1 + vf::pick(4) : 0;
    forms |= 1ul << s.form;
    interesting |= s.s.thr || !s.s.rdy;
    vf::desc("  %d: %s%s%s, value %d", s.s.id, form_name[s.form], s.s.rdy ? ", ready" : s.s.sus ? ", stays" : "", s.s.thr ? ", throws at " : "", s.s.v);
    if (s.s.thr) vf::desc(" (stage %d)", s.s.thr);
    vf::desc("\n");
    prog.push_back(s);
  }
  std::vector<int> order;
  for (int i = 0; i < 5; ++i) order.push_back(vf::pick(6));
  World a, b;
  a.order = b.order = order;
  body<Plain>(a, prog, true);
  drive(a);
  VF_CHECK(a.done == 1, "the plain coroutine has not finished");
  vf::set_phase(kind_name[kind]);
  if (tag)
    run_kind(kind, b, prog, dd::with_pmr_resource(*std::pmr::new_delete_resource()));
  else
    run_kind(kind, b, prog);
  for (size_t i = 0; i < std::max(a.log.size(), b.log.size()); ++i) {
    if (i < a.log.size() && i < b.log.size() && a.log[i] == b.log[i]) continue;
    auto str = [](auto& l, size_t i) { return i < l.size() ? std::string(ev_name[l[i][0]]) + " " + std::to_string(l[i][1]) + "/" + std::to_string(l[i][2]) : std::string("nothing"); };
    vf::fail("event %d in the %s: %s, in a plain coroutine: %s", (int)i, kind_name[kind], str(b.log, i).c_str(), str(a.log, i).c_str());
  }
  if (__builtin_popcountl(forms) >= 3 && interesting) vf::nontrivial();
}

}  // namespace
