// C11 async_task and C12 logical_thread under every schedule: completion on workers, owners elsewhere.
#include "mt.hpp"
#include "progs.hpp"

namespace {

struct Tok {
  VF_NO_SHORTCUTS(Tok)
  std::unique_ptr<int> p;
  Tok() = default;
  explicit Tok(int v) : p(std::make_unique<int>(v)) {}
};

struct Body {  // plain fields: visible to the owner only through the library's synchronisation
  int id = 0, hops = 0, v = 0;
  bool exc = false;
  int stop_mode = 0;  // logical threads: 0 ends by itself, 1 runs until stop is requested, 2 also waits for every other stop
  std::vector<int> where;
  int begun = 0, finished = 0, eff = 0, dead = 0;
  bool released = false;  // the object let go of it (written by the owner just before)
  int cell = 0;
  int note = 0;  // written by the owner before its first stop request
  std::exception_ptr ex;
};
struct Guard {
  Body* b;
  explicit Guard(Body& b) : b(&b) {}
  Guard(Guard&& o) noexcept : b(std::exchange(o.b, nullptr)) {}
  ~Guard() {
    if (!b) return;
    VF_CHECK(++b->dead == 1, "frame of body %d destroyed twice", b->id);
    VF_CHECK(b->finished, "frame of body %d destroyed before the body ended", b->id);
    VF_CHECK(vs_get(100 + b->id) == 1, "frame of body %d destroyed while its object still holds it", b->id);
  }
};
// cells: 0 finished bodies; 100+id object is letting go; 140+id stop may have been requested; 170+id stop request returned;
// 200+id body saw the stop
enum { DONE = 0, LET_GO = 100, REQ = 140, REQD = 170, SAW = 200 };

enum { T_VOID, T_INT, T_REF, T_TOK, T_N };
template <int R>
using res = std::conditional_t<R == T_VOID, void, std::conditional_t<R == T_INT, int, std::conditional_t<R == T_REF, int&, Tok>>>;

template <int R>
dd::async_task<res<R>> abody(mt::Crew& c, Body& b, Guard g) {
  ++b.begun;
  for (int i = 0; i < b.hops; ++i) {
    co_await c.hop(b.where[i]);
    ++b.eff;
  }
  b.eff += 1000;
  b.finished = 1;
  struct AtEnd {
    ~AtEnd() { vs_add(DONE, 1); }
  } at_end;
  if (b.exc) {
    try {
      px::do_throw(b.v);
    } catch (...) {
      b.ex = std::current_exception();
      throw;
    }
  }
  if constexpr (R == T_VOID) co_return;
  else if constexpr (R == T_INT) co_return b.v;
  else if constexpr (R == T_REF) {
    b.cell = b.v;
    co_return b.cell;
  } else co_return Tok(b.v);
}
void visible(Body& b, const char* who) {
  VF_CHECK(b.begun == 1 && b.finished == 1 && b.eff == 1000 + b.hops, "%s: body %d: begun %d finished %d effects %d", who, b.id,
           b.begun, b.finished, b.eff);
  VF_CHECK(b.dead == 0, "%s: frame of body %d is gone", who, b.id);
}
template <int R>
void take(dd::async_task<res<R>>& t, Body& b, bool move) {
  try {
    if constexpr (R == T_VOID) t.get();
    else {
      auto&& r = t.get();
      VF_CHECK(!b.exc, "body %d threw, get returned", b.id);
      visible(b, "get");
      if constexpr (R == T_REF) VF_CHECK(&r == &b.cell && r == b.v, "get: wrong reference");
      else if constexpr (R == T_INT) VF_CHECK(r == b.v, "get: %d, expected %d", r, b.v);
      else {
        VF_CHECK(r.p && *r.p == b.v, "get: wrong value");
        if (move) Tok x = std::move(r);
      }
    }
    VF_CHECK(!b.exc, "body %d threw, get returned", b.id);
    visible(b, "get");
  } catch (...) {
    visible(b, "get");
    VF_CHECK(b.exc && px::current_exc_id() == b.v && std::current_exception() == b.ex, "get of body %d: wrong exception", b.id);
  }
}

enum { A_POLL, A_WAIT, A_GET, A_MOVE, A_SWAP, A_YIELD, A_POLL_UNTIL, A_N };
enum { F_DESTROY, F_DETACH, F_ASSIGN, F_GET_MOVE, F_N };
struct Plan {
  int rt = 0, fin = 0;
  std::vector<int> ops;
  bool after_assign = false;  // get the result of the assigned object
  int other_thread = -1;  // after how many ops the object moves to another thread
};
const char* aname(int a) {
  static const char* n[] = {"ready?", "wait", "get", "move", "swap", "yield", "poll until ready"};
  return n[a];
}
const char* fname(int f) {
  static const char* n[] = {"destroy", "detach", "assign over", "get and move the result out"};
  return n[f];
}

template <int R>
void own(mt::Crew& crew, dd::async_task<res<R>> t, Body& b, Body* other, const Plan& pl, size_t from) {
  using T = dd::async_task<res<R>>;
  auto letgo = [&] {
    VF_CHECK(b.id >= 0, "?");
    vs_set(LET_GO + b.id, 1);
  };
  for (size_t i = from; i < pl.ops.size(); ++i) {
    if ((int)i == pl.other_thread) {
      std::vs_thread th([&crew, &b, other, &pl, i, t = std::move(t)]() mutable {
        Plan p2 = pl;
        p2.other_thread = -1;
        own<R>(crew, std::move(t), b, other, p2, i);
      });
      VF_CHECK(t.empty(), "moved-from async_task is not empty");
      th.join();
      return;
    }
    VF_CHECK(!t.empty() && t, "async_task lost its coroutine");
    switch (pl.ops[i]) {
      case A_POLL:
        if (t.ready()) visible(b, "ready");
        break;
      case A_WAIT:
        t.wait();
        visible(b, "wait");
        VF_CHECK(t.ready(), "not ready after wait");
        break;
      case A_GET: take<R>(t, b, false); break;
      case A_MOVE: {
        T o(std::move(t));
        VF_CHECK(t.empty() && !t.ready(), "moved-from async_task is not empty");
        t.wait();  // of an empty one: no effect
        t.detach();
        t = std::move(o);
        break;
      }
      case A_SWAP: {
        T o;
        VF_CHECK(o.empty(), "default async_task is not empty");
        o.swap(t);
        VF_CHECK(t.empty() && !o.empty(), "swap");
        swap(o, t);
        VF_CHECK(!t.empty() && o.empty(), "swap");
        break;
      }
      case A_YIELD: vs_yield(); break;
      case A_POLL_UNTIL:
        while (!t.ready()) vs_yield();
        visible(b, "ready");
        break;
    }
  }
  switch (pl.fin) {
    case F_DESTROY: break;
    case F_DETACH:
      letgo();
      t.detach();
      VF_CHECK(t.empty(), "not empty after detach");
      return;
    case F_ASSIGN: {
      T o;
      if (other) o = abody<R>(crew, *other, Guard(*other));
      letgo();
      if (other) vs_set(LET_GO + other->id, 1);
      o = std::move(t);
      // either of the objects may have the coroutine of the target now; both end here
      if (pl.after_assign) take<R>(o, b, false);
      return;
    }
    case F_GET_MOVE: take<R>(t, b, true); break;
  }
  letgo();
}

VF_MODE(async_mt, 20, true,
        "1-3 async tasks whose bodies hop over 1-2 workers 0-3 times and return or throw; owners poll, wait, get, move, swap, pass the "
        "object to another thread, then destroy, detach or assign over it, under a random schedule; non-trivial: a body hops and >=3 switches") {
  int nw = vf::range(1, 2), n = vf::range(1, 3);
  std::vector<std::unique_ptr<Body>> bs;
  std::vector<Plan> pls(n);
  bool hop = false;
  for (int i = 0; i < n; ++i) {
    auto b = std::make_unique<Body>();
    b->id = i;
    b->hops = vf::small(3);
    hop |= b->hops > 0;
    b->v = 10 + i * 3 + vf::pick(3);
    b->exc = vf::chance(1, 4);
    for (int k = 0; k < b->hops; ++k) b->where.push_back(vf::pick(nw));
    Plan& p = pls[i];
    p.rt = vf::pick(T_N);
    p.fin = vf::pick(F_N);
    int k = vf::small(4);
    for (int x = 0; x < k; ++x) p.ops.push_back(vf::pick(A_N));
    if (k && vf::chance(1, 3)) p.other_thread = vf::pick(k);
    vf::desc("body %d: type %d, %d hops, %s; object:", i, p.rt, b->hops, b->exc ? "throws" : "returns");
    for (int x = 0; x < k; ++x) vf::desc("%s %s;", x == p.other_thread ? " (on another thread)" : "", aname(p.ops[x]));
    vf::desc(" then %s\n", fname(p.fin));
    bs.push_back(std::move(b));
  }
  std::vector<Body*> others(n);
  int all = n;
  for (int i = 0; i < n; ++i)
    if (pls[i].fin == F_ASSIGN && vf::chance(3, 4)) {
      auto b = std::make_unique<Body>();
      b->id = all++;
      b->hops = vf::small(2);
      hop |= b->hops > 0;
      b->v = 50 + i;
      b->exc = vf::chance(1, 4);
      for (int k = 0; k < b->hops; ++k) b->where.push_back(vf::pick(nw));
      pls[i].after_assign = vf::chance(1, 2);
      vf::desc("body %d is what object %d is assigned over: %d hops, %s%s\n", b->id, i, b->hops, b->exc ? "throws" : "returns", pls[i].after_assign ? "; get afterwards" : "");
      others[i] = b.get();
      bs.push_back(std::move(b));
    }
  vf::desc("%d workers\n", nw);
  {
    vs::Run run;
    mt::Crew crew(nw);
    auto client = [&](int i) {
      Body& b = *bs[i];
      auto go = [&]<int R>() {
        auto t = abody<R>(crew, b, Guard(b));
        if (!b.hops) VF_CHECK(t.ready(), "body ended during creation, not ready");
        own<R>(crew, std::move(t), b, others[i], pls[i], 0);
      };
      switch (pls[i].rt) {
        case T_VOID: go.template operator()<T_VOID>(); break;
        case T_INT: go.template operator()<T_INT>(); break;
        case T_REF: go.template operator()<T_REF>(); break;
        default: go.template operator()<T_TOK>();
      }
    };
    std::vector<std::vs_thread> ts;
    for (int i = 1; i < n; ++i) ts.emplace_back([&, i] { client(i); });
    client(0);
    for (auto& t : ts) t.join();
    vs_wait_ge(DONE, all, "all bodies to end");
    crew.stop();
  }
  for (auto& b : bs) {
    VF_CHECK(b->begun == 1 && b->finished == 1, "body %d: begun %d finished %d", b->id, b->begun, b->finished);
    VF_CHECK(b->dead == 1, "frame of body %d destroyed %d times", b->id, b->dead);
    b->ex = nullptr;
  }
  vf::label("tasks", n);
  if (hop && vs_switches() >= 3) vf::nontrivial();
}

// ---------------------------------------------------------------- logical threads
dd::logical_thread lbody(mt::Crew& c, Body& b, int n, Guard g) {
  ++b.begun;
  auto tok = co_await dd::this_coro::stop_token;
  auto poll = [&] {
    int req = vs_get(REQ + b.id);
    int reqd = vs_get(REQD + b.id);
    bool s = tok.stop_requested();
    VF_CHECK(!reqd || s, "body %d: stop was requested, its token does not say so", b.id);
    VF_CHECK(!s || req || vs_get(REQ + b.id), "body %d: its token says stop, nobody requested it", b.id);
    if (s) {
      VF_CHECK(b.note == 77, "body %d sees the stop request, but not what its owner wrote before", b.id);
      vs_set(SAW + b.id, 1);
    }
    return s;
  };
  for (int i = 0; i < b.hops; ++i) {
    co_await c.hop(b.where[i]);
    ++b.eff;
    poll();
  }
  if (b.stop_mode)
    while (!poll()) co_await c.hop(b.where[0]);
  if (b.stop_mode == 2)
    for (int k = 0; k < n; ++k)
      while (!vs_get(SAW + k)) co_await c.hop(b.where[0]);
  b.eff += 1000;
  b.finished = 1;
  struct AtEnd {
    ~AtEnd() { vs_add(DONE, 1); }
  } at_end;
  (void)g;
}

enum { L_REQ, L_MOVE, L_SWAP, L_YIELD, L_N };
enum { LF_JOIN, LF_REQ_JOIN, LF_DESTROY, LF_ASSIGN, LF_DETACH, LF_REQ_DETACH, LF_STOP1, LF_N };

VF_MODE(lthread_mt, 20, true,
        "1-3 logical threads whose bodies hop over 1-2 workers and end by themselves or when their stop token says so; owners request "
        "stop, move, swap, then join, destroy, assign over, detach or use the stop helpers, under a random schedule; non-trivial: a body "
        "hops and >=3 switches") {
  int nw = vf::range(1, 2), n = vf::range(1, 3);
  // all stopped together by one of the helpers, or each by its own client
  int together = vf::pick(4);  // 1: stop(a,b,c) 2: stop(vector) else separate
  std::vector<std::unique_ptr<Body>> bs;
  std::vector<std::vector<int>> ops(n);
  std::vector<int> fin(n);
  bool hop = false;
  for (int i = 0; i < n; ++i) {
    auto b = std::make_unique<Body>();
    b->id = i;
    b->hops = vf::small(3);
    for (int k = 0; k < b->hops + 1; ++k) b->where.push_back(vf::pick(nw));
    fin[i] = vf::pick(LF_N);
    bool will_stop = together == 1 || together == 2 || (fin[i] != LF_JOIN && fin[i] != LF_DETACH);
    int k = vf::small(3);
    for (int x = 0; x < k; ++x) ops[i].push_back(vf::pick(L_N));
    for (int o : ops[i]) will_stop |= o == L_REQ;
    b->stop_mode = will_stop ? vf::pick(2) : 0;
    hop |= b->hops || b->stop_mode;
    vf::desc("logical thread %d: %d hops, %s; ops", i, b->hops, b->stop_mode ? "until stopped" : "ends by itself");
    static const char* on[] = {"request_stop", "move", "swap", "yield"};
    static const char* fn[] = {"join", "request+join", "destroy", "assign over", "detach", "request+detach", "stop(one)"};
    for (int o : ops[i]) vf::desc(" %s", on[o]);
    if (together == 1 || together == 2) vf::desc("\n");
    else vf::desc(", then %s\n", fn[fin[i]]);
    bs.push_back(std::move(b));
  }
  if (together == 1 || together == 2) {
    vf::desc("all stopped by the stop helper (%s)\n", together == 1 ? "arguments" : "range");
    bool all = true;
    for (auto& b : bs) all &= b->stop_mode == 1;
    if (all && vf::chance(1, 2))
      for (auto& b : bs) b->stop_mode = 2;
    if (bs[0]->stop_mode == 2) vf::desc("each waits until all have seen the request\n");
  }
  vf::desc("%d workers\n", nw);
  {
    vs::Run run;
    mt::Crew crew(nw);
    auto after_join = [&](Body& b, const char* how) {
      VF_CHECK(b.begun == 1 && b.finished == 1 && b.eff == 1000 + b.hops, "%s of %d returned: begun %d finished %d effects %d", how, b.id,
               b.begun, b.finished, b.eff);
      VF_CHECK(b.dead == 1, "%s of %d returned, frame destroyed %d times", how, b.id, b.dead);
    };
    auto announce = [&](Body& b) {
      if (!vs_get(REQ + b.id)) b.note = 77;
      vs_set(REQ + b.id, 1);
    };
    auto request = [&](dd::logical_thread& t, Body& b) {
      announce(b);
      VF_CHECK(t.stop_possible() && t.request_stop(), "request_stop refused");
      vs_set(REQD + b.id, 1);
    };
    auto some_ops = [&](dd::logical_thread& t, int i) {
      Body& b = *bs[i];
      for (int o : ops[i]) switch (o) {
          case L_REQ: request(t, b); break;
          case L_MOVE: {
            dd::logical_thread o2(std::move(t));
            VF_CHECK(!t.joinable() && o2.joinable() && !t.stop_possible() && !t.request_stop(), "moved-from logical_thread");
            t = std::move(o2);
            VF_CHECK(t.joinable() && !o2.joinable(), "moved-from logical_thread");
            break;
          }
          case L_SWAP: {
            dd::logical_thread o2;
            VF_CHECK(!o2.joinable(), "default logical_thread");
            o2.swap(t);
            VF_CHECK(!t.joinable(), "swap");
            swap(o2, t);
            VF_CHECK(t.joinable() && !o2.joinable(), "swap");
            break;
          }
          case L_YIELD: vs_yield(); break;
        }
    };
    auto client = [&](int i) {
      Body& b = *bs[i];
      dd::logical_thread t = lbody(crew, b, n, Guard(b));
      VF_CHECK(t.joinable(), "fresh logical_thread is not joinable");
      some_ops(t, i);
      VF_CHECK(t.joinable(), "logical_thread lost its coroutine");
      int f = fin[i];
      if (f == LF_REQ_JOIN || f == LF_REQ_DETACH) request(t, b);
      if (f != LF_JOIN && f != LF_DETACH) announce(b);
      vs_set(LET_GO + i, 1);
      switch (f) {
        case LF_JOIN:
        case LF_REQ_JOIN:
          t.join();
          VF_CHECK(!t.joinable(), "joinable after join");
          after_join(b, "join");
          break;
        case LF_DESTROY: {
          {
            dd::logical_thread o(std::move(t));
          }
          after_join(b, "destruction");
          break;
        }
        case LF_ASSIGN:
          t = dd::logical_thread();
          VF_CHECK(!t.joinable(), "joinable after assigning an empty one");
          after_join(b, "assignment");
          break;
        case LF_DETACH:
        case LF_REQ_DETACH:
          t.detach();
          VF_CHECK(!t.joinable(), "joinable after detach");
          break;
        case LF_STOP1:
          dd::stop(t);
          VF_CHECK(!t.joinable(), "joinable after stop");
          after_join(b, "stop");
          break;
      }
    };
    if (together == 1 || together == 2) {
      std::vector<dd::logical_thread> v;
      for (int i = 0; i < n; ++i) v.push_back(lbody(crew, *bs[i], n, Guard(*bs[i])));
      for (int i = 0; i < n; ++i) some_ops(v[i], i);
      for (int i = 0; i < n; ++i) announce(*bs[i]), vs_set(LET_GO + i, 1);
      if (together == 2) dd::stop(v);
      else if (n == 1) dd::stop(v[0]);
      else if (n == 2) dd::stop(v[0], v[1]);
      else dd::stop(v[0], v[1], v[2]);
      for (int i = 0; i < n; ++i) {
        VF_CHECK(!v[i].joinable(), "joinable after stop");
        after_join(*bs[i], "stop");
      }
    } else {
      std::vector<std::vs_thread> ts;
      for (int i = 1; i < n; ++i) ts.emplace_back([&, i] { client(i); });
      client(0);
      for (auto& t : ts) t.join();
    }
    vs_wait_ge(DONE, n, "all bodies to end");
    crew.stop();
  }
  for (auto& b : bs)
    VF_CHECK(b->begun == 1 && b->finished == 1 && b->dead == 1, "body %d: begun %d finished %d frame destroyed %d times", b->id, b->begun,
             b->finished, b->dead);
  vf::label("logical threads", n);
  if (hop && vs_switches() >= 3) vf::nontrivial();
}

}  // namespace
