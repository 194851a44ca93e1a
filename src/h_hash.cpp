// C27: operation hashes: stable per coroutine, inherited by awaited tasks and spliced channels; the same coroutine
// always arrives on the same worker of a pool.
#include <functional>
#include <memory_resource>
#include <set>

#include "mt.hpp"

namespace {

struct Fire {  // a promise the library knows nothing about
  struct promise_type {
    Fire get_return_object() { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { vf::fail("harness: exception left a coroutine"); }
  };
};
struct CountCtx : dd::null_context {
  int pad = 0;
};

using H = dd::operation_hash_t;
H addr_hash(std::coroutine_handle<> h) { return dd::calculate_operation_hash(h); }

enum Kind { K_FIRE, K_JOB, K_ASYNC, K_LT, K_TASK, K_TASKC, K_CHAN, N_KINDS };
const char* kn[] = {"plain", "job", "async_task", "logical_thread", "task", "task with context", "channel"};
enum OpKind { O_ASK, O_PARK, O_CHILD, O_YIELD };
struct Node;
struct NOp {
  OpKind k;
  int how = 0;
  Node* child = nullptr;
};
struct Node {
  int id = 0, mem = 0;
  Kind kind = K_FIRE;
  std::vector<NOp> ops;
  // observed
  bool asked = false, has_want = false, own = false, alive = false;
  H seen = 0, want = 0;
  std::coroutine_handle<> me;
  std::function<H()> outside;
  Node* outermost = nullptr;  // channels
};

struct World {
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::coroutine_handle<>> parked;
  int answers = 0, inherited = 0, moved = 0;
  Node* add() {
    nodes.push_back(std::make_unique<Node>());
    nodes.back()->id = nodes.size() - 1;
    return nodes.back().get();
  }
};
World* W;

struct Park {
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { W->parked.push_back(h); }
  void await_resume() {}
};
struct Alive {
  Node& n;
  Alive(Node& n) : n(n) { n.alive = true; }
  ~Alive() { n.alive = false; }
};

template <typename P>
struct plain_promise {
  using type = P;
};
template <typename P, typename R>
struct plain_promise<dd::resourced_promise<P, R>> {
  using type = P;
};

template <typename P>
void answered(Node& n, H got, std::coroutine_handle<P> me) {
  using Plain = typename plain_promise<P>::type;
  W->answers++;
  auto plain = std::coroutine_handle<Plain>::from_address(me.address());
  H c = dd::calculate_operation_hash(me);
  VF_CHECK(c == got, "coroutine %d (%s): this_coro::operation_hash %zx, its handle hashes to %zx", n.id, kn[n.kind], got, c);
  c = dd::calculate_operation_hash(plain);
  VF_CHECK(c == got, "coroutine %d (%s): hash %zx, without its memory resource %zx", n.id, kn[n.kind], got, c);
  if (!n.asked) {
    n.asked = true;
    n.seen = got;
    n.me = me;
    n.outside = [me] { return dd::calculate_operation_hash(me); };
  }
  VF_CHECK(n.me == me, "harness: another coroutine");
  VF_CHECK(n.seen == got, "coroutine %d (%s): hash changed from %zx to %zx", n.id, kn[n.kind], n.seen, got);
  if (n.kind < K_TASK) n.own = true, n.want = addr_hash(me), n.has_want = true;
  if (n.has_want) VF_CHECK(got == n.want, "coroutine %d (%s): hash %zx, expected %zx", n.id, kn[n.kind], got, n.want);
  if (n.kind == K_CHAN) {
    Node& o = *n.outermost;
    if (&o == &n) n.own = true;
    if (o.asked) {
      VF_CHECK(o.seen == got, "channel %d is spliced into channel %d, hash %zx, the outermost has %zx", n.id, o.id, got, o.seen);
      if (&o != &n) W->inherited++;
    }
    VF_CHECK(o.asked || !o.has_want || o.want == got, "channel %d is spliced into channel %d, hash %zx, another spliced one has %zx", n.id, o.id, got, o.want);
    if (!o.has_want) o.want = got, o.has_want = true;
  }
  if (n.kind == K_TASK || n.kind == K_TASKC) W->inherited += n.has_want;
}
void check_all() {
  std::set<H> own;
  int nown = 0;
  for (auto& p : W->nodes) {
    Node& n = *p;
    if (!n.alive || !n.asked) continue;
    H c = n.outside();
    VF_CHECK(c == n.seen, "coroutine %d (%s): from outside its hash is %zx, it was %zx", n.id, kn[n.kind], c, n.seen);
    if (n.own) nown++, own.insert(n.seen);
  }
  VF_CHECK(nown == (int)own.size(), "%d different coroutines have only %zu different hashes", nown, own.size());
}

using Tag = dd::with_pmr_resource;
Tag tag() { return dd::with_resource(*std::pmr::new_delete_resource()); }

Fire body_fire(Node&);
dd::job body_job(Node&);
dd::job body_job(Node&, Tag);
dd::async_task<void> body_async(Node&);
dd::async_task<void> body_async(Node&, Tag);
dd::logical_thread body_lt(Node&);
dd::logical_thread body_lt(Node&, Tag);
dd::task<int> body_task(Node&);
dd::task<int> body_task(Node&, Tag);
dd::task<void, CountCtx> body_taskc(Node&);
dd::task<void, CountCtx> body_taskc(Node&, Tag);
dd::channel<int> body_chan(Node&);
dd::channel<int> body_chan(Node&, Tag);

#define MAKE(body, c) ((c).mem ? body(c, tag()) : body(c))

// the library's this_coro::handle is typed only in tasks
struct Answer {
  Node& n;
  H got;
  bool await_ready() { return false; }
  template <typename P>
  bool await_suspend(std::coroutine_handle<P> h) {
    answered(n, got, h);
    return false;
  }
  void await_resume() {}
};
// asks, in one of the ways a user can
#define ASK(how)                                                                                                       \
  {                                                                                                                    \
    H h1;                                                                                                              \
    if (how) {                                                                                                         \
      auto a = dd::this_coro::operation_hash;                                                                          \
      h1 = co_await a;                                                                                                 \
    } else                                                                                                             \
      h1 = co_await dd::this_coro::operation_hash;                                                                     \
    co_await Answer{n, h1};                                                                                            \
    auto me = co_await dd::this_coro::handle;                                                                          \
    VF_CHECK(me.address() == n.me.address(), "coroutine %d (%s): this_coro::handle is another coroutine", n.id, kn[n.kind]); \
  }

#define AWAITED(c)                                          \
  {                                                         \
    (c).want = addr_hash(co_await dd::this_coro::handle);   \
    (c).has_want = true;                                    \
  }

#define CHILD(o)                                                                  \
  Node& c = *o.child;                                                             \
  switch (c.kind) {                                                               \
    case K_FIRE: body_fire(c); break;                                             \
    case K_JOB: MAKE(body_job, c); break;                                         \
    case K_ASYNC: {                                                               \
      auto a = MAKE(body_async, c);                                               \
      a.detach();                                                                 \
      break;                                                                      \
    }                                                                             \
    case K_LT: {                                                                  \
      auto l = MAKE(body_lt, c);                                                  \
      l.detach();                                                                 \
      break;                                                                      \
    }                                                                             \
    case K_TASK: {                                                                \
      auto t = MAKE(body_task, c);                                                \
      if (o.how == 5) { t.start_and_detach(); break; }                            \
      AWAITED(c)                                                                  \
      if (o.how & 1) { auto t2 = std::move(t); (void)co_await t2; }               \
      else if (o.how & 2) { co_await t.wait(); (void)co_await t; }                \
      else (void)co_await t;                                                      \
      break;                                                                      \
    }                                                                             \
    case K_TASKC: {                                                               \
      auto t = MAKE(body_taskc, c);                                               \
      if (o.how == 5) { t.start_and_detach(); break; }                            \
      AWAITED(c)                                                                  \
      if (o.how & 1) co_await t.wait_with_proxy_owner(std::noop_coroutine());     \
      else if (o.how & 2) co_await t.wait();                                      \
      else co_await t;                                                            \
      break;                                                                      \
    }                                                                             \
    default: {                                                                    \
      c.outermost = &c;                                                           \
      auto ch = MAKE(body_chan, c);                                               \
      if (o.how & 1) {                                                            \
        int k = o.how & 2 ? 1 : 0;                                                \
        while (co_await ch.next())                                                \
          if (k++ == 1) {                                                         \
            auto ch2 = std::move(ch);                                             \
            W->moved++;                                                           \
            while (co_await ch2.next());                                          \
            break;                                                                \
          }                                                                       \
      } else {                                                                    \
        co_foreach(int x, ch) (void)x;                                            \
      }                                                                           \
    }                                                                             \
  }

#define BODY                                                 \
  Alive al(n);                                               \
  for (auto& o : n.ops) {                                    \
    if (o.k == O_ASK) ASK(o.how & 1)                         \
    if (o.k == O_PARK) co_await Park{};                      \
    if (o.k == O_CHILD) {                                    \
      CHILD(o)                                               \
    }                                                        \
  }
#define BODY_CHAN                                            \
  Alive al(n);                                               \
  for (auto& o : n.ops) {                                    \
    if (o.k == O_ASK) ASK(o.how & 1)                         \
    if (o.k == O_PARK) co_await Park{};                      \
    if (o.k == O_YIELD) co_yield n.id;                       \
    if (o.k == O_CHILD) {                                    \
      if (o.child->kind == K_CHAN && (o.how & 4)) {          \
        Node& s = *o.child;                                  \
        s.outermost = n.outermost;                           \
        co_yield dd::elements_of(MAKE(body_chan, s));        \
      } else {                                               \
        CHILD(o)                                             \
      }                                                      \
    }                                                        \
  }

Fire body_fire(Node& n) { BODY }
dd::job body_job(Node& n) { BODY }
dd::job body_job(Node& n, Tag) { BODY }
dd::async_task<void> body_async(Node& n) { BODY }
dd::async_task<void> body_async(Node& n, Tag) { BODY }
dd::logical_thread body_lt(Node& n) { BODY }
dd::logical_thread body_lt(Node& n, Tag) { BODY }
dd::task<int> body_task(Node& n) {
  BODY
  co_return 1;
}
dd::task<int> body_task(Node& n, Tag) {
  BODY
  co_return 1;
}
dd::task<void, CountCtx> body_taskc(Node& n) { BODY }
dd::task<void, CountCtx> body_taskc(Node& n, Tag) { BODY }
dd::channel<int> body_chan(Node& n) { BODY_CHAN }
dd::channel<int> body_chan(Node& n, Tag) { BODY_CHAN }

int g_budget;
void gen_node(World& w, Node& n, int depth) {
  n.mem = n.kind != K_FIRE && vf::chance(1, 3);
  vf::desc("%*s%d: %s%s\n", depth * 2, "", n.id, kn[n.kind], n.mem ? ", from a memory resource" : "");
  int k = vf::range(1, 5);
  for (int i = 0; i < k; ++i) {
    NOp o;
    static const uint32_t wt[] = {4, 2, 4}, wc[] = {4, 2, 4, 3};
    o.k = (OpKind)(n.kind == K_CHAN ? vf::pick_w(wc, 4) : vf::pick_w(wt, 3));
    if (o.k == O_CHILD && (depth >= 5 || g_budget <= 0)) o.k = O_ASK;
    o.how = vf::pick(8);
    static const char* on[] = {"ask", "suspend", "child", "yield"};
    bool splice = false;
    if (o.k == O_CHILD) {
      g_budget--;
      o.child = w.add();
      static const uint32_t wk[] = {1, 1, 1, 1, 3, 3, 3}, wkc[] = {1, 1, 1, 1, 2, 2, 8};
      o.child->kind = (Kind)vf::pick_w(n.kind == K_CHAN ? wkc : wk, N_KINDS);
      splice = n.kind == K_CHAN && o.child->kind == K_CHAN && (o.how & 4);
    }
    vf::desc("%*s- %s%s (%d)\n", depth * 2 + 2, "", splice ? "splice " : "", on[o.k], o.how);
    if (o.child) gen_node(w, *o.child, depth + 1);
    n.ops.push_back(o);
  }
}

void start_root(Node& n, std::vector<dd::task<int>>& keep) {
  switch (n.kind) {
    case K_JOB: MAKE(body_job, n); break;
    case K_ASYNC: MAKE(body_async, n).detach(); break;
    case K_LT: MAKE(body_lt, n).detach(); break;
    case K_TASK: MAKE(body_task, n).start_and_detach(); break;
    default: body_fire(n);
  }
}

}  // namespace

VF_MODE(hash_seq, 200, true,
        "1-4 random trees of coroutines of every kind (with and without memory resource) that ask for their hash, suspend, start, await, iterate, splice and move each other; resumed in random "
        "order; also hashes of plain objects; non-trivial: >=3 answers, at least one inherited from an awaiter or an outermost channel") {
  World w;
  W = &w;
  g_budget = vf::range(2, 14);
  int nr = vf::range(1, 4);
  std::vector<Node*> roots;
  for (int i = 0; i < nr; ++i) {
    Node* r = w.add();
    static const Kind rk[] = {K_FIRE, K_JOB, K_ASYNC, K_LT, K_TASK};
    r->kind = rk[vf::pick(5)];
    gen_node(w, *r, 0);
    roots.push_back(r);
  }
  std::vector<dd::task<int>> keep;
  for (auto* r : roots) start_root(*r, keep), check_all();
  while (!w.parked.empty()) {
    size_t i = vf::pick(w.parked.size());
    auto h = w.parked[i];
    w.parked.erase(w.parked.begin() + i);
    h.resume();
    check_all();
  }
  for (auto& n : w.nodes) VF_CHECK(!n->alive, "coroutine %d did not finish", n->id);
  // objects
  int nobj = vf::range(1, 6);
  std::vector<std::function<int()>> fs(nobj, [nobj] { return nobj; });
  std::set<H> hs;
  for (auto& f : fs) {
    H h = dd::calculate_operation_hash(f);
    VF_CHECK(h == dd::calculate_operation_hash(f) && h == dd::operation_hash<std::function<int()>>()(f), "an object's hash changes");
    hs.insert(h);
  }
  VF_CHECK(nobj == (int)hs.size(), "%d objects have only %zu different hashes", nobj, hs.size());
  // coroutines anywhere in memory: also two which are far apart, or whose addresses differ in one bit
  std::vector<uintptr_t> ad;
  std::set<H> as;
  for (int i = vf::range(2, 6); i > 0; --i) {
    uintptr_t x = ad.empty() || vf::chance(1, 4) ? (uintptr_t(vf::pick(1 << 23)) << 24 | vf::pick(1 << 24)) & ~uintptr_t(7) : ad[vf::pick(ad.size())] ^ uintptr_t(1) << vf::range(3, 46);
    bool known = !x;
    for (auto y : ad) known |= x == y;
    if (known) continue;
    ad.push_back(x);
    as.insert(addr_hash(std::coroutine_handle<>::from_address((void*)x)));
  }
  VF_CHECK(as.size() == ad.size(), "coroutines at %zu addresses have only %zu different hashes (two are %#zx, %#zx)", ad.size(), as.size(), ad[0], ad.size() > 1 ? ad[1] : 0);
  vf::label("answers", w.answers);
  vf::label("inherited", w.inherited);
  vf::label("moved channels", w.moved);
  if (w.answers >= 3 && w.inherited) vf::nontrivial();
}

// ---------------------------------------------------------------- jumps onto a pool
namespace {

struct Mover {
  int id = 0, kind = 0;
  std::vector<int> steps;  // 0..1: jump on that pool; 2..3: the same, type-erased; 4: hop to the crew
  std::vector<int> site;   // from which place of the body
  int worker[4] = {-1, -1, -1, -1};
};
struct PW {
  dd::thread_pool* pools[2] = {};
  mt::Crew* crew = nullptr;
  std::vector<Mover> ms;
};
enum { DONE = 0 };

int my_worker(dd::thread_pool& p) {
  auto ws = p.workers_range();
  for (size_t i = 0; i < ws.size(); ++i)
    if (ws[i].get_id() == std::this_thread::get_id()) return i;
  return -1;
}
void arrived(PW& w, Mover& m, int p) {
  int k = my_worker(*w.pools[p % 2]);
  VF_CHECK(k >= 0, "coroutine %d jumped onto a pool and is on none of its workers", m.id);
  VF_CHECK(m.worker[p] < 0 || m.worker[p] == k, "coroutine %d jumped onto worker %d, earlier onto worker %d of the same pool", m.id, m.worker[p], k);
  m.worker[p] = k;
}
// jumps onto the pool and jumps onto a type-erased reference to it are told apart: each is stable
// each jump is made from one of several places of the body (the awaiters live at different places of the frame)
#define MV_AT(N, EX)                                           \
  case N: {                                                    \
    volatile char pad[N * 40 + 1];                             \
    pad[0] = 1;                                                \
    (void)co_await dd::jump_on(EX);                            \
    pad[N * 40] = pad[0];                                      \
    break;                                                     \
  }
#define MOVES                                                  \
  for (size_t i = 0; i < m.steps.size(); ++i) {                \
    int s = m.steps[i];                                        \
    if (s == 4) co_await mt::Crew::Hop{w.crew, m.id};          \
    else if (s >= 2) {                                         \
      switch (m.site[i]) {                                     \
        MV_AT(0, dd::any_executor_ref(*w.pools[s - 2]))        \
        MV_AT(1, dd::any_executor_ref(*w.pools[s - 2]))        \
        MV_AT(2, dd::any_executor_ref(*w.pools[s - 2]))        \
      }                                                        \
      arrived(w, m, s);                                        \
    } else {                                                   \
      switch (m.site[i]) {                                     \
        MV_AT(0, *w.pools[s])                                  \
        MV_AT(1, *w.pools[s])                                  \
        MV_AT(2, *w.pools[s])                                  \
      }                                                        \
      arrived(w, m, s);                                        \
    }                                                          \
  }

dd::task<void> mv_task(PW& w, Mover& m) { MOVES }
dd::channel<int> mv_chan(PW& w, Mover& m) {
  MOVES
  co_yield 1;
}
dd::job mv_job(PW& w, Mover& m) {
  MOVES
  vs_add(DONE, 1);
}
dd::job mv_drive_task(PW& w, Mover& m) {
  co_await mv_task(w, m);
  vs_add(DONE, 1);
}
dd::job mv_drive_chan(PW& w, Mover& m) {
  co_foreach(int x, mv_chan(w, m)) (void)x;
  vs_add(DONE, 1);
}

}  // namespace

VF_MODE(hash_pool, 1, true,
        "1-4 coroutines (job, awaited task, iterated channel) jump 2-6 times between two pools of 1-4 workers (directly or type-erased) and other threads; random "
        "schedule; non-trivial: some coroutine arrives twice on a pool of >=2 workers, >=3 switches") {
  PW w;
  int n[2] = {(int)vf::range(1, 4), (int)vf::range(1, 4)};
  w.ms.resize(vf::range(1, 4));
  vf::desc("pools of %d and %d workers\n", n[0], n[1]);
  bool twice = false;
  for (size_t i = 0; i < w.ms.size(); ++i) {
    Mover& m = w.ms[i];
    m.id = i;
    m.kind = vf::pick(3);
    int k = vf::range(2, 6), cnt[4] = {0, 0, 0, 0};
    static const char* mk[] = {"job", "task", "channel"};
    vf::desc("%d: %s:", m.id, mk[m.kind]);
    for (int j = 0; j < k; ++j) {
      m.steps.push_back(vf::pick(5));
      m.site.push_back(vf::pick(3));
      vf::desc(" %d(place %d)", m.steps.back(), m.site.back());
      if (m.steps.back() < 4) cnt[m.steps.back()]++;
    }
    vf::desc("\n");
    for (int p = 0; p < 4; ++p) twice = twice || (cnt[p] >= 2 && n[p % 2] >= 2);
  }
  {
    vs::Run run;
    mt::Crew crew(1);
    {
      dd::thread_pool a(n[0]), b(n[1]);
      w.pools[0] = &a, w.pools[1] = &b, w.crew = &crew;
      for (auto& m : w.ms) {
        if (m.kind == 0) mv_job(w, m);
        else if (m.kind == 1) mv_drive_task(w, m);
        else mv_drive_chan(w, m);
      }
      vs_wait_ge(DONE, w.ms.size(), "the coroutines to finish");
      crew.quiesce();
    }
    crew.stop();
  }
  if (twice && vs_switches() >= 3) vf::nontrivial();
}
