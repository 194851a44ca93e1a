// C23: frames go back to the resource they came from.
#include "frames.hpp"

namespace {

// ---- programs ----
enum Kind { K_TASK, K_ASYNC, K_GEN, K_CHAN, K_LT, K_JOB, K_N };
const char* kname[] = {"task", "async_task", "generator", "channel", "logical_thread", "job"};
enum Res { R_EMPTY, R_PTR, R_TRIVIAL, R_MOVE, R_ODD, R_TINY, R_BIG, R_PMR, R_FIXED_EMPTY, R_FIXED, R_POLY, R_NONE, R_DEFAULT, R_N };
const char* rname[] = {"empty resource", "resource by pointer", "trivially destructible state", "move-only state", "odd-sized state", "1-byte state", "over-aligned big state",
                       "std::pmr resource", "fixed empty resource", "fixed resource with state", "polymorphic resource (passed)", "no resource", "default resource"};
enum Op {
  O_YIELD,        // generators and channels
  O_PARK,         // not in generators
  O_TASK_NEVER, O_TASK_DETACH, O_TASK_STOP, O_ASYNC_DROP, O_ASYNC_KEEP, O_GEN, O_LT_DETACH, O_LT_KEEP, O_JOB,
  O_TASK_AWAIT, O_CHAN,  // not in generators
  O_SPLICE,              // generators and channels
  O_N
};
const char* oname[] = {"yield", "suspend", "never start", "start and detach", "start and detach, stop at end", "drop at once", "keep", "consume", "detach", "keep and join", "run",
                       "await", "consume", "splice"};
struct Prog;
struct Step {
  int op = 0, n = 0;
  std::shared_ptr<Prog> child;
};
struct Prog {
  int id = 0, kind = 0, res = 0, inst = 0, size = 0;
  bool throws = false, arg_boom = false;
  std::vector<Step> st;
};
struct PGen {
  int next = 0, left = 0;
  bool mt = false;
  std::shared_ptr<Prog> make(int kind, int depth) {
    auto p = std::make_shared<Prog>();
    p->id = next++;
    p->kind = kind;
    p->res = vf::pick(R_N);
    p->inst = vf::pick(2);
    p->size = vf::pick(2);
    p->throws = kind != K_LT && kind != K_JOB && vf::chance(1, 4);
    p->arg_boom = vf::chance(1, 25);
    int n = vf::small(4);
    for (int i = 0; i < n; ++i) p->st.push_back(step(kind, depth - 1));
    return p;
  }
  Step step(int kind, int depth) {  // kind -1: the case itself
    Step s;
    bool yields = kind == K_GEN || kind == K_CHAN, sync = kind == K_GEN || kind == -1;
    bool can = depth >= 0 && left > 0;
    uint32_t w[O_N] = {};
    if (yields) w[O_YIELD] = 4;
    if (!sync) w[O_PARK] = 4;
    if (can) {
      w[O_TASK_NEVER] = w[O_TASK_DETACH] = w[O_TASK_STOP] = w[O_ASYNC_DROP] = w[O_JOB] = 1;
      w[O_ASYNC_KEEP] = w[O_LT_KEEP] = !mt || kind == -1;
      w[O_GEN] = 2;
      w[O_LT_DETACH] = 1;
      if (!sync) w[O_TASK_AWAIT] = 3, w[O_CHAN] = 2;
      if (yields) w[O_SPLICE] = 3;
    }
    uint32_t sum = 0;
    for (auto x : w) sum += x;
    if (!sum) {
      s.op = O_GEN;
      s.child = std::make_shared<Prog>();
      s.child->id = next++;
      s.child->kind = K_GEN;
      s.child->res = R_NONE;
      return s;
    }
    s.op = vf::pick_w(w, O_N);
    s.n = vf::small(4);
    static const int ck[] = {-1, -1, K_TASK, K_TASK, K_TASK, K_ASYNC, K_ASYNC, K_GEN, K_LT, K_LT, K_JOB, K_TASK, K_CHAN, -1};
    int c = s.op == O_SPLICE ? kind : ck[s.op];
    if (c >= 0) {
      --left;
      s.child = make(c, depth);
    }
    return s;
  }
};
void describe(const Step& s, int ind) {
  vf::desc("%*s%s", ind, "", oname[s.op]);
  if (s.op == O_PARK || s.op == O_GEN || s.op == O_CHAN) vf::desc(" %d", s.n);
  if (!s.child) {
    vf::desc("\n");
    return;
  }
  const Prog& p = *s.child;
  vf::desc(": %s %d, %s #%d, frame size %d%s%s\n", kname[p.kind], p.id, rname[p.res], p.inst, p.size, p.throws ? ", throws at its end" : "", p.arg_boom ? ", copying an argument throws" : "");
  for (auto& x : p.st) describe(x, ind + 2);
}

struct Sus;
struct World {
  mt::Crew* crew = nullptr;
  std::vector<Sus*> parked;  // sequential runs only
  // kept objects: created anywhere, given up by the case
  enum { MAXK = 64 };
  dd::async_task<int> kept[MAXK];
  dd::logical_thread lts[MAXK];
  std::coroutine_handle<> held[MAXK];
  int n_kept = 0, n_lts = 0, n_held = 0;
  std::vector<std::pair<std::coroutine_handle<>, int>> jobs;  // sequential: jobs that may be suspended
  std::vector<char> job_alive;
};
NOTSAN int take_slot(int& n) {
  VF_CHECK(n < World::MAXK, "harness: too many kept objects");
  return n++;
}

struct Guard {  // an argument
  int id;
  bool boom;
  World* w;
  Guard(World& w, int id, bool boom) : id(id), boom(boom), w(&w) { obj_born(this); }
  Guard(Guard&& o) : id(o.id), boom(false), w(o.w) {
    if (o.boom) throw ArgBoom{};
    obj_born(this);
  }
  ~Guard() { obj_dead(this); }
};
template <int N>
struct alignas(N == 0 ? 8 : 16) Local {
  unsigned char buf[N == 0 ? 3 : N == 1 ? 333 : 70000];
  int id;
  explicit Local(int id) : id(id) {
    VF_CHECK((uintptr_t)this % alignof(Local) == 0, "a frame is not aligned");
    std::memset(buf, id, sizeof buf);
    obj_born(this);
  }
  Local(Local&&) = delete;
  ~Local() {
    for (auto c : buf) VF_CHECK(c == (unsigned char)id, "memory of a frame was overwritten");
    obj_dead(this);
  }
};
struct JobAlive {
  World& w;
  int id;
  ~JobAlive() {
    if (!w.crew) w.job_alive[id] = 0;
  }
};
struct Sus {
  World& w;
  int k;
  std::coroutine_handle<> h{};
  Sus(World& w, int k) : w(w), k(k) {}
  Sus(const Sus&) = delete;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> c) {
    if (w.crew) {
      w.crew->post(k, c);
      return;
    }
    h = c;
    w.parked.push_back(this);
  }
  void await_resume() noexcept {}
  ~Sus() {
    if (w.crew) return;
    auto it = std::find(w.parked.begin(), w.parked.end(), this);
    if (it != w.parked.end()) w.parked.erase(it);
  }
};

dd::task<int> make_task(World&, const Prog&);
dd::async_task<int> make_async(World&, const Prog&);
dd::generator<int> make_gen(World&, const Prog&);
dd::channel<int> make_chan(World&, const Prog&);
dd::logical_thread make_lt(World&, const Prog&);
dd::job make_job(World&, const Prog&);

// children that need no co_await
void sync_child(World& w, const Step& s) {
  const Prog& c = *s.child;
  try {
    switch (s.op) {
      case O_TASK_NEVER: {
        auto t = make_task(w, c);
        break;
      }
      case O_TASK_DETACH: make_task(w, c).start_and_detach(); break;
      case O_TASK_STOP: {
        auto t = make_task(w, c);
        int i = take_slot(w.n_held);
        w.held[i] = t.start_and_detach(true);
        break;
      }
      case O_ASYNC_DROP: {
        auto t = make_async(w, c);
        break;
      }
      case O_ASYNC_KEEP: {
        auto t = make_async(w, c);
        w.kept[take_slot(w.n_kept)] = std::move(t);
        break;
      }
      case O_GEN: {
        auto g = make_gen(w, c);
        int k = 0;
        for (int again = 0; again < 3 && k < s.n; ++again) {
          try {
            for (int x : g) {
              (void)x;
              if (++k >= s.n) break;
            }
          } catch (Boom&) {
          }
        }
        break;
      }
      case O_LT_DETACH: make_lt(w, c).detach(); break;
      case O_LT_KEEP: {
        auto t = make_lt(w, c);
        w.lts[take_slot(w.n_lts)] = std::move(t);
        break;
      }
      case O_JOB: {
        if (w.crew) {
          make_job(w, c);
          break;
        }
        auto j = make_job(w, c);
        w.jobs.push_back({j.handle, c.id});
        break;
      }
    }
  } catch (AllocBoom&) {
  } catch (ArgBoom&) {
    VF_CHECK(c.arg_boom, "an exception from nowhere");
  }
}

#define STEP_ASYNC                                                                                   \
  case O_PARK: co_await Sus(w, s.n); break;                                                          \
  case O_TASK_AWAIT:                                                                                 \
    try {                                                                                            \
      int v = co_await make_task(w, *s.child);                                                       \
      VF_CHECK(v == s.child->id && !s.child->throws, "task %d returned %d", s.child->id, v);         \
    } catch (Boom & b) {                                                                             \
      VF_CHECK(b.id == s.child->id && s.child->throws, "wrong exception %d", b.id);                  \
    } catch (AllocBoom&) {                                                                           \
    } catch (ArgBoom&) {                                                                             \
      VF_CHECK(s.child->arg_boom, "an exception from nowhere");                                      \
    }                                                                                                \
    break;                                                                                           \
  case O_CHAN:                                                                                       \
    try {                                                                                            \
      dd::channel<int> c = make_chan(w, *s.child);                                                   \
      for (int k = 0; k < s.n; ++k) {                                                                \
        int* v = co_await c.next();                                                                  \
        if (!v) {                                                                                    \
          std::exception_ptr e = c.take_exception();                                                 \
          if (!e) break;                                                                             \
        }                                                                                            \
      }                                                                                              \
    } catch (AllocBoom&) {                                                                           \
    } catch (ArgBoom&) {                                                                             \
      VF_CHECK(s.child->arg_boom, "an exception from nowhere");                                      \
    }                                                                                                \
    break;
#define STEP_YIELD(make)                                        \
  case O_YIELD: co_yield p.id; break;                           \
  case O_SPLICE:                                                \
    try {                                                       \
      co_yield dd::elements_of(make(w, *s.child));              \
    } catch (AllocBoom&) {                                      \
    } catch (ArgBoom&) {                                        \
      VF_CHECK(s.child->arg_boom, "an exception from nowhere"); \
    }                                                           \
    break;
#define BODY(CASES)                      \
  Local<N> l(p.id);                      \
  for (auto& s : p.st) switch (s.op) {   \
      CASES                              \
      default: sync_child(w, s); break;  \
    }                                    \
  count_end();                           \
  if (p.throws) throw Boom{p.id};

#define T_BODY BODY(STEP_ASYNC) co_return p.id;
#define G_BODY BODY(STEP_YIELD(make_gen)) co_return;
#define C_BODY BODY(STEP_ASYNC STEP_YIELD(make_chan)) co_return;
#define L_BODY                                              \
  auto stop = co_await dd::this_coro::stop_token;           \
  VF_CHECK(!stop.stop_requested(), "a stop from nowhere");  \
  BODY(STEP_ASYNC) co_return;
#define J_BODY                 \
  JobAlive alive{w, p.id};     \
  BODY(STEP_ASYNC) co_return;

// the over-aligned resource is handed over by value and by reference (then the frame itself is not over-aligned and
// its size need not be a multiple of the resource's alignment)
#define KIND(name, RET, RET_R, BDY)                                                            \
  template <int N, class Tag>                                                                  \
  NOINL RET name##_tag(World& w, Guard, const Prog& p, Tag) {                                  \
    BDY                                                                                        \
  }                                                                                            \
  template <int N>                                                                             \
  NOINL RET name##_none(World& w, Guard, const Prog& p) {                                      \
    BDY                                                                                        \
  }                                                                                            \
  template <int N, class R>                                                                    \
  NOINL RET_R<R> name##_fixed(World& w, Guard, const Prog& p) {                                   \
    BDY                                                                                        \
  }                                                                                            \
  template <int N>                                                                             \
  NOINL RET name##_make(World& w, const Prog& p) {                                             \
    int id = p.res + 16 * p.inst;                                                              \
    switch (p.res) {                                                                           \
      case R_EMPTY:                                                                            \
        if (p.inst) return name##_tag<N>(w, ARG, p, dd::with_resource<Empty<R_EMPTY + 16>>{}); \
        return name##_tag<N>(w, ARG, p, dd::with_resource<Empty<R_EMPTY>>{});                  \
      case R_PTR: return name##_tag<N>(w, ARG, p, dd::with_resource<dd::chunk_from<Led>>(g_led[id])); \
      case R_TRIVIAL: return name##_tag<N>(w, ARG, p, dd::with_resource<Trivial>(id));         \
      case R_MOVE: return name##_tag<N>(w, ARG, p, dd::with_resource<MoveOnly>(id));           \
      case R_ODD: return name##_tag<N>(w, ARG, p, dd::with_resource<Odd>(id));                 \
      case R_TINY: return name##_tag<N>(w, ARG, p, dd::with_resource<Tiny>(id));               \
      case R_BIG:                                                                              \
        if (p.inst) return name##_tag<N, dd::with_resource<Big>&&>(w, ARG, p, dd::with_resource<Big>(id)); \
        return name##_tag<N>(w, ARG, p, dd::with_resource<Big>(id));                           \
      case R_PMR: return name##_tag<N>(w, ARG, p, dd::with_pmr_resource(*g_pmr[id]));          \
      case R_FIXED_EMPTY: return name##_fixed<N, Empty<R_FIXED_EMPTY>>(w, ARG, p);             \
      case R_FIXED: return name##_fixed<N, Fixed<R_FIXED>>(w, ARG, p);                         \
      case R_POLY:                                                                             \
        dd::pmr::pass_resource(*g_pmr[id]);                                                    \
        return name##_fixed<N, dd::pmr::polymorphic_resource>(w, ARG, p);                      \
      case R_NONE: return name##_none<N>(w, ARG, p);                                           \
      default: return name##_tag<N>(w, ARG, p, dd::with_default_resource{});                   \
    }                                                                                          \
  }
#define ARG Guard(w, p.id, p.arg_boom)

template <class R>
using TaskR = dd::task_r<int, R>;
template <class R>
using AsyncR = dd::async_task_r<int, R>;
template <class R>
using GenR = dd::generator_r<int, R>;
template <class R>
using ChanR = dd::channel_r<int, R>;
KIND(task, dd::task<int>, TaskR, T_BODY)
KIND(async, dd::async_task<int>, AsyncR, T_BODY)
KIND(gen, dd::generator<int>, GenR, G_BODY)
KIND(chan, dd::channel<int>, ChanR, C_BODY)
KIND(lt, dd::logical_thread, dd::logical_thread_r, L_BODY)
KIND(job, dd::job, dd::job_r, J_BODY)

dd::task<int> make_task(World& w, const Prog& p) { return p.size ? task_make<1>(w, p) : task_make<0>(w, p); }
dd::async_task<int> make_async(World& w, const Prog& p) { return async_make<0>(w, p); }
dd::generator<int> make_gen(World& w, const Prog& p) { return p.size ? gen_make<1>(w, p) : gen_make<0>(w, p); }
dd::channel<int> make_chan(World& w, const Prog& p) { return chan_make<1>(w, p); }
dd::logical_thread make_lt(World& w, const Prog& p) { return lt_make<0>(w, p); }
dd::job make_job(World& w, const Prog& p) {
  if (!w.crew) w.job_alive[p.id] = 1;
  return job_make<1>(w, p);
}

void resume_parked(World& w, size_t i) {
  Sus* s = w.parked[i];
  w.parked.erase(w.parked.begin() + i);
  s->h.resume();
}

void final_checks() {
  VF_CHECK(objs_live() == 0, "%d objects of frames were never destroyed", objs_live());
  VF_CHECK(led_live() == 0, "%d frames were never given back to their resource", led_live());
  VF_CHECK(res_objs() == 0, "resource objects: %d more constructions than destructions", res_objs());
}

VF_MODE(frame_seq, 100, true,
        "trees of coroutines of every kind on every kind of resource, never started / run / failing / destroyed while suspended / detached / stopped at end, failing allocations and "
        "argument copies; non-trivial: >=3 frames from ledger resources and one destroyed while suspended or ended by an exception or a failed allocation") {
  reset_ledger();
  make_resources();
  PGen g;
  g.left = vf::range(1, 14);
  int roots = vf::range(1, 5);
  std::vector<Step> st;
  for (int i = 0; i < roots; ++i) st.push_back(g.step(-1, 3));
  for (auto& s : st) describe(s, 0);
  int fail_at = vf::chance(1, 3) ? vf::range(1, 12) : 0;
  if (fail_at) vf::desc("allocation %d fails\n", fail_at);
  set_fail(fail_at);
  bool hard = false;
  {
    World w;
    w.job_alive.resize(g.next + 64);
    size_t at = 0;
    int steps = 0;
    for (; steps < 200; ++steps) {
      uint32_t ww[] = {at < st.size() ? 4u : 0u, w.parked.empty() ? 0u : 6u, w.n_held ? 1u : 0u, w.n_kept ? 1u : 0u, w.jobs.empty() ? 0u : 1u};
      if (!(ww[0] + ww[1])) break;
      switch (vf::pick_w(ww, 5)) {
        case 0: sync_child(w, st[at++]); break;
        case 1: {
          size_t i = vf::pick(w.parked.size());
          resume_parked(w, i);
          break;
        }
        case 2: {  // a holder destroys: finished or suspended
          int i = vf::pick(w.n_held);
          auto h = w.held[i];
          w.held[i] = w.held[--w.n_held];
          vf::desc("held task #%d destroyed, %s\n", i, h.done() ? "finished" : "suspended");
          hard |= !h.done();
          h.destroy();
          break;
        }
        case 3: {
          int i = vf::pick(w.n_kept);
          vf::desc("async task #%d dropped\n", i);
          if (w.kept[i].ready() && vf::chance(1, 2)) {
            try {
              (void)w.kept[i].get();
            } catch (Boom&) {
            }
          }
          w.kept[i].detach();
          --w.n_kept;
          if (i != w.n_kept) swap(w.kept[i], w.kept[w.n_kept]);
          break;
        }
        case 4: {
          int i = vf::pick(w.jobs.size());
          auto [h, id] = w.jobs[i];
          w.jobs.erase(w.jobs.begin() + i);
          if (!w.job_alive[id]) break;
          vf::desc("suspended job %d destroyed\n", id);
          hard = true;
          h.destroy();
          break;
        }
      }
    }
    while (!w.parked.empty()) resume_parked(w, 0);
    set_fail(0);
    // held tasks may hold others by nothing; async tasks are finished now
    for (int i = 0; i < w.n_held; ++i) {
      VF_CHECK(w.held[i].done(), "nothing is suspended, but a task has not finished");
      w.held[i].destroy();
    }
    for (int i = 0; i < w.n_lts; ++i) w.lts[i].join();
  }
  set_fail(0);
  final_checks();
  vf::label("frames", led_allocs());
  vf::label("failed allocations", failed());
  vf::label("destroyed while suspended", hard);
  if (led_allocs() >= 3 && (hard || failed() || ends())) vf::nontrivial();
}

VF_MODE(frame_mt, 20, true,
        "the same trees, their bodies hopping between 1-3 threads while the case drops, detaches, joins and waits, under a random schedule; non-trivial: >=3 frames from ledger resources, "
        ">=3 hops, >=3 switches") {
  reset_ledger();
  make_resources();
  PGen g;
  g.mt = true;
  g.left = vf::range(1, 8);
  int roots = vf::range(1, 4), nw = vf::range(1, 3);
  std::vector<Step> st;
  for (int i = 0; i < roots; ++i) st.push_back(g.step(-1, 2));
  for (auto& s : st) describe(s, 0);
  bool early = vf::chance(1, 2), quiesce_first = vf::chance(1, 3);
  int posted = 0;
  vf::desc("%d workers%s%s\n", nw, early ? ", drops early" : "", quiesce_first ? ", joins after everything ran" : "");
  {
    vs::Run run;
    World w;
    mt::Crew crew(nw);
    w.crew = &crew;
    for (auto& s : st) {
      sync_child(w, s);
      if (early && s.op == O_ASYNC_KEEP && w.kept[0]) w.kept[0].detach();
      if (early && s.op == O_LT_KEEP && w.lts[0].joinable()) w.lts[0].join();
    }
    if (quiesce_first) crew.quiesce();
    for (int i = 0; i < World::MAXK; ++i)
      if (w.kept[i]) {
        w.kept[i].wait();
        w.kept[i].detach();
      }
    for (auto& t : w.lts)
      if (t.joinable()) t.join();
    crew.quiesce();
    posted = vs_get(mt::Crew::POSTED);
    crew.stop();
    for (int i = 0; i < World::MAXK; ++i) {
      if (w.lts[i].joinable()) w.lts[i].join();
      w.kept[i].detach();
    }
    for (int i = 0; i < w.n_held; ++i) {
      VF_CHECK(w.held[i].done(), "nothing is suspended, but a task has not finished");
      w.held[i].destroy();
    }
  }
  final_checks();
  vf::label("frames", led_allocs());
  vf::label("hops", posted);
  if (led_allocs() >= 3 && posted >= 3 && vs_switches() >= 3) vf::nontrivial();
}

// ---- frames on a stack resource: trees of awaited tasks and spliced generators end in last-in-first-out order ----
struct SProg {
  int id = 0;
  bool throws = false, gen = false, huge = false;
  std::vector<std::pair<int, std::shared_ptr<SProg>>> st;  // 0 suspend/yield, 1 child, 2 generator of a task
};
std::shared_ptr<SProg> make_sprog(int& next, int& left, int depth, bool gen) {
  auto p = std::make_shared<SProg>();
  p->id = next++;
  p->gen = gen;
  p->throws = vf::chance(1, 6);
  p->huge = vf::chance(1, 40);
  int n = vf::small(4);
  for (int i = 0; i < n; ++i) {
    uint32_t w[] = {3, left > 0 && depth > 0 ? 4u : 0u, left > 0 && depth > 0 && !gen ? 2u : 0u};
    int k = vf::pick_w(w, 3);
    if (k) --left;
    p->st.push_back({k, k ? make_sprog(next, left, depth - 1, gen || k == 2) : nullptr});
  }
  return p;
}
void describe(const SProg& p, int ind) {
  vf::desc("%*s%s %d%s%s\n", ind, "", p.gen ? "generator" : "task", p.id, p.huge ? " with a huge frame" : "", p.throws ? ", throws at its end" : "");
  for (auto& [k, c] : p.st)
    if (!k) vf::desc("%*s%s\n", ind + 2, "", p.gen ? "yield" : "suspend");
    else describe(*c, ind + 2);
}
#define ST(f, c) ((c)->huge ? f<2>(w, *(c), r, r) : (c)->id % 2 ? f<0>(w, *(c), r, r) : f<1>(w, *(c), r, r))
template <int N>
NOINL dd::generator<int> st_gen(World& w, const SProg& p, dd::stack_resource& r, dd::with_stack_resource) {
  Local<N> l(p.id);
  for (auto& [k, c] : p.st) {
    if (!k) co_yield p.id;
    else co_yield dd::elements_of(ST(st_gen, c));
  }
  if (p.throws) throw Boom{p.id};
}
template <int N>
NOINL dd::task<int> st_task(World& w, const SProg& p, dd::stack_resource& r, dd::with_stack_resource) {
  Local<N> l(p.id);
  for (auto& [k, c] : p.st) {
    if (k == 0) co_await Sus(w, 0);
    if (k == 1) {
      try {
        int v = co_await (ST(st_task, c));
        VF_CHECK(v == c->id && !c->throws, "task %d returned %d", c->id, v);
      } catch (Boom& b) {
        VF_CHECK(b.id == c->id && c->throws, "wrong exception %d", b.id);
      }
    }
    if (k == 2) {
      auto g = ST(st_gen, c);
      for (int again = 0; again < 3; ++again) try {
          for (int x : g) (void)x;
        } catch (Boom&) {
        }
    }
  }
  if (p.throws) throw Boom{p.id};
  co_return p.id;
}

VF_MODE(frame_stack, 100, true,
        "trees of awaited tasks and spliced generators whose frames live on one stack memory resource, run again and again, failing, destroyed while suspended; non-trivial: >=4 frames "
        "per run and a suspended one or an exception") {
  reset_ledger();
  int next = 0, left = vf::range(1, 14);
  std::vector<std::shared_ptr<SProg>> roots;
  int n = vf::range(1, 3);
  for (int i = 0; i < n; ++i) roots.push_back(make_sprog(next, left, 5, false));
  for (auto& r : roots) describe(*r, 0);
  alignas(16) static unsigned char buf[4096];
  size_t len = vf::pick(3) ? 16 * vf::pick(256) : 0;
  vf::desc("buffer of %zu bytes\n", len);
  bool hard = false;
  {
    std::optional<dd::stack_resource> res;
    if (len) res.emplace(std::span<unsigned char>(buf, len));
    else res.emplace();
    World w;
    int times = vf::range(1, 4);
    for (int t = 0; t < times; ++t)
      for (auto& p : roots) {
        int stop_after = vf::chance(1, 3) ? vf::pick(4) : 1000;
        vf::desc("run %d", p->id);
        if (stop_after < 1000) vf::desc(", destroyed after %d resumes", stop_after);
        vf::desc("\n");
        auto task = p->huge ? st_task<2>(w, *p, *res, *res) : p->id % 2 ? st_task<0>(w, *p, *res, *res) : st_task<1>(w, *p, *res, *res);
        auto h = task.start_and_detach(true);
        int k = 0;
        for (; !w.parked.empty() && k < stop_after; ++k) resume_parked(w, 0);
        hard |= !h.done();
        h.destroy();
        VF_CHECK(objs_live() == 0, "%d objects of frames were never destroyed", objs_live());
      }
  }
  final_checks();
  bool thr = false;
  for (auto& r : roots) thr |= r->throws;
  if (next >= 4 && (hard || thr)) vf::nontrivial();
}

}  // namespace
