// C26: jobs and control-transfer primitives against an interpreter.
#include "vs_kelcoro.hpp"

namespace {

enum Act { EMIT, PARK, TRANSFER, RESUME, DESTROY_SELF, DESTROY_TRANSFER, SA_FALSE, SA_TRUE, SA_HANDLE, SA_SELF, SA_NOOP, SA_RESUME_INSIDE, START, DESTROY_OTHER, THROW_CATCH, N_ACT };
const char* act_name[] = {"emit", "park", "transfer", "resume", "destroy self", "destroy self and transfer", "suspend_and(false)", "suspend_and(true)", "suspend_and(handle)",
                          "suspend_and(own handle)", "suspend_and(noop)", "suspend_and(resumes inside)", "start", "destroy other", "scope"};
struct Step {
  int act, k;
};
enum Ev { E_STEP = 1, E_FN, E_DEAD, E_START_RET, E_RES_RET, E_SCOPE };
using Trace = std::vector<std::array<int, 3>>;

struct World {
  std::vector<std::vector<Step>> script;
  std::vector<std::coroutine_handle<>> slot;  // parked
  std::vector<char> started;
  std::vector<int> kind;
  Trace tr;
  void ev(int e, int a, int b) { tr.push_back({e, a, b}); }
};
World* W;

struct Local {
  int id;
  std::unique_ptr<int> mem;  // shows double destruction
  explicit Local(int id) : id(id), mem(new int(id)) {}
  Local(Local&&) = delete;
  ~Local() {
    VF_CHECK(*mem == id, "local of actor %d", id);
    W->ev(E_DEAD, id, 0);
  }
};

std::coroutine_handle<> take(int k) { return std::exchange(W->slot[k], nullptr); }

// every kind of coroutine that can await the primitives; all but the job are left to themselves after their first
// park (forced: a coroutine that ends itself inside its first run would leave the creator with a dangling owner)
enum Kind { K_JOB, K_TASK, K_ASYNC, K_LTHREAD, N_KIND };
const char* kind_name[] = {"job", "detached task", "detached async_task", "detached logical_thread"};

void start_actor(int id);

template <typename R>
R actor_body(int id) {
  Local l(id);
  auto self = co_await dd::this_coro::handle;
  World& w = *W;
  if (w.kind[id] >= K_ASYNC)
    co_await dd::this_coro::suspend_and([&w, id](std::coroutine_handle<> h) { w.slot[id] = h; });
  auto is_self = [&](std::coroutine_handle<> h) { VF_CHECK(h.address() == self.address(), "actor %d: suspend_and gives another handle", id); };
  for (size_t pc = 0; pc < w.script[id].size(); ++pc) {
    Step s = w.script[id][pc];
    w.ev(E_STEP, id, pc);
    switch (s.act) {
      case EMIT: break;
      case PARK:
        co_await dd::this_coro::suspend_and([&w, id, is_self](std::coroutine_handle<> h) {
          is_self(h);
          w.ev(E_FN, id, 0);
          w.slot[id] = h;
        });
        break;
      case TRANSFER: {
        if (s.k == id) {  // to itself: it goes on
          co_await dd::transfer_control_to{self};
          break;
        }
        auto h = take(s.k);
        if (h) w.slot[id] = self;
        co_await dd::transfer_control_to{h};
        break;
      }
      case RESUME:
        if (auto h = take(s.k)) {
          h.resume();
          w.ev(E_RES_RET, id, s.k);
        }
        break;
      case DESTROY_SELF:
        co_await dd::this_coro::destroy;
        vf::fail("actor %d continues after destroying itself", id);
        break;
      case DESTROY_TRANSFER:
        co_await dd::this_coro::destroy_and_transfer_control_to{take(s.k)};
        vf::fail("actor %d continues after destroying itself", id);
        break;
      case SA_FALSE:
        co_await dd::this_coro::suspend_and([&](auto h) {
          is_self(h);
          w.ev(E_FN, id, 0);
          return false;
        });
        break;
      case SA_TRUE:
        co_await dd::this_coro::suspend_and([&](auto h) {
          is_self(h);
          w.ev(E_FN, id, 0);
          w.slot[id] = h;
          return true;
        });
        break;
      case SA_HANDLE: {
        auto h = take(s.k);
        if (!h) break;
        co_await dd::this_coro::suspend_and([&](std::coroutine_handle<> me) -> std::coroutine_handle<> {
          is_self(me);
          w.ev(E_FN, id, 0);
          w.slot[id] = me;
          return h;
        });
        break;
      }
      case SA_SELF:
        co_await dd::this_coro::suspend_and([&](std::coroutine_handle<> me) -> std::coroutine_handle<> {
          is_self(me);
          w.ev(E_FN, id, 0);
          return me;
        });
        break;
      case SA_NOOP: {
        auto fn = [&](std::coroutine_handle<> me) -> std::coroutine_handle<> {
          is_self(me);
          w.ev(E_FN, id, 0);
          w.slot[id] = me;
          return std::noop_coroutine();
        };
        co_await dd::this_coro::suspend_and(fn);
        break;
      }
      case SA_RESUME_INSIDE: {
        auto h = take(s.k);
        if (!h) break;
        co_await dd::this_coro::suspend_and([wp = &w, id, h, is_self](std::coroutine_handle<> me) {
          is_self(me);
          wp->ev(E_FN, id, 0);
          wp->slot[id] = me;
          auto hh = h;  // the frame may be gone afterwards
          hh.resume();
        });
        break;
      }
      case START:
        if (!w.started[s.k]) {
          w.started[s.k] = 1;
          int sid = id;  // this actor may only be resumed by itself meanwhile: it is running
          start_actor(s.k);
          w.ev(E_START_RET, sid, s.k);
        }
        break;
      case DESTROY_OTHER:
        if (auto h = take(s.k)) h.destroy();
        break;
      case THROW_CATCH: {
        dd::scope_exit g{[&w, id, pc] { w.ev(E_SCOPE, id, pc); }};
        try {
          dd::scope_exit g2([&w, id] { w.ev(E_SCOPE, id, 77); });
          throw 1;
        } catch (int) {
        }
        break;
      }
    }
  }
}

void start_actor(int id) {
  switch (W->kind[id]) {
    case K_JOB: actor_body<dd::job>(id); break;
    case K_TASK: actor_body<dd::task<void>>(id).start_and_detach(); break;
    case K_ASYNC: actor_body<dd::async_task<void>>(id).detach(); break;
    case K_LTHREAD: actor_body<dd::logical_thread>(id).detach(); break;
  }
}

// ---------------------------------------------------------------- the interpreter
struct Model {
  const std::vector<std::vector<Step>>& script;
  const std::vector<int>& kind;
  std::vector<char> started, parked;
  std::vector<size_t> pc;
  Trace tr;
  Model(const std::vector<std::vector<Step>>& s, const std::vector<int>& k) : script(s), kind(k), started(s.size()), parked(s.size()), pc(s.size()) {}
  void ev(int e, int a, int b) { tr.push_back({e, a, b}); }
  bool take(int k) { return std::exchange(parked[k], 0); }
  void start(int k) {
    started[k] = 1;
    if (kind[k] >= K_ASYNC)
      parked[k] = 1;
    else
      run(k);
  }
  // from resumption until control returns to the resumer
  void run(int a) {
    for (;;) {
      if (pc[a] == script[a].size()) {
        ev(E_DEAD, a, 0);
        return;
      }
      Step s = script[a][pc[a]];
      ev(E_STEP, a, pc[a]);
      int here = pc[a]++;
      switch (s.act) {
        case EMIT: break;
        case PARK:
        case SA_TRUE:
        case SA_NOOP:
          ev(E_FN, a, 0);
          parked[a] = 1;
          return;
        case TRANSFER:
          if (take(s.k)) {
            parked[a] = 1;
            a = s.k;
          }
          break;
        case RESUME:
          if (take(s.k)) {
            run(s.k);
            ev(E_RES_RET, a, s.k);
          }
          break;
        case DESTROY_SELF: ev(E_DEAD, a, 0); return;
        case DESTROY_TRANSFER:
          ev(E_DEAD, a, 0);
          if (!take(s.k)) return;
          a = s.k;
          break;
        case SA_FALSE:
        case SA_SELF: ev(E_FN, a, 0); break;
        case SA_HANDLE:
          if (take(s.k)) {
            ev(E_FN, a, 0);
            parked[a] = 1;
            a = s.k;
          }
          break;
        case SA_RESUME_INSIDE:
          if (take(s.k)) {
            ev(E_FN, a, 0);
            parked[a] = 1;
            run(s.k);
            return;
          }
          break;
        case START:
          if (!started[s.k]) {
            start(s.k);
            ev(E_START_RET, a, s.k);
          }
          break;
        case DESTROY_OTHER:
          if (take(s.k)) ev(E_DEAD, s.k, 0);
          break;
        case THROW_CATCH:
          ev(E_SCOPE, a, 77);
          ev(E_SCOPE, a, here);
          break;
      }
    }
  }
};

VF_MODE(prim_seq, 200, true,
        "2-5 jobs and detached tasks, async tasks and logical threads run random scripts of transfers, self-destruction (with and without transfer), suspend-with-function in every form, nested resumptions, starts and destructions of one "
        "another; the trace is compared with an interpreter's; non-trivial: >=10 trace events and >=2 transfers of control that took effect") {
  World w;
  W = &w;
  int n = vf::range(2, 5);
  w.script.resize(n);
  w.slot.resize(n);
  w.started.assign(n, 0);
  w.kind.assign(n, K_JOB);
  for (int a = 0; a < n; ++a) {
    int len = vf::range(1, 8);
    static const uint32_t kw[] = {4, 2, 1, 1};
    w.kind[a] = vf::pick_w(kw, N_KIND);
    vf::desc("actor %d (%s):", a, kind_name[w.kind[a]]);
    vf::label(kind_name[w.kind[a]]);
    for (int i = 0; i < len; ++i) {
      static const uint32_t ww[] = {1, 4, 6, 4, 1, 2, 1, 2, 4, 1, 2, 3, 4, 1, 1};
      Step s{(int)vf::pick_w(ww, N_ACT), (int)vf::pick(n)};
      vf::desc(" %s(%d)", act_name[s.act], s.k);
      w.script[a].push_back(s);
    }
    vf::desc("\n");
  }
  Model m(w.script, w.kind);
  // the main program: starts whatever was not started, then resumes round after round
  for (int a = 0; a < n; ++a)
    if (!m.started[a]) m.start(a);
  for (int r = 0; r < 4; ++r)
    for (int a = 0; a < n; ++a)
      if (m.take(a)) m.run(a);
  for (int a = 0; a < n; ++a)
    if (m.take(a)) m.ev(E_DEAD, a, 0);

  for (int a = 0; a < n; ++a)
    if (!w.started[a]) w.started[a] = 1, start_actor(a);
  for (int r = 0; r < 4; ++r)
    for (int a = 0; a < n; ++a)
      if (auto h = take(a)) h.resume();
  for (int a = 0; a < n; ++a)
    if (auto h = take(a)) h.destroy();

  size_t k = 0;
  while (k < m.tr.size() && k < w.tr.size() && m.tr[k] == w.tr[k]) ++k;
  if (k < m.tr.size() || k < w.tr.size()) {
    static const char* en[] = {"end of the trace", "step", "function", "destruction", "return of a start", "return of a resumption", "scope exit"};
    std::array<int, 3> e = k < m.tr.size() ? m.tr[k] : std::array<int, 3>{}, g = k < w.tr.size() ? w.tr[k] : std::array<int, 3>{};
    vf::fail("event %zu: expected %s of actor %d (%d), got %s of actor %d (%d)", k, en[e[0]], e[1], e[2], en[g[0]], g[1], g[2]);
  }
  std::vector<int> dead(n);
  int transfers = 0;
  for (size_t i = 0; i < w.tr.size(); ++i) {
    if (w.tr[i][0] == E_DEAD) VF_CHECK(++dead[w.tr[i][1]] == 1, "locals of actor %d destroyed twice", w.tr[i][1]);
    if (i && w.tr[i][0] == E_STEP && w.tr[i][1] != w.tr[i - 1][1]) ++transfers;
  }
  for (int a = 0; a < n; ++a) VF_CHECK(dead[a] == 1, "actor %d destroyed %d times", a, dead[a]);
  vf::label("events", w.tr.size());
  if (w.tr.size() >= 10 && transfers >= 2) vf::nontrivial();
}

}  // namespace
