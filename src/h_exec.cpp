// C25: jumps onto executors of every kind, type-erased references, lists.
#include "mt.hpp"

namespace {

enum { DONE = 0, DETACHED_ALIVE = 1, N_DESTROYED = 2 };
enum { AT = 1, RES = 2 };  // log: attach / resumption, a = coroutine, b = jump

struct World;
struct Co;
World* W;

struct Jump {
  int ex, form, status;
  int attached = 0, resumed = 0;
  int at_tid = -1;
};
struct Co {
  std::vector<Jump> js;
  void* addr = nullptr;
  int cur = -1;     // jump it is about to make or in
  int plain = 0;
  bool finished = false, destroyed = false;
};
struct World {
  std::vector<Co> cos;
  mt::Crew* crew = nullptr;
  std::vector<std::coroutine_handle<>> later;  // guarded
  std::vector<std::coroutine_handle<>> never;
  std::vector<int> never_id;
  std::vector<dd::task_node*> later_nodes;
  std::vector<dd::schedule_errc> later_status;
  std::vector<int> later_co;
  std::vector<std::pair<int, int>> order;  // of list attachments
  std::vs_mutex m;
};

enum Ex { INLINE, LATER, WORKER, NEVER, CONSTEX, THIS_THREAD, NEW_THREAD, NOOP, N_EX };
const char* ex_name[] = {"inline", "later", "worker", "never", "const inline", "this_thread", "new_thread", "noop"};

Co& who(void* addr) {
  std::lock_guard l(W->m);
  for (auto& c : W->cos)
    if (c.addr == addr && !c.destroyed) return c;
  vf::fail("an executor was given a coroutine that nobody submitted");
}
// every attach of the harness' executors comes through here
dd::schedule_errc on_attach(dd::task_node* n, int kind, int* co = nullptr) {
  VF_CHECK(n, "attach of a null node");
  VF_CHECK(n->task, "attach of a node without a coroutine");
  VF_CHECK(!n->task.done(), "the coroutine is done when it is attached");
  Co& c = who(n->task.address());
  VF_CHECK(c.cur >= 0, "a coroutine that makes no jump was attached");
  Jump& j = c.js[c.cur];
  VF_CHECK(j.ex == kind, "attached to the %s executor, the jump goes to %s", ex_name[kind], ex_name[j.ex]);
  VF_CHECK(++j.attached == 1, "one jump attached %d nodes", j.attached);
  VF_CHECK(n->status == dd::schedule_errc::ok, "status of a new node is not ok");
  vs_log(AT, &c - W->cos.data(), c.cur, kind);
  auto st = (dd::schedule_errc)j.status;
  if (co) *co = &c - W->cos.data();
  j.at_tid = vs_self();
  n->status = st;
  n->next = (dd::task_node*)0x30;  // it is the executor's now
  return st;
}

struct InlineEx {
  VF_NO_SHORTCUTS(InlineEx)
  void attach(dd::task_node* n) {
    on_attach(n, INLINE);
    n->task.resume();
  }
};
struct LaterEx {
  VF_NO_SHORTCUTS(LaterEx)
  void attach(dd::task_node* n) {
    on_attach(n, LATER);
    auto h = n->task;
    std::lock_guard l(W->m);
    W->later.push_back(h);
  }
};
struct WorkerEx {
  VF_NO_SHORTCUTS(WorkerEx)
  int k = 0;
  void attach(dd::task_node* n) {
    on_attach(n, WORKER);
    auto h = n->task;
    W->crew->post(k, h);  // may run before post returns
  }
};
struct NeverEx {
  VF_NO_SHORTCUTS(NeverEx)
  void attach(dd::task_node* n) {
    int co;
    on_attach(n, NEVER, &co);
    auto h = n->task;
    {
      std::lock_guard l(W->m);
      W->never.push_back(h);
      W->never_id.push_back(co);
    }
    vs_add(DONE, 1);
  }
};
struct ConstEx {
  VF_NO_SHORTCUTS(ConstEx)
  void attach(dd::task_node* n) const {
    on_attach(n, CONSTEX);
    n->task.resume();
  }
};
struct Exs {
  InlineEx in;
  LaterEx la;
  WorkerEx wo;
  NeverEx ne;
  ConstEx co;
  dd::this_thread_executor_t tt;
  dd::new_thread_executor_t nt;
  dd::noop_executor_t no;
  dd::any_executor_ref r_in{in}, r_la{la}, r_wo{wo}, r_ne{ne}, r_co{co}, r_tt{tt}, r_nt{nt}, r_no{no};
};

struct Local {
  int id;
  explicit Local(int id) : id(id) {}
  Local(Local&&) = delete;
  ~Local() { vs_add(N_DESTROYED, 1); }
};

template <typename E>
dd::task_node* node_type_check(E&) { return nullptr; }

// a reference is gone (and its memory given back) when its copy is used
template <typename E>
dd::any_executor_ref copied(E& e, int how) {
  auto* o = new dd::any_executor_ref(e);
  auto* p = how == 0 ? new dd::any_executor_ref(*o) : how == 1 ? new dd::any_executor_ref(std::as_const(*o)) : new dd::any_executor_ref(std::move(*o));
  delete o;
  dd::any_executor_ref r = *p;
  delete p;
  return r;
}

#define JUMP(E, REF)                                                      \
  switch (j.form) {                                                       \
    case 0: st = co_await dd::jump_on(E); break;                          \
    case 1: st = co_await dd::jump_on(REF); break;                        \
    case 2: {                                                             \
      dd::any_executor_ref copy = copied(E, (id + (int)i) % 3);           \
      dd::any_executor_ref copy2 = std::move(copy);                       \
      st = co_await dd::jump_on(copy2);                                   \
      break;                                                              \
    }                                                                     \
    case 3: st = co_await dd::jump_on(dd::any_executor_ref(E)); break;    \
    case 4: {                                                             \
      auto aw = dd::jump_on(E);                                           \
      st = co_await aw;                                                   \
      break;                                                              \
    }                                                                     \
  }

dd::job runner(int id, Exs& x) {
  Local l(id);
  auto self = co_await dd::this_coro::handle;
  Co* c;
  {
    std::lock_guard lk(W->m);
    c = &W->cos[id];
    c->addr = self.address();
  }
  for (size_t i = 0; i < c->js.size(); ++i) {
    Jump& j = c->js[i];
    c->cur = i;
    c->plain = i + 1;
    dd::schedule_status st{};
    switch (j.ex) {
      case INLINE: JUMP(x.in, x.r_in) break;
      case LATER: JUMP(x.la, x.r_la) break;
      case WORKER: JUMP(x.wo, x.r_wo) break;
      case NEVER: JUMP(x.ne, x.r_ne) break;
      case CONSTEX:
        if (j.form == 0) {
          const ConstEx& ce = x.co;
          st = co_await dd::jump_on(ce);
        } else JUMP(x.co, x.r_co)
        break;
      case THIS_THREAD:
        if (j.form == 0) st = co_await dd::jump_on(dd::this_thread_executor);
        else JUMP(x.tt, x.r_tt)
        break;
      case NEW_THREAD: {
        int t0 = vs_self();
        if (j.form == 0) st = co_await dd::jump_on(dd::new_thread_executor);
        else JUMP(x.nt, x.r_nt)
        VF_CHECK(vs_self() != t0, "jump onto a new thread continues on the same one");
        break;
      }
      case NOOP: {
        {
          std::lock_guard lk(W->m);
          W->never.push_back(self);
          W->never_id.push_back(id);
        }
        vs_add(DONE, 1);
        if (j.form == 0) st = co_await dd::jump_on(dd::noop_executor);
        else JUMP(x.no, x.r_no)
        break;
      }
    }
    bool own = j.ex == INLINE || j.ex == LATER || j.ex == WORKER || j.ex == NEVER || j.ex == CONSTEX;
    vs_log(RES, id, i, j.ex);
    VF_CHECK(j.ex != NEVER && j.ex != NOOP, "coroutine %d was resumed although its executor never resumes", id);
    VF_CHECK(++j.resumed == 1, "one jump resumed the coroutine %d times", j.resumed);
    VF_CHECK(!own || j.attached == 1, "coroutine %d continues without having been attached", id);
    VF_CHECK(c->plain == (int)i + 1 && c->cur == (int)i, "coroutine %d continues in another place", id);
    VF_CHECK(st.what == (own ? (dd::schedule_errc)j.status : dd::schedule_errc::ok), "status %d reported, the executor set %d", (int)st.what, own ? j.status : 0);
    VF_CHECK((bool)st == (st.what == dd::schedule_errc::ok), "a status of %d converts to %d", (int)st.what, (bool)st);
  }
  c->cur = -1;
  c->finished = true;
  {
    std::lock_guard lk(W->m);
    c->destroyed = true;  // the address may be used again
  }
  vs_add(DONE, 1);
}

static void jumps_mode(bool new_threads) {
  World w;
  W = &w;
  int nt = vf::range(1, 2), nc = vf::range(1, 4);
  std::vector<int> starter(nc);
  int jumps = 0;
  unsigned kinds = 0;
  w.cos.resize(nc);
  for (int i = 0; i < nc; ++i) {
    starter[i] = vf::pick(nt);
    int n = vf::range(1, 4);
    vf::desc("T%d starts coroutine %d:", starter[i], i);
    for (int k = 0; k < n; ++k) {
      static const uint32_t wa[] = {4, 4, 4, 1, 2, 2, 0, 1}, wb[] = {2, 2, 2, 0, 1, 1, 4, 0};
      const uint32_t* ww = new_threads ? wb : wa;
      Jump j{(int)vf::pick_w(ww, N_EX), (int)vf::pick(5), vf::chance(1, 3) ? (int)vf::pick(4) : 0};
      // (nothing orders the end of a detached thread before the end of the case)
      bool detached = false;
      for (auto& q : w.cos[i].js) detached |= q.ex == NEW_THREAD;
      if ((k + 1 < n || detached) && (j.ex == NEVER || j.ex == NOOP)) j.ex = LATER;
      w.cos[i].js.push_back(j);
      vf::desc(" %s/%d", ex_name[j.ex], j.form);
      if (j.status) vf::desc("(status %d)", j.status);
      kinds |= 1 << j.ex;
      ++jumps;
    }
    vf::desc("\n");
  }
  {
    vs::Run run;
    mt::Crew crew(vf::range(1, 2));
    w.crew = &crew;
    Exs x;
    x.wo.k = vf::pick(2);
    auto client = [&](int t) {
      for (int i = 0; i < nc; ++i)
        if (starter[i] == t) runner(i, x);
    };
    std::vector<std::vs_thread> ts;
    for (int t = 1; t < nt; ++t) ts.emplace_back([&, t] { client(t); });
    client(0);
    // the "later" executor runs on this thread
    while (vs_get(DONE) < nc) {
      std::coroutine_handle<> h;
      {
        std::lock_guard l(w.m);
        if (!w.later.empty()) h = w.later.front(), w.later.erase(w.later.begin());
      }
      if (h) h.resume();
      else vs_yield();
    }
    for (auto& t : ts) t.join();
    crew.quiesce();
    crew.stop();
    std::lock_guard l(w.m);  // whoever finished took it
  }  // threads of new_thread_executor end here
  for (size_t i = 0; i < w.never.size(); ++i) {
    VF_CHECK(!w.cos[w.never_id[i]].finished, "coroutine %d finished although its executor never resumes", w.never_id[i]);
    w.never[i].destroy();
  }
  for (int i = 0; i < nc; ++i)
    for (auto& j : w.cos[i].js) {
      bool ends = j.ex == NEVER || j.ex == NOOP;
      VF_CHECK(j.resumed == !ends, "a jump of coroutine %d resumed it %d times", i, j.resumed);
    }
  VF_CHECK(vs_get(N_DESTROYED) == nc, "%d coroutines, locals of %d destroyed", nc, vs_get(N_DESTROYED));
  if (jumps >= 3 && (kinds & (kinds - 1))) vf::nontrivial();
}

VF_MODE(jump_mt, 20, true,
        "1-2 threads start coroutines that make 1-4 jumps onto executors that resume inline, later, on a worker or never, directly and through type-erased "
        "references, copies and temporaries, with any status; random schedule; non-trivial: >=3 jumps, >=2 kinds of executors") {
  jumps_mode(false);
}
// (the C library frees the memory of a detached thread some time later, so this mode has no leak check)
VF_MODE(jump_new_mt, 20, false, "as jump_mt, with jumps onto new threads; non-trivial: >=3 jumps, >=2 kinds of executors") { jumps_mode(true); }

// ---------------------------------------------------------------- lists
struct Park {
  dd::task_node node;
  dd::task_node** out;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) {
    node.task = h;
    *out = &node;
  }
  dd::schedule_errc await_resume() const noexcept { return node.status; }
};
struct ListWorld {
  std::vector<int> order, ran;
  std::vector<void*> addr;
  std::vector<int> how;  // per node: 0 resumed at once (frame and node die), 1 destroyed at once, 2 resumed later
  std::vector<std::coroutine_handle<>> later;
};
ListWorld* LW;
dd::job parked(int id, dd::task_node** out) {
  Local l(id);
  auto self = co_await dd::this_coro::handle;
  LW->addr[id] = self.address();
  auto st = co_await Park{{}, out};
  VF_CHECK(st == (dd::schedule_errc)(id % 4), "node %d: status %d", id, (int)st);
  LW->ran[id]++;
}
struct ListEx {
  void attach(dd::task_node* n) {
    VF_CHECK(n && n->task, "attach of an empty node");
    int id = -1;
    for (size_t i = 0; i < LW->addr.size(); ++i)
      if (LW->addr[i] == n->task.address()) id = i;
    VF_CHECK(id >= 0, "attach of a node that is not in the list");
    LW->order.push_back(id);
    n->status = (dd::schedule_errc)(id % 4);
    n->next = (dd::task_node*)0x30;
    auto h = n->task;
    LW->addr[id] = nullptr;
    switch (LW->how[id]) {
      case 0: h.resume(); break;
      case 1: h.destroy(); break;
      case 2: LW->later.push_back(h); break;
    }
  }
};
dd::job sched(auto& e, bool& called) { co_return; }

VF_MODE(lists, 200, true,
        "lists of 0..12 suspended coroutines are reversed 0-3 times and attached (directly or type-erased) to an executor that resumes, destroys or stores each at once; "
        "non-trivial: >=2 nodes, at least one dies while it is handed over") {
  ListWorld w;
  LW = &w;
  vs_set(N_DESTROYED, 0);
  int n = vf::pick(13), rev = vf::pick(4), form = vf::pick(3);
  w.ran.assign(n, 0);
  w.addr.assign(n, nullptr);
  std::vector<dd::task_node*> nodes(n);
  bool dies = false;
  vf::desc("%d nodes, reversed %d times, form %d, each:", n, rev, form);
  for (int i = 0; i < n; ++i) {
    w.how.push_back(vf::pick(3));
    dies |= w.how[i] < 2;
    vf::desc(" %d", w.how[i]);
    parked(i, &nodes[i]);
  }
  for (int i = 0; i + 1 < n; ++i) nodes[i]->next = nodes[i + 1];
  dd::task_node* top = n ? nodes[0] : nullptr;
  std::vector<int> expect(n);
  std::iota(expect.begin(), expect.end(), 0);
  for (int r = 0; r < rev; ++r) {
    top = dd::reverse_list(top);
    std::reverse(expect.begin(), expect.end());
    dd::task_node* t = top;
    for (int i = 0; i < n; ++i, t = t->next) VF_CHECK(t == nodes[expect[i]], "reversed list: position %d", i);
    VF_CHECK(!t, "reversed list does not end");
  }
  ListEx e;
  dd::any_executor_ref r(e);
  if (form == 0) dd::attach_list(e, top);
  if (form == 1) dd::attach_list(r, top);
  if (form == 2) {
    dd::any_executor_ref c = copied(e, n % 3);
    dd::attach_list(c, top);
  }
  VF_CHECK(w.order == expect, "%zu of %d nodes were attached, or in another order", w.order.size(), n);
  for (auto h : w.later) h.resume();
  for (int i = 0; i < n; ++i) VF_CHECK(w.ran[i] == (w.how[i] != 1), "node %d ran %d times", i, w.ran[i]);
  VF_CHECK(vs_get(N_DESTROYED) == n, "%d of %d frames are gone", vs_get(N_DESTROYED), n);
  // scheduled functions: called exactly if the status is ok
  struct StEx {
    dd::schedule_errc s;
    int n = 0;
    void attach(dd::task_node* x) {
      ++n;
      x->status = s;
      x->task.resume();
    }
  } se{(dd::schedule_errc)vf::pick(4)};
  int called = 0;
  if (form == 0) dd::schedule_to(se, [&] { ++called; });
  else if (form == 1) {
    dd::any_executor_ref rr(se);
    dd::schedule_to(rr, [&] { ++called; });
  } else {
    dd::new_delete_resource nd;
    dd::schedule_to(se, [&] { ++called; }, dd::with_resource(nd));
  }
  VF_CHECK(se.n == 1 && called == (se.s == dd::schedule_errc::ok), "status %d: function attached %d times, called %d times", (int)se.s, se.n, called);
  if (n >= 2 && dies) vf::nontrivial();
}

}  // namespace
