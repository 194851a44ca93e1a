// Long histories and large numbers: hundreds of waiters, tasks, nodes and combined waits, counts beyond 32 bits.
// Counters of the library that are too narrow, fixed limits and recursion over lists show only here.
#include "vs_kelcoro.hpp"

#include <algorithm>
#include <map>
#include <string>

namespace {

// a size that is mostly small, often around powers of two, rarely hundreds
int bulk(int max) {
  switch (vf::pick(5)) {
    case 0: return vf::small(12);
    case 1: {
      int p = 1 << vf::range(1, 9);
      int n = p - 1 + vf::pick(3);
      return std::min(n, max);
    }
    default: return vf::range(0, max);
  }
}

struct Later {  // an executor that keeps what it is given until it is told to run it
  std::vector<dd::task_node*> kept;
  void attach(dd::task_node* n) { kept.push_back(n); }
  void run() {
    while (!kept.empty()) {
      auto k = std::exchange(kept, {});
      for (dd::task_node* n : k) n->task.resume();
    }
  }
};

// ---------------------------------------------------------------- C15
struct EvWorld {
  std::vector<std::vector<int>> got;  // per waiter
  int done = 0;
};
template <typename In>
dd::job ev_waiter(EvWorld& w, dd::event<In>& e, int id, int rounds) {
  for (int i = 0; i < rounds; ++i) {
    if constexpr (std::is_void_v<In>) {
      (void)co_await e;
      w.got[id].push_back(-1);
    } else {
      In x = co_await e;
      w.got[id].push_back(x.size());
    }
  }
  ++w.done;
}
template <typename In>
void bulk_event_run() {
  int n = bulk(500), notes = vf::range(1, 4);
  EvWorld w;
  w.got.resize(n);
  std::vector<int> rounds(n), cb(n);
  int max_rounds = 0;
  vf::desc("%d waiters, %d notifications:", n, notes);
  {
    dd::event<In> e;
    for (int i = 0; i < n; ++i) {
      cb[i] = vf::chance(1, 3);
      rounds[i] = cb[i] ? 1 : 1 + vf::small(2);
      max_rounds = std::max(max_rounds, rounds[i]);
      if (!cb[i]) {
        ev_waiter<In>(w, e, i, rounds[i]);
      } else if constexpr (std::is_void_v<In>) {
        e.set_callback([&w, i] { w.got[i].push_back(-1), ++w.done; });
      } else {
        e.set_callback([&w, i](In x) { w.got[i].push_back(x.size()), ++w.done; });
      }
    }
    for (int k = 0; k < notes + max_rounds; ++k) {
      int how = vf::pick(3);
      size_t awake = 0;
      for (int i = 0; i < n; ++i) awake += k < rounds[i];
      static const char* hn[] = {"inline", "kept", "type-erased"};
      vf::desc(" %s", hn[how]);
      Later l;
      bool r;
      auto note = [&](auto&& ex) {
        if constexpr (std::is_void_v<In>)
          return e.notify_all(ex);
        else
          return e.notify_all(ex, In(k, 'x'));
      };
      if (how == 0) {
        r = note(dd::this_thread_executor);
      } else if (how == 1) {
        r = note(l);
      } else {
        dd::any_executor_ref a(l);
        r = note(a);
      }
      if (how) VF_CHECK(l.kept.size() == awake, "notification %d gives its executor %d coroutines of %d waiting", k, (int)l.kept.size(), (int)awake);
      l.run();
      VF_CHECK(r == (awake > 0), "notification %d returns %d with %d waiting", k, r, (int)awake);
      for (int i = 0; i < n; ++i) {
        VF_CHECK((int)w.got[i].size() == std::min(k + 1, rounds[i]), "after notification %d waiter %d of %d was woken %d times, expected %d", k, i, n, (int)w.got[i].size(), std::min(k + 1, rounds[i]));
        if (k < rounds[i]) VF_CHECK(w.got[i].back() == (std::is_void_v<In> ? -1 : k), "waiter %d gets the input of notification %d, expected %d", i, w.got[i].back(), k);
      }
    }
  }
  VF_CHECK(w.done == n, "%d of %d waiters finished", w.done, n);
  if (n >= 64) vf::nontrivial();
}
VF_MODE(event_bulk, 100, true, "0-500 coroutines (1-3 rounds) and callbacks wait for one event that is notified again and again, inline or through an executor that runs later; non-trivial: >=64 waiters") {
  if (vf::pick(2))
    bulk_event_run<std::string>();
  else
    bulk_event_run<void>();
}

// ---------------------------------------------------------------- C17
struct LWorld {
  ptrdiff_t total = 0, counted = 0;
  std::vector<int> woke;
};
dd::job l_waiter(LWorld& w, dd::latch& l, int id, ptrdiff_t arrive) {
  if (arrive >= 0)
    co_await l.arrive_and_wait(arrive);
  else
    co_await l.wait();
  VF_CHECK(w.counted == w.total, "waiter %d runs although %lld is still to count", id, (long long)(w.total - w.counted));
  w.woke[id]++;
}
VF_MODE(latch_bulk, 100, true, "0-400 coroutines wait at or arrive at a latch whose count is up to PTRDIFF_MAX and is counted down by pieces of any size; non-trivial: >=64 waiters or a count above 2^31") {
  LWorld w;
  int bits = vf::chance(1, 3) ? vf::range(31, 63) : vf::range(0, 31);
  ptrdiff_t r = ((uint64_t)vf::pick(0xffffffffu) << 32 | vf::pick(0xffffffffu));
  w.total = bits == 63 && vf::chance(1, 2) ? dd::latch::max() : bits ? (ptrdiff_t)((uint64_t)r >> (64 - bits) | (uint64_t)1 << (bits - 1)) : 0;
  if (bits && vf::chance(1, 3)) w.total = (ptrdiff_t)((uint64_t)1 << (bits - 1));  // exact powers of two
  int n = bulk(400), started = 0;
  w.woke.resize(n);
  vf::desc("latch(%lld), %d waiters:", (long long)w.total, n);
  Later later;
  const dd::this_thread_executor_t inl{};
  dd::this_thread_executor_t inl2{};
  (void)inl;
  bool use_later = vf::pick(2);
  dd::latch l(w.total, use_later ? dd::any_executor_ref(later) : dd::any_executor_ref(inl2));
  auto settle = [&] {
    bool rdy = w.counted == w.total;
    VF_CHECK(l.ready() == rdy, "ready() is %d with %lld of %lld counted", l.ready(), (long long)w.counted, (long long)w.total);
    if (!rdy) VF_CHECK(later.kept.empty(), "waiters are scheduled too early");
    later.run();
    for (int i = 0; i < started; ++i) VF_CHECK(w.woke[i] == rdy, "waiter %d was released %d times, expected %d", i, w.woke[i], rdy);
  };
  auto amount = [&]() -> ptrdiff_t {
    ptrdiff_t left = w.total - w.counted;
    switch (vf::pick(5)) {
      case 0: return 0;
      case 1: return left;
      case 2: return left > 1 ? left - 1 : left;  // all but one
      case 3: return std::min<ptrdiff_t>(left, 1);
      default: return left ? (ptrdiff_t)(((uint64_t)vf::pick(0xffffffffu) << 31 | vf::pick(0x7fffffffu)) % (uint64_t)left) : 0;
    }
  };
  settle();
  for (int step = 0; step < 40 && (started < n || w.counted < w.total); ++step) {
    bool last = step == 39;
    if (started < n && (last || vf::pick(2))) {
      int k = last ? n - started : std::min(n - started, bulk(200));
      vf::desc(" +%d", k);
      for (; k > 0; --k) l_waiter(w, l, started++, -1);
    }
    if (last || vf::pick(2)) {
      ptrdiff_t a = last ? w.total - w.counted : amount();
      w.counted += a;  // waiters may run inside the call
      if (started < n && vf::chance(1, 3)) {
        vf::desc(" arrive %lld", (long long)a);
        // an arrival of 0 at a latch that is ready already would count below it: allowed, n >= 0
        l_waiter(w, l, started++, a);
      } else {
        vf::desc(" -%lld", (long long)a);
        l.count_down(a);
      }
    }
    settle();
  }
  settle();
  if (n >= 64 || bits > 31) vf::nontrivial();
}

// ---------------------------------------------------------------- C21
struct SNode {
  SNode* next = nullptr;
  int id = 0;
};
VF_MODE(stack_bulk, 100, true, "nodes and chains of up to 300 are pushed on one stack and taken all at once, as often as up to 40 steps allow; non-trivial: a take of >=64 nodes") {
  dd::nonowner_lockfree_stack<SNode> s;
  std::vector<std::unique_ptr<SNode>> all;
  std::vector<int> model;  // back = top
  size_t biggest = 0;
  auto take = [&] {
    SNode* t = s.try_pop_all();
    biggest = std::max(biggest, model.size());
    size_t k = 0;
    while (t) {
      VF_CHECK(!model.empty(), "more nodes than were pushed: node %d", t->id);
      VF_CHECK(t->id == model.back(), "node %d of %d taken is %d, expected %d", (int)k, (int)(k + model.size()), t->id, model.back());
      model.pop_back();
      t = t->next;
      ++k;
    }
    VF_CHECK(model.empty(), "%d nodes are lost", (int)model.size());
  };
  int steps = vf::range(1, 40);
  for (int i = 0; i < steps; ++i) {
    int what = vf::pick(4);
    if (what == 3) {
      vf::desc(" take");
      take();
      continue;
    }
    int n = bulk(300);
    vf::desc(what ? " chain(%d)" : " push(%d)", n);
    SNode* head = nullptr;
    std::vector<int> ids;
    for (int k = 0; k < n; ++k) {
      all.push_back(std::make_unique<SNode>());
      SNode* x = all.back().get();
      x->id = all.size();
      ids.push_back(x->id);
      if (!what) {
        s.push(x);
      } else {
        x->next = head;
        head = x;
      }
    }
    if (what) s.push_stack(head);
    model.insert(model.end(), ids.begin(), ids.end());
  }
  take();
  if (biggest >= 64) vf::nontrivial();
}

// ---------------------------------------------------------------- C18 / C19 / C20
VF_MODE(queue_bulk, 100, true, "up to 300 nodes at a time are pushed one by one, through a strand and as lists (with and without their last node) on a task queue and popped at once; non-trivial: a pop of >=64 nodes") {
  dd::task_queue q;
  dd::strand st(q);
  VF_CHECK(&st.get_queue() == &q, "the strand names another queue");
  std::vector<std::unique_ptr<dd::task_node>> all;
  std::vector<dd::task_node*> model;
  size_t biggest = 0;
  auto pop = [&](bool wait) {
    dd::task_node* t = wait ? q.pop_all_not_empty() : q.pop_all();
    biggest = std::max(biggest, model.size());
    size_t k = 0;
    for (; t; t = t->next, ++k) VF_CHECK(k < model.size() && t == model[k], "node %d of %d is not the one pushed at this place", (int)k, (int)model.size());
    VF_CHECK(k == model.size(), "%d of %d nodes popped", (int)k, (int)model.size());
    model.clear();
  };
  int steps = vf::range(1, 40);
  for (int i = 0; i < steps; ++i) {
    int what = vf::pick(6);
    if (what == 5) {
      vf::desc(" pop");
      pop(!model.empty() && vf::pick(2));
      continue;
    }
    int n = bulk(300);
    static const char* wn[] = {"push", "attach", "strand", "list", "list with last"};
    vf::desc(" %s(%d)", wn[what], n);
    std::vector<dd::task_node*> mine;
    for (int k = 0; k < n; ++k) {
      all.push_back(std::make_unique<dd::task_node>());
      dd::task_node* x = all.back().get();
      x->task = std::noop_coroutine();
      if (k && what > 2) mine.back()->next = x;
      mine.push_back(x);
      if (what == 0) q.push(x);
      if (what == 1) q.attach(x);
      if (what == 2) st.attach(x);
    }
    if (what == 3) q.push_list(mine.empty() ? nullptr : mine[0]);
    if (what == 4 && n) q.push_list(mine[0], mine.back());
    model.insert(model.end(), mine.begin(), mine.end());
  }
  pop(false);
  if (biggest >= 64) vf::nontrivial();
}

struct PoolW {
  enum { RUN = 0, DONE = 1, CANCELLED = 2 };
  std::vector<int> state;   // per task
  std::vector<int> thread;  // where it ran
  std::vector<int> order;   // in the order they ran (one worker only)
  int parts = 0;
};
dd::job piece(PoolW& w, auto& exe, int id, int again) {
  for (int i = 0; i <= again; ++i) {
    dd::schedule_status s = co_await dd::jump_on(exe);
    if (!s) {
      w.state[id] = 100 + i;
      vs_add(PoolW::CANCELLED, 1);
      co_return;
    }
    w.state[id] = i + 1;
  }
  w.thread[id] = vs_self();
  vs_add(PoolW::DONE, 1);
}
VF_MODE(pool_bulk, 10, true, "up to 300 coroutines jump once or several times on a pool of 1-6 workers, a worker or its strand, which is waited for, stopped or destroyed while they are pending; non-trivial: >=64 coroutines") {
  int n = bulk(300), again = vf::small(3), what = vf::pick(3), nw = vf::range(1, 6), wait = vf::pick(2), stop = vf::pick(2);
  static const char* wn[] = {"pool", "worker", "strand"};
  vf::desc("%d coroutines jump %d times on a %s, %s%s", n, again + 1, wn[what], wait ? "waited for" : "destroyed at once", stop && !what ? ", stopped" : "");
  if (what == 0) vf::desc(" (%d workers)", nw);
  PoolW w;
  w.state.resize(n);
  w.thread.resize(n, -1);
  int lo, hi;
  {
    vs::Run run;
    vs_set(PoolW::DONE, 0), vs_set(PoolW::CANCELLED, 0);
    lo = vs_threads_created() + 1;
    auto go = [&](auto& exe) {
      for (int i = 0; i < n; ++i) piece(w, exe, i, again);
      if (wait) vs_wait_ge(PoolW::DONE, n, "every coroutine to finish");
    };
    if (what == 0) {
      dd::thread_pool p(nw);
      hi = vs_threads_created() + 1;
      go(p);
      if (stop) p.request_stop(), std::move(p).wait_stop();
    } else {
      dd::worker wk;
      hi = vs_threads_created() + 1;
      dd::strand st(wk);
      if (what == 1)
        go(wk);
      else
        go(st);
    }
  }
  VF_CHECK(vs_get(PoolW::DONE) + vs_get(PoolW::CANCELLED) == n, "%d ran, %d cancelled of %d", vs_get(PoolW::DONE), vs_get(PoolW::CANCELLED), n);
  if (wait) VF_CHECK(vs_get(PoolW::DONE) == n, "%d of %d ran", vs_get(PoolW::DONE), n);
  for (int i = 0; i < n; ++i) {
    VF_CHECK(w.state[i] == again + 1 || w.state[i] >= 100 && w.state[i] <= 100 + again, "coroutine %d ends in state %d", i, w.state[i]);
    if (w.state[i] == again + 1) VF_CHECK(w.thread[i] >= lo && w.thread[i] < hi, "coroutine %d ran on thread %d, workers are %d-%d", i, w.thread[i], lo, hi - 1);
  }
  if (n >= 64) vf::nontrivial();
}

// ---------------------------------------------------------------- C13
struct CombW {
  std::vector<int> ran;
  std::vector<std::coroutine_handle<>> parked;
};
struct Err {
  int id;
};
dd::task<int> part(CombW& w, int id, bool parks, bool fails) {
  w.ran[id]++;
  if (parks) co_await dd::this_coro::suspend_and([&w](std::coroutine_handle<> h) { w.parked.push_back(h); });
  if (fails) throw Err{id};
  co_return id * 5 + 2;
}
VF_MODE(all_bulk, 100, true, "when_all over a list of 0-500 tasks that complete at once or later, in random order, with values or exceptions; non-trivial: >=64 tasks") {
  int n = bulk(500), pp = vf::pick(4), pf = vf::pick(4), parks = 0;
  CombW w;
  w.ran.resize(n);
  std::vector<char> fails(n);
  std::vector<dd::task<int>> v;
  for (int i = 0; i < n; ++i) {
    bool p = pp == 3 || pp && vf::chance(pp, 3);
    fails[i] = pf == 3 || pf && vf::chance(pf, 6);
    parks += p;
    v.push_back(part(w, i, p, fails[i]));
  }
  vf::desc("%d tasks, %d suspend", n, parks);
  int done = 0;
  std::vector<dd::expected<int, std::exception_ptr>> res;
  [](std::vector<dd::task<int>> v, int& done, auto& res) -> dd::job {
    res = co_await dd::when_all(std::move(v));
    ++done;
  }(std::move(v), done, res);
  VF_CHECK((int)w.parked.size() == parks, "%d of %d suspending tasks were started", (int)w.parked.size(), parks);
  while (!w.parked.empty()) {
    VF_CHECK(done == 0, "all-of completes with %d tasks pending", (int)w.parked.size());
    std::swap(w.parked[vf::pick(w.parked.size())], w.parked.back());
    auto h = w.parked.back();
    w.parked.pop_back();
    h.resume();
  }
  VF_CHECK(done == 1, "all-of completed %d times", done);
  VF_CHECK((int)res.size() == n, "%d results of %d tasks", (int)res.size(), n);
  for (int i = 0; i < n; ++i) {
    VF_CHECK(w.ran[i] == 1, "task %d ran %d times", i, w.ran[i]);
    VF_CHECK(res[i].has_value() == !fails[i], "result %d: has a value %d, expected %d", i, res[i].has_value(), !fails[i]);
    if (!fails[i]) {
      VF_CHECK(*res[i] == i * 5 + 2, "result %d is %d", i, *res[i]);
    } else {
      try {
        std::rethrow_exception(res[i].error());
      } catch (Err& e) {
        VF_CHECK(e.id == i, "result %d is the exception of task %d", i, e.id);
      }
    }
  }
  if (n >= 64) vf::nontrivial();
}

}  // namespace
