// C18 queues, workers and strands; C19 thread pool; C20 stopping and destruction.
#include "mt.hpp"

namespace {

// ---------------------------------------------------------------- pieces of work
enum { SUB_LO = 1, SUB_HI, RUN_LO, RUN_HI, STOP_LO, WAIT_LO, WAIT_HI };
enum { DONE = 0, GONE = 1, CANCELLED = 2 };

struct Item {
  int group = -1;     // same executor (C18) or same hash (C19): one thread, in order
  int plain = 0;      // written before the submission, read by the piece
  int ran = 0, cancelled = 0, tid = -1;
  int list = -1, pos = 0;  // nodes of one attached list
};

struct World {
  std::vector<Item> items;
  int ledger[8] = {};   // per group: plain, only pieces of that group touch it
  int n = 0;
  bool stopping = false;  // pieces may be cancelled
  dd::thread_pool* pool = nullptr;
  int add(int group) {
    items.push_back({});
    items.back().group = group;
    return n++;
  }
};

struct Counted {  // captured by functions: each must die
  Counted() { vs_add(40, 1); }
  Counted(Counted&&) noexcept { vs_add(40, 1); }
  Counted(const Counted&) { vs_add(40, 1); }
  ~Counted() { vs_add(40, -1); }
};
int alive() { return vs_get(40); }

void before(World& w, int id) {
  w.items[id].plain = id + 1;
  vs_log(SUB_LO, id, 0, 0);
}
void after(int id) { vs_log(SUB_HI, id, 0, 0); }

// runs inside the executed piece
void piece(World& w, int id, bool ok) {
  vs_log(RUN_LO, id, ok, 0);
  Item& it = w.items[id];
  VF_CHECK(!vs_get(GONE), "piece %d runs after its executor is gone", id);
  VF_CHECK(++it.ran == 1, "piece %d was resumed %d times", id, it.ran);
  VF_CHECK(it.plain == id + 1, "piece %d does not see what was done before it was submitted", id);
  it.tid = vs_self();
  it.cancelled = !ok;
  if (!ok) {
    VF_CHECK(w.stopping, "piece %d was cancelled, nobody stopped anything", id);
    vs_add(CANCELLED, 1);
  } else {
    if (w.pool && !w.stopping) VF_CHECK(w.pool->is_worker(), "piece %d runs on a thread that is no worker of the pool", id);
    if (it.group >= 0) {
      int x = w.ledger[it.group];
      vs_yield();  // others try to get in between
      w.ledger[it.group] = x + 1;
    }
  }
  vs_log(RUN_HI, id, 0, 0);
}

// logs the submission of an awaiter
template <typename A>
struct Sub {
  A a;
  World& w;
  int id;
  bool await_ready() {
    bool r = a.await_ready();
    VF_CHECK(!r, "jump is ready at once: the coroutine would not be executed there");
    return r;
  }
  template <typename P>
  void await_suspend(std::coroutine_handle<P> h) {
    int i = id;
    before(w, i);
    a.await_suspend(h);
    after(i);
  }
  auto await_resume() { return a.await_resume(); }
};
template <typename A>
Sub(A, World&, int) -> Sub<A>;

// a coroutine that waits with its own node, for lists
struct Park {
  dd::task_node node;
  dd::task_node** out;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) {
    node.task = h;
    *out = &node;
  }
  bool await_resume() const noexcept { return node.status == dd::schedule_errc::ok; }
};

// builds a list of k parked coroutines and gives it to `attach`
struct Then {  // what a piece does afterwards
  virtual void run(int id, bool ok) = 0;
  virtual ~Then() = default;
};
dd::job parked(World& w, int id, dd::task_node** out, Then* then) {
  Counted c;
  bool ok = co_await Park{{}, out};
  piece(w, id, ok);
  if (then) then->run(id, ok);
  vs_add(DONE, 1);
}
dd::task_node* make_list(World& w, const std::vector<int>& ids, Then* then) {
  dd::task_node *first = nullptr, *last = nullptr, *n = nullptr;
  for (int id : ids) {
    parked(w, id, &n, std::exchange(then, nullptr));  // the first one continues
    n->next = nullptr;
    (first ? last->next : first) = n;
    last = n;
  }
  return first;
}

struct Hist {
  std::vector<int> lo, hi, run, end, tid;
  explicit Hist(const World& w) : lo(w.n, -1), hi(w.n, 1 << 30), run(w.n, -1), end(w.n, -1), tid(w.n, -1) {
    for (int i = 0; i < vs_nlog(); ++i) {
      vs_ev e = vs_log_at(i);
      if (e.kind == SUB_LO) lo[e.a] = i;
      if (e.kind == SUB_HI) hi[e.a] = i;
      if (e.kind == RUN_LO) run[e.a] = i, tid[e.a] = e.tid;
      if (e.kind == RUN_HI) end[e.a] = i;
    }
  }
  // pieces for which `same` holds: one thread, one at a time, in order of submission
  template <typename F>
  void check_lane(const World& w, const char* what, F&& same, bool one_thread = true) {
    for (int a = 0; a < w.n; ++a)
      for (int b = 0; b < w.n; ++b) {
        if (a == b || run[a] < 0 || run[b] < 0 || !same(a, b)) continue;
        if (w.items[a].cancelled || w.items[b].cancelled) continue;
        if (one_thread) VF_CHECK(tid[a] == tid[b], "pieces %d and %d of one %s ran on different threads", a, b, what);
        VF_CHECK(end[a] < run[b] || end[b] < run[a], "pieces %d and %d of one %s ran at the same time", a, b, what);
        bool before = hi[a] < lo[b] || (w.items[a].list >= 0 && w.items[a].list == w.items[b].list && w.items[a].pos < w.items[b].pos);
        VF_CHECK(!before || run[a] < run[b], "piece %d of one %s was submitted before piece %d and ran after it", a, what, b);
      }
  }
};

// memory resource that only counts
struct Mem : std::pmr::memory_resource {
  std::vs_mutex m;
  std::map<void*, std::pair<size_t, size_t>> live;
  size_t n_alloc = 0, bytes = 0;
  int fail_at = 0;  // fails the n-th allocation from now on
  void* do_allocate(size_t n, size_t al) override {
    std::lock_guard l(m);
    if (fail_at && --fail_at == 0) throw std::bad_alloc();
    void* p = ::operator new(n, std::align_val_t(std::max<size_t>(al, 16)));
    live[p] = {n, al};
    ++n_alloc;
    bytes += n;
    return p;
  }
  void do_deallocate(void* p, size_t n, size_t al) override {
    std::lock_guard l(m);
    auto it = live.find(p);
    if (it == live.end()) vf::fail("memory returned to a resource it did not come from");
    if (it->second.first != n) vf::fail("%zu bytes returned, %zu were allocated", n, it->second.first);
    if (it->second.second != al) vf::fail("returned with alignment %zu, allocated with %zu", al, it->second.second);
    live.erase(it);
    ::operator delete(p, std::align_val_t(std::max<size_t>(al, 16)));
  }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

// ---------------------------------------------------------------- C18
// a job of the user: takes one batch after the other until the pill
// works through the rest of a list after the pill: everything in it is cancelled
void cancel_rest(dd::task_node* t) {
  while (t) {
    auto h = t->task;
    bool pill = t->is_deadpill();
    t->status = dd::schedule_errc::cancelled;
    t = t->next;
    if (!pill) h.resume();
  }
}
template <bool POLL>
void own_job(dd::task_queue& q) {
  for (;;) {
    dd::task_node* t = POLL ? q.pop_all() : nullptr;
    if (!t) t = q.pop_all_not_empty();
    if (!t) vf::fail("pop_all_not_empty returned nothing");
    while (t) {
      auto h = t->task;
      bool pill = t->is_deadpill();
      VF_CHECK(pill == !h, "is_deadpill says %d of a node %s a coroutine", pill, h ? "with" : "without");
      t = t->next;
      if (pill) return cancel_rest(t);
      h.resume();
    }
  }
}
constexpr dd::worker::job_t custom_job = own_job<false>;
// the same, but polling
constexpr dd::worker::job_t polling_job = own_job<true>;
// any job which does what jobs must do
dd::worker::job_t any_job() {
  dd::worker::job_t js[] = {dd::default_worker_job, custom_job, polling_job};
  int k = vf::chance(1, 4) ? vf::range(1, 2) : 0;
  if (k) vf::desc("workers with a job of their own (%d)\n", k);
  return js[k];
}

struct Target {
  int kind = 0;  // 0 worker, 1 worker with a job of its own, 2 bare queue with a thread, 3 strand of a pool
  std::unique_ptr<dd::worker> wo;
  std::unique_ptr<dd::task_queue> qu;
  std::vs_thread th;
  std::unique_ptr<dd::thread_pool> po;
  std::optional<dd::strand> st;

  void start(int k, int threads, int hash) {
    kind = k;
    if (k == 0) wo = std::make_unique<dd::worker>(), st.emplace(*wo);
    if (k == 1) wo = std::make_unique<dd::worker>(hash % 2 ? custom_job : polling_job), st.emplace(*wo);
    if (k == 2) {
      qu = std::make_unique<dd::task_queue>();
      th = std::vs_thread([q = qu.get()] { dd::default_worker_job(*q); });
      st.emplace(*qu);
    }
    if (k == 3) po = std::make_unique<dd::thread_pool>(threads), st.emplace(po->get_strand(hash));
  }
  dd::task_queue& queue() { return st->get_queue(); }
  std::thread::id id() {
    if (wo) {
      VF_CHECK(wo->get_thread().get_id() == wo->get_id() && std::as_const(*wo).get_thread().get_id() == wo->get_id(), "get_thread is another thread than get_id");
      return wo->get_id();
    }
    if (qu) return th.get_id();
    return {};
  }
  void stop() {
    if (qu) {
      dd::task_node pill = dd::task_node::deadpill();
      qu->push(&pill);
      th.join();
    }
    st.reset();
    wo.reset();
    qu.reset();
    po.reset();
  }
};

struct Chain {  // a coroutine's pieces: target and way of each jump
  std::vector<int> id, tgt, how;
};

dd::job chain(World& w, Target* tg, const Chain& c) {
  Counted k;
  for (size_t i = 0; i < c.id.size(); ++i) {
    int id = c.id[i];
    Target& t = tg[c.tgt[i]];
    bool ok = false;
    switch (c.how[i]) {
      case 0: ok = (bool)co_await Sub{dd::jump_on(*t.st), w, id}; break;
      case 1:
        if (t.wo) ok = (bool)co_await Sub{dd::jump_on(*t.wo), w, id};
        else ok = (bool)co_await Sub{dd::jump_on(t.queue()), w, id};
        break;
      case 2: {
        dd::any_executor_ref e(*t.st);
        ok = (bool)co_await Sub{dd::jump_on(e), w, id};
        break;
      }
      case 3: {
        const dd::strand s(*t.st);
        ok = (bool)co_await Sub{dd::jump_on(s), w, id};
        break;
      }
      case 4: ok = (bool)co_await Sub{dd::jump_on(t.queue()), w, id}; break;
    }
    piece(w, id, ok);
    if (t.id() != std::thread::id{}) VF_CHECK(std::this_thread::get_id() == t.id(), "piece %d does not run on its worker's thread", id);
  }
  vs_add(DONE, c.id.size());
}

VF_MODE(queue_mt, 20, true,
        "1-3 threads submit coroutines (jumps, chains of jumps, lists, scheduled functions) to 1-2 executors (worker with default or own job, bare queue with its own thread, "
        "strand of a pool) under a random schedule; non-trivial: >=3 pieces, >=2 submitting threads or pieces that submit, >=3 switches") {
  World w;
  int nt = vf::range(1, 3), ntg = vf::range(1, 2);
  int kind[2], hash[2], threads[2];
  static const char* kn[] = {"worker", "worker with its own job", "queue with a thread", "strand of a pool"};
  for (int i = 0; i < ntg; ++i) kind[i] = vf::pick(4), hash[i] = vf::pick(4), threads[i] = vf::range(1, 2), vf::desc("executor %d: %s\n", i, kn[kind[i]]);
  struct Op {
    int kind;  // 0 chain, 1 list, 2 function, 3 yield
    Chain c;
    std::vector<int> ids;
    int tgt = 0, how = 0;
  };
  std::vector<std::vector<Op>> ops(nt);
  int nlists = 0, inner = 0;
  for (int t = 0; t < nt; ++t) {
    int n = vf::range(1, 4);
    for (int i = 0; i < n; ++i) {
      Op o;
      static const uint32_t ww[] = {5, 3, 3, 1};
      o.kind = vf::pick_w(ww, 4);
      o.tgt = vf::pick(ntg);
      if (o.kind == 0) {
        int len = 1 + vf::small(2);
        vf::desc("T%d: jumps", t);
        for (int k = 0; k < len; ++k) {
          int tg = k ? vf::pick(ntg) : o.tgt;
          o.c.id.push_back(w.add(tg));
          o.c.tgt.push_back(tg);
          o.c.how.push_back(vf::pick(5));
          vf::desc(" [%d on %d way %d]", o.c.id.back(), tg, o.c.how.back());
        }
        inner += len - 1;
        vf::desc("\n");
      }
      if (o.kind == 1) {
        int len = 1 + vf::small(3);
        o.how = vf::pick(4);
        for (int k = 0; k < len; ++k) {
          o.ids.push_back(w.add(o.tgt));
          w.items[o.ids.back()].list = nlists;
          w.items[o.ids.back()].pos = k;
        }
        ++nlists;
        vf::desc("T%d: list of %d (%d..) on %d way %d\n", t, len, o.ids[0], o.tgt, o.how);
      }
      if (o.kind == 2) {
        o.ids.push_back(w.add(o.tgt));
        o.how = vf::pick(3);
        vf::desc("T%d: function %d on %d way %d\n", t, o.ids[0], o.tgt, o.how);
      }
      if (o.kind == 3) vf::desc("T%d: yield\n", t);
      ops[t].push_back(o);
    }
  }
  {
    Target tg[2];
    vs::Run run;
    for (int i = 0; i < ntg; ++i) tg[i].start(kind[i], threads[i], hash[i]);
    auto client = [&](int t) {
      for (auto& o : ops[t]) {
        Target& x = tg[o.tgt];
        if (o.kind == 0) chain(w, tg, o.c);
        if (o.kind == 1) {
          dd::task_node* l = make_list(w, o.ids, nullptr);
          for (int id : o.ids) before(w, id);
          switch (o.how) {
            case 0: dd::attach_list(*x.st, l); break;
            case 1: x.queue().push_list(l); break;
            case 2: {
              dd::task_node* last = l;
              while (last->next) last = last->next;
              x.queue().push_list(l, last);
              break;
            }
            case 3: {
              dd::any_executor_ref e(*x.st);
              dd::attach_list(e, l);
              break;
            }
          }
          for (int id : o.ids) after(id);
        }
        if (o.kind == 2) {
          int id = o.ids[0];
          before(w, id);
          auto f = [&w, id, c = Counted()] {
            piece(w, id, true);
            vs_add(DONE, 1);
          };
          if (o.how == 0) dd::schedule_to(*x.st, f);
          if (o.how == 1) dd::schedule_to(x.queue(), std::move(f));
          if (o.how == 2) {
            dd::new_delete_resource r;
            dd::schedule_to(x.queue(), std::move(f), dd::with_resource(r));
          }
          after(id);
        }
        if (o.kind == 3) vs_yield();
      }
      x:;
    };
    std::vector<std::vs_thread> ts;
    for (int t = 1; t < nt; ++t) ts.emplace_back([&, t] { client(t); });
    client(0);
    for (auto& t : ts) t.join();
    vs_wait_ge(DONE, w.n, "every piece to run");
    for (int i = 0; i < ntg; ++i) tg[i].stop();
  }
  VF_CHECK(alive() == 0, "%d objects of finished work are alive", alive());
  Hist h(w);
  int cnt[8] = {};
  for (int i = 0; i < w.n; ++i) {
    VF_CHECK(w.items[i].ran == 1, "piece %d ran %d times", i, w.items[i].ran);
    cnt[w.items[i].group]++;
  }
  for (int g = 0; g < 2; ++g) VF_CHECK(cnt[g] == w.ledger[g], "executor %d: %d of %d effects are there", g, w.ledger[g], cnt[g]);
  h.check_lane(w, "executor", [&](int a, int b) { return w.items[a].group == w.items[b].group; });
  vf::label("pieces", w.n);
  if (w.n >= 3 && (nt >= 2 || inner) && vs_switches() >= 3) vf::nontrivial();
}

// ---------------------------------------------------------------- C19, C20: pool programs
enum { OP_JUMP, OP_FN, OP_STRAND, OP_LIST, OP_EVENT, OP_TASKS, OP_STOP, OP_YIELD };
struct POp {
  int kind = 0, how = 0, hash = 0;
  std::vector<int> ids;
  std::vector<POp> inner;  // done by the (first) piece when it runs, on its worker
};

struct PWorld : World {
  dd::event<int> ev;
  int ev_subs = 0;
  int tasks_done = 0, stops = 0, depth_max = 0, nlists = 0, n_tasks_op = 0;
  std::vector<int> hash_of;
};

int new_item(PWorld& w, int hash) {
  int id = w.add(-1);
  w.hash_of.push_back(hash);
  return id;
}

void gen_op(PWorld& w, POp& o, int depth, bool stops, const char* who) {
  static const uint32_t ww0[] = {6, 6, 4, 3, 2, 2, 0, 1};
  static const uint32_t ww1[] = {6, 6, 4, 3, 0, 0, 4, 1};
  o.kind = vf::pick_w(stops ? ww1 : ww0, 8);
  static const char* kn[] = {"jump", "function", "strand", "list", "event wait", "tasks", "request_stop", "yield"};
  o.how = vf::pick(4);
  int n = 0;
  switch (o.kind) {
    case OP_JUMP: n = 1; o.hash = -1; break;
    case OP_FN: n = 1; o.hash = o.how < 2 ? -1 : (int)vf::pick(4); break;
    case OP_STRAND: n = 1; o.hash = vf::pick(4); break;
    case OP_LIST: n = 1 + vf::small(3); o.hash = o.how % 2 ? (int)vf::pick(4) : -1; break;
    case OP_EVENT: n = 1; o.hash = -1; break;
    case OP_TASKS: n = vf::range(1, 3); o.hash = -1; break;
    case OP_STOP: w.stops++; break;
  }
  for (int i = 0; i < n; ++i) o.ids.push_back(new_item(w, o.hash));
  if (o.kind == OP_LIST) {
    for (int i = 0; i < n; ++i)
      if (o.hash >= 0) w.items[o.ids[i]].list = w.nlists, w.items[o.ids[i]].pos = i;
    ++w.nlists;
  }
  vf::desc("%s%s", who, kn[o.kind]);
  if (n) vf::desc(" %d..%d hash %d way %d", o.ids[0], o.ids.back(), o.hash, o.how);
  vf::desc("\n");
  if (n && depth < 2 && o.kind != OP_TASKS && o.kind != OP_EVENT && vf::chance(1, 3)) {
    int k = vf::range(1, 2);
    o.inner.resize(k);
    char sub[64];
    snprintf(sub, sizeof sub, "%s  (in %d) ", depth ? "      " : "", o.ids[0]);
    for (auto& x : o.inner) gen_op(w, x, depth + 1, stops, sub);
    w.depth_max = std::max(w.depth_max, depth + 1);
  }
}

void exec_op(PWorld& w, dd::thread_pool& p, const POp& o);

// what a piece does after it ran; a cancelled one submits nothing, so neither do those it would have submitted
int count_items(const POp& o) {
  int n = o.ids.size();
  for (auto& x : o.inner) n += count_items(x);
  return n;
}
void drop(PWorld& w, const POp& o) {
  for (auto& x : o.inner) vs_add(DONE, count_items(x));
}
void follow(PWorld& w, dd::thread_pool& p, const POp& o, bool ok) {
  if (!ok) return drop(w, o);
  for (auto& x : o.inner) exec_op(w, p, x);
}

template <typename E>
dd::job p_jump(PWorld& w, dd::thread_pool& p, E e, const POp& o) {
  Counted c;
  bool ok;
  if constexpr (std::is_same_v<E, dd::thread_pool*>) ok = (bool)co_await Sub{dd::jump_on(*e), w, o.ids[0]};
  else ok = (bool)co_await Sub{dd::jump_on(e), w, o.ids[0]};
  piece(w, o.ids[0], ok);
  follow(w, p, o, ok);
  vs_add(DONE, 1);
}
// a function of the pool.  When its last copy dies uncalled, it was cancelled
void fn_cancelled(PWorld& w, const POp& o);
struct PFn {
  PWorld& w;
  dd::thread_pool& p;
  const POp& o;
  int cell() const { return 300 + o.ids[0]; }  // copies alive; + 1000 once called
  PFn(PWorld& w, dd::thread_pool& p, const POp& o) : w(w), p(p), o(o) { vs_add(cell(), 1); }
  VF_NO_SHORTCUTS(PFn)
  PFn(const PFn& f) : PFn(f.w, f.p, f.o) {}
  ~PFn() {
    if (vs_add(cell(), -1) == 0) fn_cancelled(w, o);
  }
  void operator()() {
    VF_CHECK(vs_add(cell(), 1000) < 2000, "function %d is called again", o.ids[0]);
    piece(w, o.ids[0], true);
    follow(w, p, o, true);
    vs_add(DONE, 1);
  }
};
void fn_cancelled(PWorld& w, const POp& o) {
  piece(w, o.ids[0], false);
  drop(w, o);
  vs_add(DONE, 1);
}
struct PThen : Then {
  PWorld& w;
  dd::thread_pool& p;
  const POp& o;
  PThen(PWorld& w, dd::thread_pool& p, const POp& o) : w(w), p(p), o(o) {}
  void run(int id, bool ok) override {
    follow(w, p, o, ok);
    delete this;
  }
};
dd::job p_event(PWorld& w, const POp& o) {
  Counted c;
  w.items[o.ids[0]].plain = o.ids[0] + 1;
  vs_log(SUB_LO, o.ids[0], 0, 0);
  int in = co_await w.ev;
  VF_CHECK(in == 77, "input of the event is %d", in);
  piece(w, o.ids[0], true);
  vs_add(DONE, 1);
}
dd::task<int> p_task(PWorld& w, dd::thread_pool& p, int id) {
  Counted c;
  bool ok = (bool)co_await Sub{dd::jump_on(p), w, id};
  piece(w, id, ok);
  co_return id;
}
dd::job p_tasks(PWorld& w, dd::thread_pool& p, const POp& o) {
  std::vector<dd::task<int>> v;
  for (int id : o.ids) v.push_back(p_task(w, p, id));
  auto r = co_await dd::when_all(std::move(v));
  VF_CHECK(r.size() == o.ids.size(), "when_all gives %zu results of %zu", r.size(), o.ids.size());
  for (size_t i = 0; i < r.size(); ++i) VF_CHECK(r[i].has_value() && *r[i] == o.ids[i], "result %zu of when_all", i);
  vs_add(DONE, o.ids.size());
}

void exec_op(PWorld& w, dd::thread_pool& p, const POp& o) {
  switch (o.kind) {
    case OP_JUMP:
      if (o.how == 0) p_jump(w, p, dd::any_executor_ref(p), o);
      else p_jump(w, p, &p, o);
      break;
    case OP_FN: {
      int id = o.ids[0];
      before(w, id);
      {
        PFn f(w, p, o);
        switch (o.how) {
          case 0: p.schedule(f); break;
          case 1: p.schedule(std::move(f)); break;
          case 2: p.schedule(f, o.hash); break;
          case 3: p.schedule(std::move(f), o.hash); break;
        }
      }
      after(id);
      break;
    }
    case OP_STRAND:
      if (o.how == 0) p_jump(w, p, dd::strand(p.select_queue(o.hash)), o);
      else if (o.how == 1) {
        dd::strand s = p.get_strand(o.hash);
        p_jump(w, p, dd::any_executor_ref(s.get_queue()), o);
      } else p_jump(w, p, p.get_strand(o.hash), o);
      break;
    case OP_LIST: {
      auto* th = o.inner.empty() ? nullptr : new PThen(w, p, o);
      dd::task_node* l = make_list(w, o.ids, th);
      for (int id : o.ids) before(w, id);
      if (o.hash >= 0) {
        dd::strand s = p.get_strand(o.hash);
        if (o.how == 1) dd::attach_list(s, l);
        else s.get_queue().push_list(l);
      } else if (o.how == 0) {
        dd::attach_list(p, l);
      } else {
        dd::any_executor_ref e(p);
        dd::attach_list(e, l);
      }
      for (int id : o.ids) after(id);
      break;
    }
    case OP_EVENT: p_event(w, o); break;
    case OP_TASKS: p_tasks(w, p, o); break;
    case OP_STOP: p.request_stop(); break;
    case OP_YIELD: vs_yield(); break;
  }
}

int gen_program(PWorld& w, std::vector<std::vector<POp>>& ops, bool stops) {
  int nt = ops.size();
  for (int t = 0; t < nt; ++t) {
    int n = vf::range(1, 4);
    ops[t].resize(n);
    char who[16];
    snprintf(who, sizeof who, "T%d: ", t);
    for (auto& o : ops[t]) {
      gen_op(w, o, 0, stops, who);
      if (o.kind == OP_EVENT) w.ev_subs++;
    }
  }
  return nt;
}
int count_events(const POp& o) {
  int n = o.kind == OP_EVENT;
  for (auto& x : o.inner) n += count_events(x);
  return n;
}

VF_MODE(pool_mt, 1, true,
        "1-3 threads and the pieces themselves (nested up to 3) submit to a pool of 0-3 workers: jumps (also type-erased), functions with and without hash, strands, lists, "
        "tasks under when_all, event wake-ups; random schedule; non-trivial: >=3 pieces, >=2 workers or >=2 clients, >=3 switches") {
  PWorld w;
  int nw = vf::chance(1, 16) ? 4 + vf::pick(9) : vf::pick(4);
  std::vector<std::vector<POp>> ops(vf::range(1, 3));
  vf::desc("%d workers\n", nw);
  int nt = gen_program(w, ops, false);
  int how_wait = vf::pick(2);
  auto job = any_job();
  Mem mem;
  std::set<std::thread::id> tids;
  {
    vs::Run run;
    dd::thread_pool p(nw, job, mem);
    w.pool = &p;
    size_t real = std::max(1, nw);
    VF_CHECK(&p.get_resource() == &mem, "the pool reports another resource than it was given");
    VF_CHECK(p.workers_range().size() == real && p.queues_range().size() == real, "%d workers requested, %zu threads, %zu queues", nw, p.workers_range().size(),
             p.queues_range().size());
    VF_CHECK(std::as_const(p).workers_range().size() == real && std::as_const(p).queues_range().size() == real, "const ranges have another size");
    for (auto& t : p.workers_range()) {
      VF_CHECK(t.joinable(), "a worker thread does not run");
      tids.insert(t.get_id());
      VF_CHECK(p.is_worker(t.get_id()), "is_worker does not know one of the workers");
    }
    VF_CHECK(tids.size() == real, "worker threads are not distinct");
    VF_CHECK(!p.is_worker(), "the main thread is no worker");
    VF_CHECK(vs_threads_created() == (int)real, "%d threads started", vs_threads_created());
    auto client = [&](int t) {
      for (auto& o : ops[t]) exec_op(w, p, o);
    };
    std::vector<std::vs_thread> ts;
    for (int t = 1; t < nt; ++t) ts.emplace_back([&, t] { client(t); });
    client(0);
    for (auto& t : ts) t.join();
    // pieces may still subscribe: notify until everybody is done
    while (vs_get(DONE) < w.n) {
      if (how_wait) w.ev.notify_all(p, 77);
      else {
        dd::any_executor_ref e(p);
        w.ev.notify_all(e, 77);
      }
      vs_yield();
    }
  }
  VF_CHECK(vs_get(DONE) == w.n, "%d pieces done of %d", vs_get(DONE), w.n);
  VF_CHECK(alive() == 0, "%d objects of finished work are alive", alive());
  VF_CHECK(mem.live.empty(), "the pool keeps %zu blocks of its resource", mem.live.size());
  Hist h(w);
  for (int i = 0; i < w.n; ++i) VF_CHECK(w.items[i].ran == 1 && !w.items[i].cancelled, "piece %d ran %d times, cancelled: %d", i, w.items[i].ran, w.items[i].cancelled);
  h.check_lane(w, "hash", [&](int a, int b) { return w.hash_of[a] >= 0 && w.hash_of[a] == w.hash_of[b]; });
  h.check_lane(w, "worker", [&](int a, int b) { return h.tid[a] == h.tid[b]; });
  auto spread = [&](auto& self, const POp& o) -> void {
    if (o.kind == OP_LIST && o.hash < 0 && o.how == 0) {
      std::set<int> on;
      for (int id : o.ids) on.insert(h.tid[id]);
      size_t most = std::min<size_t>(o.ids.size(), std::max(1, nw));
      VF_CHECK(on.size() == most, "a list of %zu pieces handed to a pool of %d workers occupies %zu of them", o.ids.size(), std::max(1, nw), on.size());
      if (most > 1) vf::label("list over several workers");
    }
    for (auto& x : o.inner) self(self, x);
  };
  for (auto& v : ops)
    for (auto& o : v) spread(spread, o);
  vf::label("pieces", w.n);
  vf::label("nested", w.depth_max > 0);
  if (w.n >= 3 && (nw >= 2 || nt >= 2) && vs_switches() >= 3) vf::nontrivial();
}

// ---------------------------------------------------------------- C20
VF_MODE(stop_mt, 1, true,
        "a pool of 1-3 workers, 1-3 clients and pieces submit and request stops while the owner waits for the stop and/or destroys it; or a worker is destroyed with work pending; "
        "random schedule; non-trivial: >=2 pieces, >=3 switches, at least one piece cancelled or submitted by a piece") {
  PWorld w;
  w.stopping = true;
  int nw = vf::chance(1, 16) ? 4 + vf::pick(5) : vf::range(1, 3);
  std::vector<std::vector<POp>> ops(vf::range(1, 3));
  vf::desc("%d workers\n", nw);
  int nt = gen_program(w, ops, true);
  int ending = vf::pick(4);  // 0 destroy, 1 stop+wait_stop, 2 wait_stop while others submit, 3 stop
  bool early = vf::chance(1, 2);  // other clients are joined just before destruction / before stopping
  static const char* en[] = {"destroy", "request_stop, wait_stop, destroy", "request_stop, wait_stop, destroy (clients still running)", "request_stop, destroy"};
  vf::desc("ending: %s%s\n", en[ending], early ? ", clients joined first" : "");
  auto job = any_job();
  Mem mem;
  std::vector<int> submitted_before_wait;
  bool waited = false;
  {
    vs::Run run;
    auto p = std::make_unique<dd::thread_pool>(nw, job, mem);
    dd::thread_pool* pp = p.get();
    auto client = [&, pp](int t) {
      for (auto& o : ops[t]) exec_op(w, *pp, o);
    };
    std::vector<std::vs_thread> ts;
    for (int t = 1; t < nt; ++t) ts.emplace_back([&, t] { client(t); });
    client(0);
    auto join = [&] {
      for (auto& t : ts)
        if (t.joinable()) t.join();
    };
    if (early && ending != 2) join();
    if (ending) p->request_stop();
    if (ending == 1 || ending == 2) {
      vs_log(WAIT_LO, 0, 0, 0);
      std::move(*p).wait_stop();
      vs_log(WAIT_HI, 0, 0, 0);
      waited = true;
    }
    join();
    p.reset();
    vs_set(GONE, 1);
  }
  VF_CHECK(vs_get(DONE) == w.n, "the pool is gone, %d of %d pieces were resumed", vs_get(DONE), w.n);
  VF_CHECK(alive() == 0, "%d objects of finished or cancelled work are alive", alive());
  VF_CHECK(mem.live.empty(), "the pool is gone with %zu blocks of its resource", mem.live.size());
  Hist h(w);
  int wlo = 1 << 30, whi = 1 << 30;
  for (int i = 0; i < vs_nlog(); ++i) {
    if (vs_log_at(i).kind == WAIT_LO) wlo = i;
    if (vs_log_at(i).kind == WAIT_HI) whi = i;
  }
  for (int i = 0; i < w.n; ++i) {
    // (a piece whose submitter was cancelled was never submitted)
    VF_CHECK(w.items[i].ran == (h.lo[i] >= 0), "piece %d was %ssubmitted and resumed %d times", i, h.lo[i] >= 0 ? "" : "not ", w.items[i].ran);
    if (waited && h.hi[i] < wlo) VF_CHECK(h.run[i] < whi, "wait_stop returned before piece %d, submitted earlier, was resumed", i);
  }
  h.check_lane(w, "hash", [&](int a, int b) { return w.hash_of[a] >= 0 && w.hash_of[a] == w.hash_of[b]; });
  vf::label("pieces", w.n);
  vf::label("cancelled", vs_get(CANCELLED));
  vf::label("stops", w.stops + (ending > 0));
  if (w.n >= 2 && vs_switches() >= 3 && (vs_get(CANCELLED) || w.depth_max)) vf::nontrivial();
}

// a worker destroyed with work pending
struct WOp {
  int kind = 0, how = 0;  // 0 jumps, 1 list, 2 yield
  std::vector<int> ids;
};
dd::job w_chain(World& w, dd::worker& wo, dd::strand st, const WOp& o) {
  Counted c;
  for (size_t i = 0; i < o.ids.size(); ++i) {
    bool ok;
    if ((o.how + i) % 3 == 0) ok = (bool)co_await Sub{dd::jump_on(wo), w, o.ids[i]};
    else if ((o.how + i) % 3 == 1) ok = (bool)co_await Sub{dd::jump_on(st), w, o.ids[i]};
    else {
      dd::any_executor_ref e(st.get_queue());
      ok = (bool)co_await Sub{dd::jump_on(e), w, o.ids[i]};
    }
    piece(w, o.ids[i], ok);
    vs_add(DONE, 1);
    if (!ok) {
      vs_add(DONE, o.ids.size() - i - 1);
      co_return;
    }
  }
}
VF_MODE(wstop_mt, 20, true,
        "1-3 clients submit jumps, chains of jumps and lists to a worker which is then destroyed with work pending and pieces still submitting; random schedule; "
        "non-trivial: >=2 pieces, >=3 switches") {
  World w;
  w.stopping = true;
  int nt = vf::range(1, 3), nlists = 0, job = vf::pick(3);
  std::vector<std::vector<WOp>> ops(nt);
  for (int t = 0; t < nt; ++t) {
    int n = vf::range(1, 3);
    for (int i = 0; i < n; ++i) {
      WOp o;
      static const uint32_t ww[] = {5, 3, 1};
      o.kind = vf::pick_w(ww, 3);
      o.how = vf::pick(3);
      int k = o.kind == 2 ? 0 : 1 + vf::small(3);
      for (int j = 0; j < k; ++j) {
        o.ids.push_back(w.add(0));
        if (o.kind == 1) w.items[o.ids[j]].list = nlists, w.items[o.ids[j]].pos = j;
      }
      ++nlists;
      static const char* kn[] = {"jumps", "list", "yield"};
      vf::desc("T%d: %s", t, kn[o.kind]);
      if (k) vf::desc(" %d..%d way %d", o.ids[0], o.ids.back(), o.how);
      vf::desc("\n");
      ops[t].push_back(o);
    }
  }
  vf::desc("worker job %d\n", job);
  auto own = any_job();
  {
    vs::Run run;
    auto wo = job == 0 ? std::make_unique<dd::worker>() : std::make_unique<dd::worker>(own);
    dd::strand st(*wo);
    auto client = [&, wp = wo.get()](int t) {
      for (auto& o : ops[t]) {
        if (o.kind == 0) w_chain(w, *wp, st, o);
        if (o.kind == 1) {
          dd::task_node* l = make_list(w, o.ids, nullptr);
          for (int id : o.ids) before(w, id);
          if (o.how == 0) dd::attach_list(st, l);
          else if (o.how == 1) dd::attach_list(*wp, l);
          else st.get_queue().push_list(l);
          for (int id : o.ids) after(id);
        }
        if (o.kind == 2) vs_yield();
      }
    };
    std::vector<std::vs_thread> ts;
    for (int t = 1; t < nt; ++t) ts.emplace_back([&, t] { client(t); });
    client(0);
    for (auto& t : ts) t.join();
    wo.reset();
    vs_set(GONE, 1);
  }
  VF_CHECK(vs_get(DONE) == w.n, "the worker is gone, %d of %d pieces were resumed", vs_get(DONE), w.n);
  VF_CHECK(alive() == 0, "%d objects of finished or cancelled work are alive", alive());
  Hist h(w);
  for (int i = 0; i < w.n; ++i) VF_CHECK(w.items[i].ran == (h.lo[i] >= 0), "piece %d resumed %d times", i, w.items[i].ran);
  h.check_lane(w, "worker", [&](int, int) { return true; });
  vf::label("pieces", w.n);
  vf::label("cancelled", vs_get(CANCELLED));
  if (w.n >= 2 && vs_switches() >= 3) vf::nontrivial();
}

VF_MODE(start_fail, 20, true,
        "a pool or worker is constructed while the n-th thread start or the n-th allocation fails; threads of the pool may be mid-way; random schedule; non-trivial: a failure was "
        "injected with >=1 thread already started, or an allocation failed") {
  int what = vf::pick(3), n = vf::range(0, 4), at = vf::range(1, std::max(1, n + 1));
  static const char* wn[] = {"thread start", "allocation", "worker's thread start"};
  vf::desc("%d workers, %s %d fails\n", n, wn[what], at);
  Mem mem;
  bool thrown = false, use_job = vf::chance(1, 2);
  bool expect;
  {
    vs::Run run;
    int real = std::max(1, n);
    size_t allocs = 0;
    if (what == 1) {  // how many allocations does it make?
      dd::thread_pool p(n, dd::default_worker_job, mem);
      allocs = mem.n_alloc;
    }
    if (what == 1) mem.fail_at = at;
    else vs_fail_thread_creation_at(at);
    expect = what == 0 ? at <= real : what == 1 ? (size_t)at <= allocs : at == 1;
    try {
      if (what == 2) {
        dd::worker w;
      } else {
        dd::thread_pool p(n, use_job ? custom_job : dd::default_worker_job, mem);
        VF_CHECK(!expect, "the pool was constructed although %s %d failed", wn[what], at);
        mem.fail_at = 0;
      }
    } catch (std::system_error& e) {
      thrown = true;
      VF_CHECK(what != 1 && e.code() == std::errc::resource_unavailable_try_again, "another error than the injected one: %s", e.what());
    } catch (std::bad_alloc&) {
      thrown = true;
      VF_CHECK(what == 1, "bad_alloc out of nothing");
    }
    vs_fail_thread_creation_at(0);
    mem.fail_at = 0;
    VF_CHECK(thrown == expect, "failure injected: %d, exception reached the caller: %d", expect, thrown);
    // every started thread has ended: the run could not end otherwise
  }
  VF_CHECK(mem.live.empty(), "%zu blocks are not returned after the failure", mem.live.size());
  vf::label("thrown", thrown);
  if (thrown && (what == 1 || (what == 0 && at > 1))) vf::nontrivial();
}

}  // namespace
