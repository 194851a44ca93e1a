// C08 tasks run lazily, once, deliver their outcome; C09 frames are destroyed once; C10 context hooks.
#include "tprog.hpp"
using namespace tp;

namespace {

// ---------------------------------------------------------------- sequential
template <typename C>
struct Slot {
  // one task object of each result type would be awkward: the slot's current program decides
  std::tuple<task_of<RT_VOID, C>, task_of<RT_INT, C>, task_of<RT_REF, C>, task_of<RT_TOK, C>> t;
  Prog* p[RT_N] = {};  // program in each
};

template <typename C>
struct Seq {
  World w;
  Gen g;
  enum { NS = 3 };
  Slot<C> sl[NS];
  std::vector<std::shared_ptr<Prog>> keep;
  struct Root {
    std::coroutine_handle<Own::promise_type> h;
    Prog* p;
  };
  std::vector<Root> roots;
  std::vector<std::pair<std::coroutine_handle<>, Prog*>> raws;  // released or detached, unstarted or finished
  std::vector<Prog*> loose;  // detached for good
  Own proxy;
  int started = 0, ops = 0, abandoned = 0;

  static Own idle() { co_return; }

  Seq() : proxy(idle()) {
    w.b.resize(400);
    w.proxy = proxy.h.address();
  }
  ~Seq() { proxy.h.destroy(); }

  bool done(int rt, int i) {
    return with_rt(rt, [&]<int R>() { return std::get<R>(sl[i].t).raw_handle().done(); });
  }
  void check_slots() {
    for (int i = 0; i < NS; ++i)
      for (int r = 0; r < RT_N; ++r) with_rt(r, [&]<int R>() {
          auto& t = std::get<R>(sl[i].t);
          Prog* p = sl[i].p[r];
          VF_CHECK(t.empty() == !p && bool(t) == !!p && !t.get_context() == !p, "slot %d: task is %s", i, p ? "empty" : "not empty");
          if (p) {
            VF_CHECK(t.raw_handle().address() == w.b[p->id].exp_self, "slot %d holds another task", i);
            if constexpr (has_rec<C>) VF_CHECK(t.get_context() == w.b[p->id].ctx, "slot %d: another context object", i);
            VF_CHECK(w.b[p->id].param_dead == 0, "task %d in slot %d was destroyed", p->id, i);
          }
        });
  }
  void expect_dead(Prog* p, const char* how) {
    if (p) VF_CHECK(w.b[p->id].param_dead == 1, "body %d was not destroyed by %s", p->id, how);
  }
  // finished detached bodies must be gone, unfinished ones alive
  void check_loose() {
    for (Prog* p : loose) {
      B& b = w.b[p->id];
      VF_CHECK(b.param_dead == b.finished, "detached body %d: finished %d, destroyed %d", p->id, b.finished, b.param_dead);
    }
  }
  void prune_roots() {
    for (size_t i = 0; i < roots.size();) {
      if (roots[i].h.done()) {
        roots[i].h.destroy();
        expect_dead(roots[i].p, "the end of its owner");
        roots.erase(roots.begin() + i);
      } else {
        B& b = w.b[roots[i].p->id];
        VF_CHECK(b.begun && !b.finished, "body %d finished, but its awaiter did not continue", roots[i].p->id);
        ++i;
      }
    }
  }
  void after() {
    prune_roots();
    check_loose();
    check_slots();
  }

  void op() {
    int i = vf::pick(NS), r = vf::pick(RT_N), j = vf::pick(NS);
    if (vf::chance(3, 4)) {  // usually an object that holds something
      std::vector<int> c;
      for (int x = 0; x < NS * RT_N; ++x)
        if (sl[x / RT_N].p[x % RT_N]) c.push_back(x);
      if (!c.empty()) {
        int x = c[vf::pick(c.size())];
        i = x / RT_N, r = x % RT_N;
      }
    }
    static const uint32_t ww[] = {6, 2, 2, 2, 2, 2, 2, 5, 6, 1, 2, 1, 1, 2, 2};
    int k = vf::pick_w(ww, 15);
    with_rt(r, [&]<int R>() {
      auto& t = std::get<R>(sl[i].t);
      Prog*& p = sl[i].p[r];
      bool has = p != nullptr;
      bool is_done = has && w.b[p->id].finished;
      switch (k) {
        case 0: {  // new task, assigned
          if (g.next_id > 60) return;
          g.left = g.o.budget;
          auto np = g.make(g.o.depth, R);
          keep.push_back(np);
          vf::desc("s%d.%d = new\n", i, R);
          describe(*np, 2);
          Prog* old = p;
          t = make_task<R, C>(w, *np);  // the temporary takes the old one away
          expect_dead(old, "assignment");
          p = np.get();
          break;
        }
        case 1: {  // move construct through a temporary
          vf::desc("s%d.%d move round trip\n", i, R);
          task_of<R, C> tmp(std::move(t));
          VF_CHECK(t.empty() && !t, "moved-from task is not empty");
          VF_CHECK(t.start_and_detach(vf::chance(1, 2)) == nullptr, "starting an empty task returned a handle");
          VF_CHECK(t.detach().address() == nullptr && t.release().address() == nullptr, "detaching an empty task returned a handle");
          t = std::move(tmp);
          VF_CHECK(tmp.empty(), "task moved back, source not empty");
          break;
        }
        case 2: {
          vf::desc("s%d.%d destroyed\n", i, R);
          Prog* old = std::exchange(p, nullptr);
          {
            task_of<R, C> tmp(std::move(t));
          }
          expect_dead(old, "destruction of the task");
          break;
        }
        case 3: {  // assign from another slot: exchange or hand-over
          vf::desc("s%d.%d = move s%d\n", i, R, j);
          auto& o = std::get<R>(sl[j].t);
          Prog*& op = sl[j].p[r];
          t = std::move(o);
          if (i == j) return;
          VF_CHECK(o.empty() || o.raw_handle().address() == (p ? w.b[p->id].exp_self : nullptr), "source holds a foreign task");
          {
            task_of<R, C> drop(std::move(o));  // whatever the source kept ends here
          }
          expect_dead(p, "assignment over it and destruction of the source");
          p = std::exchange(op, nullptr);
          break;
        }
        case 4: {  // release
          vf::desc("s%d.%d release\n", i, R);
          auto h = t.release();
          VF_CHECK(t.empty() && (bool)h == has, "release");
          if (!has) return;
          Prog* old = std::exchange(p, nullptr);
          if (vf::chance(1, 2)) {
            t = task_of<R, C>(h);
            p = old;
          } else {
            raws.push_back({h, old});
          }
          break;
        }
        case 5:
        case 6: {  // start and detach
          bool stop = k == 6;
          vf::desc("s%d.%d start_and_detach(%d)\n", i, R, stop);
          if (is_done) {  // it is not run again: destroyed at once, or left to the caller
            Prog* old = std::exchange(p, nullptr);
            void* self = t.raw_handle().address();
            auto h = t.start_and_detach(stop);
            VF_CHECK(t.empty(), "start_and_detach left the object non-empty");
            VF_CHECK(w.b[old->id].begun == 1, "start_and_detach of a finished task ran the body again");
            VF_CHECK(h.address() == (stop ? self : nullptr), "start_and_detach of a finished task returned another handle");
            if (stop) w.held.push_back({h, old->id});
            else expect_dead(old, "start_and_detach of a finished task");
            return;
          }
          if (!has) {
            VF_CHECK(t.start_and_detach(stop) == nullptr, "starting an empty task returned a handle");
            return;
          }
          Prog* old = std::exchange(p, nullptr);
          B& b = w.b[old->id];
          b.allowed = b.start_expected = true;
          ++started;
          if (!stop) loose.push_back(old);
          auto h = t.start_and_detach(stop);
          VF_CHECK(t.empty(), "start_and_detach left the object non-empty");
          VF_CHECK(b.begun == 1, "start_and_detach did not start the body");
          if (stop) {
            VF_CHECK(h.address() == b.exp_self, "start_and_detach returned another handle");
            w.held.push_back({h, old->id});
          }
          break;
        }
        case 7: {  // awaited by an owner
          if (!has) return;
          int m = vf::pick(M_TWICE + 1);
          if (m == M_PROXY) m = M_AWAIT;
          vf::desc("s%d.%d awaited (%s)\n", i, R, mname(m));
          Prog* old = std::exchange(p, nullptr);
          B& b = w.b[old->id];
          Own o = owner<C, R>(w, std::move(t), *old, m);
          VF_CHECK(t.empty(), "moved-from task is not empty");
          roots.push_back({o.h, old});
          ++started;
          o.h.resume();
          VF_CHECK(b.begun == 1, "awaiting did not run the body");
          break;
        }
        case 8: {
          if (w.parked.empty()) return;
          size_t x = vf::pick(w.parked.size());
          vf::desc("resume parked %d\n", (int)x);
          resume_parked(w, x);
          break;
        }
        case 9: {  // an owner dies while it waits
          if (roots.empty()) return;
          size_t x = vf::pick(roots.size());
          Root ro = roots[x];
          vf::desc("owner of body %d destroyed while it waits\n", ro.p->id);
          roots.erase(roots.begin() + x);
          ro.h.destroy();
          expect_dead(ro.p, "the death of its owner");
          ++abandoned;
          break;
        }
        case 10: {  // blocking get, only when nothing can suspend or it is over
          if (!has || (!is_done && p->suspends)) return;
          vf::desc("s%d.%d get\n", i, R);
          B& b = w.b[p->id];
          if (!is_done) {
            expect_awaited<R, C>(w, *p, nullptr);
            ++started;
          }
          Prog* old = p;
          check_get<R, C>(w, *p, [&]() -> result_of<R> { return t.get(); });
          VF_CHECK(b.begun == 1 && b.finished == 1, "get returned, body began %d times, finished %d times", b.begun, b.finished);
          if (t.empty()) {
            p = nullptr;
            expect_dead(old, "get");
          } else {  // kept: a second get must not run it again
            if (R == RT_VOID || R == RT_REF || old->exc) check_get<R, C>(w, *old, [&]() -> result_of<R> { return t.get(); });
            Prog* x = std::exchange(p, nullptr);
            {
              task_of<R, C> tmp(std::move(t));
            }
            expect_dead(x, "destruction of the task");
          }
          break;
        }
        case 11: {  // a held (stopped at end) body, finished
          for (size_t x = 0; x < w.held.size(); ++x) {
            auto [h, id] = w.held[x];
            if (!h.done()) continue;
            vf::desc("holder destroys finished body %d\n", id);
            VF_CHECK(w.b[id].finished == 1 && w.b[id].param_dead == 0, "held body %d: finished %d, destroyed %d", id,
                     w.b[id].finished, w.b[id].param_dead);
            w.held.erase(w.held.begin() + x);
            h.destroy();
            VF_CHECK(w.b[id].param_dead == 1, "held body %d not destroyed", id);
            return;
          }
          break;
        }
        case 12: {  // what was released
          if (raws.empty()) return;
          size_t x = vf::pick(raws.size());
          auto [h, rp] = raws[x];
          vf::desc("released body %d destroyed by its holder\n", rp->id);
          raws.erase(raws.begin() + x);
          h.destroy();
          expect_dead(rp, "its holder");
          break;
        }
        case 13: {  // detach and resume by hand
          if (!has || is_done) return;
          vf::desc("s%d.%d detach\n", i, R);
          auto h = t.detach();
          Prog* old = std::exchange(p, nullptr);
          VF_CHECK(t.empty() && h.address() == w.b[old->id].exp_self, "detach");
          if (vf::chance(1, 4)) {
            h.destroy();
            expect_dead(old, "destroying the detached handle");
          } else {
            w.b[old->id].allowed = true;
            loose.push_back(old);
            ++started;
            h.resume();
            VF_CHECK(w.b[old->id].begun == 1, "resuming the detached handle did not start the body");
          }
          break;
        }
        case 14: {  // waited for by reference: the finished task stays where it is
          if (!has || (!is_done && p->suspends)) return;
          vf::desc("s%d.%d waited for\n", i, R);
          B& b = w.b[p->id];
          if (!is_done) {
            expect_awaited<R, C>(w, *p, nullptr);
            ++started;
          }
          bool over = false;
          [](auto& t, bool& over) -> dd::job {
            co_await t.wait();
            over = true;
          }(t, over);
          VF_CHECK(over, "wait() did not come back");
          VF_CHECK(!t.empty() && t.raw_handle().done() && b.begun == 1 && b.finished == 1, "after wait(): body began %d times, finished %d times", b.begun, b.finished);
          break;
        }
      }
      ++ops;
    });
    after();
  }

  void finish() {
    vf::desc("drain\n");
    while (!w.parked.empty()) {
      resume_parked(w, w.parked.size() - 1);
      after();
    }
    VF_CHECK(roots.empty(), "an awaiter never continued although nothing is suspended");
    for (auto& [h, id] : w.held) {
      VF_CHECK(h.done() && w.b[id].finished == 1 && w.b[id].param_dead == 0, "held body %d: done %d finished %d destroyed %d", id,
               (int)h.done(), w.b[id].finished, w.b[id].param_dead);
      h.destroy();
    }
    w.held.clear();
    for (auto& [h, p] : raws) h.destroy();
    raws.clear();
    for (auto& s : sl) s = Slot<C>{};
    for (Prog* p : loose) VF_CHECK(w.b[p->id].finished == 1, "detached body %d never finished", p->id);
    check_final<C>(w, g.all);
  }
};

template <typename C>
void run_seq() {
  Seq<C> s;
  int n = 3 + vf::pick(25);
  for (int i = 0; i < n; ++i) s.op();
  s.finish();
  vf::label("bodies", s.g.next_id);
  vf::label("bodies started by the case", s.started);
  if (s.abandoned) vf::label("owner died while waiting");
  bool susp = false, nested = false, thr = false;
  for (Prog* p : s.g.all) {
    susp |= p->suspends && s.w.b[p->id].begun;
    thr |= p->exc && s.w.b[p->id].begun;
    for (auto& st : p->st) nested |= st.kind == 1 && s.w.b[p->id].begun;
  }
  if (susp) vf::label("suspended");
  if (nested) vf::label("nested tasks");
  if (thr) vf::label("failed body");
  if (s.started >= 2 && (susp || nested)) vf::nontrivial();
}

VF_MODE(task_seq, 200, true,
        "random sequence of create/move/assign/release/start/detach/await/get/resume/destroy over 12 task objects whose bodies "
        "suspend, fail, use the return place and await other tasks in 11 manners; non-trivial: >=2 bodies were started and one "
        "suspended or awaited another task") {
  run_seq<dd::null_context>();
}
VF_MODE(task_ctx, 200, true,
        "as task_seq, with a context whose hooks are recorded and checked against the awaiting structure; same non-triviality rule") {
  run_seq<Rec>();
}


}  // namespace
