// C08, C09, C10 on several threads: task trees whose bodies hop between workers.
#include "tprog.hpp"
using namespace tp;

namespace {

// ---------------------------------------------------------------- threads
template <typename C>
void run_mt() {
  World w;
  w.b.resize(200);
  w.mt_held.resize(200);
  w.finish_cell = 0;
  Gen g;
  int nw = vf::range(1, 3);
  g.o.workers = nw;
  g.o.budget = 7;
  g.o.sus_w = 5;
  int nroots = vf::range(1, 3);
  struct R0 {
    std::shared_ptr<Prog> p;
    int how;
  };
  std::vector<R0> roots;
  for (int i = 0; i < nroots; ++i) {
    g.left = g.o.budget;
    R0 r{g.make(2), (int)vf::pick(4)};
    static const char* hows[] = {"get from a client thread", "awaited by an async task", "start and detach", "detached onto a worker"};
    vf::desc("client %d: %s\n", i, hows[r.how]);
    describe(*r.p, 2);
    roots.push_back(std::move(r));
  }
  vf::desc("%d workers\n", nw);
  // how many bodies will begin: all reachable from the roots that are not M_UNSTARTED
  int will = 0;
  auto count = [&](auto& self, const Prog& p) -> void {
    ++will;
    for (auto& s : p.st)
      if (s.kind == 1 && s.manner != M_UNSTARTED) self(self, *s.child);
  };
  for (auto& r : roots) count(count, *r.p);
  auto idle = []() -> Own { co_return; };
  Own proxy = idle();
  w.proxy = proxy.h.address();
  {
    vs::Run run;
    mt::Crew crew(nw);
    w.crew = &crew;
    auto client = [&w](const R0& r) {
      with_rt(r.p->rt, [&]<int R>() {
        const Prog& p = *r.p;
        B& b = w.b[p.id];
        auto t = make_task<R, C>(w, p);
        switch (r.how) {
          case 0:
            expect_awaited<R, C>(w, p, nullptr);
            check_get<R, C>(w, p, [&]() -> result_of<R> { return t.get(); });
            VF_CHECK(b.begun == 1 && b.finished == 1 && b.local_dead == 1, "get returned, body began %d, finished %d", b.begun, b.finished);
            break;
          case 1: {
            expect_awaited<R, C>(w, p, nullptr);
            auto a = [](World& w, const Prog& cp, task_of<R, C> t) -> dd::async_task<void> {
              constexpr int CR = R;
              Step s;
              TP_AWAIT_CHECKED(co_await t)
            }(w, p, std::move(t));
            a.wait();
            VF_CHECK(b.begun == 1 && b.finished == 1, "wait returned, body began %d, finished %d", b.begun, b.finished);
            break;
          }
          case 2:
            b.allowed = b.start_expected = true;
            t.start_and_detach();
            VF_CHECK(t.empty(), "start_and_detach left the object non-empty");
            break;
          default: {
            b.allowed = true;
            auto h = t.detach();
            w.crew->post(p.v, h);
          }
        }
      });
    };
    std::vector<std::vs_thread> ts;
    for (size_t i = 1; i < roots.size(); ++i) ts.emplace_back([&, i] { client(roots[i]); });
    client(roots[0]);
    for (auto& t : ts) t.join();
    vs_wait_ge(0, will, "all bodies to finish");
    crew.stop();
    w.crew = nullptr;
    for (auto& h : w.mt_held)
      if (h) {
        VF_CHECK(h.done(), "held body is not finished");
        h.destroy();
      }
  }
  proxy.h.destroy();
  check_final<C>(w, g.all);
  for (Prog* p : g.all) w.b[p->id].ex = nullptr;
  vf::label("bodies", will);
  bool susp = false;
  for (Prog* p : g.all) susp |= p->suspends;
  vf::label("switches", vs_switches());
  if (susp && vs_switches() >= 3) vf::nontrivial();
}
VF_MODE(task_mt, 20, true,
        "random task trees whose bodies hop between 1-3 workers, started by 1-3 client threads (blocking get, awaiting, detaching) "
        "under a random schedule; non-trivial: a body hops and >=3 thread switches") {
  run_mt<dd::null_context>();
}
VF_MODE(task_ctx_mt, 20, true, "as task_mt with recorded context hooks") { run_mt<Rec>(); }

}  // namespace
