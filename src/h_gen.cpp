// C01, C02, C03: generators
#include "kelcoro/generator.hpp"
#include "kelcoro/channel.hpp"
#include "kelcoro/kelcoro.hpp"
#include "progs.hpp"
#include <optional>

using namespace px;

static std::string outcome_str(Model::Out o, int v) {
  return o == Model::O_VALUE ? "value " + std::to_string(v) : o == Model::O_THROW ? "exception " + std::to_string(v) : "end";
}

template <typename Y>
struct Seq {
  using G = dd::generator<Y>;
  using It = typename G::iterator;
  Ctx cx;
  Model m;
  std::optional<G> g;
  std::optional<It> it;
  bool cur = false;  // a value is current
  int curv = 0;
  bool over = false;  // model says the body ended
  int delivered = 0, thrown = 0;

  void check_cur(It& i, const char* when) {
    VF_CHECK((i != std::default_sentinel) == cur, "%s: iterator is %s end, expected %s", when,
             i == std::default_sentinel ? "at" : "not at", cur ? "a value" : "end");
    if (cur) {
      int v = Tr<Y>::rd(*i);
      VF_CHECK(v == curv, "%s: value %d, expected %d", when, v, curv);
    }
  }
  // performs one request and compares with the model
  void request(bool begin, const char* when, bool post = false) {
    Model::Step want{Model::O_END, 0, {}};
    if (!over) want = m.advance();
    else VF_CHECK(begin, "harness");
    cx.log.clear();
    int got_exc = 0;
    bool threw = false;
    std::optional<It> nit;
    try {
      if (begin) nit = g->begin();
      else {
        if (post) (*it)++;
        else ++*it;
        nit = it;
      }
    } catch (...) {
      threw = true;
      got_exc = current_exc_id();
    }
    check_effects(cx, want.effects, when);
    VF_CHECK(threw == (want.out == Model::O_THROW), "%s: %s, expected %s", when, threw ? "exception" : "no exception",
             outcome_str(want.out, want.v).c_str());
    if (threw) {
      VF_CHECK(got_exc == want.v, "%s: exception id %d, expected %d", when, got_exc, want.v);
      cur = false;
      if constexpr (Tr<Y>::values) {
        VF_CHECK(It(*g) == std::default_sentinel, "%s: an iterator is not at end after the exception", when);
        if (it) VF_CHECK(*it == std::default_sentinel, "%s: the advanced iterator is not at end after the exception", when);
      }
      it.reset();
      thrown++;
      if (m.finished()) over = true;  // thrown by the outermost body
      if (over) VF_CHECK(g->empty(), "%s: generator not empty after its body threw", when);
      return;
    }
    cur = want.out == Model::O_VALUE;
    curv = want.v;
    if (cur) delivered++;
    if (want.out == Model::O_END) over = true;
    check_cur(*nit, when);
    VF_CHECK(g->empty() == over, "%s: empty()==%d, expected %d", when, (int)g->empty(), (int)over);
    VF_CHECK((bool)*g == !over, "%s: operator bool", when);
    VF_CHECK(&nit->owner() == &*g, "%s: iterator owner", when);
    VF_CHECK(nit->equivalent(It(*g)), "%s: iterators to the same object are not equivalent", when);
    it = nit;
  }
};

template <typename Y>
static void run_seq(GenOpts o, bool exc) {
  using T = Tr<Y>;
  Gen gen(opts_for<Y>(o));
  auto prog = gen.prog();
  std::string txt;
  print(*prog, txt);
  vf::desc("yield type %s, program %s\n", T::name(), txt.c_str());
  vf::label("case");
  vf::label(T::name());
  if (gen.depth >= 2) vf::label("nested>=2");
  if (gen.npre) vf::label("preconsumed");
  if (gen.nthrow) vf::label("throws");
  Seq<Y> q;
  flat(*prog, q.m.ev);
  q.m.ev.size();
  {
    Guard gd(q.cx);
    q.g.emplace(make_body<dd::generator, Y>(q.cx, *prog, std::move(gd), vf::chance(1, 3)));
  }
  VF_CHECK(q.cx.log.empty(), "body ran before begin: %s", show(q.cx.log).c_str());
  VF_CHECK(!q.g->empty(), "fresh generator is empty");
  int restarts = 0;
  int n = 4 + vf::small(30);
  std::string script;
  for (int i = 0; i < n; ++i) {
    bool canadv = q.it && q.cur;
    static const uint32_t w[] = {50, 14, 8, 6, 10, 4, 3};
    int op = vf::pick_w(w, 7);
    switch (op) {
      case 0:
      case 3:
        if (canadv) {
          script += "++ ";
          if (op == 3) vf::label("post++");
          q.request(false, "advance", op == 3);
          break;
        }
        [[fallthrough]];
      case 1:
        script += "begin ";
        if (q.delivered || q.thrown) restarts++;
        q.request(true, "begin");
        break;
      case 2:
        if (q.it) {
          script += "deref ";
          q.check_cur(*q.it, "dereference");
          q.check_cur(*q.it, "second dereference");
        }
        break;
      case 4: {  // for loop over at most k values
        int k = vf::small(6);
        script += "for" + std::to_string(k) + " ";
        if (q.delivered || q.thrown) restarts++;
        q.request(true, "for begin");
        while (q.cur && k-- > 0) q.request(false, "for advance");
        break;
      }
      case 5:
        script += "abandon ";
        q.it.reset();
        break;
      case 6:
        script += "peek ";
        if (!q.over || true) {
          auto ci = q.g->cur_iterator();
          if (q.it) q.check_cur(ci, "cur_iterator");
        }
        break;
    }
  }
  int end = vf::pick(3);
  if (end != 1) {
    script += "drain";
    vf::desc("script %s\n", script.c_str());
    int guard = 0;
    while (!q.over) {
      VF_CHECK(++guard < 100000, "harness: drain");
      if (q.it && q.cur) q.request(false, "drain advance");
      else q.request(true, "drain begin");
    }
    q.request(true, "begin after the end");
    q.request(true, "second begin after the end");
    vf::label("drained");
  } else {
    script += "destroy";
    vf::desc("script %s\n", script.c_str());
    vf::label("destroyed midway");
  }
  q.cx.log.clear();
  q.it.reset();
  q.g.reset();
  VF_CHECK(q.cx.log.empty(), "destroying a generator ran its body");
  VF_CHECK(q.cx.live == 0, "%d frame(s) not destroyed", q.cx.live);
  VF_CHECK(LogRes::dflt().live == 0, "%ld block(s) not returned to the resource", LogRes::dflt().live);
  if (restarts) vf::label("restarted");
  if (exc) {
    if (q.thrown) vf::label("exception delivered");
    if (q.thrown > 1) vf::label("several exceptions");
    if (q.thrown && q.delivered) vf::nontrivial();
  } else if (q.delivered >= 2 && (gen.nsplice || restarts))
    vf::nontrivial();
}

template <typename F>
static void with_type(F f) {
  static const uint32_t w[] = {30, 20, 15, 15, 10};
  switch (vf::pick_w(w, 5)) {
    case 0: f.template operator()<long>(); break;
    case 1: f.template operator()<std::string>(); break;
    case 2: f.template operator()<std::unique_ptr<long>>(); break;
    case 3: f.template operator()<long&>(); break;
    default: f.template operator()<dd::nothing_t>(); break;
  }
}

VF_MODE(gen_seq, 200, true,
        "random nested generator program x random consumer script; non-trivial: >=2 values delivered and the program splices or the "
        "consumer restarted") {
  GenOpts o;
  o.max_depth = 5;
  with_type([&]<typename Y>() { run_seq<Y>(o, false); });
}

VF_MODE(gen_exc, 200, true,
        "random nested generator program with throws x random consumer script; non-trivial: a value and an exception were delivered") {
  GenOpts o;
  o.throws = true;
  o.max_depth = 5;
  with_type([&]<typename Y>() { run_seq<Y>(o, true); });
}

// ------------------------------------------------------------------ C03
template <typename Y>
static void run_ops(bool throws) {
  using G = dd::generator<Y>;
  using It = typename G::iterator;
  constexpr bool valued = Tr<Y>::values;
  Ctx cx;
  struct Body {
    std::shared_ptr<Prog> prog;
    Model m;
    bool over = false, started = false;
    int guard;
    bool dead = false;
  };
  std::vector<Body> bodies;
  enum { NS = 4 };
  struct Slot {
    std::optional<G> g;
    int body = -1;
    bool cur = false;
    int curv = 0;
    bool moved = false;
  };
  Slot sl[NS];
  struct Raw {
    typename G::handle_type h;
    int body;
  };
  std::vector<Raw> raws;
  for (auto& s : sl) s.g.emplace();
  int nops = 6 + vf::small(40), consumed = 0, handleops = 0;
  std::string script;
  auto sync = [&](Slot& s, const char* when) {
    bool e = s.body < 0 || bodies[s.body].over;
    VF_CHECK(s.g->empty() == e, "%s: empty()==%d, expected %d", when, (int)s.g->empty(), (int)e);
    VF_CHECK((bool)*s.g == !e, "%s: operator bool", when);
    if (s.body < 0) VF_CHECK(s.g->raw_handle() == nullptr, "%s: empty generator still has a body", when);
  };
  auto died = [&](int b, const char* when) {
    if (b < 0) return;
    VF_CHECK(cx.destroyed[bodies[b].guard] == 1, "%s: body %d not destroyed", when, b);
    bodies[b].dead = true;
  };
  auto alive = [&](int b, const char* when) {
    if (b < 0) return;
    VF_CHECK(cx.destroyed[bodies[b].guard] == 0, "%s: body %d was destroyed", when, b);
  };
  auto check_cur = [&](Slot& s, It& i, const char* when) {
    // what an iterator shows is specified while its object holds a body that produced a value (or ended), or is empty
    bool at_end = i == std::default_sentinel;
    if (s.body < 0 || bodies[s.body].over) {
      VF_CHECK(at_end, "%s: iterator of an empty generator is not at end", when);
      return;
    }
    if (s.cur) {
      VF_CHECK(!at_end, "%s: iterator at end while a value is current", when);
      if constexpr (valued) {
        int v = Tr<Y>::rd(*i);
        VF_CHECK(v == s.curv, "%s: value %d, expected %d", when, v, s.curv);
      }
    }
  };
  auto step = [&](Slot& s, bool begin, const char* when) {
    cx.log.clear();
    Model::Step want{Model::O_END, 0, {}};
    Body* b = s.body < 0 ? nullptr : &bodies[s.body];
    if (b && !b->over) want = b->m.advance(), b->started = true;
    bool threw = false;
    int id = 0;
    It it(*s.g);
    try {
      if (begin) it = s.g->begin();
      else ++it;
    } catch (...) {
      threw = true;
      id = current_exc_id();
    }
    check_effects(cx, want.effects, when);
    VF_CHECK(threw == (want.out == Model::O_THROW), "%s: %s", when, threw ? "unexpected exception" : "exception lost");
    if (threw) {
      VF_CHECK(id == want.v, "%s: wrong exception", when);
      s.cur = false;
      if constexpr (valued) VF_CHECK(it == std::default_sentinel, "%s: iterator not at end after the exception", when);
      if (b->m.finished()) b->over = true;
    } else {
      s.cur = want.out == Model::O_VALUE;
      s.curv = want.v;
      if (b && want.out == Model::O_END) b->over = true;
      if (s.cur) consumed++;
      VF_CHECK((it == std::default_sentinel) == !s.cur, "%s: begin()%s end, expected %s", when,
               it == std::default_sentinel ? "==" : "!=", s.cur ? "a value" : "end");
      check_cur(s, it, when);
    }
    sync(s, when);
  };
  auto newbody = [&]() -> int {
    GenOpts o;
    o.throws = throws;
    o.max_depth = 3;
    o.budget = 12;
    Gen gen(opts_for<Y>(o));
    Body b;
    b.prog = gen.prog();
    flat(*b.prog, b.m.ev);
    std::string t;
    print(*b.prog, t);
    script += "new B" + std::to_string(bodies.size()) + "=" + t + "\n";
    bodies.push_back(std::move(b));
    return (int)bodies.size() - 1;
  };
  auto make = [&](int b) {
    Guard gd(cx);
    bodies[b].guard = gd.id;
    return make_body<dd::generator, Y>(cx, *bodies[b].prog, std::move(gd), b % 2);
  };
  auto S = [](int i) { return std::to_string(i); };
  for (int k = 0; k < nops; ++k) {
    static const uint32_t w[] = {18, 40, 14, 12, 8, 6, 6, 6, 6, 6, 8, 4};
    int op = vf::pick_w(w, 12);
    int i = vf::pick(NS), j = vf::pick(NS);
    Slot &a = sl[i], &b = sl[j];
    switch (op) {
      case 0: {  // assign a fresh body
        int nb = newbody();
        script += "s" + S(i) + " = B" + S(nb) + "\n";
        vf::desc("%s", script.c_str());
        script.clear();
        int old = a.body;
        a.g.emplace(make(nb));  // destroys the old one
        died(old, "replace");
        a.body = nb;
        a.cur = false;
        sync(a, "construct");
        break;
      }
      case 1: {
        bool begin = !(a.body >= 0 && a.cur && vf::chance(2, 3));
        vf::desc("s%d.%s\n", i, begin ? "begin" : "++");
        step(a, begin, begin ? "begin" : "advance");
        break;
      }
      case 2: {  // swap, iterators follow
        vf::desc("swap s%d s%d\n", i, j);
        It ia(*a.g), ib(*b.g);
        bool member = vf::chance(1, 2);
        if (member) a.g->swap(*b.g);
        else { using std::swap; swap(*a.g, *b.g); }
        if (i != j) {
          std::swap(a.body, b.body);
          std::swap(a.cur, b.cur);
          std::swap(a.curv, b.curv);
        }
        VF_CHECK(ia.equivalent(It(*a.g)) && &ia.owner() == &*a.g, "iterator lost its object in swap");
        check_cur(a, ia, "after swap");
        check_cur(b, ib, "after swap");
        handleops++;
        break;
      }
      case 3: {  // move construct into slot j
        if (i == j) break;
        vf::desc("s%d = move-construct(s%d)\n", j, i);
        int old = b.body;
        b.g.emplace(std::move(*a.g));
        died(old, "replace by move construction");
        alive(a.body, "move construction");
        b.body = a.body;
        b.cur = a.cur;
        b.curv = a.curv;
        a.body = -1;
        a.cur = false;
        It ib(*b.g);
        check_cur(b, ib, "after move construction");
        sync(a, "moved-from");
        sync(b, "move constructed");
        It ia(*a.g);
        check_cur(a, ia, "moved-from");
        handleops++;
        break;
      }
      case 4: {  // move assign: target takes the body; the source keeps either nothing or the target's old body
        vf::desc("s%d = std::move(s%d)\n", j, i);
        if (i == j) {
          G& alias = *a.g;
          *a.g = std::move(alias);
          // self move: only must not break or leak; drop the content
          int old = a.body;
          a.g->clear();
          if (old >= 0) died(old, "clear after self move");
          a.body = -1;
          a.cur = false;
          break;
        }
        int oldb = b.body;
        bool bcur = b.cur;
        int bcurv = b.curv;
        *b.g = std::move(*a.g);
        alive(a.body, "move assignment");
        b.body = a.body;
        b.cur = a.cur;
        b.curv = a.curv;
        if (a.g->raw_handle() == nullptr) {
          died(oldb, "move assignment");
          a.body = -1;
          a.cur = false;
        } else {
          VF_CHECK(oldb >= 0, "move assignment left the source non-empty");
          alive(oldb, "move assignment (kept by the source)");
          a.body = oldb;
          a.cur = bcur;
          a.curv = bcurv;
        }
        sync(a, "move-assigned from");
        sync(b, "move assigned");
        It ib(*b.g);
        check_cur(b, ib, "after move assignment");
        handleops++;
        break;
      }
      case 5: {
        bool by_reset = vf::chance(1, 4);  // with no handle
        vf::desc(by_reset ? "s%d.reset(nothing)\n" : "s%d.clear\n", i);
        int old = a.body;
        if (by_reset) a.g->reset(nullptr);
        else a.g->clear();
        died(old, "clear");
        a.body = -1;
        a.cur = false;
        sync(a, "clear");
        It ia(*a.g);
        check_cur(a, ia, "cleared");
        handleops++;
        break;
      }
      case 6: {
        if (a.body < 0) break;
        vf::desc("release s%d\n", i);
        auto h = a.g->release();
        alive(a.body, "release");
        raws.push_back({h, a.body});
        a.body = -1;
        a.cur = false;
        sync(a, "release");
        It ia(*a.g);
        check_cur(a, ia, "released");
        handleops++;
        break;
      }
      case 7: {
        if (raws.empty()) break;
        int r = vf::pick(raws.size());
        vf::desc("s%d.reset(B%d)\n", i, raws[r].body);
        int old = a.body;
        a.g->reset(raws[r].h);
        died(old, "reset");
        a.body = raws[r].body;
        a.cur = false;
        raws.erase(raws.begin() + r);
        alive(a.body, "reset");
        sync(a, "reset");
        handleops++;
        vf::label("reset");
        break;
      }
      case 8: {
        if (raws.empty()) break;
        int r = vf::pick(raws.size());
        vf::desc("destroy raw B%d\n", raws[r].body);
        raws[r].h.destroy();
        died(raws[r].body, "destroy of a released handle");
        raws.erase(raws.begin() + r);
        break;
      }
      case 9: {  // destroy and recreate the object
        vf::desc("destroy s%d\n", i);
        int old = a.body;
        a.g.reset();
        died(old, "destructor");
        a.body = -1;
        a.cur = false;
        a.g.emplace();
        sync(a, "default constructed");
        It ia(*a.g);
        check_cur(a, ia, "default constructed");
        int n = 0;
        for (auto&& x : *a.g) (void)x, n++;
        VF_CHECK(n == 0, "default constructed generator produced values");
        break;
      }
      case 10: {
        vf::desc("s%d == s%d\n", i, j);
        bool ea = a.body < 0 || bodies[a.body].over, eb = b.body < 0 || bodies[b.body].over;
        bool want = i == j || (ea && eb);
        VF_CHECK((*a.g == *b.g) == want, "operator==: %d, expected %d", (int)(*a.g == *b.g), (int)want);
        break;
      }
      case 11: {  // consume to the end (or the next exception)
        vf::desc("drain s%d\n", i);
        step(a, true, "begin");
        for (int n = 0; a.cur && n < 200; ++n) step(a, false, "advance");
        break;
      }
    }
  }
  for (auto& s : sl) {
    int old = s.body;
    s.g.reset();
    died(old, "final destruction");
  }
  for (auto& r : raws) {
    r.h.destroy();
    died(r.body, "final destruction of a released handle");
  }
  VF_CHECK(cx.live == 0, "%d frame(s) not destroyed", cx.live);
  vf::label("case");
  if (consumed && handleops >= 2) vf::nontrivial();
}

VF_MODE(gen_ops, 200, true,
        "random sequence of construct/move/assign/swap/clear/release/reset/compare/consume over 4 generator objects; non-trivial: a value "
        "was consumed and >=2 ownership operations happened") {
  bool thr = vf::chance(1, 3);
  with_type([&]<typename Y>() { run_ops<Y>(thr); });
}
