// C05, C06: channels, single threaded (suspension points resumed by the harness)
#include "kelcoro/channel.hpp"
#include "kelcoro/generator.hpp"
#include "kelcoro/kelcoro.hpp"
#include "progs.hpp"
#include <optional>

using namespace px;

struct Fire {
  struct promise_type {
    Fire get_return_object() { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { vf::fail("harness: exception left a consumer"); }
  };
};

enum Cmd { C_QUIT, C_NEXT, C_FOREACH, C_BEGIN, C_ADV, C_DEREF, C_COPY, C_DROP };

template <typename Y>
struct World : Suspender {
  using Ch = dd::channel<Y>;
  using It = dd::channel_iterator<Y>;
  using T = Tr<Y>;
  enum { NS = 3, NC = 3 };

  Ctx cx;
  struct Body {
    std::shared_ptr<Prog> prog;
    Model m;
    bool over = false;
    int guard = -1;
  };
  std::vector<Body> bodies;
  struct Slot {
    std::optional<Ch> c;
    int body = -1;
    bool cur = false;
    int curv = 0;
    int pending = 0;
    int requester = -1;  // consumer whose begin/next was the latest on this object
  };
  Slot sl[NS];
  struct Raw {
    typename Ch::handle_type h;
    int body;
  };
  std::vector<Raw> raws;

  struct Con {
    World* w;
    int id;
    std::coroutine_handle<> h;
    bool idle = false, expected = false, pass = false;
    Cmd cmd;
    int slot = -1, k = 0;
    // report
    bool atend = false;
    int val = 0, exc = 0;
    std::vector<int> got;
    bool passover = false;
    struct Idle {
      Con& c;
      bool await_ready() { return false; }
      void await_suspend(std::coroutine_handle<> h) {
        c.h = h;
        c.idle = true;
      }
      void await_resume() {
        VF_CHECK(c.expected, "control returned to consumer %d, which did not make the latest request", c.id);
        c.expected = false;
        c.idle = false;
      }
    };
    Idle next_cmd() { return Idle{*this}; }
    Ch& ch() { return *w->sl[slot].c; }
  };
  Con cons[NC];
  std::vector<std::coroutine_handle<>> parked;
  int nparked = 0;

  void park(std::coroutine_handle<> h, int form) override {
    nparked++;
    if (form == 1) h.resume();
    else parked.push_back(h);
  }

  static Fire consumer(Con& c) {
    for (;;) {
      co_await c.next_cmd();
      if (c.cmd == C_QUIT) co_return;
      if (c.cmd == C_NEXT) {
        auto* p = co_await c.ch().next();
        c.atend = !p;
        if (p) c.val = T::rd(*p);
      } else if (c.cmd == C_FOREACH) {
        c.got.clear();
        int k = c.k;
        try {
          co_foreach(auto&& v, c.ch()) {
            c.got.push_back(T::rd(v));
            if (--k == 0) break;
          }
        } catch (...) {
          c.exc = current_exc_id();
        }
      } else if (c.cmd == C_BEGIN) {
        c.pass = true;
        int my = c.slot;
        try {
          Ch& ch = c.ch();
          auto it = co_await ch.begin();
          for (;;) {
            c.atend = it == ch.end();
            if (!c.atend) c.val = T::rd(*it);
            VF_CHECK(&it.owner() == &ch && it.equivalent(it), "iterator owner");
            co_await c.next_cmd();
            c.slot = my;
            if (c.cmd == C_DROP) break;
            if (c.cmd == C_ADV) co_await ++it;
            if (c.cmd == C_COPY) {
              auto it2 = it;
              VF_CHECK(it2.equivalent(it), "copies of an iterator are equivalent");
            }
          }
        } catch (...) {
          c.exc = current_exc_id();
        }
        c.pass = false;
      }
    }
  }

  void start() {
    g_susp = this;
    for (auto& s : sl) s.c.emplace();
    for (int i = 0; i < NC; ++i) {
      cons[i].w = this;
      cons[i].id = i;
      consumer(cons[i]);
    }
  }
  void drive(Con& c, Cmd cmd) {
    c.cmd = cmd;
    c.exc = 0;
    c.expected = true;
    auto h = c.h;
    h.resume();
    if (cmd == C_QUIT) return;
    while (!c.idle) {
      VF_CHECK(!parked.empty(), "the request of consumer %d was lost: nobody is running or suspended on its behalf", c.id);
      auto p = parked.back();
      parked.pop_back();
      p.resume();
    }
    VF_CHECK(parked.empty(), "the producer runs ahead of the request");
    VF_CHECK(!c.expected, "the consumer was not resumed");
  }

  // model of one request on slot s; returns true when a value is delivered
  bool mrequest(Slot& s, std::vector<Ev>& eff) {
    if (s.body < 0 || bodies[s.body].over) {
      s.cur = false;
      return false;
    }
    Body& b = bodies[s.body];
    auto st = b.m.advance();
    eff.insert(eff.end(), st.effects.begin(), st.effects.end());
    s.cur = st.out == Model::O_VALUE;
    if (s.cur) {
      s.curv = st.v;
      return true;
    }
    if (st.out == Model::O_THROW) {
      VF_CHECK(!s.pending, "harness: second failure while one is pending");
      s.pending = st.v;
      if (b.m.finished()) b.over = true;
    } else
      b.over = true;
    return false;
  }
  bool may_request(Slot& s) {  // an unhandled failure followed by another one terminates the program
    if (!s.pending || s.body < 0) return true;
    auto& m = bodies[s.body].m;
    for (size_t i = m.pos; i < m.ev.size(); ++i)
      if (m.ev[i].tag == THROW) return false;
    return true;
  }
  void sync(Slot& s, const char* when) {
    bool e = s.body < 0 || bodies[s.body].over;
    VF_CHECK(s.c->empty() == e, "%s: empty()==%d, expected %d", when, (int)s.c->empty(), (int)e);
    VF_CHECK((bool)*s.c == !e, "%s: operator bool", when);
    if (s.body < 0) VF_CHECK(s.c->raw_handle() == nullptr, "%s: empty channel still has a body", when);
  }
  void take(Slot& s, const char* when) {
    auto p = s.c->take_exception();
    VF_CHECK((p != nullptr) == (s.pending != 0), "%s: take_exception %s, expected %s", when, p ? "an exception" : "nothing",
             s.pending ? "an exception" : "nothing");
    if (p) {
      int id = exc_id(p);
      VF_CHECK(id == s.pending, "%s: exception id %d, expected %d", when, id, s.pending);
    }
    s.pending = 0;
    VF_CHECK(!s.c->take_exception(), "%s: exception available twice", when);
  }
  int iters_on(int slot) {
    int n = 0;
    for (auto& c : cons)
      if (c.pass && c.slot == slot) n++;
    return n;
  }
  // ends the pass of c
  void drop(Con& c, const char* when) {
    Slot& s = sl[c.slot];
    int want = s.pending;
    s.pending = 0;
    drive(c, C_DROP);
    VF_CHECK(c.exc == want, "%s: end of the iterator: exception %d, expected %d", when, c.exc, want);
  }
  void drop_iters(int slot, const char* when) {
    for (auto& c : cons)
      if (c.pass && c.slot == slot) drop(c, when);
  }
  int newbody(GenOpts o, std::string* t) {
    Gen gen(opts_for<Y>(o));
    Body b;
    b.prog = gen.prog();
    flat(*b.prog, b.m.ev);
    print(*b.prog, *t);
    bodies.push_back(std::move(b));
    return (int)bodies.size() - 1;
  }
  Ch make(int b) {
    Guard gd(cx);
    bodies[b].guard = gd.id;
    return make_body<dd::channel, Y>(cx, *bodies[b].prog, std::move(gd), b % 2);
  }
  void died(int b, const char* when) {
    if (b < 0) return;
    VF_CHECK(cx.destroyed[bodies[b].guard] == 1, "%s: body %d was not destroyed", when, b);
  }
  void alive(int b, const char* when) {
    if (b < 0) return;
    VF_CHECK(cx.destroyed[bodies[b].guard] == 0, "%s: body %d was destroyed", when, b);
  }
  int delivered = 0, failures = 0, handovers = 0, styles = 0;

  void note_request(Slot& s, int con) {
    if (s.requester >= 0 && s.requester != con) handovers++;
    s.requester = con;
  }
  void op_next(int ci, int si) {
    Con& c = cons[ci];
    Slot& s = sl[si];
    if (c.pass || !may_request(s)) return;
    vf::desc("c%d.next(s%d)\n", ci, si);
    cx.log.clear();
    std::vector<Ev> eff;
    bool runs = !s.c->empty();
    bool v = mrequest(s, eff);
    c.slot = si;
    drive(c, C_NEXT);
    if (runs) note_request(s, ci);
    check_effects(cx, eff, "next");
    VF_CHECK(c.atend == !v, "next gave %s, expected %s", c.atend ? "null" : "a value", v ? "a value" : "null");
    if (v) {
      VF_CHECK(c.val == s.curv, "next: value %d, expected %d", c.val, s.curv);
      delivered++;
    }
    if (s.pending) failures++;
    sync(s, "next");
    styles |= 1;
  }
  void op_foreach(int ci, int si, int k) {
    Con& c = cons[ci];
    Slot& s = sl[si];
    if (c.pass || !may_request(s)) return;
    vf::desc("c%d.foreach(s%d,%d)\n", ci, si, k);
    cx.log.clear();
    std::vector<Ev> eff;
    std::vector<int> want;
    bool runs = !s.c->empty();
    while ((int)want.size() < k && mrequest(s, eff)) want.push_back(s.curv);
    int exc = s.pending;
    s.pending = 0;
    c.slot = si;
    c.k = k;
    drive(c, C_FOREACH);
    if (runs) note_request(s, ci);
    check_effects(cx, eff, "foreach");
    VF_CHECK(c.got.size() == want.size(), "foreach: %zu values, expected %zu", c.got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i)
      VF_CHECK(c.got[i] == want[i], "foreach: value %d, expected %d", c.got[i], want[i]);
    VF_CHECK(c.exc == exc, "foreach: exception %d, expected %d", c.exc, exc);
    delivered += (int)want.size();
    if (exc) failures++;
    sync(s, "foreach");
    styles |= 2;
  }
  void op_begin(int ci, int si) {
    Con& c = cons[ci];
    Slot& s = sl[si];
    if (c.pass || !may_request(s)) return;
    vf::desc("c%d.begin(s%d)\n", ci, si);
    cx.log.clear();
    std::vector<Ev> eff;
    bool runs = !s.c->empty();
    bool v = mrequest(s, eff);
    c.slot = si;
    drive(c, C_BEGIN);
    if (runs) note_request(s, ci);
    check_effects(cx, eff, "begin");
    VF_CHECK(c.pass, "begin: exception %d at begin", c.exc);
    report(c, s, v, "begin");
    styles |= 4;
  }
  void report(Con& c, Slot& s, bool v, const char* when) {
    VF_CHECK(c.atend == !v, "%s: iterator is %s end, expected %s", when, c.atend ? "at" : "not at", v ? "a value" : "end");
    if (v) {
      VF_CHECK(c.val == s.curv, "%s: value %d, expected %d", when, c.val, s.curv);
      delivered++;
    }
    if (s.pending) failures++;
    sync(s, when);
  }
  void op_iter(int ci) {
    Con& c = cons[ci];
    if (!c.pass) return;
    Slot& s = sl[c.slot];
    bool canadv = s.cur && s.requester == ci && s.body >= 0 && !bodies[s.body].over && may_request(s);
    static const uint32_t w[] = {60, 15, 10, 15};
    int k = vf::pick_w(w, 4);
    if (k == 0 && !canadv) k = 3;
    cx.log.clear();
    switch (k) {
      case 0: {
        vf::desc("++c%d.it\n", ci);
        std::vector<Ev> eff;
        bool v = mrequest(s, eff);
        drive(c, C_ADV);
        check_effects(cx, eff, "advance");
        VF_CHECK(c.pass, "advance: exception %d", c.exc);
        report(c, s, v, "advance");
        break;
      }
      case 1:
        vf::desc("*c%d.it\n", ci);
        drive(c, C_DEREF);
        VF_CHECK(c.atend == !s.cur, "iterator is %s end, expected %s", c.atend ? "at" : "not at", s.cur ? "a value" : "end");
        if (s.cur) VF_CHECK(c.val == s.curv, "dereference: value %d, expected %d", c.val, s.curv);
        break;
      case 2: {
        vf::desc("copy c%d.it\n", ci);
        int want = s.pending;
        s.pending = 0;
        drive(c, C_COPY);
        VF_CHECK(c.exc == want, "end of a copied iterator: exception %d, expected %d", c.exc, want);
        break;
      }
      case 3:
        vf::desc("drop c%d.it\n", ci);
        drop(c, "drop");
        VF_CHECK(cx.log.empty(), "dropping an iterator ran the body");
        break;
    }
  }
  void finish() {
    for (auto& c : cons)
      if (c.pass) drop(c, "final drop");
    for (auto& s : sl)
      if (s.c) take(s, "final");
    for (auto& c : cons) drive(c, C_QUIT);
    for (auto& s : sl) {
      int old = s.body;
      cx.log.clear();
      s.c.reset();
      died(old, "final destruction");
      VF_CHECK(cx.log.empty(), "destroying a channel ran its body");
    }
    for (auto& r : raws) {
      r.h.destroy();
      died(r.body, "final destruction of a released handle");
    }
    VF_CHECK(cx.live == 0, "%d frame(s) not destroyed", cx.live);
    VF_CHECK(LogRes::dflt().live == 0, "%ld block(s) not returned to the resource", LogRes::dflt().live);
    g_susp = nullptr;
  }
};

template <typename F>
static void with_type(F f) {
  static const uint32_t w[] = {35, 20, 15, 15};
  switch (vf::pick_w(w, 4)) {
    case 0: f.template operator()<long>(); break;
    case 1: f.template operator()<std::string>(); break;
    case 2: f.template operator()<std::unique_ptr<long>>(); break;
    default: f.template operator()<long&>(); break;
  }
}

// one channel, several consumers
template <typename Y>
static void run_seq(bool throws) {
  World<Y> w;
  w.start();
  GenOpts o;
  o.suspends = true;
  o.throws = throws;
  o.max_depth = 4;
  o.budget = 24;
  std::string t;
  int b = w.newbody(o, &t);
  vf::desc("yield type %s, program %s\n", Tr<Y>::name(), t.c_str());
  vf::label("case");
  vf::label(Tr<Y>::name());
  auto& s = w.sl[0];
  s.c.emplace(w.make(b));
  s.body = b;
  VF_CHECK(w.cx.log.empty(), "body ran before the first request");
  w.sync(s, "fresh");
  int n = 4 + vf::small(24);
  for (int i = 0; i < n; ++i) {
    int ci = vf::pick(w.NC);
    if (s.pending && vf::chance(1, 2)) {
      vf::desc("take\n");
      w.take(s, "take");
    }
    if (w.cons[ci].pass) {
      w.op_iter(ci);
      continue;
    }
    static const uint32_t ow[] = {30, 25, 25};
    switch (vf::pick_w(ow, 3)) {
      case 0: w.op_begin(ci, 0); break;
      case 1: w.op_next(ci, 0); break;
      default: w.op_foreach(ci, 0, 1 + vf::small(5)); break;
    }
  }
  if (vf::chance(1, 2)) {
    vf::desc("drain\n");
    w.drop_iters(0, "drain");
    for (int g = 0; !w.bodies[b].over && g < 1000; ++g) {
      if (s.pending) w.take(s, "drain take");
      if (g % 2) w.op_next(g % w.NC, 0);
      else w.op_foreach(g % w.NC, 0, 3);
    }
    if (s.pending) w.take(s, "drain take");
    w.op_next(0, 0);
    w.op_foreach(1, 0, 2);
    vf::label("drained");
  }
  w.finish();
  if (w.handovers) vf::label("handed between consumers");
  if (w.nparked) vf::label("suspended");
  if (w.failures) vf::label("failure delivered");
  if (throws ? w.failures && w.delivered : w.delivered >= 2 && (w.nparked || w.handovers)) vf::nontrivial();
}

VF_MODE(chan_seq, 200, true,
        "random nested channel program with suspensions x random script of 3 consumer coroutines (iterator, foreach, next); non-trivial: >=2 "
        "values delivered with a suspension or a hand-over between consumers") {
  with_type([&]<typename Y>() { run_seq<Y>(false); });
}
VF_MODE(chan_exc, 200, true,
        "random nested channel program with throws and suspensions x random script of 3 consumers; non-trivial: a value and a failure were "
        "delivered") {
  with_type([&]<typename Y>() { run_seq<Y>(true); });
}

template <typename Y>
static void run_ops() {
  using W = World<Y>;
  W w;
  using Ch = typename W::Ch;
  w.start();
  int moves = 0;
  int n = 8 + vf::small(40);
  vf::desc("yield type %s\n", Tr<Y>::name());
  auto swap_state = [](auto& a, auto& b) {
    std::swap(a.body, b.body);
    std::swap(a.cur, b.cur);
    std::swap(a.curv, b.curv);
    std::swap(a.pending, b.pending);
  };
  for (int q = 0; q < n; ++q) {
    static const uint32_t ow[] = {16, 50, 12, 9, 8, 6, 6, 7, 4, 5, 6, 6};
    int op = vf::pick_w(ow, 12);
    int i = vf::pick(W::NS), j = vf::pick(W::NS), ci = vf::pick(W::NC);
    auto &a = w.sl[i], &b = w.sl[j];
    w.cx.log.clear();
    switch (op) {
      case 0: {
        w.drop_iters(i, "replace");
        GenOpts o;
        o.suspends = true;
        o.throws = vf::chance(1, 2);
        o.max_depth = 3;
        o.budget = 12;
        std::string t;
        int nb = w.newbody(o, &t);
        vf::desc("s%d = B%d=%s\n", i, nb, t.c_str());
        w.cx.log.clear();
        int old = a.body;
        a.c.emplace(w.make(nb));
        w.died(old, "replace");
        a.body = nb;
        a.cur = false;
        a.pending = 0;
        a.requester = -1;
        w.sync(a, "construct");
        break;
      }
      case 1: {
        if (w.cons[ci].pass) { w.op_iter(ci); break; }
        if (a.pending && vf::chance(2, 3)) { vf::desc("take s%d\n", i); w.take(a, "take"); }
        static const uint32_t rw[] = {40, 25, 20};
        switch (vf::pick_w(rw, 3)) {
          case 0: w.op_begin(ci, i); break;
          case 1: w.op_next(ci, i); break;
          default: w.op_foreach(ci, i, 1 + vf::small(4)); break;
        }
        break;
      }
      case 2: {
        vf::desc("swap s%d s%d\n", i, j);
        if (vf::chance(1, 2)) a.c->swap(*b.c);
        else { using std::swap; swap(*a.c, *b.c); }
        if (i != j) swap_state(a, b);
        w.sync(a, "swap");
        w.sync(b, "swap");
        moves++;
        break;
      }
      case 3: {
        if (i == j) break;
        vf::desc("s%d = move-construct(s%d)\n", j, i);
        w.drop_iters(j, "replace");
        w.take(b, "before replace");
        w.cx.log.clear();
        int old = b.body;
        b.c.emplace(std::move(*a.c));
        w.died(old, "replace by move construction");
        b.body = -1;
        b.cur = false;
        b.requester = -1;
        swap_state(a, b);
        w.alive(b.body, "move construction");
        w.sync(a, "moved-from");
        w.sync(b, "move constructed");
        VF_CHECK(!a.c->take_exception(), "moved-from channel kept the pending exception");
        moves++;
        break;
      }
      case 4: {
        if (i == j) break;
        vf::desc("s%d = std::move(s%d)\n", j, i);
        // the target's own pending exception may be kept or dropped: take it first
        w.take(b, "before move assignment");
        int oldb = b.body;
        bool bcur = b.cur;
        int bcurv = b.curv;
        *b.c = std::move(*a.c);
        w.alive(a.body, "move assignment");
        b.body = a.body, b.cur = a.cur, b.curv = a.curv, b.pending = a.pending;
        a.pending = 0;
        if (a.c->raw_handle() == nullptr) {
          w.died(oldb, "move assignment");
          a.body = -1;
          a.cur = false;
        } else {
          VF_CHECK(oldb >= 0, "move assignment left the source non-empty");
          w.alive(oldb, "move assignment (kept by the source)");
          a.body = oldb, a.cur = bcur, a.curv = bcurv;
        }
        w.sync(a, "move-assigned from");
        w.sync(b, "move assigned");
        moves++;
        break;
      }
      case 5: {
        bool by_reset = vf::chance(1, 4);  // with no handle
        vf::desc(by_reset ? "s%d.reset(nothing)\n" : "s%d.clear\n", i);
        w.take(a, "before clear");
        int old = a.body;
        if (by_reset) a.c->reset(nullptr);
        else a.c->clear();
        w.died(old, "clear");
        a.body = -1;
        a.cur = false;
        w.sync(a, "clear");
        moves++;
        break;
      }
      case 6: {
        if (a.body < 0) break;
        vf::desc("release s%d\n", i);
        w.take(a, "before release");
        auto h = a.c->release();
        w.alive(a.body, "release");
        w.raws.push_back({h, a.body});
        a.body = -1;
        a.cur = false;
        w.sync(a, "release");
        moves++;
        break;
      }
      case 7: {
        if (w.raws.empty()) break;
        int r = vf::pick(w.raws.size());
        vf::desc("s%d.reset(B%d)\n", i, w.raws[r].body);
        w.take(a, "before reset");
        int old = a.body;
        a.c->reset(w.raws[r].h);
        w.died(old, "reset");
        a.body = w.raws[r].body;
        a.cur = false;
        w.raws.erase(w.raws.begin() + r);
        w.alive(a.body, "reset");
        w.sync(a, "reset");
        moves++;
        break;
      }
      case 8: {
        vf::desc("destroy s%d\n", i);
        w.drop_iters(i, "destroy");
        w.take(a, "before destroy");
        int old = a.body;
        w.cx.log.clear();
        a.c.reset();
        w.died(old, "destructor");
        a.body = -1;
        a.cur = false;
        a.requester = -1;
        a.c.emplace();
        w.sync(a, "default constructed");
        w.op_next(ci, i);
        w.op_foreach(ci, i, 2);
        break;
      }
      case 9: {
        vf::desc("s%d == s%d\n", i, j);
        bool ea = a.body < 0 || w.bodies[a.body].over, eb = b.body < 0 || w.bodies[b.body].over;
        bool want = i == j || (ea && eb);
        VF_CHECK((*a.c == *b.c) == want, "operator==: %d, expected %d", (int)(*a.c == *b.c), (int)want);
        break;
      }
      case 10:
        vf::desc("take s%d\n", i);
        w.take(a, "take");
        break;
      case 11: {  // iterators of whoever holds one are looked at
        for (auto& c : w.cons)
          if (c.pass) {
            auto& s = w.sl[c.slot];
            w.drive(c, C_DEREF);
            VF_CHECK(c.atend == !s.cur, "iterator of consumer %d is %s end, expected %s", c.id, c.atend ? "at" : "not at",
                     s.cur ? "a value" : "end");
            if (s.cur) VF_CHECK(c.val == s.curv, "dereference: value %d, expected %d", c.val, s.curv);
          }
        break;
      }
    }
    if (op >= 2 && op <= 7) VF_CHECK(w.cx.log.empty(), "an ownership operation ran a body");
  }
  w.finish();
  vf::label("case");
  if (moves) vf::label("ownership ops", moves);
  if (w.failures) vf::label("failure delivered");
  if (w.delivered && moves >= 2) vf::nontrivial();
  (void)sizeof(Ch);
}

VF_MODE(chan_ops, 200, true,
        "random sequence of construct/move/assign/swap/clear/release/reset/compare/consume (3 consumers) over 3 channel objects; "
        "non-trivial: a value was consumed and >=2 ownership operations happened") {
  with_type([&]<typename Y>() { run_ops<Y>(); });
}
