// C05, C06: channels whose bodies and consumers hop between threads
#include "vs_kelcoro.hpp"
#include "mt.hpp"
#include "progs.hpp"

using namespace px;

namespace {

struct Fire {
  struct promise_type {
    Fire get_return_object() { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { vf::fail("harness: exception left a consumer"); }
  };
};

mt::Crew* g_crew;
struct CrewSus : Suspender {
  void park(std::coroutine_handle<> h, int form) override { g_crew->post(form, h); }
};

enum Style { NEXT, FOREACH, ITER, MOVE };
const char* sname[] = {"next", "foreach", "iterator", "move the channel"};
struct Seg {  // one consumer coroutine
  int where = 0, style = 0, k = 0, hop = -1;  // hop: between requests
};

template <typename Y>
struct Line {  // one channel and the chain of its consumers
  using Ch = dd::channel<Y>;
  using T = Tr<Y>;
  Ctx cx;
  std::shared_ptr<Prog> prog;
  Model m;
  bool over = false, cur = false;
  int curv = 0, pending = 0;
  std::vector<Seg> segs;
  std::optional<Ch> ch, other;
  int delivered = 0, failures = 0, handovers = 0;
  int done_cell = 0;

  bool mrequest(std::vector<Ev>& eff) {
    if (over) return cur = false;
    auto st = m.advance();
    eff.insert(eff.end(), st.effects.begin(), st.effects.end());
    cur = st.out == Model::O_VALUE;
    if (cur) {
      curv = st.v;
      ++delivered;
      return true;
    }
    if (st.out == Model::O_THROW) {
      pending = st.v;
      ++failures;
      if (m.finished()) over = true;
    } else over = true;
    return false;
  }
  bool may_request() {
    if (!pending) return true;
    for (size_t i = m.pos; i < m.ev.size(); ++i)
      if (m.ev[i].tag == THROW) return false;
    return true;
  }
  void take() {
    auto p = ch->take_exception();
    VF_CHECK((p != nullptr) == (pending != 0), "take_exception gave %s, expected %s", p ? "an exception" : "nothing", pending ? "an exception" : "nothing");
    if (p) VF_CHECK(exc_id(p) == pending, "exception %d, expected %d", exc_id(p), pending);
    pending = 0;
  }

  static Fire consume(Line& l, size_t at) {
    const Seg s = l.segs[at];
    co_await g_crew->hop(s.where);
    if (!l.may_request()) l.take();
    std::vector<Ev> eff;
    l.cx.log.clear();
    switch (s.style) {
      case NEXT:
        for (int i = 0; i < s.k; ++i) {
          bool v = l.mrequest(eff);
          auto* p = co_await l.ch->next();
          check_effects(l.cx, eff, "next");
          eff.clear();
          VF_CHECK(!p == !v, "next gave %s, expected %s", p ? "a value" : "null", v ? "a value" : "null");
          if (p) VF_CHECK(T::rd(*p) == l.curv, "next: value %d, expected %d", T::rd(*p), l.curv);
          if (!v && l.pending) l.take();
          if (s.hop >= 0) {
            co_await g_crew->hop(s.hop);
            VF_CHECK(l.cx.log.empty(), "the producer runs ahead of the request");
            if (p) VF_CHECK(T::rd(*p) == l.curv, "the value changed while the consumer was away");
          }
        }
        break;
      case FOREACH: {
        std::vector<int> want;
        while ((int)want.size() < s.k && l.mrequest(eff)) want.push_back(l.curv);
        int exc = std::exchange(l.pending, 0), got_exc = 0;
        size_t n = 0;
        try {
          co_foreach(auto&& v, *l.ch) {
            VF_CHECK(n < want.size() && T::rd(v) == want[n], "foreach: value %d at position %zu, expected %d", T::rd(v), n, n < want.size() ? want[n] : -1);
            ++n;
            if (s.hop >= 0) co_await g_crew->hop(s.hop);
            if (n == (size_t)s.k) break;
          }
        } catch (...) {
          got_exc = current_exc_id();
        }
        VF_CHECK(n == want.size(), "foreach: %zu values, expected %zu", n, want.size());
        VF_CHECK(got_exc == exc, "foreach: exception %d, expected %d", got_exc, exc);
        check_effects(l.cx, eff, "foreach");
        break;
      }
      case ITER: {
        int exc = 0;
        try {
          bool v = l.mrequest(eff);
          auto it = co_await l.ch->begin();
          for (int i = 0;; ++i) {
            check_effects(l.cx, eff, "iterator");
            eff.clear();
            VF_CHECK((it == l.ch->end()) == !v, "iterator is %s end, expected %s", v ? "at" : "not at", v ? "a value" : "the end");
            if (v) VF_CHECK(T::rd(*it) == l.curv, "iterator: value %d, expected %d", T::rd(*it), l.curv);
            if (!v || i + 1 >= s.k) break;
            if (s.hop >= 0) co_await g_crew->hop(s.hop);
            v = l.mrequest(eff);
            co_await ++it;
          }
        } catch (...) {
          exc = current_exc_id();
        }
        VF_CHECK(exc == std::exchange(l.pending, 0), "end of the iterator: exception %d", exc);
        break;
      }
      case MOVE:
        l.other.emplace(std::move(*l.ch));
        if (s.k % 2) {
          l.ch.reset();
          l.ch.emplace(std::move(*l.other));
        } else swap(*l.ch, *l.other);
        l.other.reset();
        break;
    }
    VF_CHECK(l.ch->empty() == l.over, "empty()==%d, expected %d", (int)l.ch->empty(), (int)l.over);
    if (at + 1 < l.segs.size()) consume(l, at + 1);
    else {
      if (l.pending) l.take();
      l.ch.reset();  // suspended or finished
      VF_CHECK(l.cx.live == 0, "%d frame(s) not destroyed", l.cx.live);
      vs_add(l.done_cell, 1);
    }
  }
};

template <typename Y>
struct One : Line<Y> {
  void gen(bool throws, int nw, int cell) {
    GenOpts o;
    o.suspends = true;
    o.throws = throws;
    o.max_depth = 3;
    o.budget = 14;
    px::Gen g(opts_for<Y>(o));
    this->prog = g.prog();
    spread(*this->prog, nw);
    flat(*this->prog, this->m.ev);
    std::string t;
    print(*this->prog, t);
    vf::desc("channel of %s: %s\n", Tr<Y>::name(), t.c_str());
    int n = vf::range(1, 4);
    for (int i = 0; i < n; ++i) {
      Seg s;
      s.where = vf::pick(nw);
      static const uint32_t ww[] = {5, 4, 5, 1};
      s.style = vf::pick_w(ww, 4);
      s.k = 1 + vf::small(4);
      s.hop = vf::chance(1, 3) ? (int)vf::pick(nw) : -1;
      vf::desc("consumer %d on @%d: %s, %d requests", i, s.where, sname[s.style], s.k);
      if (s.hop >= 0) vf::desc(", hopping to @%d in between", s.hop);
      vf::desc("\n");
      this->segs.push_back(s);
    }
    this->done_cell = cell;
  }
  static void spread(Prog& p, int nw) {  // suspension points pick a worker
    for (auto& s : p.st) {
      if (s.kind == S_SUSPEND) s.form = vf::pick(nw);
      if (s.child) spread(*s.child, nw);
    }
  }
  void start() {
    Guard gd(this->cx);
    this->ch.emplace(make_body<dd::channel, Y>(this->cx, *this->prog, std::move(gd), 0));
    VF_CHECK(this->cx.log.empty(), "body ran before the first request");
    Line<Y>::consume(*this, 0);
  }
};

void run(bool throws) {
  int nw = vf::range(1, 3), n = vf::range(1, 3);
  vf::desc("%d workers\n", nw);
  One<long> a;
  One<std::string> b;
  One<std::unique_ptr<long>> c;
  CrewSus sus;
  a.gen(throws, nw, 10);
  if (n > 1) b.gen(throws, nw, 10);
  if (n > 2) c.gen(throws, nw, 10);
  int posted;
  {
    vs::Run r;
    mt::Crew crew(nw);
    g_crew = &crew;
    g_susp = &sus;
    a.start();
    if (n > 1) b.start();
    if (n > 2) c.start();
    vs_wait_ge(10, n, "all consumers to finish");
    crew.quiesce();
    posted = vs_get(mt::Crew::POSTED);
    crew.stop();
    g_susp = nullptr;
  }
  int del = a.delivered + b.delivered + c.delivered, fails = a.failures + b.failures + c.failures;
  vf::label("hops", posted);
  vf::label("values", del);
  vf::label("failures", fails);
  if (del >= 2 && posted >= 4 && vs_switches() >= 3 && (!throws || fails)) vf::nontrivial();
}

VF_MODE(chan_mt, 20, true,
        "1-3 random nested channel programs whose suspension points hop between 1-3 threads, each consumed by 1-4 consumer coroutines in turn (next, foreach, iterator; hopping between "
        "requests; moving the channel), random schedule; non-trivial: >=2 values, >=4 hops, >=3 switches") {
  run(false);
}
VF_MODE(chan_exc_mt, 20, true, "as chan_mt with throws at any level; non-trivial: also a failure delivered") { run(true); }

}  // namespace
