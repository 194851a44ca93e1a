// C29: generators as standard input ranges, against a hand-written lazy input range over the same sequence.
#include <algorithm>
#include <numeric>
#include <optional>
#include <ranges>
#include <utility>
#include "kelcoro/kelcoro.hpp"
#include "kelcoro/inplace_generator.hpp"
#include "progs.hpp"

using namespace px;

namespace {

enum { RES = 1000, VAL = 1001, PRED = 1002 };  // log tags of the consumer

std::vector<Ev>* L;

// what a generator is documented to be: begin() produces the next value, ++ the one after it, nothing earlier
template <typename Y>
struct Ref {
  using V = std::remove_reference_t<Y>;
  Ctx* cx;
  Model m;
  std::optional<V> cur;
  Ref(Ctx& c, const Prog& p) : cx(&c) { flat(p, m.ev); }
  Ref(Ref&&) = default;
  Ref& operator=(Ref&&) = default;
  void step() {
    cur.reset();
    auto s = m.advance();
    cx->log.insert(cx->log.end(), s.effects.begin(), s.effects.end());
    if (s.out == Model::O_THROW) do_throw(s.v);
    if (s.out == Model::O_VALUE) cur = Tr<Y>::mk(s.v);
  }
  struct It {
    Ref* r;
    using iterator_category = std::input_iterator_tag;
    using value_type = V;
    using reference = Y&&;
    using difference_type = std::ptrdiff_t;
    reference operator*() const { return static_cast<reference>(*r->cur); }
    V* operator->() const { return &*r->cur; }
    It& operator++() {
      r->step();
      return *this;
    }
    void operator++(int) { ++*this; }
    bool operator==(std::default_sentinel_t) const { return !r->cur; }
  };
  It begin() {
    cur.reset();
    if (!m.finished()) step();
    return It{this};
  }
  static std::default_sentinel_t end() { return {}; }
};

// the in-place generator calculates its first value when created and begin() does not advance
template <typename Y>
struct RefEager : Ref<Y> {
  RefEager(Ctx& c, const Prog& p) : Ref<Y>(c, p) { this->step(); }
  typename Ref<Y>::It begin() { return {this}; }
};
template <typename Y>
dd::inplace_generator<Y> inpl_body(Ctx& cx, const Prog& p, Guard guard) {
  using T = Tr<Y>;
  cx.ev(ENTER, p.id);
  for (auto& s : p.st) {
    if (s.kind == S_EFF) cx.ev(EFF, s.v);
    else if (s.kind == S_THROW) do_throw(s.v);
    else if (s.kind == S_RETURN) break;
    else if (s.kind == S_YIELD) {
      if constexpr (T::ref) {
        long x = T::mk(s.v);
        co_yield x;
      } else if (s.form % 2) co_yield T::mk(s.v);
      else {
        Y x = T::mk(s.v);
        co_yield dd::by_ref{x};
      }
    }
  }
  cx.ev(LEAVE, p.id);
}

// kind 0: the range itself under every algorithm, 1: behind one view, 2: behind two views; which keeps the number of
// instantiations bearable
struct Round {
  int kind;
  int st[2], p[2];  // stages and their parameters
  int term, tp;
  bool own;  // the range is moved into the pipeline
};
enum { ST_ALL, ST_TRANSFORM, ST_FILTER, ST_TAKE, ST_TAKEWHILE, ST_DROP, ST_DROPWHILE, N_ST };
const char* st_name[] = {"all", "transform", "filter", "take", "take_while", "drop", "drop_while"};
enum { T_FOR, T_FOREACH, T_FINDIF, T_WRAP, T_COPY, T_COUNTIF, T_EQUAL, T_TRANSFORM, T_POSTINC, T_MERGE, N_T };
const int n_term[] = {N_T, T_COPY, T_FINDIF};  // per kind
const char* t_name[] = {"for", "ranges::for_each", "ranges::find_if", "elements_of in another generator", "ranges::copy", "ranges::count_if", "ranges::equal",
                        "ranges::transform", "iterators with it++ and ->", "ranges::set_union"};

template <typename Y>
struct Pred {
  int salt, mod;
  bool operator()(const std::remove_reference_t<Y>& x) const {
    int v = Tr<Y>::rd(x);
    L->push_back({PRED, v});
    return (v * 7 + salt) % mod != 0;
  }
};

template <typename Y>
auto transform_() {
  using V = std::remove_reference_t<Y>;
  return std::views::transform([](auto&& x) -> V {
    L->push_back({EFF, Tr<Y>::rd(x)});
    return std::forward<decltype(x)>(x);
  });
}
template <typename Y>
void stage1(auto& r, int op, int p, auto f) {
  switch (op) {
    case ST_ALL: return f(std::views::all(r));
    case ST_TRANSFORM:
      if constexpr (!Tr<Y>::ref) return f(r | transform_<Y>());
      break;
    case ST_FILTER: return f(r | std::views::filter(Pred<Y>{p, 3}));
    case ST_TAKE: return f(r | std::views::take(p));
    case ST_TAKEWHILE: return f(r | std::views::take_while(Pred<Y>{p, 5}));
    case ST_DROP: return f(r | std::views::drop(p));
    case ST_DROPWHILE: return f(r | std::views::drop_while(Pred<Y>{p, 2}));
  }
}
template <typename Y>
void stage2(auto&& r, int op, int p, auto f) {
  if constexpr (!Tr<Y>::ref)
    if (op == ST_TRANSFORM) return f(std::move(r) | transform_<Y>());
  if (op == ST_TAKE || op == ST_TAKEWHILE) return f(std::move(r) | std::views::take(p));
  if (op == ST_DROP || op == ST_DROPWHILE) return f(std::move(r) | std::views::drop(p));
  f(std::move(r) | std::views::filter(Pred<Y>{p, 3}));
}

template <typename Y, typename R>
dd::generator<Y> wrap(R r) {
  co_yield dd::elements_of(r);
}

// everything the consumer observes goes to the log
template <typename Y, int Kind>
void terminal(auto&& r, int term, int tp) {
  using V = std::remove_reference_t<Y>;
  using T = Tr<Y>;
  namespace rg = std::ranges;
  using R = std::remove_cvref_t<decltype(r)>;
  static_assert(rg::input_range<R> && !rg::forward_range<R>);
  auto val = [](const V& x) { L->push_back({VAL, T::rd(x)}); };
  if (term == T_FOR) {
    int k = 0;
    for (auto&& x : r) {
      val(x);
      if (++k == tp) break;
    }
  }
  if (term == T_FOREACH) rg::for_each(r, [&](auto&& x) { val(x); });
  if constexpr (Kind < 2) {
    if (term == T_FINDIF) {
      auto it = rg::find_if(r, [&](auto&& x) {
        val(x);
        return T::rd(x) % 8 == tp;
      });
      L->push_back({RES, it == r.end() ? -1 : T::rd(*it)});
    }
    if (term == T_WRAP) {
      int k = 0;
      for (auto&& x : wrap<Y>(rg::ref_view(r))) {
        val(x);
        if (++k == tp) break;
      }
    }
  }
  if constexpr (Kind < 1) {
    if (term == T_COPY) {
      std::vector<V> out;
      rg::copy(r, std::back_inserter(out));
      for (auto& x : out) val(x);
    }
    if (term == T_COUNTIF) L->push_back({RES, (int)rg::count_if(r, [&](auto&& x) { return T::rd(x) % 2 == 0; })});
    if (term == T_EQUAL) {
      std::vector<int> v{1, 2, 3, 4, 5};
      v.resize(tp % 6);
      L->push_back({RES, rg::equal(r, v, [&](auto&& x, int i) {
                      val(x);
                      return T::rd(x) == i;
                    })});
    }
    if (term == T_TRANSFORM) {
      std::vector<int> out;
      rg::transform(r, std::back_inserter(out), [](auto&& x) {
        V y = std::forward<decltype(x)>(x);
        return T::rd(y);
      });
      for (int i : out) L->push_back({VAL, i});
    }
    if (term == T_POSTINC) {
      int k = 0;
      for (auto it = r.begin(); it != r.end(); it++) {
        val(*it);
        val(*it.operator->());
        if (++k == tp) break;
      }
    }
    if (term == T_MERGE) {
      std::vector<int> v{2, 4, 6, 8, 10}, out;
      v.resize(tp % 6);
      rg::set_union(r | std::views::transform([](auto&& x) { return T::rd(x); }), v, std::back_inserter(out));
      for (int i : out) L->push_back({VAL, i});
    }
  }
}

template <typename Y, typename R>
void round_(R& range, const Round& rd) {
  try {
    if (rd.kind == 0) {
      if (rd.own) {
        R moved(std::move(range));
        terminal<Y, 0>(moved, rd.term, rd.tp);
      } else
        terminal<Y, 0>(range, rd.term, rd.tp);
    } else if (rd.kind == 1) {
      if (rd.own) terminal<Y, 1>(std::move(range) | std::views::filter(Pred<Y>{rd.p[0], 3}), rd.term, rd.tp);
      else stage1<Y>(range, rd.st[0], rd.p[0], [&](auto&& v) { terminal<Y, 1>(v, rd.term, rd.tp); });
    } else
      stage1<Y>(range, rd.st[0], rd.p[0],
                [&](auto&& v) { stage2<Y>(std::move(v), rd.st[1], rd.p[1], [&](auto&& w) { terminal<Y, 2>(w, rd.term, rd.tp); }); });
  } catch (...) {
    L->push_back({CAUGHT, current_exc_id()});
  }
}

template <typename Y>
void run(bool inplace, bool throws) {
  using T = Tr<Y>;
  GenOpts o;
  o.throws = throws;
  o.max_depth = inplace ? 0 : 3;
  Gen gen(opts_for<Y>(o));
  if (inplace) gen.o.ranges = false;
  auto prog = gen.prog();
  std::string txt;
  print(*prog, txt);
  vf::desc("%s of %s, program %s\n", inplace ? "inplace_generator" : "generator", T::name(), txt.c_str());
  vf::label(inplace ? "in-place" : "generator");
  vf::label(T::name());

  std::vector<Round> rounds(1 + vf::small(3));
  for (size_t i = 0; i < rounds.size(); ++i) {
    Round& r = rounds[i];
    r.kind = vf::pick(3);
    for (int j : {0, 1}) {
      r.st[j] = vf::pick(N_ST);
      r.p[j] = vf::small(6);
      if (T::ref && r.st[j] == ST_TRANSFORM) r.st[j] = ST_ALL;
    }
    r.term = vf::pick(n_term[r.kind]);
    r.tp = vf::small(7);
    r.own = r.kind < 2 && i + 1 == rounds.size() && vf::chance(1, 3);
    if (r.own && r.kind == 1) r.st[0] = ST_FILTER;
    vf::desc("| %s(%d) | %s(%d) -> %s(%d)%s\n", r.kind > 0 ? st_name[r.st[0]] : "", r.p[0], r.kind > 1 ? st_name[r.st[1]] : "", r.p[1], t_name[r.term], r.tp, r.own ? " owning" : "");
    if (r.kind) vf::label(st_name[r.st[0]]);
    vf::label(t_name[r.term]);
  }
  Ctx want, got;
  auto go = [&]<typename R>(R& range, Ctx& cx) {
    L = &cx.log;
    int n = 0;
    for (auto& r : rounds) {
      cx.ev(RES, --n);
      round_<Y>(range, r);
    }
  };
  int started = 0;
  if (inplace) {
    if constexpr (!T::ref) {
      // a failure of the first step leaves no object
      int e1 = 0, e2 = 0;
      try {
        RefEager<Y> ref(want, *prog);
        go(ref, want);
      } catch (...) {
        e1 = current_exc_id();
      }
      try {
        auto g = inpl_body<Y>(got, *prog, Guard(got));
        static_assert(std::ranges::input_range<decltype(g)>);
        go(g, got);
      } catch (...) {
        e2 = current_exc_id();
      }
      VF_CHECK(e1 == e2, "creation failed with %d, expected %d", e2, e1);
    }
  } else {
    {
      Ref<Y> ref(want, *prog);
      go(ref, want);
    }
    {
      dd::generator<Y> g = make_body<dd::generator, Y>(got, *prog, Guard(got), vf::chance(1, 3));
      go(g, got);
    }
  }
  for (auto& e : want.log) started += e.tag == VAL || e.tag == PRED;
  VF_CHECK(got.log == want.log, "program and consumer did %s, expected %s", show(got.log).c_str(), show(want.log).c_str());
  VF_CHECK(got.live == 0, "%d frame(s) not destroyed", got.live);
  if (started >= 3) vf::nontrivial();
}
}  // namespace

VF_MODE(range_seq, 200, true,
        "random (nested, throwing) generator or in-place generator program x 1-4 rounds of up to two standard view adaptors and a standard algorithm on one object; "
        "non-trivial: >=3 values seen by the consumer") {
  bool inplace = vf::chance(1, 4), throws = vf::chance(1, 3);
  static const uint32_t w[] = {4, 3, 2};
  int t = vf::pick_w(w, 3);
  if (inplace && t == 2) t = 0;
  switch (t) {
    case 0: return run<long>(inplace, throws);
    case 1: return run<std::unique_ptr<long>>(inplace, throws);
    default: return run<long&>(false, throws);
  }
}
