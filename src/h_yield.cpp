// C04: what a yield passes (generator, channel, inplace generator); C07: inplace generators
#include "kelcoro/channel.hpp"
#include "kelcoro/generator.hpp"
#include "kelcoro/inplace_generator.hpp"
#include "kelcoro/kelcoro.hpp"
#include <deque>
#include <list>
#include <ranges>
#include <memory>
#include <optional>
#include <span>
#include <string>
#include <vector>
#include "vf.h"

namespace {

struct Stat {
  long copies = 0, moves = 0, live = 0;
  long from_copy = 0, from_move = 0;  // conversions from Src
  bool copy_throws = false;           // the next copy
};
struct CopyFail {
  int v;
};
Stat st;
struct Src {  // converts to the value types
  int val;
  explicit Src(int v) : val(v) {}
};

enum { ALIVE = 0x5ca1ab1e };
template <bool COPY, bool MOVE>
struct P {
  VF_NO_SHORTCUTS(P)
  volatile int magic = ALIVE;
  int val;
  std::string pad = "padding that is long enough to live on the heap";  // catches double destruction / shallow copies
  explicit P(int v) : val(v) { st.live++; }
  P(Src&& o) : val(o.val) {
    o.val = -1;
    st.live++;
    st.from_move++;
  }
  P(const Src& o)
    requires COPY
      : val(o.val) {
    st.live++;
    st.from_copy++;
  }
  P(const P& o)
    requires COPY
      : val(o.val), pad(o.pad) {
    if (st.copy_throws) {
      st.copy_throws = false;
      throw CopyFail{o.val};
    }
    st.copies++;
    st.live++;
    VF_CHECK(o.magic == ALIVE, "copied from a dead object");
  }
  P(P&& o) noexcept
    requires MOVE
      : val(o.val), pad(std::move(o.pad)) {
    o.val = -1;
    st.moves++;
    st.live++;
    VF_CHECK(o.magic == ALIVE, "moved from a dead object");
  }
  P& operator=(const P&) = delete;
  ~P() {
    VF_CHECK(magic == ALIVE, "destroyed twice");
    magic = 0;
    st.live--;
  }
};
using Cp = P<true, true>;
using Mv = P<false, true>;
using Im = P<false, false>;

template <typename V>
struct List : std::list<V> {
  VF_NO_SHORTCUTS(List)
};
enum Form { F_PRVALUE, F_CLVALUE, F_LVALUE, F_BYREF, F_MOVED, F_REF, F_LIST, F_LIST_MOVED, F_SPAN, F_CONV, F_CONV_LIST, F_CONV_VIEW, F_NEST, F_N };
const char* form_name[] = {"prvalue", "const lvalue", "lvalue", "by_ref", "moved", "reference", "list", "moved list", "span", "other type", "list of other type", "view of other type", "nest"};

struct Y {
  int form;
  int v;
  int n = 0;  // elements of a list
  bool flavoured = false;
  bool cthrow = false;  // the copy of the const lvalue throws, the body goes on
  std::vector<Y> kids;
};
struct Expect {
  int form, v;
  const void* addr = nullptr;      // must be this object
  const void* not_addr = nullptr;  // must not be this object
  int copies = 0;
  int from_copy = 0, from_move = 0;
  bool consumed = false;
  int after = 0;  // value of the object after the consumer acted on it
};
struct Lab {
  std::deque<Expect> q;  // all expectations of the case, in order
  size_t next = 0;
  long seen_copies = 0, seen_moves = 0, seen_fc = 0, seen_fm = 0;
  int kinds = 0, consumed = 0, writes = 0, steals = 0;
  size_t push(Expect e) {
    q.push_back(e);
    return q.size() - 1;
  }
  void snap() {
    seen_copies = st.copies;
    seen_moves = st.moves;
    seen_fc = st.from_copy;
    seen_fm = st.from_move;
  }
  void post(size_t i, int now, bool aliased) {
    Expect& e = q[i];
    VF_CHECK(e.consumed, "body continued although its value (%s %d) was never delivered", form_name[e.form], e.v);
    int want = aliased ? e.after : e.v;
    VF_CHECK(now == want, "after the yield (%s) the body sees %d, expected %d", form_name[e.form], now, want);
  }
};

template <typename T>
struct is_chan : std::false_type {};
template <typename Yi>
struct is_chan<dd::channel<Yi>> : std::true_type {};
template <typename Yi>
struct is_chan<dd::inplace_generator<Yi>> : std::false_type {};

struct Parker {
  std::vector<std::coroutine_handle<>> hs;
};
Parker parker;
struct Park {
  static bool await_ready() noexcept { return false; }
  static void await_suspend(std::coroutine_handle<> h) { parker.hs.push_back(h); }
  static void await_resume() noexcept {}
};

template <typename Ch>
struct rebind_src;
template <typename T>
struct rebind_src<dd::generator<T>> {
  using type = dd::generator<Src>;
};
template <typename T>
struct rebind_src<dd::channel<T>> {
  using type = dd::channel<Src>;
};
inline size_t push_conv(Lab& L, const Y& y, int v, int fc, int fm) {
  Expect e;
  e.form = y.form;
  e.v = v;
  e.from_copy = fc;
  e.from_move = fm;
  return L.push(e);
}
template <typename G>
G src_body(Lab& L, const Y& y, bool suspend) {
  for (int k = 0; k < y.n; ++k) {
    if constexpr (is_chan<G>::value) {
      if (suspend && (y.v + k) % 3 == 0) co_await Park{};
    }
    size_t e = push_conv(L, y, y.v + k, 0, 1);
    if ((y.v + k) % 2) {
      Src x(y.v + k);
      co_yield dd::by_ref{x};
      VF_CHECK(x.val == -1, "an element yielded as rvalue by a coroutine of another value type was not moved from");
    } else
      co_yield Src(y.v + k);
    VF_CHECK(L.q[e].consumed, "body continued although its value was never delivered");
  }
}

// G: the coroutine type; V: the value type; REF: it yields V&
template <typename G, typename V, bool REF, bool NESTS, typename Child, typename... Tag>
G ybody(Lab& L, const std::vector<Y>& prog, bool suspend, Tag... tag) {
  for (size_t i = 0; i < prog.size(); ++i) {
    const Y& y = prog[i];
    if constexpr (is_chan<Child>::value) {
      if (suspend && y.v % 3 == 0) co_await Park{};
    }
    if constexpr (REF) {
      if (y.form == F_REF || y.form == F_BYREF) {
        V x(y.v);
        size_t e = L.push({y.form, y.v, std::addressof(x)});
        if (y.form == F_REF) co_yield x;
        else co_yield dd::by_ref{x};
        L.post(e, x.val, true);
      }
    } else {
      if (y.form == F_PRVALUE) {
        long live = st.live;
        size_t e = L.push({y.form, y.v});
        co_yield V(y.v);
        VF_CHECK(L.q[e].consumed, "body continued although a yielded rvalue was never delivered");
        VF_CHECK(st.live == live, "a yielded temporary outlived its yield");
      } else if (y.form == F_CLVALUE || y.form == F_LVALUE) {
        if constexpr (std::is_copy_constructible_v<V>) {
          V x(y.v);
          long live = st.live;
          if (y.cthrow) {  // nothing is delivered, the body gets the exception where it yields
            int caught = -1;
            st.copy_throws = true;
            try {
              co_yield std::as_const(x);
            } catch (CopyFail& f) {
              caught = f.v;
            }
            VF_CHECK(caught == y.v, "the copy of a yielded lvalue threw, the body %s", caught < 0 ? "did not get the exception" : "got another exception");
            VF_CHECK(st.live == live && x.val == y.v, "after a yield whose copy threw: %ld object(s) left over", st.live - live);
            continue;
          }
          size_t e = L.push({y.form, y.v, nullptr, std::addressof(x), 1});
          if (y.form == F_CLVALUE) co_yield std::as_const(x);
          else co_yield x;
          L.post(e, x.val, false);
          VF_CHECK(st.live == live, "%ld object(s) left over after yielding a copy", st.live - live);
        }
      } else if (y.form == F_BYREF) {
        V x(y.v);
        size_t e = L.push({y.form, y.v, std::addressof(x)});
        co_yield dd::by_ref{x};
        L.post(e, x.val, true);
      } else if (y.form == F_MOVED) {
        V x(y.v);
        size_t e = L.push({y.form, y.v, std::addressof(x)});
        co_yield std::move(x);
        L.post(e, x.val, true);
      }
    }
    if constexpr (NESTS) {
      if (y.form == F_LIST || y.form == F_LIST_MOVED || y.form == F_SPAN) {
        List<V> l;
        std::vector<size_t> es;
        if (y.form == F_SPAN) {
          struct Arr {
            V* p;
            int n = 0;
            explicit Arr(int cap) : p(std::allocator<V>().allocate(cap + 1)), cap(cap) {}
            int cap;
            ~Arr() {
              std::destroy_n(p, n);
              std::allocator<V>().deallocate(p, cap + 1);
            }
          } arr(y.n);
          for (int k = 0; k < y.n; ++k) {
            std::construct_at(arr.p + k, y.v + k);
            arr.n++;
            es.push_back(L.push({y.form, y.v + k, arr.p + k}));
          }
          co_yield dd::elements_of(std::span<V>(arr.p, y.n));
          for (int k = 0; k < y.n; ++k) L.post(es[k], arr.p[k].val, true);
        } else {
          for (int k = 0; k < y.n; ++k) {
            auto& x = l.emplace_back(y.v + k);
            es.push_back(L.push({y.form, y.v + k, std::addressof(x)}));
          }
          if constexpr (REF) co_yield dd::elements_of(l);
          else if (y.form == F_LIST) co_yield dd::elements_of(l);
          else co_yield dd::elements_of(std::move(l));
          int k = 0;
          for (auto& x : l) L.post(es[k++], x.val, true);
        }
      } else if (y.form == F_CONV) {
        if constexpr (!REF) co_yield dd::elements_of(src_body<typename rebind_src<Child>::type>(L, y, suspend));
      } else if (y.form == F_CONV_LIST) {
        if constexpr (!REF && std::is_copy_constructible_v<V>) {
          std::list<Src> l;
          for (int k = 0; k < y.n; ++k) {
            l.emplace_back(y.v + k);
            push_conv(L, y, y.v + k, 1, 0);
          }
          co_yield dd::elements_of(l);
          int k = 0;
          for (auto& x : l) VF_CHECK(x.val == y.v + k++, "splicing an lvalue range of another value type changes its elements");
        }
      } else if (y.form == F_CONV_VIEW) {
        if constexpr (!REF) {
          for (int k = 0; k < y.n; ++k) push_conv(L, y, y.v + k, 0, 1);
          co_yield dd::elements_of(std::views::iota(y.v, y.v + y.n) | std::views::transform([](int v) { return Src(v); }));
        }
      } else if (y.form == F_NEST) {
        if (y.flavoured)
          co_yield dd::elements_of(ybody<Child, V, REF, NESTS, Child, dd::with_pmr_resource>(
              L, y.kids, suspend, dd::with_pmr_resource(*std::pmr::new_delete_resource())));
        else co_yield dd::elements_of(ybody<Child, V, REF, NESTS, Child>(L, y.kids, suspend));
      }
    }
  }
}

template <typename V, bool REF>
std::vector<Y> gen_prog(int depth, int& next, bool nests) {
  std::vector<Y> r;
  int n = vf::small(depth ? 4 : 7);
  for (int i = 0; i < n; ++i) {
    Y y;
    bool cp = std::is_copy_constructible_v<V>;
    if (nests && depth < 4 && vf::chance(1, 4)) {
      y.form = F_NEST;
      y.flavoured = vf::chance(1, 4);
      y.v = next;
      y.kids = gen_prog<V, REF>(depth + 1, next, nests);
    } else if (nests && vf::chance(1, 4)) {
      y.form = F_LIST + vf::pick(REF ? 1 : 6);
      if (y.form == F_CONV_LIST && !cp) y.form = F_CONV_VIEW;
      y.n = vf::small(4);
      y.v = next;
      next += y.n;
    } else {
      if (REF) y.form = vf::pick(2) ? F_BYREF : F_REF;
      else if (cp) y.form = vf::pick(5);
      else y.form = (int[]){F_PRVALUE, F_BYREF, F_MOVED}[vf::pick(3)];
      y.v = next++;
      y.cthrow = cp && !REF && (y.form == F_CLVALUE || y.form == F_LVALUE) && vf::chance(1, 8);
    }
    r.push_back(y);
  }
  return r;
}
void print(const std::vector<Y>& p, std::string& s) {
  s += "{";
  for (auto& y : p) {
    s += std::string(form_name[y.form]) + " " + std::to_string(y.v);
    if (y.n) s += "*" + std::to_string(y.n);
    if (y.cthrow) s += " (copy throws)";
    if (y.form == F_NEST) print(y.kids, s);
    s += "; ";
  }
  s += "}";
}

// what the consumer does with a value
template <bool REF, typename R>
void consume(Lab& L, R&& r, int action) {
  using V = std::remove_cvref_t<R>;
  VF_CHECK(L.next < L.q.size(), "a value was delivered that the body did not yield");
  Expect& e = L.q[L.next++];
  const void* a = std::addressof(r);
  if (e.addr) VF_CHECK(a == e.addr, "%s %d: the consumer got another object", form_name[e.form], e.v);
  if (e.not_addr) VF_CHECK(a != e.not_addr, "%s %d: the consumer got the original instead of a copy", form_name[e.form], e.v);
  VF_CHECK(r.magic == ALIVE, "%s %d: the delivered object is not alive", form_name[e.form], e.v);
  VF_CHECK(r.val == e.v, "%s: value %d, expected %d", form_name[e.form], r.val, e.v);
  VF_CHECK(st.copies - L.seen_copies == e.copies, "%s: %ld copies were made, expected %d", form_name[e.form],
           st.copies - L.seen_copies, e.copies);
  VF_CHECK(st.moves == L.seen_moves, "%s: %ld moves were made", form_name[e.form], st.moves - L.seen_moves);
  VF_CHECK(st.from_copy - L.seen_fc == e.from_copy && st.from_move - L.seen_fm == e.from_move,
           "%s: converted %ld times from a copy and %ld times from an rvalue, expected %d and %d", form_name[e.form], st.from_copy - L.seen_fc,
           st.from_move - L.seen_fm, e.from_copy, e.from_move);
  if (action == 1) {
    r.val = 1000 + e.v;
    L.writes++;
  } else if (action == 2) {
    if constexpr (!REF && std::is_move_constructible_v<V>) {
      V stolen(std::move(r));
      L.steals++;
    }
  }
  e.after = r.val;
  e.consumed = true;
  L.consumed++;
  L.kinds |= 1 << e.form;
  L.snap();
}
// right before advancing the value must still be there
template <typename R>
void recheck(Lab& L, R&& r) {
  Expect& e = L.q[L.next - 1];
  VF_CHECK(r.magic == ALIVE, "%s %d: the delivered object died before the body continued", form_name[e.form], e.v);
  VF_CHECK(r.val == e.after, "%s: the delivered object changed before the body continued", form_name[e.form]);
  VF_CHECK(st.copies == L.seen_copies && st.moves == L.seen_moves, "dereferencing copies or moves");
}

struct Fire {
  struct promise_type {
    Fire get_return_object() { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { vf::fail("harness: exception left a consumer"); }
  };
};

template <bool REF, typename Ch>
Fire chan_consumer(Lab& L, Ch& ch, int style, std::vector<int>& act, size_t stop, bool& done) {
  size_t i = 0;
  if (style == 0) {
    for (auto it = co_await ch.begin(); it != ch.end() && i < stop; (void)(co_await (++it))) {
      consume<REF>(L, *it, act[i++ % act.size()]);
      if (i == stop) break;
      recheck(L, *it);
      auto&& r = *it;
      VF_CHECK(it.operator->() == std::addressof(r), "operator-> and operator* differ");
    }
  } else if (style == 1) {
    while (i < stop) {
      auto* p = co_await ch.next();
      if (!p) break;
      consume<REF>(L, *p, act[i++ % act.size()]);
      recheck(L, *p);
    }
  } else {
    co_foreach(auto&& x, ch) {
      consume<REF>(L, x, act[i++ % act.size()]);
      recheck(L, x);
      if (i == stop) break;
    }
  }
  done = true;
}

size_t count(const std::vector<Y>& p) {
  size_t n = 0;
  for (auto& y : p) n += y.form == F_NEST ? count(y.kids) : y.form >= F_LIST ? y.n : y.cthrow ? 0 : 1;
  return n;
}

template <typename V, bool REF>
void run_gen(int kind) {
  using YT = std::conditional_t<REF, V&, V>;
  st = {};
  parker.hs.clear();
  Lab L;
  int next = 1;
  bool nests = kind != 2;
  auto prog = gen_prog<V, REF>(0, next, nests);
  std::string s;
  print(prog, s);
  size_t total = count(prog);
  std::vector<int> act;
  for (int i = 0; i < 5; ++i) act.push_back(vf::pick(3));
  bool abandon = vf::chance(1, 4) && total;
  size_t stop = abandon ? 1 + vf::pick(total) : (size_t)-1;
  vf::desc("%s of %s%s: %s\nactions %d%d%d%d%d stop %zd\n", kind == 0 ? "generator" : kind == 1 ? "channel" : "inplace generator",
           std::is_copy_constructible_v<V> ? "copyable" : std::is_move_constructible_v<V> ? "move-only" : "immovable",
           REF ? "&" : "", s.c_str(), act[0], act[1], act[2], act[3], act[4], (ssize_t)stop);
  size_t want = std::min(total, stop);
  if (kind == 0) {
    using G = dd::generator<YT>;
    bool flav = vf::chance(1, 3);
    G g = flav ? ybody<dd::pmr::generator<YT>, V, REF, true, G>(L, prog, false).decay() : ybody<G, V, REF, true, G>(L, prog, false);
    size_t i = 0;
    for (auto it = g.begin(); it != g.end(); ++it) {
      consume<REF>(L, *it, act[i++ % act.size()]);
      recheck(L, *it);
      auto&& r = *it;
      VF_CHECK(it.operator->() == std::addressof(r), "operator-> and operator* differ");
      if (i == stop) break;
    }
  } else if (kind == 1) {
    using G = dd::channel<YT>;
    bool flav = vf::chance(1, 3);
    bool susp = vf::chance(1, 2);
    int style = vf::pick(3);
    vf::desc("style %d suspend %d\n", style, susp);
    G g = flav ? ybody<dd::pmr::channel<YT>, V, REF, true, G>(L, prog, susp).decay() : ybody<G, V, REF, true, G>(L, prog, susp);
    bool done = false;
    chan_consumer<REF>(L, g, style, act, stop, done);
    while (!done) {
      VF_CHECK(!parker.hs.empty(), "consumer lost");
      auto h = parker.hs.back();
      parker.hs.pop_back();
      h.resume();
    }
  } else {
    using G = dd::inplace_generator<YT>;
    G g = ybody<G, V, REF, false, G>(L, prog, false);
    size_t i = 0;
    for (auto it = g.begin(); it != g.end(); ++it) {
      consume<REF>(L, *it, act[i++ % act.size()]);
      recheck(L, *it);
      recheck(L, *g.begin());
      if (i == stop) break;
    }
  }
  VF_CHECK((size_t)L.consumed == want, "%d values delivered, expected %zu", L.consumed, want);
  VF_CHECK(st.copies == L.seen_copies && st.moves == L.seen_moves, "copies or moves at the end");
  VF_CHECK(st.live == 0, "%ld yielded object(s) not destroyed", st.live);
  vf::label("case");
  vf::label(kind == 0 ? "generator" : kind == 1 ? "channel" : "inplace");
  if (REF) vf::label("reference");
  vf::label(std::is_copy_constructible_v<V> ? "copyable" : std::is_move_constructible_v<V> ? "move-only" : "immovable");
  if (L.writes) vf::label("writes", L.writes);
  if (L.steals) vf::label("steals", L.steals);
  if (L.consumed >= 2 && __builtin_popcount(L.kinds) >= 2) vf::nontrivial();
}

void run_kind(int kind) {
  switch (vf::pick(4)) {
    case 0: run_gen<Cp, false>(kind); break;
    case 1: run_gen<Mv, false>(kind); break;
    case 2: run_gen<Im, false>(kind); break;
    default:
      if (vf::chance(1, 2)) run_gen<Im, true>(kind);
      else run_gen<Cp, true>(kind);
  }
}
}  // namespace

VF_MODE(yield_gen, 200, true,
        "random generator of instrumented values (copyable, move-only, immovable, by reference), every yield form, nested, consumer reads / "
        "writes / moves out; non-trivial: >=2 values in >=2 forms delivered") {
  run_kind(0);
}
VF_MODE(yield_chan, 200, true, "as yield_gen, for channels with suspensions and the three consumer styles") { run_kind(1); }
VF_MODE(yield_inpl, 200, true, "as yield_gen, for in-place generators (not nested)") { run_kind(2); }

// ---------------------------------------------------------------- output iterator
namespace {
template <bool REF>
dd::generator<std::conditional_t<REF, long&, long>> sink(std::vector<long>& got, int slots, int nest, bool& ended) {
  if (nest > 0) {
    int half = slots / 2;
    for (int i = 0; i < half; ++i) {
      long x = -1;
      if constexpr (REF) co_yield x;
      else co_yield dd::by_ref{x};
      got.push_back(x);
    }
    bool e = false;
    co_yield dd::elements_of(sink<REF>(got, slots - half, nest - 1, e));
  } else {
    long x = -1;
    for (int i = 0; i < slots; ++i) {
      x = -1;
      if constexpr (REF) co_yield x;
      else co_yield dd::by_ref{x};
      got.push_back(x);
    }
  }
  ended = true;
}
template <bool REF>
void run_sink() {
  std::vector<long> got, put;
  int slots = 1 + vf::small(12), nest = vf::small(3), n = vf::pick(slots + 1);
  int style = vf::pick(4);
  for (int i = 0; i < n; ++i) put.push_back(100 + i * 7 % 5 + i * 10);
  vf::desc("%d slots, nesting %d, %d values written, style %d, %s\n", slots, nest, n, style, REF ? "long&" : "long");
  bool ended = false;
  {
    auto g = sink<REF>(got, slots, nest, ended);
    auto b = g.begin();
    VF_CHECK(got.empty(), "body ran past the first yield");
    auto out = std::move(b).out();
    if (style == 0) std::copy(put.begin(), put.end(), out);
    else if (style == 1)
      for (long v : put) {
        *out = v;
        ++out;
      }
    else if (style == 2)
      for (long v : put) *out++ = v;
    else
      for (long v : put) {
        *out = v;
        out++;
      }
    VF_CHECK(got == put, "the body received other values than were written");
    VF_CHECK(ended == (n == slots), "body ended too early or too late");
    if (n == slots) VF_CHECK(out == std::default_sentinel && g.empty(), "output iterator not at end");
    else VF_CHECK(out != std::default_sentinel, "output iterator at end too early");
  }
  vf::label("case");
  if (nest) vf::label("nested");
  if (n >= 2) vf::nontrivial();
}
}  // namespace
VF_MODE(yield_out, 200, true, "random slots/values through the output-iterator form of a nested generator; non-trivial: >=2 values written") {
  if (vf::chance(1, 2)) run_sink<true>();
  else run_sink<false>();
}

// ---------------------------------------------------------------- C07
namespace {
struct Ib {
  std::vector<int> steps;  // >0 yield, 0 effect, -1 throw (last)
  int ran = 0;             // how many steps were executed
  int destroyed = 0;
  bool ended = false;
};
struct IGuard {
  Ib* b;
  explicit IGuard(Ib& b) : b(&b) {}
  IGuard(IGuard&& o) noexcept : b(std::exchange(o.b, nullptr)) {}
  ~IGuard() {
    if (b) VF_CHECK(++b->destroyed == 1, "body destroyed twice");
  }
};
struct IExc {
  Ib* b;
};
dd::inplace_generator<long> ibody(Ib& b, IGuard) {
  for (size_t i = 0; i < b.steps.size(); ++i) {
    b.ran++;
    int s = b.steps[i];
    if (s == -1) throw IExc{&b};
    if (s > 0) {
      if (s % 3 == 0) {
        const long x = s;
        co_yield x;
      } else if (s % 3 == 1) co_yield (long)s;
      else {
        long x = s;
        co_yield dd::by_ref{x};
      }
    }
  }
  b.ended = true;
}
struct IModel {
  Ib* b;
  size_t pos = 0;
  bool over = false, threw = false;
  int cur = 0;
  void advance() {  // to the next yield
    threw = false;
    while (pos < b->steps.size()) {
      int s = b->steps[pos++];
      if (s == -1) {
        over = true;
        threw = true;
        return;
      }
      if (s > 0) {
        cur = s;
        return;
      }
    }
    over = true;
  }
};
}  // namespace

VF_MODE(inpl_ops, 200, true,
        "random construct/begin/advance/move/assign/swap/destroy over 4 in-place generators with throwing bodies; non-trivial: >=2 advances and "
        "an ownership operation") {
  enum { NS = 4 };
  std::deque<Ib> bodies;
  std::deque<IModel> models;
  struct S {
    std::optional<dd::inplace_generator<long>> g;
    int m = -1;  // -1: empty (moved from)
  } sl[NS];
  int next = 1, adv = 0, own = 0;
  auto check = [&](S& s, const char* when) {
    if (!s.g) return;
    bool over = s.m < 0 || models[s.m].over;
    VF_CHECK(s.g->empty() == over, "%s: empty()==%d, expected %d", when, (int)s.g->empty(), (int)over);
    VF_CHECK((bool)*s.g == !over, "%s: operator bool", when);
    auto it = s.g->begin();
    auto it2 = s.g->begin();
    VF_CHECK((it == std::default_sentinel) == over, "%s: begin()%send()", when, over ? "!=" : "==");
    if (!over) {
      VF_CHECK(*it == models[s.m].cur, "%s: value %ld, expected %d", when, *it, models[s.m].cur);
      VF_CHECK(it.operator->() == it2.operator->(), "%s: two begins differ", when);
    }
    if (s.m >= 0) {
      VF_CHECK(bodies[s.m].ran == (int)models[s.m].pos, "%s: body executed %d steps, expected %zu", when, bodies[s.m].ran, models[s.m].pos);
      VF_CHECK(bodies[s.m].destroyed == 0, "%s: body destroyed too early", when);
    }
  };
  auto died = [&](int m, const char* when) {
    if (m >= 0) VF_CHECK(bodies[m].destroyed == 1, "%s: body not destroyed", when);
  };
  int n = 5 + vf::small(30);
  for (int q = 0; q < n; ++q) {
    static const uint32_t w[] = {20, 45, 10, 8, 10, 5, 6};
    int op = vf::pick_w(w, 7), i = vf::pick(NS), j = vf::pick(NS);
    S &a = sl[i], &b = sl[j];
    switch (op) {
      case 0: {
        bodies.emplace_back();
        Ib& nb = bodies.back();
        int k = vf::small(6);
        for (int x = 0; x < k; ++x) nb.steps.push_back(vf::chance(1, 4) ? 0 : next++);
        if (vf::chance(1, 4)) nb.steps.push_back(-1);
        models.push_back({&nb});
        int m = (int)models.size() - 1;
        std::string t;
        for (int x : nb.steps) t += std::to_string(x) + " ";
        vf::desc("s%d = [%s]\n", i, t.c_str());
        int old = a.g ? a.m : -1;
        a.g.reset();
        died(old, "replace");
        a.m = -1;
        models[m].advance();
        bool threw = false;
        try {
          a.g.emplace(ibody(nb, IGuard(nb)));
        } catch (IExc& e) {
          threw = true;
          VF_CHECK(e.b == &nb, "creation threw another body's exception");
        }
        VF_CHECK(threw == models[m].threw, "creation %s", threw ? "threw" : "lost the exception");
        if (threw) {
          VF_CHECK(!a.g && nb.destroyed == 1, "frame of a body that failed during creation not destroyed");
          vf::label("creation_throws");
          break;
        }
        a.m = m;
        check(a, "create");
        break;
      }
      case 1: {
        if (!a.g) break;
        bool over = a.m < 0 || models[a.m].over;
        if (over) { check(a, "begin of an exhausted generator"); break; }
        vf::desc("++s%d\n", i);
        IModel& m = models[a.m];
        m.advance();
        adv++;
        auto it = a.g->begin();
        bool threw = false;
        try {
          if (vf::chance(1, 4)) it++;
          else ++it;
        } catch (IExc& e) {
          threw = true;
          VF_CHECK(e.b == m.b, "exception of another body");
        }
        VF_CHECK(threw == m.threw, "advance %s", threw ? "threw" : "lost the exception");
        if (threw) vf::label("exception");
        if (!m.over && !threw) VF_CHECK(*it == m.cur, "advance: value %ld, expected %d", *it, m.cur);
        check(a, "advance");
        break;
      }
      case 2: {
        if (!a.g || !b.g) break;
        vf::desc("swap s%d s%d\n", i, j);
        if (vf::chance(1, 2)) a.g->swap(*b.g);
        else { using std::swap; swap(*a.g, *b.g); }
        std::swap(a.m, b.m);
        own++;
        break;
      }
      case 3: {
        if (i == j || !a.g) break;
        vf::desc("s%d = move-construct(s%d)\n", j, i);
        int old = b.g ? b.m : -1;
        b.g.reset();
        died(old, "replace");
        b.g.emplace(std::move(*a.g));
        b.m = a.m;
        a.m = -1;
        own++;
        break;
      }
      case 4: {
        if (i == j || !a.g || !b.g) break;
        vf::desc("s%d = std::move(s%d)\n", j, i);
        int oldb = b.m;
        *b.g = std::move(*a.g);
        b.m = a.m;
        // the source keeps nothing or the target's old body
        if (oldb >= 0 && bodies[oldb].destroyed) a.m = -1;
        else a.m = oldb;
        own++;
        break;
      }
      case 5: {
        if (!a.g) break;
        vf::desc("destroy s%d\n", i);
        int ran = a.m >= 0 ? bodies[a.m].ran : 0;
        a.g.reset();
        if (a.m >= 0) VF_CHECK(bodies[a.m].ran == ran, "destruction resumed the body");
        died(a.m, "destroy");
        a.m = -1;
        break;
      }
      case 6: {
        if (!a.g || a.m < 0) break;
        vf::desc("for over s%d\n", i);
        IModel& m = models[a.m];
        m.threw = false;
        std::vector<long> want, got;
        while (!m.over) {
          want.push_back(m.cur);
          m.advance();
        }
        bool threw = false;
        try {
          for (auto&& x : *a.g) got.push_back(x);
        } catch (IExc&) {
          threw = true;
        }
        adv += (int)want.size();
        VF_CHECK(threw == m.threw, "for: exception %d, expected %d", threw, m.threw);
        VF_CHECK(got == want, "for: wrong values");
        m.threw = false;
        break;
      }
    }
    for (auto& s : sl) check(s, "after the operation");
  }
  for (auto& s : sl) {
    int m = s.g ? s.m : -1;
    s.g.reset();
    died(m, "final destruction");
  }
  for (auto& b : bodies) VF_CHECK(b.destroyed == 1, "a body was not destroyed");
  vf::label("case");
  if (adv >= 2 && own) vf::nontrivial();
}
