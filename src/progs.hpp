// Random programs of co_yield statements, their reference semantics (flattened event lists) and their
// interpretation as kelcoro generator / channel coroutines.
#pragma once
#include <functional>
#include <list>
#include <memory>
#include <memory_resource>
#include <ranges>
#include <span>
#include <stdexcept>
#include <string>
#include <vector>

#include "vf.h"

// kelcoro is included by the harness before this file (plain or through the vsched shim)

namespace px {

// ------------------------------------------------------------------ events
enum Tag { ENTER, LEAVE, EFF, CONS, CAUGHT, YIELD, THROW };
inline const char* tagname(int t) {
  static const char* n[] = {"enter", "leave", "eff", "consumed", "caught", "yield", "throw"};
  static const char* c[] = {"result", "value", "predicate"};  // of consumers
  return t >= 1000 ? c[t - 1000] : n[t];
}
struct Ev {
  int tag;
  int v;
  bool operator==(const Ev&) const = default;
};

struct Exc {
  int id;
};
struct ExcDerived : std::runtime_error {
  int id;
  explicit ExcDerived(int i) : std::runtime_error("exc " + std::to_string(i)), id(i) {}
};
[[noreturn]] inline void do_throw(int id) {
  switch (id % 3) {
    case 0: throw Exc{id};
    case 1: throw ExcDerived(id);
    default: throw id;
  }
}
// id of the exception being handled; -1 when it is none of ours or has the wrong type
inline int current_exc_id() {
  try {
    throw;
  } catch (Exc& e) {
    return e.id % 3 == 0 ? e.id : -1;
  } catch (ExcDerived& e) {
    return e.id % 3 == 1 ? e.id : -1;
  } catch (int e) {
    return e % 3 == 2 ? e : -1;
  } catch (...) {
    return -1;
  }
}
inline int exc_id(const std::exception_ptr& p) {
  try {
    std::rethrow_exception(p);
  } catch (...) {
    return current_exc_id();
  }
}

struct Ctx {
  std::vector<Ev> log;       // what the bodies did since last cleared
  std::vector<int> destroyed;  // per guard
  int live = 0;
  void ev(int tag, int v) { log.push_back({tag, v}); }
};

// lives in a coroutine frame as parameter; exactly one destruction per frame
struct Guard {
  Ctx* cx;
  int id;
  explicit Guard(Ctx& c) : cx(&c), id((int)c.destroyed.size()) {
    c.destroyed.push_back(0);
    c.live++;
  }
  Guard(Guard&& o) noexcept : cx(std::exchange(o.cx, nullptr)), id(o.id) {}
  ~Guard() {
    if (!cx) return;
    VF_CHECK(++cx->destroyed[id] == 1, "frame %d destroyed twice", id);
    cx->live--;
  }
};

// ------------------------------------------------------------------ program
enum Kind { S_YIELD, S_EFF, S_THROW, S_SPLICE, S_RANGE, S_SUSPEND, S_RETURN };
enum SpliceForm { SP_PRVALUE, SP_MOVED, SP_LVALUE, SP_RES, SP_TAG, SP_OTHER, SP_PMR, SP_EMPTY, SP_NFORMS };
enum RangeForm { R_VEC_RV, R_VEC_LV, R_LIST_RV, R_SPAN, R_THROWING, R_TRANSFORM, R_EMPTY, R_NFORMS };

struct Prog;
struct Stmt {
  int kind = S_EFF;
  int v = 0;     // value / effect id / exception id
  int form = 0;  // yield form / splice form / range form
  int k = 0;     // pre-consumed count / throwing position
  std::vector<int> items;
  std::shared_ptr<Prog> child;
};
struct Prog {
  int id = 0;
  std::vector<Stmt> st;
};

struct GenOpts {
  bool throws = false;
  bool suspends = false;
  bool ranges = true;
  bool byref_ranges = false;  // reference yields: lvalue ranges only
  bool values = true;         // false: valueless
  bool other = true;
  int max_depth = 4;
  int budget = 28;  // statements in total
};
struct Gen {
  GenOpts o;
  int next_val = 1, next_eff = 1, next_exc = 1, next_prog = 0, left;
  int nsplice = 0, nthrow = 0, nyield = 0, nsusp = 0, depth = 0, npre = 0;
  explicit Gen(GenOpts o) : o(o), left(o.budget) {}

  std::shared_ptr<Prog> prog(int d = 0) {
    depth = std::max(depth, d);
    auto p = std::make_shared<Prog>();
    p->id = next_prog++;
    int n = vf::small(d == 0 ? 7 : 5);
    for (int i = 0; i < n && left > 0; ++i) {
      --left;
      p->st.push_back(stmt(d));
      if (p->st.back().kind == S_THROW || p->st.back().kind == S_RETURN) break;
    }
    return p;
  }
  Stmt stmt(int d) {
    Stmt s;
    //                         yield eff throw splice range susp ret
    uint32_t w[] = {40, 10, o.throws ? 9u : 0u, d < o.max_depth ? 34u : 0u, o.ranges ? 12u : 0u, o.suspends ? 18u : 0u, 2};
    s.kind = vf::pick_w(w, 7);
    switch (s.kind) {
      case S_YIELD:
        s.v = o.values ? next_val++ : 0;
        s.form = vf::pick(5);
        nyield++;
        break;
      case S_EFF: s.v = next_eff++; break;
      case S_THROW:
        if (!o.throws) { s.kind = S_EFF; s.v = next_eff++; break; }
        s.v = next_exc++;
        nthrow++;
        break;
      case S_SPLICE:
        if (d >= o.max_depth) { s.kind = S_YIELD; s.v = o.values ? next_val++ : 0; break; }
        s.form = vf::pick(SP_NFORMS);
        if (s.form == SP_OTHER && !o.other) s.form = SP_PRVALUE;
        if (s.form == SP_MOVED || s.form == SP_LVALUE) s.k = vf::small(4);
        if (s.form != SP_EMPTY) s.child = prog(d + 1);
        nsplice++;
        if (s.k) npre++;
        break;
      case S_RANGE: {
        if (!o.ranges) { s.kind = S_EFF; s.v = next_eff++; break; }
        s.form = vf::pick(R_NFORMS);
        if (o.byref_ranges) s.form = s.form % 2 ? R_VEC_LV : R_SPAN;
        int n = s.form == R_EMPTY ? 0 : vf::small(5);
        for (int i = 0; i < n; ++i) s.items.push_back(next_val++);
        if (s.form == R_THROWING) {
          if (o.throws) { s.k = vf::pick(n + 1); s.v = next_exc++; nthrow++; }
          else s.form = R_VEC_RV;
        }
        nsplice++;
        break;
      }
      case S_SUSPEND:
        if (!o.suspends) { s.kind = S_EFF; s.v = next_eff++; break; }
        s.form = vf::pick(2);
        nsusp++;
        break;
      case S_RETURN: break;
    }
    return s;
  }
};

inline void print(const Prog& p, std::string& out) {
  out += "P" + std::to_string(p.id) + "{";
  bool first = true;
  for (auto& s : p.st) {
    if (!first) out += "; ";
    first = false;
    switch (s.kind) {
      case S_YIELD: out += "yield" + std::to_string(s.form) + " " + std::to_string(s.v); break;
      case S_EFF: out += "eff " + std::to_string(s.v); break;
      case S_THROW: out += "throw " + std::to_string(s.v); break;
      case S_SUSPEND: out += "suspend"; break;
      case S_RETURN: out += "return"; break;
      case S_SPLICE: {
        static const char* f[] = {"prvalue", "moved", "lvalue", "resource", "tag", "othertype", "pmr", "empty"};
        out += std::string("splice[") + f[s.form] + (s.k ? ",preconsume " + std::to_string(s.k) : "") + "] ";
        if (s.child) print(*s.child, out);
        break;
      }
      case S_RANGE: {
        static const char* f[] = {"vector&&", "vector&", "list&&", "span", "throwing", "transform", "empty"};
        out += std::string("range[") + f[s.form] + "]";
        for (int i : s.items) out += " " + std::to_string(i);
        if (s.form == R_THROWING) out += " throw " + std::to_string(s.v) + " at " + std::to_string(s.k);
        break;
      }
    }
  }
  out += "}";
}

// reference semantics
// in_other: inside a coroutine of the "other" type, which has no further other type
inline void flat(const Prog& p, std::vector<Ev>& out, bool in_other = false) {
  out.push_back({ENTER, p.id});
  for (auto& s : p.st) switch (s.kind) {
      case S_YIELD: out.push_back({YIELD, s.v}); break;
      case S_EFF: out.push_back({EFF, s.v}); break;
      case S_THROW: out.push_back({THROW, s.v}); return;
      case S_RETURN: out.push_back({LEAVE, p.id}); return;
      case S_SUSPEND: break;
      case S_RANGE:
        for (size_t i = 0; i < s.items.size(); ++i) {
          if (s.form == R_THROWING && (int)i == s.k) break;
          out.push_back({YIELD, s.items[i]});
        }
        if (s.form == R_THROWING) out.push_back({THROW, s.v});
        break;
      case S_SPLICE: {
        std::vector<Ev> sub;
        if (s.child) flat(*s.child, sub, in_other || s.form == SP_OTHER);
        // a generator of another type is spliced as a range: a failure anywhere inside ends all of it
        if (s.form == SP_OTHER && !in_other)
          for (size_t j = 0; j < sub.size(); ++j)
            if (sub[j].tag == THROW) {
              sub.resize(j + 1);
              break;
            }
        size_t i = 0;
        for (int got = 0; got < s.k && i < sub.size();) {
          Ev e = sub[i++];
          if (e.tag == YIELD) {
            out.push_back({CONS, e.v});
            ++got;
          } else if (e.tag == THROW) {
            out.push_back({CAUGHT, e.v});
            break;
          } else
            out.push_back(e);
        }
        out.insert(out.end(), sub.begin() + i, sub.end());
        break;
      }
    }
  out.push_back({LEAVE, p.id});
}

// position in a flattened program
struct Model {
  std::vector<Ev> ev;
  size_t pos = 0;
  enum Out { O_VALUE, O_THROW, O_END };
  struct Step {
    Out out;
    int v;
    std::vector<Ev> effects;
  };
  bool finished() const { return pos >= ev.size(); }
  Step advance() {
    Step s{O_END, 0, {}};
    while (pos < ev.size()) {
      Ev e = ev[pos++];
      if (e.tag == YIELD) { s.out = O_VALUE; s.v = e.v; return s; }
      if (e.tag == THROW) { s.out = O_THROW; s.v = e.v; return s; }
      s.effects.push_back(e);
    }
    return s;
  }
};
// a generator is done once its last event happened; trailing effects (leave) still pending mean "not done"
inline std::string show(const std::vector<Ev>& v) {
  std::string s;
  for (auto& e : v) s += std::string(s.empty() ? "" : ",") + tagname(e.tag) + std::to_string(e.v);
  return "[" + s + "]";
}
inline void check_effects(Ctx& cx, const std::vector<Ev>& want, const char* when) {
  VF_CHECK(cx.log == want, "%s: body did %s, expected %s", when, show(cx.log).c_str(), show(want).c_str());
  cx.log.clear();
}

// ------------------------------------------------------------------ value types
template <typename Y>
struct Tr;
template <>
struct Tr<long> {
  static constexpr int flavour = SP_RES;
  static constexpr bool values = true, copyable = true, ref = false, ranges = true;
  using other = short;
  static const char* name() { return "long"; }
  static long mk(int v) { return v; }
  static int rd(const long& x) { return (int)x; }
};
template <>
struct Tr<short> {
  static constexpr int flavour = SP_PRVALUE;
  static constexpr bool values = true, copyable = true, ref = false, ranges = true;
  using other = short;
  static const char* name() { return "short"; }
  static short mk(int v) { return (short)v; }
  static int rd(const short& x) { return x; }
};
template <>
struct Tr<std::string> {
  static constexpr int flavour = SP_PMR;
  static constexpr bool values = true, copyable = true, ref = false, ranges = true;
  using other = const char*;
  static const char* name() { return "string"; }
  static std::string mk(int v) { return "a-string-that-does-not-fit-inline-" + std::to_string(v); }
  static int rd(const std::string& x) { return x.size() > 34 ? atoi(x.c_str() + 34) : -1; }
};
template <>
struct Tr<const char*> {
  static constexpr int flavour = SP_PRVALUE;
  static constexpr bool values = true, copyable = true, ref = false, ranges = true;
  using other = const char*;
  static const char* name() { return "cstr"; }
  static const char* mk(int v) {
    static char pool[512][64];
    auto& s = pool[v % 512];
    snprintf(s, sizeof s, "a-string-that-does-not-fit-inline-%d", v);
    return s;
  }
  static int rd(const char* const& x) { return atoi(x + 34); }
};
template <>
struct Tr<std::unique_ptr<long>> {
  static constexpr int flavour = SP_TAG;
  static constexpr bool values = true, copyable = false, ref = false, ranges = true;
  using other = std::unique_ptr<long>;
  static const char* name() { return "unique_ptr"; }
  static std::unique_ptr<long> mk(int v) { return std::make_unique<long>(v); }
  static int rd(const std::unique_ptr<long>& x) { return x ? (int)*x : -1; }
};
template <>
struct Tr<long&> {
  static constexpr int flavour = SP_PMR;
  static constexpr bool values = true, copyable = true, ref = true, ranges = true;
  using other = long&;
  static const char* name() { return "long&"; }
  static long mk(int v) { return v; }
  static int rd(const long& x) { return (int)x; }
};
template <>
struct Tr<dd::nothing_t> {
  static constexpr int flavour = SP_RES;
  static constexpr bool values = false, copyable = true, ref = false, ranges = false;
  using other = dd::nothing_t;
  static const char* name() { return "nothing"; }
  static dd::nothing_t mk(int) { return {}; }
  static int rd(const dd::nothing_t&) { return 0; }
};

// a stateful resource that checks pairing
struct LogRes {
  struct Book {  // harness state: TSAN must not see it
    enum { MAX = 1024 };
    long live = 0;
    struct {
      void* p;
      size_t n;
    } blocks[MAX];
  };
  Book* book;
  LogRes() : book(&dflt()) {}
  explicit LogRes(Book& b) : book(&b) {}
  static Book& dflt() {
    static Book b;
    return b;
  }
  __attribute__((no_sanitize("thread"), noinline)) void add(void* p, size_t n) {
    VF_CHECK(book->live < Book::MAX, "harness: too many blocks");
    auto& b = book->blocks[book->live++];
    b.p = p;
    b.n = n;
  }
  __attribute__((no_sanitize("thread"), noinline)) void del(void* p, size_t n) {
    for (long i = 0; i < book->live; ++i) {
      auto& b = book->blocks[i];
      if (b.p == p && b.n == n) {
        auto& l = book->blocks[--book->live];
        b.p = l.p;
        b.n = l.n;
        return;
      }
    }
    vf::fail("deallocate(%p,%zu) does not match an allocation of this resource", p, n);
  }
  void* allocate(size_t n) {
    void* p = ::operator new(n);
    add(p, n);
    return p;
  }
  void deallocate(void* p, size_t n) noexcept {
    del(p, n);
    ::operator delete(p);
  }
};

// range whose iteration throws before element k
template <typename V>
struct ThrowingRange {
  std::vector<V> items;
  int k, id;
  struct It {
    using value_type = V;
    using difference_type = std::ptrdiff_t;
    ThrowingRange* r;
    int i;
    V& operator*() const { return r->items[i]; }
    It& operator++() {
      if (++i == r->k) do_throw(r->id);
      return *this;
    }
    void operator++(int) { ++*this; }
    bool operator==(std::default_sentinel_t) const { return i == (int)r->items.size() && r->k != i; }
  };
  It begin() {
    if (k == 0) do_throw(id);
    return It{this, 0};
  }
  std::default_sentinel_t end() { return {}; }
};

// ------------------------------------------------------------------ interpretation
template <typename Ret>
struct RetInfo;
template <typename Y>
struct RetInfo<dd::generator<Y>> {
  using yield = Y;
  static constexpr bool chan = false;
  template <typename Z>
  using plain = dd::generator<Z>;
  template <typename Z>
  using res = dd::generator_r<Z, LogRes>;
  template <typename Z>
  using pmr = dd::pmr::generator<Z>;
};
template <typename Y>
struct RetInfo<dd::channel<Y>> {
  using yield = Y;
  static constexpr bool chan = true;
  template <typename Z>
  using plain = dd::channel<Z>;
  template <typename Z>
  using res = dd::channel_r<Z, LogRes>;
  template <typename Z>
  using pmr = dd::pmr::channel<Z>;
};
template <typename C, typename R>
struct RetInfo<dd::resourced<C, R>> : RetInfo<C> {};

// how a channel body suspends: provided by the harness
struct Suspender {
  virtual void park(std::coroutine_handle<> h, int form) = 0;
};
inline Suspender* g_susp = nullptr;
struct ParkAwaiter {
  int form;
  static bool await_ready() noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) {
    int f = form;
    g_susp->park(h, f);
  }
  static void await_resume() noexcept {}
};

template <typename Y>
auto make_items(const std::vector<int>& v) {
  using V = std::remove_reference_t<Y>;
  std::vector<V> r;
  for (int i : v) r.push_back(Tr<Y>::mk(i));
  return r;
}

template <typename Ret, typename... Tag>
Ret body(Ctx& cx, const Prog& p, Guard guard, Tag... tag);

// the spliced child coroutine in the requested flavour
#define PX_SPLICE(FORM, EXPR)                \
  if (form == FORM) {                        \
    try {                                    \
      co_yield dd::elements_of(EXPR);        \
    } catch (...) {                          \
      cx.ev(CAUGHT, -current_exc_id());      \
    }                                        \
  }

template <typename Ret, typename... Tag>
Ret body(Ctx& cx, const Prog& p, Guard guard, Tag... tag) {
  using I = RetInfo<Ret>;
  using Y = typename I::yield;
  using T = Tr<Y>;
  using Plain = typename I::template plain<Y>;
  cx.ev(ENTER, p.id);
  for (size_t si = 0; si < p.st.size(); ++si) {
    const Stmt& s = p.st[si];
    if (s.kind == S_EFF) {
      cx.ev(EFF, s.v);
    } else if (s.kind == S_RETURN) {
      cx.ev(LEAVE, p.id);
      co_return;
    } else if (s.kind == S_THROW) {
      do_throw(s.v);
    } else if (s.kind == S_SUSPEND) {
      if constexpr (I::chan) co_await ParkAwaiter{s.form};
    } else if (s.kind == S_YIELD) {
      if constexpr (!T::values) {
        if (s.form % 2) co_yield {};
        else co_yield dd::nothing_t{};
      } else if constexpr (T::ref) {
        long x = T::mk(s.v);
        if (s.form % 2) co_yield x;
        else co_yield dd::by_ref{x};
      } else {
        if (s.form == 0) {
          co_yield T::mk(s.v);
        } else if (s.form == 1) {
          if constexpr (T::copyable) {
            const Y x = T::mk(s.v);
            co_yield x;
          } else
            co_yield T::mk(s.v);
        } else if (s.form == 2) {
          Y x = T::mk(s.v);
          co_yield dd::by_ref{x};
        } else if (s.form == 3) {
          Y x = T::mk(s.v);
          co_yield std::move(x);
        } else {
          if constexpr (T::copyable) {
            Y x = T::mk(s.v);
            co_yield x;
          } else {
            Y x = T::mk(s.v);
            co_yield std::move(x);
          }
        }
      }
    } else if (s.kind == S_SPLICE) {
      // a failure of the spliced coroutine must never reach the splicing body: the catch above records it
      // to keep compile time low each yield type has one allocation flavour besides the plain one
      int form = s.form;
      if (form == SP_RES || form == SP_TAG || form == SP_PMR) form = T::flavour;
      if (form == SP_OTHER && std::is_same_v<typename T::other, Y>) form = SP_PRVALUE;
      PX_SPLICE(SP_PRVALUE, body<Plain>(cx, *s.child, Guard(cx)))
      if constexpr (T::flavour == SP_RES) PX_SPLICE(SP_RES, body<typename I::template res<Y>>(cx, *s.child, Guard(cx)))
      if constexpr (T::flavour == SP_PMR) PX_SPLICE(SP_PMR, body<typename I::template pmr<Y>>(cx, *s.child, Guard(cx)))
      if constexpr (T::flavour == SP_TAG)
        PX_SPLICE(SP_TAG, (body<Plain, dd::with_resource<LogRes>>(cx, *s.child, Guard(cx), dd::with_resource<LogRes>(LogRes{}))))
      PX_SPLICE(SP_EMPTY, Plain{})
      if constexpr (!std::is_same_v<typename T::other, Y>)
        PX_SPLICE(SP_OTHER, (body<typename I::template plain<typename T::other>>(cx, *s.child, Guard(cx))))
      if (s.form == SP_MOVED || s.form == SP_LVALUE) {
        Plain g = body<Plain>(cx, *s.child, Guard(cx));
        if (s.k) {
          try {
            if constexpr (I::chan) {
              int j = 0;
              for (auto it = co_await g.begin(); it != g.end();) {
                cx.ev(CONS, T::rd(*it));
                if (++j == s.k) break;
                (void)(co_await (++it));
              }
            } else {
              int j = 0;
              for (auto it = g.begin(); it != g.end();) {
                cx.ev(CONS, T::rd(*it));
                if (++j == s.k) break;
                ++it;
              }
            }
          } catch (...) {
            cx.ev(CAUGHT, current_exc_id());
          }
        }
        if (s.form == SP_MOVED) co_yield dd::elements_of(std::move(g));
        else co_yield dd::elements_of(g);
      }
    } else if (s.kind == S_RANGE) {
      if constexpr (T::ref) {
        auto v = make_items<Y>(s.items);
        if (s.form == R_SPAN) co_yield dd::elements_of(std::span(v));
        else co_yield dd::elements_of(v);
      } else if constexpr (T::ranges) {
        using V = Y;
        if (s.form == R_VEC_RV) {
          co_yield dd::elements_of(make_items<Y>(s.items));
        } else if (s.form == R_VEC_LV) {
          auto v = make_items<Y>(s.items);
          co_yield dd::elements_of(v);
        } else if (s.form == R_LIST_RV) {
          std::list<V> l;
          for (int i : s.items) l.push_back(T::mk(i));
          co_yield dd::elements_of(std::move(l));
        } else if (s.form == R_SPAN) {
          auto v = make_items<Y>(s.items);
          co_yield dd::elements_of(std::span(v));
        } else if (s.form == R_THROWING) {
          co_yield dd::elements_of(ThrowingRange<V>{make_items<Y>(s.items), s.k, s.v});
        } else if (s.form == R_TRANSFORM) {
          co_yield dd::elements_of(s.items | std::views::transform([](int i) -> V { return T::mk(i); }));
        } else {
          co_yield dd::elements_of(std::vector<V>{});
        }
      }
    }
  }
  cx.ev(LEAVE, p.id);
}

// outermost coroutine in the plain or in the resource flavour of its type
template <template <typename> typename G, typename Y>
G<Y> make_body(Ctx& cx, const Prog& p, Guard g, bool flavoured) {
  using I = RetInfo<G<Y>>;
  constexpr int f = Tr<Y>::flavour;
  if (flavoured) {
    if constexpr (f == SP_RES) return body<typename I::template res<Y>>(cx, p, std::move(g)).decay();
    if constexpr (f == SP_PMR) return body<typename I::template pmr<Y>>(cx, p, std::move(g)).decay();
    if constexpr (f == SP_TAG)
      return body<G<Y>, dd::with_resource<LogRes>>(cx, p, std::move(g), dd::with_resource<LogRes>(LogRes{}));
  }
  return body<G<Y>>(cx, p, std::move(g));
}

template <typename Y>
GenOpts opts_for(GenOpts o) {
  o.values = Tr<Y>::values;
  o.ranges = Tr<Y>::ranges;
  o.byref_ranges = Tr<Y>::ref;
  o.other = !std::is_same_v<typename Tr<Y>::other, Y>;
  return o;
}

}  // namespace px
