// C24: coroutines allocate from exactly the resource the caller selected.
#include "frames.hpp"

namespace {

enum { N_SIGS = 41 };

NOTSAN uint64_t mallocs() { return vf::total_mallocs(); }

using T0 = dd::with_resource<dd::chunk_from<Led>>;  // by pointer
using T1 = dd::with_resource<Tiny>;                 // other tag type
using T2 = dd::with_resource<MoveOnly>;
using T3 = dd::with_resource<Empty<3>>;
using TP = dd::with_pmr_resource;
using TQ = dd::with_resource<dd::pmr::polymorphic_resource>;
using TD = dd::with_default_resource;

// a parameter that looks like a tag, and one that carries a resource
struct LooksLike {
  Led* resource;
  void* allocate(size_t n) { return led_get(n, 63); }
  void deallocate(void* p, size_t n) { led_put(p, n, 63); }
};
struct Heavy {
  std::string s;
  std::unique_ptr<int> p;
};

#define GB co_yield 1;
using G = dd::generator<int>;
NOINL G free_none() { GB }
NOINL G free_args(int, const std::string&, Heavy) { GB }
NOINL G free_looks(LooksLike) { GB }
NOINL G free_led(Led&) { GB }  // a resource, but no tag
NOINL G free_pmr(std::pmr::memory_resource*) { GB }
NOINL G only_tag(T0) { GB }
NOINL G after_args(int, std::string, Heavy, T0) { GB }
NOINL G tag_not_last(T0, int) { GB }
NOINL G tag_middle(int, T0, Heavy&&) { GB }
NOINL G two_tags(T0, T0) { GB }
NOINL G two_kinds(T0, T1) { GB }
NOINL G two_kinds2(T1, T0) { GB }
NOINL G three_tags(T2, T3, T1) { GB }
NOINL G tag_looks(LooksLike, T1) { GB }
NOINL G const_ref(int, const T0&) { GB }
NOINL G lref(T0&) { GB }
NOINL G rref(T0&&) { GB }
NOINL G const_val(const T1) { GB }
NOINL G mover(int, T2) { GB }
NOINL G empty_tag(int, T3) { GB }
NOINL G pmr_tag(double, TP) { GB }
NOINL G dflt(int, TD) { GB }
NOINL G tag_then_dflt(T0, TD) { GB }
NOINL G dflt_then_tag(TD, T0) { GB }
NOINL G dflt_arg(int, T3 = {}) { GB }
template <class... Args>
NOINL G variadic(Args...) {
  GB
}
template <class... Args>
NOINL G variadic_fwd(Args&&...) {
  GB
}
NOINL G generic(auto, auto, auto) { GB }

struct Obj {
  int x = 1;
  NOINL G m_none() { GB }
  NOINL G m_tag(int, T0) { GB }
  NOINL G m_ctag(T1) const { GB }
  NOINL G m_rtag(T0) && { GB }
  static NOINL G s_tag(T0) { GB }
  NOINL G operator()(T0) { GB }
  virtual G v_tag(T0) { GB }
};
// an object that itself looks like a resource
struct ResObj : Led {
  NOINL G m_none() { GB }
  NOINL G m_tag(T0) { GB }
};

using GF = dd::generator_r<int, Empty<9>>;
using GS = dd::generator_r<int, Fixed<10>>;
NOINL dd::generator_r<int, dd::new_delete_resource> new_delete_none(int) { GB }
NOINL dd::task_r<int, dd::new_delete_resource> new_delete_args(int, Heavy) { co_return 1; }
NOINL GF fixed_none() { GB }
NOINL GF fixed_args(int, Heavy) { GB }
NOINL GF fixed_tag(int, dd::with_resource<Empty<9>>) { GB }
NOINL GS fixed_state(int) { GB }
NOINL GS fixed_state_tag(Fixed<10>&, dd::with_resource<Fixed<10>>) { GB }

// clang needs no heap at all for a coroutine without suspension points
struct MaySuspend {
  bool await_ready() const noexcept { return false; }
  NOINL bool await_suspend(std::coroutine_handle<>) const noexcept {
    bool b = false;
    asm volatile("" : "+r"(b)::"memory");
    return b;
  }
  void await_resume() const noexcept {}
};
// one of the other kinds; the body does nothing else
#define OTHER(nm, K, KR, STMT)                                                  \
  NOINL K nm##_none(int) { STMT; }                                              \
  NOINL K nm##_tag(int, T0) { STMT; }                                           \
  NOINL K nm##_two(T0, T1) { STMT; }                                            \
  NOINL K nm##_notlast(T0, int) { STMT; }                                       \
  NOINL K nm##_dflt(T0, TD) { STMT; }                                           \
  NOINL KR<Empty<9>> nm##_fixed(int) { STMT; }                                  \
  NOINL KR<dd::pmr::polymorphic_resource> nm##_poly(int) { STMT; }              \
  NOINL KR<dd::pmr::polymorphic_resource> nm##_polytag(int, TQ) { STMT; }
template <class R>
using TaskR = dd::task_r<void, R>;
template <class R>
using AsyncR = dd::async_task_r<void, R>;
template <class R>
using GenR = dd::generator_r<int, R>;
template <class R>
using ChanR = dd::channel_r<int, R>;
OTHER(task, dd::task<void>, TaskR, co_return)
OTHER(async, dd::async_task<void>, AsyncR, co_await MaySuspend{}; co_return)
OTHER(gen, dd::generator<int>, GenR, co_yield 1)
OTHER(chan, dd::channel<int>, ChanR, co_yield 1)
OTHER(lt, dd::logical_thread, dd::logical_thread_r, co_await MaySuspend{}; co_return)
OTHER(job, dd::job, dd::job_r, co_await MaySuspend{}; co_return)

// "polymorphic" aliases of the library select the polymorphic resource
static_assert(std::is_same_v<dd::pmr::generator<int>, dd::generator_r<int, dd::pmr::polymorphic_resource>>);
static_assert(std::is_same_v<dd::pmr::channel<int>, dd::channel_r<int, dd::pmr::polymorphic_resource>>);
static_assert(std::is_same_v<dd::pmr::task<int>, dd::task_r<int, dd::pmr::polymorphic_resource>>);
static_assert(std::is_same_v<dd::pmr::async_task<int>, dd::async_task_r<int, dd::pmr::polymorphic_resource>>);

struct Any {  // keeps any coroutine object alive
  virtual ~Any() = default;
};
template <class T>
struct AnyOf : Any {
  T t;
  explicit AnyOf(T&& t) : t(std::move(t)) {}
};
using Keep = std::vector<std::unique_ptr<Any>>;
template <class T>
void keep(Keep& k, T&& t) {
  using D = std::decay_t<T>;
  if constexpr (std::is_base_of_v<dd::job, D>) return;
  else k.push_back(std::make_unique<AnyOf<D>>(std::move(t)));
}

enum { GLOBAL = -1 };
NOTSAN void alloc_probe(int& n, int& last) {
  n = g_allocs;
  last = g_last_res;
}
// runs `create`, whose frame must come from resource `want`
template <class F>
void expect(Keep& k, const char* what, int want, F create) {
  int n0, n1, l;
  alloc_probe(n0, l);
  auto c = create();
  alloc_probe(n1, l);
  if (want == GLOBAL) VF_CHECK(n1 == n0, "%s: allocated from resource %d instead of the global allocator", what, l);
  else {
    VF_CHECK(n1 != n0, "%s: did not allocate from resource %d", what, want);
    VF_CHECK(l == want && n1 == n0 + 1, "%s: allocated from resource %d instead of %d", what, l, want);
  }
  keep(k, std::move(c));
}

void create_sig(Keep& k, int sig, int a, int b) {
  // tags of two resources; by-value ids must fit what Tiny holds
  vf::label("signature");
  switch (sig) {
#define S(n, want, ...)                                          \
  case n: expect(k, #__VA_ARGS__, want, [&] { return __VA_ARGS__; }); break;
    S(0, a, only_tag(g_led[a]))
    S(1, GLOBAL, free_none())
    S(2, GLOBAL, free_args(1, "x", Heavy{}))
    S(3, GLOBAL, free_looks(LooksLike{std::addressof(g_led[a])}))
    S(4, GLOBAL, free_led(g_led[a]))
    S(5, GLOBAL, free_pmr(g_pmr[a]))
    S(6, a, after_args(1, "abc", Heavy{}, g_led[a]))
    S(7, GLOBAL, tag_not_last(g_led[a], 3))
    S(8, GLOBAL, tag_middle(1, g_led[a], Heavy{}))
    S(9, b, two_tags(g_led[a], g_led[b]))
    S(10, b, two_kinds(g_led[a], T1(b)))
    S(11, a, two_kinds2(T1(b), g_led[a]))
    S(12, b, three_tags(T2(a), T3{}, T1(b)))
    S(13, b, tag_looks(LooksLike{std::addressof(g_led[a])}, T1(b)))
    case 14: {
      const T0 t(g_led[a]);
      expect(k, "const_ref", a, [&] { return const_ref(1, t); });
      break;
    }
    case 15: {
      T0 t(g_led[a]);
      expect(k, "lref", a, [&] { return lref(t); });
      expect(k, "lref again", a, [&] { return lref(t); });
      break;
    }
    S(16, a, rref(T0(g_led[a])))
    S(17, b, const_val(T1(b)))
    S(18, a, mover(1, T2(a)))
    S(19, 3, empty_tag(1, {}))
    S(20, a, pmr_tag(1., *g_pmr[a]))
    S(21, GLOBAL, dflt(1, {}))
    S(22, GLOBAL, tag_then_dflt(g_led[a], {}))
    S(23, a, dflt_then_tag({}, g_led[a]))
    S(24, 3, dflt_arg(1))
    case 25:
      expect(k, "variadic()", GLOBAL, [&] { return variadic(); });
      expect(k, "variadic(1, tag)", a, [&] { return variadic(1, T0(g_led[a])); });
      expect(k, "variadic(tag, tag2, default)", GLOBAL, [&] { return variadic(T0(g_led[a]), T1(b), TD{}); });
      expect(k, "variadic(tag, tag2)", b, [&] { return variadic(T0(g_led[a]), T1(b)); });
      break;
    case 26: {
      T0 t(g_led[a]);
      const T0 ct(g_led[b]);
      int i = 0;
      expect(k, "variadic_fwd(lvalue tag)", a, [&] { return variadic_fwd(i, t); });
      expect(k, "variadic_fwd(const lvalue tag)", b, [&] { return variadic_fwd(t, ct); });
      expect(k, "variadic_fwd(rvalue tag)", a, [&] { return variadic_fwd(ct, T0(g_led[a])); });
      expect(k, "variadic_fwd(tag, int)", GLOBAL, [&] { return variadic_fwd(t, i); });
      break;
    }
    S(27, b, generic(1, T0(g_led[a]), T1(b)))
    case 28: {
      Obj o;
      const Obj co;
      expect(k, "member without tag", GLOBAL, [&] { return o.m_none(); });
      expect(k, "member", a, [&] { return o.m_tag(1, g_led[a]); });
      expect(k, "const member", b, [&] { return co.m_ctag(T1(b)); });
      expect(k, "rvalue member", a, [&] { return std::move(o).m_rtag(g_led[a]); });
      expect(k, "static member", a, [&] { return Obj::s_tag(g_led[a]); });
      expect(k, "call operator", a, [&] { return o(g_led[a]); });
      expect(k, "virtual member", a, [&] { return o.v_tag(g_led[a]); });
      break;
    }
    case 29: {
      ResObj o;
      o.id = b;
      expect(k, "member of a resource", GLOBAL, [&] { return o.m_none(); });
      expect(k, "member of a resource, with tag", a, [&] { return o.m_tag(g_led[a]); });
      break;
    }
    case 30: {
      T0 captured(g_led[b]);
      auto l0 = []() -> G { GB };
      auto l1 = [](int, T0) -> G { GB };
      auto l2 = [captured](T1) -> G { GB };
      auto l3 = [captured]() mutable -> G { GB };
      auto l4 = [captured](auto, auto) -> G { GB };
      expect(k, "lambda without tag", GLOBAL, [&] { return l0(); });
      expect(k, "lambda", a, [&] { return l1(1, g_led[a]); });
      expect(k, "lambda with a captured tag", a, [&] { return l2(T1(a)); });
      expect(k, "mutable lambda with a captured tag only", GLOBAL, [&] { return l3(); });
      expect(k, "generic lambda", a, [&] { return l4(captured, T0(g_led[a])); });
      break;
    }
    S(31, 9, fixed_none())
    S(32, 9, fixed_args(1, Heavy{}))
    S(33, 9, fixed_tag(1, {}))
    S(34, 10, fixed_state(1))
    case 35: {
      Fixed<10> f;
      f.id = a;
      *f.x = a;
      expect(k, "fixed resource, given by tag", a, [&] { return fixed_state_tag(f, std::move(f)); });
      break;
    }
    case 36: {  // deduction guides
      Tiny t(b);
      expect(k, "with_resource{pmr}", a, [&] { return variadic(1, dd::with_resource{*g_pmr[a]}); });
      expect(k, "with_resource{value}", b, [&] { return variadic(1, dd::with_resource{t}); });
      expect(k, "with_resource{rvalue}", b, [&] { return variadic(1, dd::with_resource{Tiny(b)}); });
      std::pmr::memory_resource& base = *g_pmr[b];
      expect(k, "with_resource{base}", b, [&] { return variadic(dd::with_resource{base}); });
      break;
    }
    case 37: {  // chosen by a copied / moved tag
      T0 t(g_led[a]);
      T0 u = t;
      const T0 c = u;
      T0 v = std::move(u);
      T0 x = std::move(c);
      expect(k, "copied tag", a, [&] { return variadic(v); });
      expect(k, "copied tag", a, [&] { return variadic(x); });
      expect(k, "original tag", a, [&] { return variadic(t); });
      break;
    }
    case 40: {  // the library's own plain resource, in place of the ordinary operators
      expect(k, "fixed new_delete_resource", GLOBAL, [&] { return new_delete_none(1); });
      expect(k, "fixed new_delete_resource", GLOBAL, [&] { return new_delete_args(a, Heavy{"h", std::make_unique<int>(b)}); });
        void* q = dd::new_delete_resource::allocate(a);
      memset(q, 1, a);
      dd::new_delete_resource::deallocate(q, a);
      break;
    }
    case 38: {  // schedule_to with a tag allocates its job there
      dd::this_thread_executor_t e;
      int ran = 0;
      expect(k, "schedule_to with tag", a, [&] { return dd::schedule_to(e, [&] { ++ran; }, T0(g_led[a])); });
      expect(k, "schedule_to", GLOBAL, [&] { return dd::schedule_to(e, [&] { ++ran; }); });
      VF_CHECK(ran == 2, "scheduled functions ran %d times", ran);
      break;
    }
    default: {
#define O(nm)                                                                                 \
  expect(k, #nm " without tag", GLOBAL, [&] { return nm##_none(1); });                        \
  expect(k, #nm " with tag", a, [&] { return nm##_tag(1, g_led[a]); });                       \
  expect(k, #nm " with two tags", b, [&] { return nm##_two(g_led[a], T1(b)); });              \
  expect(k, #nm ", tag not last", GLOBAL, [&] { return nm##_notlast(g_led[a], 1); });         \
  expect(k, #nm " with default", GLOBAL, [&] { return nm##_dflt(g_led[a], {}); });            \
  expect(k, #nm " fixed", 9, [&] { return nm##_fixed(1); });                                  \
  expect(k, #nm " polymorphic by tag", a, [&] { return nm##_polytag(1, *g_pmr[a]); });        \
  break;
      switch ((a + b) % 6) {
        case 0: O(task)
        case 1: O(async)
        case 2: O(gen)
        case 3: O(chan)
        case 4: O(lt)
        case 5: O(job)
      }
    }
  }
#undef S
}
int id(int lo, int hi) { return vf::range(lo, hi); }

// ---- polymorphic: passed once on this thread, otherwise the current default ----
struct POp {
  int op, r;
};
enum { P_PASS, P_SET, P_GET, P_CREATE, P_FAIL, P_EXPLICIT, P_OBJ, P_DROP, P_SIG, P_YIELD };
const char* pname[] = {"pass resource", "set default", "get default", "create polymorphic", "create polymorphic, allocation fails", "create polymorphic with a tag", "polymorphic_resource object",
                       "drop the oldest", "create", "yield"};

enum { MAXH = 256 };
int g_hist[MAXH], g_nhist;  // defaults in force, in order
NOTSAN int nhist() { return g_nhist; }
NOTSAN int hist(int i) { return g_hist[i]; }
NOTSAN void push_hist(int r) { g_hist[g_nhist++] = r; }
NOTSAN void clear_hist() { g_nhist = 0; }

// resources that come into being just before they become the default: whoever uses the default must see them complete
enum { MAXFRESH = 64 };
alignas(Pmr) unsigned char g_fresh[MAXFRESH][sizeof(Pmr)];
int g_nfresh;
NOTSAN void clear_fresh() { g_nfresh = 0; }
NOTSAN Pmr* next_fresh() { return g_nfresh < MAXFRESH ? (Pmr*)g_fresh[g_nfresh++] : nullptr; }
std::pmr::memory_resource& fresh(int id) {
  Pmr* p = next_fresh();
  return p ? *new (p) Pmr(id) : *g_pmr[id];
}

int id_of(std::pmr::memory_resource& r) {
  if (&r == std::pmr::new_delete_resource()) return GLOBAL;
  if ((unsigned char*)&r >= g_fresh[0] && (unsigned char*)&r < g_fresh[0] + sizeof g_fresh) return static_cast<Pmr&>(r).id;
  for (int i = 0; i < MAXRES; ++i)
    if (g_pmr[i] == &r) return i;
  vf::fail("an unknown memory resource is reported");
}
bool in_hist(int r, int lo, int hi) {
  for (int i = lo; i <= hi; ++i)
    if (hist(i) == r) return true;
  return false;
}

// number of allocations and the last resource hit by this thread: the ledger is global, so look at the block itself
NOTSAN int owner_since(int n0, const void* frame) {
  for (int i = 0; i < g_nblk; ++i)
    if ((const unsigned char*)frame >= g_blk[i].p && (const unsigned char*)frame < g_blk[i].p + g_blk[i].n) return g_blk[i].res;
  return GLOBAL;
}
struct Where {  // records where a frame is
  const void* at = nullptr;
};
struct Mark {
  Where* w;
  explicit Mark(Where* w) : w(w) {}
  Mark(Mark&& o) noexcept : w(o.w) {
    if (w) w->at = this;
  }
};
// the argument is moved into the frame: that tells where the frame is
#define POLYK(nm, K, KR, STMT)                                                         \
  NOINL KR<dd::pmr::polymorphic_resource> nm##_p(Mark) { STMT; }                       \
  NOINL KR<dd::pmr::polymorphic_resource> nm##_pt(Mark, TQ) { STMT; }
struct Stay {  // suspends for ever
  std::coroutine_handle<>* out;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { *out = h; }
  void await_resume() {}
};
POLYK(task, , TaskR, co_return)
POLYK(async, , AsyncR, co_return)
POLYK(gen, , GenR, co_yield 1)
POLYK(chan, , ChanR, co_yield 1)
POLYK(lt, , dd::logical_thread_r, co_return)

template <class F>
void poly_with(Keep& k, int kind, F f) {
  switch (kind) {
    case 0: keep(k, f([](auto&&... a) { return task_p(std::move(a)...); }, [](auto&&... a) { return task_pt(std::move(a)...); })); break;
    case 1: keep(k, f([](auto&&... a) { return gen_p(std::move(a)...); }, [](auto&&... a) { return gen_pt(std::move(a)...); })); break;
    case 2: keep(k, f([](auto&&... a) { return chan_p(std::move(a)...); }, [](auto&&... a) { return chan_pt(std::move(a)...); })); break;
    case 3: keep(k, f([](auto&&... a) { return async_p(std::move(a)...); }, [](auto&&... a) { return async_pt(std::move(a)...); })); break;
    case 4: keep(k, f([](auto&&... a) { return lt_p(std::move(a)...); }, [](auto&&... a) { return lt_pt(std::move(a)...); })); break;
  }
}

void run_poly(const std::vector<POp>& ops, int t, bool alone) {
  Keep k;
  int passed = -2;
  for (auto& o : ops) switch (o.op) {
      case P_PASS:
        dd::pmr::pass_resource(*g_pmr[o.r]);
        passed = o.r;
        break;
      case P_SET: {
        vs_no_preempt(1);
        int old = id_of(dd::pmr::set_default_resource(o.r % 2 ? fresh(o.r) : *g_pmr[o.r]));
        int want = hist(nhist() - 1);
        push_hist(o.r);
        vs_no_preempt(0);
        VF_CHECK(old == want, "replacing the default reported resource %d as the previous one instead of %d", old, want);
        break;
      }
      case P_GET: {
        int lo = nhist() - 1;
        int r = id_of(dd::pmr::get_default_resource());
        VF_CHECK(in_hist(r, lo, nhist() - 1), "the default is reported to be resource %d", r);
        break;
      }
      case P_CREATE:
      case P_EXPLICIT:
      case P_FAIL: {
        Where w;
        int lo = nhist() - 1;
        bool thrown = false;
        poly_with(k, o.r % 5, [&](auto plain, auto tagged) {
          if (o.op == P_EXPLICIT) return tagged(Mark(&w), TQ(*g_pmr[o.r]));
          if (o.op == P_FAIL && alone) {
            set_fail(1);
            try {
              auto c = plain(Mark(&w));
              set_fail(0);
              return c;
            } catch (AllocBoom&) {
              thrown = true;
              set_fail(0);
              return decltype(plain(Mark(&w))){};
            }
          }
          return plain(Mark(&w));
        });
        int hi = nhist() - 1;
        if (thrown) {
          passed = -2;
          break;
        }
        int got = owner_since(0, w.at);
        if (o.op == P_EXPLICIT) {
          VF_CHECK(got == o.r, "a polymorphic coroutine given resource %d allocated from %d", o.r, got);
          break;
        }
        if (passed != -2) VF_CHECK(got == passed, "resource %d was passed on this thread, but the coroutine allocated from %d", passed, got);
        else VF_CHECK(in_hist(got, lo, hi), "a polymorphic coroutine allocated from resource %d; the default is %d", got, hist(lo));
        passed = -2;
        break;
      }
      case P_OBJ: {  // the resource object itself follows the same rule
        int lo = nhist() - 1;
        dd::pmr::polymorphic_resource r;
        int hi = nhist() - 1;
        void* p = r.allocate(40);
        int got = owner_since(0, p);
        if (passed != -2) VF_CHECK(got == passed, "resource %d was passed on this thread, but %d was used", passed, got);
        else VF_CHECK(in_hist(got, lo, hi), "resource %d was used; the default is %d", got, hist(lo));
        passed = -2;
        r.deallocate(p, 40);
        break;
      }
      case P_DROP:
        if (!k.empty()) k.erase(k.begin());
        break;
      case P_SIG:
        if (alone) create_sig(k, o.r % N_SIGS, o.r % 16, 16 + o.r % 13);
        break;
      case P_YIELD: vs_yield(); break;
    }
  if (passed != -2) dd::pmr::polymorphic_resource eat;  // nothing is left for the next case
}
std::vector<POp> gen_ops(int n, bool alone) {
  std::vector<POp> v;
  for (int i = 0; i < n; ++i) {
    static const uint32_t ww[] = {5, 3, 2, 6, 1, 2, 1, 2, 1, 1};
    POp o{(int)vf::pick_w(ww, 10), 0};
    o.r = vf::pick(o.op == P_SIG ? 1000 : 16) ;
    v.push_back(o);
  }
  (void)alone;
  return v;
}
void describe(const std::vector<POp>& v, int t) {
  for (auto& o : v) vf::desc("T%d: %s %d\n", t, pname[o.op], o.r);
}

VF_MODE(select_seq, 100, true,
        "coroutines of every kind with random parameter lists (no tag, tag last / not last, several tags, references, members, lambdas, templates, fixed resources), mixed with passing and "
        "replacing the polymorphic default; frames are dropped in any order; non-trivial: >=3 creations from >=2 different resources") {
  reset_ledger();
  make_resources();
  clear_hist();
  clear_fresh();
  int n = vf::range(1, 10);
  std::vector<std::array<int, 4>> what;
  {
    Keep k;
    dd::pmr::set_default_resource(*std::pmr::new_delete_resource());
    push_hist(GLOBAL);
    for (int i = 0; i < n; ++i) {
      switch (vf::pick(3)) {
        case 0:
        case 1: {
          int sig = vf::pick(N_SIGS), a = id(11, 40), b = id(11, 40);
          vf::desc("signature %d with resources %d and %d\n", sig, a, b);
          create_sig(k, sig, a, b);
          break;
        }
        case 2: {
          auto v = gen_ops(vf::range(1, 8), true);
          describe(v, 0);
          run_poly(v, 0, true);
          break;
        }
      }
      while (!k.empty() && vf::chance(1, 3)) {
        size_t j = vf::pick(k.size());
        k.erase(k.begin() + j);
      }
    }
    dd::pmr::set_default_resource(*std::pmr::new_delete_resource());
  }
  VF_CHECK(led_live() == 0, "%d frames were never given back to their resource", led_live());
  int used = 0;
  for (int h : g_hits) used += h > 0;
  if (led_allocs() >= 3 && used >= 2) vf::nontrivial();
}

VF_MODE(select_mt, 20, true,
        "1-4 threads pass resources, replace and read the process-wide polymorphic default and create polymorphic coroutines of every kind under a random schedule; each frame must come "
        "from the resource passed on its thread, else from a default in force while it was created; non-trivial: >=2 threads, >=1 passed and >=1 default allocation, >=3 switches") {
  reset_ledger();
  make_resources();
  clear_hist();
  clear_fresh();
  int nt = vf::range(1, 4);
  std::vector<std::vector<POp>> ops(nt);
  int passes = 0, creates = 0;
  for (int t = 0; t < nt; ++t) {
    ops[t] = gen_ops(vf::range(1, 8), false);
    describe(ops[t], t);
    for (auto& o : ops[t]) passes += o.op == P_PASS, creates += o.op == P_CREATE;
  }
  {
    vs::Run run;
    dd::pmr::set_default_resource(*std::pmr::new_delete_resource());
    push_hist(GLOBAL);
    std::vector<std::vs_thread> ts;
    for (int t = 1; t < nt; ++t) ts.emplace_back([&, t] { run_poly(ops[t], t, false); });
    run_poly(ops[0], 0, false);
    for (auto& t : ts) t.join();
    dd::pmr::set_default_resource(*std::pmr::new_delete_resource());
  }
  VF_CHECK(led_live() == 0, "%d frames were never given back to their resource", led_live());
  if (nt >= 2 && passes && creates > 1 && vs_switches() >= 3) vf::nontrivial();
}

VF_MODE(pool_res, 20, true,
        "a pool of 0-4 threads given a resource, functions scheduled on it by 1-3 threads, failing allocations; queues, threads and every scheduled function come from that resource and go "
        "back to it; non-trivial: >=2 scheduled functions") {
  reset_ledger();
  make_resources();
  int n = vf::pick(5), res = vf::pick(3), nt = vf::range(1, 3);
  int fail_at = vf::chance(1, 4) ? vf::range(1, 6) : 0;
  std::vector<int> per(nt);
  int total = 0;
  for (auto& x : per) total += x = vf::range(0, 5);
  vf::desc("pool of %d threads on resource %d, %d clients schedule %d functions in total\n", n, res, nt, total);
  if (fail_at) vf::desc("allocation %d fails\n", fail_at);
  bool big = vf::chance(1, 3), dflt = vf::chance(1, 6);
  if (dflt) vf::desc("no resource given\n");
  int failed_sched = 0;
  bool failed_pool = false;
  {
    vs::Run run;
    set_fail(fail_at);
    try {
      int before = led_allocs();
      std::optional<dd::thread_pool> pool;
      if (dflt) pool.emplace(n);
      else pool.emplace(n, dd::default_worker_job, *g_pmr[res]);
      VF_CHECK(&pool->get_resource() == (dflt ? std::pmr::get_default_resource() : g_pmr[res]), "the pool reports another resource");
      if (!dflt) VF_CHECK(led_allocs() > before && led_last() == res, "the pool's queues were not allocated from its resource");
      auto client = [&](int t) {
        for (int i = 0; i < per[t]; ++i) {
          vs_add(10, 1);
          try {
            if (big) {
              struct {
                char b[200];
              } pad{};
              pool->schedule([pad] { vs_add(11, 1); (void)pad; }, t);
            } else if (i % 2) pool->schedule([] { vs_add(11, 1); }, i);
            else {
              auto f = [] { vs_add(11, 1); };
              pool->schedule(f);
            }
          } catch (AllocBoom&) {
            vs_add(12, 1);
          }
        }
      };
      std::vector<std::vs_thread> ts;
      for (int t = 1; t < nt; ++t) ts.emplace_back([&, t] { client(t); });
      client(0);
      for (auto& t : ts) t.join();
      failed_sched = vs_get(12);
      // everything ran before the pool goes
      vs_wait_ge(11, total - failed_sched, "scheduled functions to run");
      if (!dflt) {
        int want = total - failed_sched;
        VF_CHECK(led_allocs() - before >= want + 1, "%d functions were scheduled, but only %d allocations came from the pool's resource", want, led_allocs() - before);
      } else VF_CHECK(led_allocs() == before, "a pool without a resource used one");
      pool.reset();
    } catch (AllocBoom&) {
      failed_pool = true;
      VF_CHECK(fail_at, "an exception from nowhere");
    }
    set_fail(0);
  }
  VF_CHECK(led_live() == 0, "%d allocations were never given back to the pool's resource", led_live());
  for (int i = 0; i < MAXRES; ++i) VF_CHECK(i == res || !g_hits[i], "resource %d was used instead of %d", i, res);
  vf::label("failed pools", failed_pool);
  vf::label("failed schedules", failed_sched);
  if (total >= 2 && !failed_pool) vf::nontrivial();
}

}  // namespace
