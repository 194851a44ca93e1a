// C32: generated programs of several translation units. Every unit includes a random selection of the public headers in a
// random order before anything else; parts of the library are defined in one unit and used in another. The programs must
// compile, link and print what the model says.
#include "prog.hpp"

namespace {

const char* const HEADERS[] = {"generator", "channel", "task", "async_task", "job", "logical_thread", "inplace_generator", "events", "latch", "thread_pool",
                               "algorithm", "stack_memory_resource", "nonowner_lockfree_stack", "operation_hash", "memory_support", "executor_interface", "common", "kelcoro"};
enum { NH = sizeof HEADERS / sizeof *HEADERS };

struct Part {
  const char* name;
  std::vector<const char*> dh, uh;  // headers the definer / the user includes
  const char *def, *use;
  std::function<std::vector<long>(int, int)> want;
};

const std::vector<Part>& parts() {
  static const std::vector<Part> P = {
      {"generator", {"generator"}, {"generator"},
       R"(dd::generator<int> mk$k(int n) { for (int i = 0; i < n; ++i) co_yield i + $b; if ($b % 2) throw 7; })",
       R"(dd::generator<int> mk$k(int);
dd::generator<int> outer$k() { co_yield -1; co_yield dd::elements_of(mk$k($a)); co_yield -2; }
void use$k() { try { for (int&& x : outer$k()) out(x); } catch (int e) { out(e + 1000); } })",
       [](int a, int b) {
         std::vector<long> v{-1};
         for (int i = 0; i < a; ++i) v.push_back(i + b);
         v.push_back(b % 2 ? 1007 : -2);
         return v;
       }},
      {"channel", {"channel"}, {"channel", "job"},
       R"(dd::channel<int> mk$k(int n) { for (int i = 0; i < n; ++i) co_yield i + $b; if ($b % 2) throw 7; })",
       R"(dd::channel<int> mk$k(int);
dd::channel<int> outer$k() { co_yield -1; co_yield dd::elements_of(mk$k($a)); co_yield -2; }
static dd::job run$k() { auto c = outer$k(); try { for (auto b = co_await c.begin(); b != c.end(); co_await ++b) out(*b); } catch (int e) { out(e + 1000); } }
void use$k() { run$k(); })",
       [](int a, int b) {
         std::vector<long> v{-1};
         for (int i = 0; i < a; ++i) v.push_back(i + b);
         v.push_back(b % 2 ? 1007 : -2);
         return v;
       }},
      {"task", {"task"}, {"task", "async_task"},
       R"(dd::task<int> mk$k(int x) { if (x % 3 == 0) throw 5; co_return x + $b; })",
       R"(dd::task<int> mk$k(int);
static dd::async_task<int> run$k() { try { co_return co_await mk$k($a); } catch (int e) { co_return 100 + e; } }
void use$k() { out(run$k().get()); })",
       [](int a, int b) { return std::vector<long>{a % 3 == 0 ? 105 : a + b}; }},
      {"async_task", {"async_task"}, {"async_task", "task"},
       R"(dd::async_task<int> mk$k(int x) { if (x % 3 == 0) throw 5; co_return x + $b; })",
       R"(dd::async_task<int> mk$k(int);
void use$k() { try { out(mk$k($a).get()); } catch (int e) { out(100 + e); } })",
       [](int a, int b) { return std::vector<long>{a % 3 == 0 ? 105 : a + b}; }},
      {"job", {"job"}, {"job", "common"},
       R"(dd::job mk$k(int* p) { for (;;) { co_await std::suspend_always{}; if (++*p > $a) break; } *p += 100; })",
       R"(dd::job mk$k(int*);
void use$k() { int x = 0; auto j = mk$k(&x); for (int i = 0; i <= $a; ++i) { out(x); j.handle.resume(); } out(x); })",
       [](int a, int) {
         std::vector<long> v;
         for (int i = 0; i <= a; ++i) v.push_back(i);
         v.push_back(a + 101);
         return v;
       }},
      {"logical_thread", {"logical_thread"}, {"logical_thread"},
       R"(dd::logical_thread mk$k(int* p, std::coroutine_handle<>* h) {
  struct sus { std::coroutine_handle<>* h; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> x) { *h = x; } void await_resume() {} };
  auto token = co_await dd::this_coro::stop_token;
  *p = 1 + token.stop_requested(); co_await sus{h}; *p = 11 + token.stop_requested(); })",
       R"(dd::logical_thread mk$k(int*, std::coroutine_handle<>*);
void use$k() { int x = 0; std::coroutine_handle<> h; { auto t = mk$k(&x, &h); out(x); if ($b % 2) t.request_stop(); h.resume(); out(x); t.join(); out(t.joinable()); } })",
       [](int, int b) { return std::vector<long>{1, 11 + b % 2, 0}; }},
      {"inplace_generator", {"inplace_generator"}, {"inplace_generator"},
       R"(dd::inplace_generator<int> mk$k(int n) { for (int i = 0; i < n; ++i) co_yield i + $b; })",
       R"(dd::inplace_generator<int> mk$k(int);
void use$k() { auto g = mk$k($a); for (int x : g) out(x); out(g.empty()); })",
       [](int a, int b) {
         std::vector<long> v;
         for (int i = 0; i < a; ++i) v.push_back(i + b);
         v.push_back(1);
         return v;
       }},
      {"event_v", {"events", "job"}, {"events"},
       R"(namespace { struct notag$k {}; } struct tag$k {};
dd::job wait$k(int k) { int v = co_await dd::event_v<int, tag$k>; out(v + k); }
void mk$k() { for (int i = 0; i < $a; ++i) wait$k(100); })",
       R"(struct tag$k {}; void mk$k();
void use$k() { mk$k(); for (int i = 0; i < 2; ++i) out(dd::event_v<int, tag$k>.notify_all(dd::this_thread_executor, $b)); })",
       [](int a, int b) {
         std::vector<long> v;
         for (int i = 0; i < a; ++i) v.push_back(100 + b);
         v.push_back(a > 0);
         v.push_back(0);
         return v;
       }},
      {"latch", {"latch", "job"}, {"latch", "job"},
       R"(dd::job mk$k(dd::latch& l) { co_await l.wait(); out($b); })",
       R"(dd::job mk$k(dd::latch&);
void use$k() { dd::this_thread_executor_t e; dd::latch l($a, e); for (int i = 0; i < 3; ++i) mk$k(l); for (int i = 0; i < $a; ++i) { out(-1); l.count_down(); } out(l.ready()); })",
       [](int a, int b) {
         std::vector<long> v(a, -1);
         for (int i = 0; i < 3; ++i) v.push_back(b);
         v.push_back(1);
         return v;
       }},
      {"thread_pool", {"thread_pool", "job"}, {"thread_pool"},
       R"(dd::job mk$k(dd::thread_pool& p, std::atomic<int>& n) { (void)co_await dd::jump_on(p); if (p.is_worker()) ++n, n.notify_one(); })",
       R"(dd::job mk$k(dd::thread_pool&, std::atomic<int>&);
void use$k() { std::atomic<int> n = 0; dd::thread_pool p(1 + $b % 3); for (int i = 0; i < $a; ++i) mk$k(p, n); for (int i; (i = n) < $a;) n.wait(i); out(n);
  p.request_stop(); std::move(p).wait_stop(); out(p.is_worker()); })",
       [](int a, int) { return std::vector<long>{a, 0}; }},
      {"schedule", {"thread_pool"}, {"thread_pool"},
       R"(struct cnt$k { int n; void operator()() { extern void hit$k(int); hit$k(n); } };
void mk$k(dd::thread_pool& p, int n) { p.schedule(cnt$k{n}); dd::schedule_to(p.select_queue(n), cnt$k{n}); })",
       R"(static std::atomic<int> n$k = 0; void hit$k(int n) { n$k += n; n$k.notify_one(); }
void mk$k(dd::thread_pool&, int);
void use$k() { dd::thread_pool p(1 + $b % 3); mk$k(p, 1 + $a); for (int i; (i = n$k) < 2 + 2 * $a;) n$k.wait(i); out(n$k); })",
       [](int a, int) { return std::vector<long>{2 + 2 * a}; }},
      {"when_all", {"task"}, {"algorithm", "async_task"},
       R"(dd::task<int> mk$k(int x) { if (x % 2) throw x; co_return x + $b; })",
       R"(#include <vector>
dd::task<int> mk$k(int);
static dd::async_task<int> run$k() { std::vector<dd::task<int>> v; for (int i = 0; i < $a; ++i) v.push_back(mk$k(i));
  auto r = co_await dd::when_all(std::move(v)); int s = 0; for (auto& x : r) s += x ? *x : 1000; co_return s; }
void use$k() { out(run$k().get()); })",
       [](int a, int b) {
         long s = 0;
         for (int i = 0; i < a; ++i) s += i % 2 ? 1000 : i + b;
         return std::vector<long>{s};
       }},
      {"when_any", {"task"}, {"algorithm", "async_task"},
       R"(dd::task<int> mk$k(int x) { if (x % 2) throw x; co_return x + $b; })",
       R"(dd::task<int> mk$k(int);
static dd::async_task<int> run$k() { auto r = co_await dd::when_any(mk$k(2 * $a + 1), mk$k(2 * $a)); out(r.index()); co_return *std::get<2>(r); }
void use$k() { out(run$k().get()); })",
       [](int a, int b) { return std::vector<long>{2, 2 * a + b}; }},
      {"stack_resource", {"stack_memory_resource", "generator"}, {"stack_memory_resource", "generator"},
       R"(dd::generator_r<int, dd::chunk_from<dd::stack_resource>> mk$k(int n, dd::with_stack_resource) { for (int i = 0; i < n; ++i) co_yield i + $b; })",
       R"(dd::generator_r<int, dd::chunk_from<dd::stack_resource>> mk$k(int n, dd::with_stack_resource);
void use$k() { dd::stack_resource r; for (int i = 0; i < 2; ++i) for (int&& x : mk$k($a, r)) out(x); })",
       [](int a, int b) {
         std::vector<long> v;
         for (int j = 0; j < 2; ++j)
           for (int i = 0; i < a; ++i) v.push_back(i + b);
         return v;
       }},
      {"lockfree_stack", {"nonowner_lockfree_stack"}, {"nonowner_lockfree_stack"},
       R"(struct node$k { int v; node$k* next; };
void mk$k(dd::nonowner_lockfree_stack<node$k>& s, node$k* a) { for (int i = 0; i < $a; ++i) a[i].v = i + $b, s.push(a + i); })",
       R"(struct node$k { int v; node$k* next; };
void mk$k(dd::nonowner_lockfree_stack<node$k>&, node$k*);
void use$k() { dd::nonowner_lockfree_stack<node$k> s, t; node$k a[$a + 1]; mk$k(s, a); t.push_stack(s.try_pop_all()); for (auto* p = t.try_pop_all(); p; p = p->next) out(p->v); })",
       [](int a, int b) {
         std::vector<long> v;
         for (int i = a; i--;) v.push_back(i + b);
         return v;
       }},
      {"operation_hash", {"operation_hash"}, {"operation_hash", "job", "common"},
       R"(size_t mk$k(std::coroutine_handle<> h) { return dd::calculate_operation_hash(h); })",
       R"(size_t mk$k(std::coroutine_handle<>);
static dd::job run$k() { size_t h = co_await dd::this_coro::operation_hash; std::coroutine_handle<> me = co_await dd::this_coro::handle;
  out(h == mk$k(me)); out(h == dd::calculate_operation_hash(me)); }
void use$k() { run$k(); })",
       [](int, int) { return std::vector<long>{1, 1}; }},
      {"pass_resource", {"memory_support"}, {"memory_support", "generator"},
       R"(namespace { struct rs$k : std::pmr::memory_resource { int n = 0;
  void* do_allocate(size_t s, size_t a) override { ++n; return std::pmr::new_delete_resource()->allocate(s, a); }
  void do_deallocate(void* p, size_t s, size_t a) override { n += 100; std::pmr::new_delete_resource()->deallocate(p, s, a); }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; } }; }
static rs$k r$k; int cnt$k() { return r$k.n; } void mk$k() { dd::pmr::pass_resource(r$k); })",
       R"(int cnt$k(); void mk$k();
[[gnu::noinline]] static dd::pmr::generator<int> g$k(int* p) { for (int i = 0; i < $a; ++i) co_yield *p + i; }
void use$k() { int x = $b; auto one = [&] { for (int&& v : g$k(&x)) out(v); out(cnt$k()); }; one(); mk$k(); one(); one(); })",
       [](int a, int b) {
         std::vector<long> v;
         for (int j = 0; j < 3; ++j) {
           for (int i = 0; i < a; ++i) v.push_back(i + b);
           v.push_back(j == 0 ? 0 : 101);
         }
         return v;
       }},
      {"default_resource", {"memory_support"}, {"memory_support", "task", "async_task"},
       R"(namespace { struct rs$k : std::pmr::memory_resource { int n = 0;
  void* do_allocate(size_t s, size_t a) override { ++n; return std::pmr::new_delete_resource()->allocate(s, a); }
  void do_deallocate(void* p, size_t s, size_t a) override { n += 100; std::pmr::new_delete_resource()->deallocate(p, s, a); }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; } }; }
static rs$k r$k; static std::pmr::memory_resource* old$k; int cnt$k() { return r$k.n; }
void mk$k(bool set) { if (set) old$k = &dd::pmr::set_default_resource(r$k); else out(&dd::pmr::set_default_resource(*old$k) == &r$k); })",
       R"(int cnt$k(); void mk$k(bool);
[[gnu::noinline]] static dd::pmr::async_task<int> g$k(int* p) { co_return *p + $a; }
void use$k() { int x = $b; auto* was = &dd::pmr::get_default_resource(); mk$k(true); out(was != &dd::pmr::get_default_resource()); out(g$k(&x).get()); out(cnt$k()); mk$k(false);
  out(g$k(&x).get()); out(cnt$k()); out(was == &dd::pmr::get_default_resource()); })",
       [](int a, int b) { return std::vector<long>{1, a + b, 101, 1, a + b, 101, 1}; }},
      {"executor", {"executor_interface"}, {"executor_interface", "job"},
       R"(struct exe$k { int n = 0; void attach(dd::task_node* t) { ++n; t->status = dd::schedule_errc::cancelled; t->task.resume(); } };
static exe$k e$k; dd::any_executor_ref mk$k() { return e$k; } int cnt$k() { return e$k.n; })",
       R"(int cnt$k(); dd::any_executor_ref mk$k();
static dd::job run$k() { for (int i = 0; i < $a; ++i) { auto e = mk$k(); auto st = co_await dd::jump_on(e); out((bool)st); } out(cnt$k()); }
void use$k() { run$k(); })",
       [](int a, int) {
         std::vector<long> v(a, 0);
         v.push_back(a);
         return v;
       }},
      {"common", {"common"}, {"common", "job"},
       R"(struct aw$k { bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) {} int await_resume() { return $a; } };
struct has$k { aw$k operator co_await() && { return {}; } };
int mk$k() { static_assert(dd::co_awaiter<aw$k>); auto x = dd::build_awaiter(has$k{}); return x.await_resume(); })",
       R"(int mk$k();
static dd::job run$k() { int n = 0; for (int i = 0; i < $b; ++i) co_await dd::this_coro::suspend_and([&](std::coroutine_handle<> h) { ++n; h.resume(); }); out(n); out(mk$k()); co_await dd::this_coro::destroy; out(-1); }
void use$k() { run$k(); })",
       [](int a, int b) { return std::vector<long>{b, a}; }},
  };
  return P;
}

std::string subst(const char* t, int k, int a, int b) {
  std::string o;
  for (; *t; ++t)
    if (*t == '$' && (t[1] == 'k' || t[1] == 'a' || t[1] == 'b')) o += std::to_string(t[1] == 'k' ? k : t[1] == 'a' ? a : b), ++t;
    else o += *t;
  return o;
}

struct Unit {
  std::vector<int> hdr;  // in this order
  std::string text;
  int opt = 0;
};

}  // namespace

VF_MODE(unit_prog, 4, false,
        "programs of 1..4 translation units, each including 1..6 of the 18 public headers in random order before anything else, parts of the library (20 kinds) defined in one unit and used in another; "
        "2 compilers, C++20/23, -O0..2, with and without asserts; non-trivial: >=2 units that share >=1 part") {
  const char* root = getenv("VERIF_REPO");
  std::string inc = std::string("-I") + (root ? root : "/repo") + "/include";
  auto& P = parts();
  bool clang = vf::chance(1, 2), cpp23 = vf::chance(1, 4), ndebug = vf::chance(1, 3), mon = vf::chance(1, 8);
  int nu = 1 + vf::pick_w(std::initializer_list<uint32_t>{2, 4, 3, 1}.begin(), 4);
  std::vector<Unit> u(nu);
  std::string want, calls, decls;
  for (int k = 0; k < 6 && vf::chance(3, 4); ++k) {
    auto& p = P[vf::pick(P.size())];
    int d = vf::pick(nu), us = vf::pick(nu), a = vf::range(0, 4), b = vf::range(0, 4);
    auto add = [](Unit& x, const std::vector<const char*>& hs) {
      for (auto* h : hs) {
        int i = 0;
        while (strcmp(HEADERS[i], h)) ++i;
        bool has = false;
        for (int y : x.hdr) has |= y == i;
        if (!has) x.hdr.push_back(i);
      }
    };
    add(u[d], p.dh);
    if (d != us) {
      add(u[us], p.uh);
      u[d].text += subst(p.def, k, a, b) + "\n";
      u[us].text += subst(p.use, k, a, b) + "\n";
    } else {  // both in one unit: apart by namespaces is not possible, so no second declaration of types
      int other = nu > 1 ? (d + 1) % nu : -1;
      if (other < 0) continue;
      add(u[other], p.uh);
      u[d].text += subst(p.def, k, a, b) + "\n";
      u[other].text += subst(p.use, k, a, b) + "\n";
    }
    vf::label(p.name);
    decls += "void use" + std::to_string(k) + "();\n";
    calls += "  use" + std::to_string(k) + "();\n";
    for (long v : p.want(a, b)) want += std::to_string(v) + " ";
  }
  bool shared = !calls.empty();
  want += "end";
  for (auto& x : u) {
    int extra = x.hdr.empty() ? vf::range(1, 3) : vf::small(3);
    for (int i = 0; i < extra; ++i) x.hdr.push_back(vf::pick(NH));
    for (size_t i = 0; i + 1 < x.hdr.size(); ++i) std::swap(x.hdr[i], x.hdr[i + vf::pick(x.hdr.size() - i)]);
    x.opt = vf::pick(3);
  }
  char dir[] = "/tmp/vf-unit-XXXXXX";
  VF_CHECK(mkdtemp(dir), "harness: mkdtemp");
  std::string D = dir, verdict;
  const char* cc = clang ? "clang++" : "g++";
  std::vector<std::string> link{"timeout", "-k", "5", "100", cc, "-pthread", "-o", D + "/prog"}, files{D + "/prog", D + "/log"};
  bool broken = false;  // the machine, not the program
  vf::desc("%s -std=c++%s%s%s\n", cc, cpp23 ? "23" : "20", ndebug ? " -DNDEBUG" : "", mon ? " -DKELCORO_ENABLE_THREADPOOL_MONITORING" : "");
  for (int i = 0; i < nu; ++i) {
    std::string src = D + "/u" + std::to_string(i) + ".cpp", obj = D + "/u" + std::to_string(i) + ".o", t;
    for (int h : u[i].hdr) t += std::string("#include \"kelcoro/") + HEADERS[h] + ".hpp\"\n";
    vf::desc("--- unit %d (-O%d)\n%s%s", i, u[i].opt, t.c_str(), u[i].text.c_str());
    t += "void out(long);\n" + u[i].text;
    if (i == 0) {
      t += decls + "#include <cstdio>\nvoid out(long x) { std::printf(\"%ld \", x); }\nint main() {\n" + calls + "  std::puts(\"end\");\n}\n";
    }
    FILE* f = fopen(src.c_str(), "w");
    VF_CHECK(f, "harness: fopen");
    fwrite(t.data(), 1, t.size(), f);
    fclose(f);
    files.push_back(src);
    files.push_back(obj);
    link.push_back(obj);
    if (!verdict.empty() || broken) continue;
    std::vector<std::string> cmd{"timeout", "-k", "5", "100", cc, cpp23 ? "-std=c++23" : "-std=c++20", "-w", "-O" + std::to_string(u[i].opt), inc, "-c", src, "-o", obj, "-pthread"};
    if (ndebug) cmd.push_back("-DNDEBUG");
    if (mon) cmd.push_back("-DKELCORO_ENABLE_THREADPOOL_MONITORING");
    int rc = exec(cmd, D + "/log", false);
    if (rc) {
      std::string log = slurp(D + "/log");
      if (machine_failed(rc, log)) broken = true;
      else verdict = "unit " + std::to_string(i) + " does not compile: " + first_error(log);
    }
  }
  if (verdict.empty() && !broken) {
    int rc = exec(link, D + "/log", false);
    if (rc < 0 || rc > 100) broken = true;
    else if (rc) verdict = "the units do not link: " + first_error(slurp(D + "/log"));
  }
  if (verdict.empty() && !broken) {
    int rc = exec({"timeout", "-k", "5", "40", D + "/prog"}, D + "/log", false);
    std::string got = slurp(D + "/log");
    while (!got.empty() && got.back() == '\n') got.pop_back();
    if (rc == 124 || rc == 137) verdict = "the program does not end within 40 s, printed: " + got + ", expected: " + want;
    else if (rc) verdict = "the program ended with code " + std::to_string(rc) + ", printed: " + got + ", expected: " + want;
    else if (got != want) verdict = "the program printed: " + got + ", expected: " + want;
  }
  for (auto& f : files) unlink(f.c_str());
  rmdir(dir);
  size_t at;
  while ((at = verdict.find(D)) != std::string::npos) verdict.replace(at, D.size(), "");
  VF_CHECK(verdict.empty(), "%s", verdict.c_str());
  if (broken) return vf::discard();
  vf::label("units", nu);
  if (nu > 1 && shared) vf::nontrivial();
}
