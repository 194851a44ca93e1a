// C33: generated types are shown to the library's concepts and templates; every answer is compared with the one that the
// generator of the type knows.
#include "prog.hpp"
#include <utility>

namespace {

struct Form {
  const char* text;
  int ok;
};
template <size_t N>
const Form& pick_form(const Form (&f)[N]) {  // both answers equally often
  int want = vf::pick(2);
  for (int i = 0; i < 40; ++i) {
    const Form& x = f[vf::pick(N)];
    if ((x.ok != 0) == want) return x;
  }
  return f[0];
}

struct Q {
  std::string decl, expr;
  bool want;
};
int g_next;
std::string fresh(const char* p) { return p + std::to_string(g_next++); }

const Form ALLOC[] = {
    {"void* allocate(size_t);", 1}, {"void* allocate(size_t, size_t = 16) noexcept;", 1}, {"int* allocate(size_t);", 1}, {"static void* allocate(size_t);", 1},
    {"template <typename I> void* allocate(I);", 1}, {"void* allocate(size_t) const;", 1}, {"void* allocate(int);", 1}, {"std::nullptr_t allocate(size_t);", 1},
    {"void* allocate(size_t) &;", 1}, {"void* allocate(auto...);", 1}, {"", 0}, {"int allocate(size_t);", 0}, {"void allocate(size_t);", 0}, {"const void* allocate(size_t);", 0},
    {"void* allocate(size_t) &&;", 0}, {"void* allocate(char*);", 0}, {"void* allocate();", 0}, {"void* allocate(size_t, size_t);", 0},
    {"private: void* allocate(size_t); public:", 0}, {"void* allocate(size_t) = delete;", 0}, {"void* alloc(size_t);", 0},
};
const Form DEALLOC[] = {
    {"void deallocate(void*, size_t) noexcept;", 1}, {"void deallocate(void*, size_t);", 1}, {"void deallocate(void*, size_t) const;", 1}, {"static void deallocate(void*, size_t);", 1},
    {"void deallocate(void*, size_t, size_t = 0);", 1}, {"void deallocate(const void*, size_t);", 1}, {"template <typename P> void deallocate(P, size_t);", 1}, {"void deallocate(bool, int);", 1},
    {"", 0}, {"int deallocate(void*, size_t);", 0}, {"void deallocate(void*);", 0}, {"void deallocate(char*, size_t);", 0}, {"void deallocate(void*, size_t) &&;", 0},
    {"private: void deallocate(void*, size_t); public:", 0}, {"void deallocate(void*, size_t) = delete;", 0}, {"void* deallocate(void*, size_t);", 0}, {"void deallocate(size_t, void*);", 0},
};
// what moving does; $ is the type
const Form MOVE[] = {
    {"", 1}, {"$($&&) noexcept;", 1}, {"$(const $&) noexcept;", 1}, {"$($&&) noexcept; $(const $&);", 1},
    {"$($&&);", 0}, {"$($&&) = delete;", 0}, {"$(const $&);", 0}, {"~$() noexcept(false);", 0}, {"$($&) noexcept;", 0}, {"private: $($&&) noexcept; public:", 0},
};

std::string put(const char* t, const std::string& name) {
  std::string o;
  for (; *t; ++t)
    if (*t == '$') o += name;
    else o += *t;
  return o;
}

// at most one of the conditions is broken in most cases
void q_resource(std::vector<Q>& v) {
  std::string n = fresh("R");
  int broken = vf::pick(8);
  auto form = [&](auto& f, int k) -> const Form& {
    for (;;) {
      auto& x = pick_form(f);
      if (x.ok || broken == k || (broken == 7 && vf::chance(1, 2))) return x;
    }
  };
  auto &a = form(ALLOC, 0), &d = form(DEALLOC, 1), &m = form(MOVE, 2);
  bool empty = vf::chance(1, 2);
  int al = broken == 3 ? 32 << vf::pick(2) : vf::pick(3) ? 0 : 1 << vf::range(empty ? 0 : 3, 4);
  // default construction: 0 possible, 1 not declared, 2 private, 3 explicit
  int dc = broken == 4 ? 1 + vf::pick(2) : vf::chance(1, 4) ? 3 : 0;
  std::string t = "struct ";
  if (al) t += "alignas(" + std::to_string(al) + ") ";
  t += n + " { " + put(m.text, n) + " ";
  if (dc == 0) t += n + "() = default; ";
  if (dc == 1) t += n + "(int*); ";
  if (dc == 2) t += "private: " + n + "() = default; public: ";
  if (dc == 3) t += "explicit " + n + "(); ";
  if (!empty) t += vf::chance(1, 2) ? "int state; " : "std::shared_ptr<int> state; ";
  t += std::string(a.text) + " " + d.text + " };";
  bool ok = a.ok && d.ok && m.ok && al <= 16 && !(empty && (dc == 1 || dc == 2));
  // implicit moves of a shared_ptr are fine, too
  v.push_back({t, "dd::memory_resource<" + n + ">", ok});
  switch (vf::pick(3)) {
    case 0: v.push_back({"", "dd::memory_resource<" + n + "&>", false}); break;
    case 1: v.push_back({"", "dd::memory_resource<" + n + "&&>", false}); break;
    case 2: v.push_back({"", "can_with<" + n + ">", ok}); break;
  }
}

// ok: 1 for objects, 2 also const ones
const Form ATTACH[] = {
    {"void attach(dd::task_node*);", 1}, {"int attach(dd::task_node*) noexcept;", 1}, {"void attach(dd::task_node*) const;", 2}, {"template <typename N> void attach(N*);", 1},
    {"void attach(void*);", 1}, {"void attach(const dd::task_node*);", 1}, {"static void attach(dd::task_node*);", 2}, {"void attach(dd::task_node*, int = 0);", 1}, {"void attach(auto&&...) const;", 2},
    {"void attach(dd::task_node*) &;", 1}, {"void attach(bool) const&;", 2}, {"", 0}, {"void attach(dd::task_node&);", 0}, {"void attach(dd::task_node*) &&;", 0}, {"private: void attach(dd::task_node*); public:", 0},
    {"void attach(dd::task_node*) = delete;", 0}, {"void attach();", 0}, {"void attach(dd::task_node**);", 0}, {"void attach(int);", 0}, {"void atach(dd::task_node*);", 0}, {"void attach(dd::task_node*, int);", 0},
};
void q_executor(std::vector<Q>& v) {
  std::string n = fresh("E");
  auto& f = pick_form(ATTACH);
  std::string t = "struct " + n + " { " + f.text + " };";
  switch (vf::pick(6)) {
    case 0: v.push_back({t, "dd::executor<" + n + ">", f.ok > 0}); break;
    case 1: v.push_back({t, "dd::executor<" + n + "&>", f.ok > 0}); break;
    case 2: v.push_back({t, "dd::executor<const " + n + ">", f.ok > 1}); break;
    case 3: v.push_back({t, "std::is_constructible_v<dd::any_executor_ref, " + n + "&>", f.ok > 0}); break;
    case 4: v.push_back({t, "std::is_convertible_v<" + n + "&, dd::any_executor_ref>", f.ok > 0}); break;
    case 5: v.push_back({t, "std::is_constructible_v<dd::any_executor_ref, " + n + ">", false}); break;  // would dangle
  }
  if (vf::chance(1, 6)) {
    static const char* own[] = {"dd::thread_pool", "dd::worker", "dd::strand", "dd::task_queue", "dd::any_executor_ref", "dd::this_thread_executor_t", "dd::new_thread_executor_t", "dd::noop_executor_t"};
    v.push_back({"", std::string("dd::executor<") + own[vf::pick(8)] + ">", true});
  }
}

// how a member or parameter takes an object: by & (1), && (2), const& (4), const&& (8), anything (16)
bool takes(int how, bool lvalue, bool cnst) {
  switch (how) {
    case 1: return lvalue && !cnst;
    case 2: return !lvalue && !cnst;
    case 4: return true;
    case 8: return !lvalue;
    case 16: return !cnst;  // member without anything
  }
  return false;
}
void q_await(std::vector<Q>& v) {
  std::string n = fresh("A");
  std::string t = "struct " + n + " { ", after;
  static const int hows[] = {0, 1, 2, 4, 8, 16};
  int mem = vf::chance(1, 2) ? hows[vf::pick(6)] : 0;
  bool hidden = vf::chance(1, 8);
  if (mem) {
    t += hidden ? "private: " : "";
    t += "std::suspend_never operator co_await() ";
    t += mem == 1 ? "&" : mem == 2 ? "&&" : mem == 4 ? "const&" : mem == 8 ? "const&&" : "";
    t += hidden ? "; public: " : "; ";
  }
  int glob = vf::chance(1, 2) ? hows[vf::pick(6)] : 0;  // 16: by value
  if (glob) after = " std::suspend_never operator co_await(" + n + (glob == 16 ? "" : "") + std::string(glob == 1 ? "&" : glob == 2 ? "&&" : glob == 16 ? "" : "") + ");";
  if (glob == 4) after = " std::suspend_never operator co_await(const " + n + "&);";
  if (glob == 8) after = " std::suspend_never operator co_await(const " + n + "&&);";
  // awaiter's own functions: 1 for objects, 2 also const ones
  static const Form READY[] = {{"bool await_ready();", 1}, {"bool await_ready() const;", 2}, {"static bool await_ready();", 2}, {"const bool await_ready() noexcept;", 1}, {"bool await_ready(int = 0) const;", 2},
                               {"", 0}, {"void await_ready();", 0}, {"bool await_ready(int);", 0}, {"private: bool await_ready(); public:", 0}, {"bool await_ready() = delete;", 0}};
  static const Form RESUME[] = {{"void await_resume();", 1}, {"int await_resume() const;", 2}, {"static int& await_resume();", 2}, {"std::unique_ptr<int> await_resume() noexcept;", 1}, {"auto await_resume() const { return 5; }", 2},
                                {"", 0}, {"void await_resume(int);", 0}, {"private: void await_resume(); public:", 0}, {"void await_resume() = delete;", 0}};
  const Form *rd, *rs;
  bool good = vf::chance(1, 2);
  do rd = &pick_form(READY);
  while (good && !rd->ok);
  do rs = &pick_form(RESUME);
  while (good && !rs->ok);
  static const char* sus[] = {"void await_suspend(std::coroutine_handle<>);", "bool await_suspend(std::coroutine_handle<>);", "auto await_suspend(auto h) { return h; }"};
  t += std::string(rd->text) + " " + rs->text + " " + sus[vf::pick(3)] + " };" + after;
  for (int k = vf::range(1, 3); k--;) {
    bool cnst = vf::chance(1, 3);
    int ref = vf::pick(3);  // object, &, &&
    bool lv = ref == 1;
    std::string ty = (cnst ? "const " : "") + n + (ref == 1 ? "&" : ref == 2 ? "&&" : "");
    bool m = mem && !hidden && takes(mem, lv, cnst);
    bool g = glob == 16 || (glob && takes(glob, lv, cnst));
    bool aw = rd->ok > (cnst ? 1 : 0) && rs->ok > (cnst ? 1 : 0);
    std::string d = std::exchange(t, "");
    switch (vf::pick(4)) {
      case 0: v.push_back({d, "dd::has_member_co_await<" + ty + ">", m}); break;
      case 1: v.push_back({d, "dd::has_global_co_await<" + ty + ">", g}); break;
      case 2: v.push_back({d, "dd::co_awaiter<" + ty + ">", aw}); break;
      case 3: v.push_back({d, "dd::co_awaitable<" + ty + ">", m || g || aw}); break;
    }
  }
}

void q_tag(std::vector<Q>& v) {
  static const char* other[] = {"int", "int&", "const char*", "std::string", "const std::string&", "void*", "res<1>", "res<2>&", "dd::generator<int>", "std::unique_ptr<int>&&", "pure&", "int (&)[3]", "void (*)(int)",
                                "dd::with_resource<res<3>>*", "std::vector<dd::with_resource<res<1>>>", "dd::memory_resource_info_lookalike<res<1>>", "std::nullptr_t"};
  static const char* cv[] = {"", "&", "&&"};
  auto tag = [&](std::string& r) {
    int k = vf::pick(5);
    r = k == 4 ? "dd::new_delete_resource" : k == 3 ? "dd::chunk_from<std::pmr::memory_resource>" : "res<" + std::to_string(k) + ">";
    bool cnst = vf::chance(1, 3);
    return std::string(cnst ? "const " : "") + "dd::with_resource<" + r + ">" + cv[vf::pick(3)];
  };
  int n = vf::chance(1, 10) ? vf::range(5, 30) : vf::range(0, 4);
  std::string args, r;
  for (int i = 0; i < n; ++i) {
    std::string dummy;
    args += (i ? ", " : "") + (vf::chance(1, 3) ? tag(dummy) : std::string(other[vf::pick(sizeof other / sizeof *other)]));
  }
  bool last = vf::chance(1, 2);
  if (last) args += (n ? ", " : "") + tag(r);
  else if (n) args += std::string(", ") + other[vf::pick(sizeof other / sizeof *other)];
  if (!last || vf::chance(1, 2)) v.push_back({"", "dd::last_is_memory_resource_tag<" + args + ">", last});
  else {
    bool right = vf::chance(2, 3);
    v.push_back({"", "std::is_same_v<dd::resource_type_t<" + args + ">, " + (right ? r : r == "res<1>" ? "res<2>" : "res<1>") + ">", right});
  }
}

struct Ty {
  const char *t, *val;  // and what it is without reference and cv
  bool yieldable, ref;
};
const Ty TYPES[] = {
    {"int", "int", 1, 0}, {"int&", "int", 1, 1}, {"const int&", "int", 1, 1}, {"std::string", "std::string", 1, 0}, {"const std::string&", "std::string", 1, 1}, {"std::unique_ptr<int>", "std::unique_ptr<int>", 1, 0},
    {"immovable&", "immovable", 1, 1}, {"const immovable&", "immovable", 1, 1}, {"pure&", "pure", 1, 1}, {"void (*)(int)", "void (*)(int)", 1, 0}, {"int (&)[3]", "int*", 1, 1}, {"moveonly", "moveonly", 1, 0},
    {"dd::generator<int>", "dd::generator<int>", 1, 0}, {"odd", "odd", 1, 0}, {"odd&", "odd", 1, 1}, {"immovable", "immovable", 1, 0}, {"const odd&", "odd", 1, 1},
    {"const int", "", 0, 0}, {"int&&", "", 0, 0}, {"int[3]", "", 0, 0}, {"void(int)", "", 0, 0}, {"const std::string", "", 0, 0}, {"const odd&&", "", 0, 0}, {"volatile int", "", 0, 0},
};
const Ty& ty(bool good) {
  for (;;) {
    auto& t = TYPES[vf::pick(sizeof TYPES / sizeof *TYPES)];
    if (t.yieldable == good) return t;
  }
}
void q_yield(std::vector<Q>& v) {
  if (vf::chance(1, 3)) {
    bool good = vf::chance(1, 2);
    auto& t = ty(good);
    static const char* tm[] = {"dd::yieldable<$>", "can_gen<$>", "can_inpl<$>", "can_chan<$>"};
    std::string e;
    for (const char* c = tm[vf::pick(4)]; *c; ++c)
      if (*c == '$') e += t.t;
      else e += *c;
    v.push_back({"", e, good});
    return;
  }
  auto& t = ty(true);
  static const char* gs[] = {"dd::generator", "dd::inplace_generator", "dd::channel"};
  int g = vf::pick(3);
  std::string G = std::string(gs[g]) + "<" + t.t + ">", T = t.t;
  switch (vf::pick(g == 2 ? 3 : 6)) {
    case 0: v.push_back({"", "std::is_nothrow_move_constructible_v<" + G + "> && std::is_nothrow_move_assignable_v<" + G + "> && std::is_nothrow_swappable_v<" + G + ">", true}); break;
    case 1: v.push_back({"", "std::is_copy_constructible_v<" + G + "> || std::is_copy_assignable_v<" + G + ">", false}); break;
    case 2:
      if (g == 2) v.push_back({"", "std::is_same_v<decltype(*co_it(std::declval<" + G + "&>())), std::add_rvalue_reference_t<" + T + ">>", true});
      else v.push_back({"", "std::is_same_v<std::ranges::range_reference_t<" + G + ">, std::add_rvalue_reference_t<" + T + ">>", true});
      break;
    case 3: v.push_back({"", "std::is_same_v<std::ranges::range_value_t<" + G + ">, " + t.val + ">", true}); break;
    case 4: v.push_back({"", "std::ranges::input_range<" + G + "> && std::ranges::viewable_range<" + G + ">", true}); break;
    case 5: v.push_back({"", std::string("std::ranges::") + (vf::chance(1, 2) ? "forward_range<" : "borrowed_range<") + G + ">", false}); break;
  }
}
void q_task(std::vector<Q>& v) {
  auto& t = ty(true);
  std::string T = vf::chance(1, 8) ? "void" : t.t;
  bool movable = T.find("immovable") != 0;  // values which can be results of get
  std::string K = "dd::task<" + T + ">", A = "dd::async_task<" + T + ">";
  std::string R = T == "void" ? "void" : "std::add_rvalue_reference_t<" + T + ">";
  auto same = [&](std::string e) { return T == "void" ? "std::is_void_v<decltype(" + e + ")>" : "std::is_same_v<decltype(" + e + ")&&, " + R + ">"; };
  switch (vf::pick(7)) {
    case 0: v.push_back({"", "std::is_nothrow_move_constructible_v<" + (vf::chance(1, 2) ? K : A) + "> && std::is_nothrow_move_assignable_v<" + (vf::chance(1, 2) ? K : A) + ">", true}); break;
    case 1: v.push_back({"", "std::is_copy_constructible_v<" + (vf::chance(1, 2) ? K : A) + "> || std::is_copy_assignable_v<" + (vf::chance(1, 2) ? K : A) + ">", false}); break;
    case 2: v.push_back({"", same("dd::build_awaiter(std::declval<" + K + ">()).await_resume()"), true}); break;
    case 3: v.push_back({"", same("dd::build_awaiter(std::declval<" + K + "&>()).await_resume()"), true}); break;
    case 4:
      if (movable) v.push_back({"", "std::is_same_v<decltype(std::declval<" + K + ">().get()), " + T + ">", true});
      break;
    case 5: v.push_back({"", same("std::declval<" + A + "&>().get()"), true}); break;
    case 6: {
      auto val = [&](const Ty& x) { return !x.ref && std::string(x.t).find("immovable") != 0; };
      std::string ts, xs;
      int n = vf::range(1, 5);
      for (int i = 0; i < n; ++i) {
        std::string X = "void";
        if (vf::chance(3, 4)) {
          const Ty* x;
          do x = &ty(true);
          while (!val(*x));
          X = x->t;
        }
        ts += std::string(i ? ", " : "") + "std::declval<dd::task<" + X + ">>()";
        xs += std::string(i ? ", " : "") + "dd::expected<" + X + ", std::exception_ptr>";
        if (i + 1 == n && vf::chance(1, 3))
          return v.push_back({"", "std::is_same_v<typename decltype(dd::when_all(std::declval<std::vector<dd::task<" + X + ">>>()))::result_type, std::vector<dd::expected<" + X + ", std::exception_ptr>>>", true});
      }
      if (vf::chance(1, 2)) v.push_back({"", "std::is_same_v<typename decltype(dd::when_all(" + ts + "))::result_type, std::tuple<" + xs + ">>", true});
      else v.push_back({"", "std::is_same_v<typename decltype(dd::when_any(" + ts + "))::result_type, std::variant<std::monostate, " + xs + ">>", true});
    }
  }
}

// what holds for the objects that own coroutines, the resourced ones and their aliases included
void q_owner(std::vector<Q>& v) {
  static const char* ks[] = {"generator", "channel", "task", "async_task", "inplace_generator", "logical_thread", "job"};
  int k = vf::pick(7);
  std::string T = k < 2 || k == 4 ? ty(true).t : vf::chance(1, 6) ? "void" : ty(true).t, base = std::string("dd::") + ks[k], O, own;
  if (k < 5) base += "<" + T + ">";
  int form = k == 4 ? 0 : vf::pick(3);
  std::string args = k < 5 ? T : "";
  if (form == 0) O = base;
  if (form == 1) O = std::string("dd::pmr::") + ks[k] + (k < 5 ? "<" + args + ">" : "<int>");
  if (form == 2) O = std::string("dd::") + ks[k] + "_r<" + args + (k < 5 ? ", " : "") + "res<2>>";
  auto ask = [&](std::string e, bool w) { v.push_back({"", e, w}); };
  switch (vf::pick(9)) {
    case 0: ask("std::is_default_constructible_v<" + O + ">", k != 4); break;
    case 1: ask("std::is_convertible_v<const " + O + "&, bool>", false); break;
    case 2:
      if (k < 5) ask("std::is_constructible_v<bool, const " + O + "&> && noexcept(bool(std::declval<const " + O + "&>()))", true);
      if (k == 5) ask("noexcept(std::declval<const " + O + "&>().joinable()) && noexcept(std::declval<" + O + "&>().request_stop()) && noexcept(std::declval<" + O + "&>().stop_possible())", true);
      break;
    case 3:
      if (k < 5) ask("noexcept(std::declval<const " + O + "&>().empty()) && std::is_same_v<decltype(std::declval<const " + O + "&>().empty()), bool>", true);
      break;
    case 4: ask("std::is_nothrow_move_constructible_v<" + O + "> && std::is_nothrow_move_assignable_v<" + O + ">", true); break;
    case 5:
      if (k != 6) ask("std::is_copy_constructible_v<" + O + "> || std::is_copy_assignable_v<" + O + "> || std::is_constructible_v<" + O + ", " + O + "&>", false);
      break;
    case 6: ask("std::is_nothrow_constructible_v<" + base + ", " + O + ">" + (k != 6 ? " && !std::is_constructible_v<" + base + ", const " + O + "&>" : ""), true); break;
    case 7:
      if (k < 2 || k == 4) ask("std::is_same_v<decltype(std::declval<" + O + "&>().end()), std::default_sentinel_t> && noexcept(std::declval<" + O + "&>().end())", true);
      if (k == 2) ask("std::is_same_v<decltype(std::declval<" + O + "&>().release()), typename " + base + "::handle_type>", true);
      break;
    case 8: {
      // which promise a coroutine has: that of the plain one, or one derived from it which knows the resource
      if (k == 4) break;
      static const char* before[] = {"", "int", "const std::string&, void*", "dd::with_resource<res<4>>, int", "odd&"};
      static const char* cv[] = {"", "&", "&&", "const ", "const &"};
      std::string ps = before[vf::pick(5)];
      bool tag = vf::chance(1, 2);
      if (tag) {
        std::string q = cv[vf::pick(5)], x = "dd::with_resource<res<1>>";
        ps += (ps.empty() ? "" : ", ") + (q.find("const") == 0 ? q.substr(0, 6) + x + q.substr(6) : x + q);
      }
      std::string P = "typename " + base + "::promise_type", got = "typename std::coroutine_traits<" + O + (ps.empty() ? "" : ", " + ps) + ">::promise_type";
      std::string r = form == 2 ? "res<2>" : form == 1 ? "dd::pmr::polymorphic_resource" : "res<1>";
      if (form || tag) ask("std::is_same_v<" + got + ", dd::resourced_promise<" + P + ", " + r + ">>", true);
      else ask("std::is_same_v<" + got + ", " + P + ">", true);
      break;
    }
  }
}

const char* const PRELUDE = R"(
#include <memory>
#include <memory_resource>
#include <string>
#include <tuple>
#include <variant>
#include <vector>
#include <ranges>
namespace dd { template <typename> struct memory_resource_info_lookalike {}; }
template <int> struct res { int n; void* allocate(size_t); void deallocate(void*, size_t); };
struct pure { virtual void f() = 0; };
struct moveonly { moveonly(moveonly&&) noexcept; moveonly& operator=(moveonly&&) noexcept; };
struct immovable { immovable(immovable&&) = delete; };
struct odd { odd(const odd&); odd* operator&() = delete; template <typename T> void operator,(T&&) = delete; };
template <typename T> concept can_with = requires { typename dd::with_resource<T>; };
template <typename T> concept can_gen = requires { typename dd::generator<T>; };
template <typename T> concept can_inpl = requires { typename dd::inplace_generator<T>; };
template <typename T> concept can_chan = requires { typename dd::channel<T>; };
template <typename C> auto co_it(C& c) -> decltype(dd::build_awaiter(c.begin()).await_resume());
)";

}  // namespace

VF_MODE(type_facts, 4, false,
        "1..40 questions about concepts (memory_resource, executor, awaiting), resource tags in parameter lists and deduced types of library templates, over generated structs (members missing, private, deleted, "
        "qualified, with other results) and a catalogue of value types, in one translation unit of 2 compilers, C++20/23; non-trivial: >=1 yes and >=1 no expected of generated types") {
  const char* root = getenv("VERIF_REPO");
  std::string inc = std::string("-I") + (root ? root : "/repo") + "/include";
  bool clang = vf::chance(1, 2), cpp23 = vf::chance(1, 4);
  g_next = 0;
  std::vector<Q> v;
  for (int n = 40; n && vf::chance(29, 30); --n) switch (vf::pick(10)) {
      case 8:
      case 9: q_owner(v); break;
      case 0:
      case 1: q_resource(v); break;
      case 2: q_executor(v); break;
      case 3:
      case 4: q_await(v); break;
      case 5: q_tag(v); break;
      case 6: q_yield(v); break;
      case 7: q_task(v); break;
    }
  char dir[] = "/tmp/vf-types-XXXXXX";
  VF_CHECK(mkdtemp(dir), "harness: mkdtemp");
  std::string D = dir, verdict, src = D + "/t.cpp", t;
  static const char* HS[] = {"kelcoro", "algorithm", "inplace_generator", "memory_support", "logical_thread"};
  for (auto* h : HS) t += std::string("#include \"kelcoro/") + h + ".hpp\"\n";
  t += PRELUDE;
  vf::desc("%s -std=c++%s\n", clang ? "clang++" : "g++", cpp23 ? "23" : "20");
  bool yes = false, no = false;
  for (size_t i = 0; i < v.size(); ++i) {
    t += v[i].decl + "\nstatic_assert((" + v[i].expr + ") == " + (v[i].want ? "true" : "false") + ", \"Q" + std::to_string(i) + "Q\");\n";
    vf::desc("%s%sQ%zu: %s ? %s\n", v[i].decl.c_str(), v[i].decl.empty() ? "" : "\n", i, v[i].expr.c_str(), v[i].want ? "yes" : "no");
    (v[i].want ? yes : no) = true;
  }
  FILE* f = fopen(src.c_str(), "w");
  VF_CHECK(f, "harness: fopen");
  fwrite(t.data(), 1, t.size(), f);
  fclose(f);
  int rc = exec({"timeout", "-k", "5", "100", clang ? "clang++" : "g++", cpp23 ? "-std=c++23" : "-std=c++20", "-w", inc, "-fsyntax-only", src}, D + "/log", false);
  bool broken = false;
  if (rc) {
    std::string log = slurp(D + "/log");
    size_t p = 0;
    for (size_t i = 0; i < v.size() && verdict.empty(); ++i)
      if (log.find("Q" + std::to_string(i) + "Q") != std::string::npos) verdict = v[i].expr + " is " + (v[i].want ? "false" : "true") + " [" + v[i].decl + "]";
    (void)p;
    if (machine_failed(rc, log)) broken = true;
    else if (verdict.empty()) verdict = "the questions do not compile: " + first_error(log);
  }
  unlink(src.c_str());
  unlink((D + "/log").c_str());
  rmdir(dir);
  VF_CHECK(verdict.empty() || broken, "%s", verdict.c_str());
  if (broken) return vf::discard();
  vf::label("questions", v.size());
  if (yes && no) vf::nontrivial();
}
