// C30: where an exception that leaves a coroutine body goes: to the one consumer, nowhere (results nobody asks for), or to
// std::terminate (bodies without a consumer). Every case runs in a process of its own.
#include <optional>
#include <ranges>
#include <semaphore>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <utility>
#include "kelcoro/kelcoro.hpp"
#include "kelcoro/algorithm.hpp"
#include "kelcoro/inplace_generator.hpp"
#include "progs.hpp"

using px::current_exc_id;
using px::do_throw;

namespace {

enum Kind {
  K_TASK,        // awaited
  K_TASK_WAIT,   // waited for, result not asked for
  K_TASK_DET,    // started and detached
  K_ASYNC_GET,
  K_ASYNC_IGN,   // waited for or not, result not asked for
  K_ASYNC_DET,
  K_GEN,
  K_INPL,
  K_CHAN,
  K_JOB,
  K_LTHREAD,
  K_JOB_WORKER,   // jumps onto a worker first
  K_LT_WORKER,
  K_SCHED,        // function given to schedule_to
  K_SCHED_RES,    // with a memory resource
  K_SCHED_WORKER,
  K_POOL,         // thread_pool::schedule
  K_CALLBACK,     // event callback
  K_ALL,          // one of two of a when_all
  K_LT_STOPPED,   // stop was requested before it fails
  K_LT_DETACHED,  // detached before it fails
  K_ASYNC_LEFT,   // detached / dropped while it was suspended
  K_ASYNC_LATE,   // get after it suspended
  K_TASK_LEFT,    // started, suspended, detached
  K_CHAN_TWICE,   // spliced twice into a channel whose consumer never takes the failures
  N_KIND
};
const char* kname[] = {"task", "task.wait", "detached task", "async_task.get", "ignored async_task", "detached async_task", "generator", "inplace_generator", "channel", "job",
                       "logical_thread", "job on a worker", "logical_thread on a worker", "schedule_to function", "schedule_to function, resource", "function on a worker",
                       "function on a pool", "event callback", "when_all", "stopped logical_thread", "detached logical_thread", "abandoned async_task",
                       "late async_task", "suspended detached task", "channel, spliced twice, failures not taken"};
bool is_fn(int k) { return k == K_SCHED || k == K_SCHED_RES || k == K_SCHED_WORKER || k == K_POOL || k == K_CALLBACK; }
bool needs_coro(int k) { return k == K_TASK || k == K_TASK_WAIT || k == K_CHAN || k == K_ALL || k == K_CHAN_TWICE; }
// what becomes of a failure
enum Fate { TO_PARENT, IGNORED, TERMINATES };
Fate fate(int k) {
  switch (k) {
    case K_TASK: case K_ASYNC_GET: case K_ASYNC_LATE: case K_GEN: case K_INPL: case K_CHAN: return TO_PARENT;
    case K_TASK_WAIT: case K_TASK_DET: case K_ASYNC_IGN: case K_ASYNC_DET: case K_ALL: case K_ASYNC_LEFT: case K_TASK_LEFT: case K_CHAN_TWICE: return IGNORED;
    default: return TERMINATES;
  }
}

struct Node;
struct Step {
  int act;  // 0 emit, 1 throw, 2 child, 3 child in try/catch
  int v;
  Node* child;
};
struct Node {
  int id, kind;
  std::vector<Step> st;
};

struct Log {
  enum { MAX = 512 };
  int n;
  int ev[MAX][2];
  void add(int e, int v) {
    if (n < MAX) {
      ev[n][0] = e;
      ev[n][1] = v;
      ++n;
    }
  }
};
enum { E_ENTER, E_EMIT, E_LEAVE, E_CAUGHT, E_BACK, E_TERM, E_DONE };
const char* ename[] = {"enter", "emit", "leave", "caught", "back from", "terminate", "done"};
std::string show(const Log& l) {
  std::string s;
  for (int i = 0; i < l.n; ++i) s += std::string(i ? "," : "") + ename[l.ev[i][0]] + std::to_string(l.ev[i][1]);
  return "[" + s + "]";
}
Log* L;

// ---- the code under test
struct Env {
  std::optional<dd::worker> worker;
  std::optional<dd::thread_pool> pool;
};
Env* E;

#define BODY(NODE, EXT)                                  \
  L->add(E_ENTER, (NODE).id);                            \
  for (Step & s : (NODE).st) switch (s.act) {            \
      case 0: L->add(E_EMIT, s.v); break;                \
      case 1: do_throw(s.v);                             \
      case 2: EXT(s) L->add(E_BACK, s.child->id); break; \
      case 3: {                                          \
        int caught = -1;                                 \
        try {                                            \
          EXT(s)                                         \
        } catch (...) {                                  \
          caught = current_exc_id();                     \
        }                                                \
        if (caught >= 0) L->add(E_CAUGHT, caught);       \
        else L->add(E_BACK, s.child->id);                \
        break;                                           \
      }                                                  \
    }                                                    \
  L->add(E_LEAVE, (NODE).id);

void plain_child(Node& n);
dd::task<void> t_body(Node& n);
dd::channel<int> c_body(Node& n);
dd::channel<int> c_twice(Node& n);

#define NOCORO(s) plain_child(*s.child);
#define CORO(s)                                           \
  if (s.child->kind == K_TASK) co_await t_body(*s.child); \
  else if (s.child->kind == K_TASK_WAIT) {                \
    auto t = t_body(*s.child);                            \
    co_await t.wait();                                    \
  } else if (s.child->kind == K_CHAN) {                   \
    auto c = c_body(*s.child);                            \
    co_foreach(int x, c) (void)x;                         \
  } else if (s.child->kind == K_CHAN_TWICE) {             \
    auto c = c_twice(*s.child);                           \
    for (int i = 0; i < 6; ++i) (void)co_await c.next();  \
  } else if (s.child->kind == K_ALL) {                    \
    Node quiet{s.child->id + 1000, K_TASK, {}};           \
    (void)co_await dd::when_all(t_body(*s.child), t_body(quiet)); \
  } else                                                  \
    plain_child(*s.child);

struct Park {  // suspends until somebody resumes the handle
  std::coroutine_handle<>* h;
  bool await_ready() const noexcept { return !h; }
  void await_suspend(std::coroutine_handle<> x) const noexcept { *h = x; }
  void await_resume() const noexcept {}
};
dd::task<void> t_body(Node& n) { BODY(n, CORO) }
dd::task<void> tp_body(Node& n, std::coroutine_handle<>* park) {
  co_await Park{park};
  BODY(n, CORO)
}
dd::async_task<void> a_body(Node& n, std::coroutine_handle<>* park = nullptr) {
  co_await Park{park};
  BODY(n, CORO)
}
dd::channel<int> c_body(Node& n) {
  co_yield 1;
  BODY(n, CORO)
  co_yield 2;
}
dd::channel<int> c_twice(Node& n) {
  co_yield dd::elements_of(c_body(n));
  co_yield dd::elements_of(c_body(n));
}
dd::generator<int> g_body(Node& n) {
  co_yield 1;
  BODY(n, NOCORO)
  co_yield 2;
}
dd::inplace_generator<int> i_body(Node& n) {
  co_yield 1;
  BODY(n, NOCORO)
  co_yield 2;
}
dd::job j_body(Node& n, std::binary_semaphore* on_worker) {
  if (on_worker && !co_await dd::jump_on(*E->worker)) co_return;
  BODY(n, CORO)
  if (on_worker) on_worker->release();
}
dd::logical_thread l_body(Node& n, bool on_worker, std::coroutine_handle<>* park = nullptr) {
  co_await Park{park};
  if (on_worker && !co_await dd::jump_on(*E->worker)) co_return;
  BODY(n, CORO)
}
void f_body(Node& n) { BODY(n, NOCORO) }

void plain_child(Node& n) {
  std::binary_semaphore sem(0);
  switch (n.kind) {
    case K_TASK_DET: t_body(n).start_and_detach(); break;
    case K_ASYNC_GET: a_body(n).get(); break;
    case K_ASYNC_IGN: a_body(n).wait(); break;
    case K_ASYNC_DET: a_body(n).detach(); break;
    case K_GEN:
      for (int x : g_body(n)) (void)x;
      break;
    case K_INPL:
      for (int x : i_body(n)) (void)x;
      break;
    case K_JOB: j_body(n, nullptr); break;
    case K_LTHREAD: l_body(n, false).join(); break;
    case K_JOB_WORKER:
      j_body(n, &sem);
      sem.acquire();
      break;
    case K_LT_WORKER: l_body(n, true).join(); break;
    case K_SCHED: dd::schedule_to(dd::this_thread_executor, [&n] { f_body(n); }); break;
    case K_SCHED_RES: dd::schedule_to(dd::this_thread_executor, [&n] { f_body(n); }, dd::with_resource(*std::pmr::new_delete_resource())); break;
    case K_SCHED_WORKER:
      dd::schedule_to(*E->worker, [&] {
        f_body(n);
        sem.release();
      });
      sem.acquire();
      break;
    case K_POOL:
      E->pool->schedule([&] {
        f_body(n);
        sem.release();
      });
      sem.acquire();
      break;
    case K_CALLBACK: {
      dd::event<int> ev;
      ev.set_callback([&n](int) { f_body(n); });
      ev.notify_all(dd::this_thread_executor, 1);
      break;
    }
    case K_LT_STOPPED: {
      std::coroutine_handle<> h;
      auto l = l_body(n, false, &h);
      l.request_stop();
      h.resume();
      l.join();
      break;
    }
    case K_LT_DETACHED: {
      std::coroutine_handle<> h;
      {
        auto l = l_body(n, false, &h);
        if (n.id % 2) l.request_stop();
        l.detach();
      }
      h.resume();
      break;
    }
    case K_ASYNC_LEFT: {
      std::coroutine_handle<> h;
      {
        auto a = a_body(n, &h);
        if (n.id % 2) a.detach();
      }
      h.resume();
      break;
    }
    case K_ASYNC_LATE: {
      std::coroutine_handle<> h;
      auto a = a_body(n, &h);
      h.resume();
      auto b = std::move(a);
      b.get();
      break;
    }
    case K_TASK_LEFT: {
      std::coroutine_handle<> h;
      tp_body(n, &h).start_and_detach();
      h.resume();
      break;
    }
    default: _exit(3);
  }
}

[[noreturn]] void on_terminate() {
  int id = 0;
  if (auto p = std::current_exception()) id = px::exc_id(p);
  L->add(E_TERM, id);
  _exit(0);
}

// ---- the model
struct Terminated {};
struct Fails {
  int id;
};
void model(const Node& n, Log& l) {
  l.add(E_ENTER, n.id);
  for (auto& s : n.st) switch (s.act) {
      case 0: l.add(E_EMIT, s.v); break;
      case 1: throw Fails{s.v};
      default: {
        int failed = -1;
        try {
          model(*s.child, l);
        } catch (Fails& f) {
          failed = f.id;
        }
        if (s.child->kind == K_CHAN_TWICE) {
          try {
            model(*s.child, l);
          } catch (Fails& f) {
            if (failed >= 0) {  // there is room for one failure only
              l.add(E_TERM, f.id);
              throw Terminated{};
            }
            failed = f.id;
          }
        }
        if (s.child->kind == K_ALL) {
          l.add(E_ENTER, s.child->id + 1000);
          l.add(E_LEAVE, s.child->id + 1000);
        }
        if (failed >= 0 && fate(s.child->kind) == TERMINATES) {
          l.add(E_TERM, failed);
          throw Terminated{};
        }
        if (failed >= 0 && fate(s.child->kind) == TO_PARENT) {
          if (s.act == 2) throw Fails{failed};
          l.add(E_CAUGHT, failed);
        } else
          l.add(E_BACK, s.child->id);
      }
    }
  l.add(E_LEAVE, n.id);
}

struct Build {
  std::vector<std::unique_ptr<Node>> all;
  int left = 14, next = 1, throws = 0;
  Node* make(int kind, int depth, bool worker) {
    all.push_back(std::make_unique<Node>());
    Node* n = all.back().get();
    n->id = all.size();
    n->kind = kind;
    bool coro = !is_fn(kind) && kind != K_GEN && kind != K_INPL;
    int k = 1 + vf::small(4);
    for (int i = 0; i < k && left > 0; ++i) {
      --left;
      static const uint32_t w[] = {3, 3, 4, 3};
      Step s{(int)vf::pick_w(w, 4), next++, nullptr};
      if (s.act >= 2 && depth >= 4) s.act = 0;
      if (s.act >= 2) {
        int ck = vf::pick(N_KIND);
        if (needs_coro(ck) && !coro) ck = K_ASYNC_GET;
        // what already runs on the only worker must not wait for it
        bool onw = ck == K_JOB_WORKER || ck == K_LT_WORKER || ck == K_SCHED_WORKER || ck == K_POOL;
        if (onw && worker) ck = ck == K_LT_WORKER ? K_LTHREAD : ck == K_JOB_WORKER ? K_JOB : K_SCHED, onw = false;
        s.child = make(ck, depth + 1, worker || onw);
        vf::label(kname[ck]);
      }
      n->st.push_back(s);
      if (s.act == 1) {
        throws++;
        break;
      }
    }
    return n;
  }
};
void print(const Node& n, std::string& o) {
  o += std::string(kname[n.kind]) + " #" + std::to_string(n.id) + " {";
  for (auto& s : n.st) {
    if (s.act == 0) o += " emit " + std::to_string(s.v) + ";";
    if (s.act == 1) o += " throw " + std::to_string(s.v) + ";";
    if (s.act >= 2) {
      o += s.act == 3 ? " try " : " ";
      print(*s.child, o);
      o += ";";
    }
  }
  o += " }";
}

}  // namespace

VF_MODE(term_proc, 50, false,
        "random trees of coroutines and functions of 25 kinds that fail, catch and start each other, on this thread, a worker and a pool, each in a process of its own; "
        "non-trivial: >=1 failure that nobody receives was thrown") {
  Build b;
  Node* root = b.make(K_ASYNC_GET, 0, false);
  std::string txt;
  print(*root, txt);
  vf::desc("%s\n", txt.c_str());
  auto want = std::make_unique<Log>();
  want->n = 0;
  bool term = false, ignored = false;
  try {
    model(*root, *want);
    want->add(E_DONE, 0);
  } catch (Terminated) {
    term = true;
  } catch (Fails& f) {
    want->add(E_CAUGHT, f.id);
    want->add(E_DONE, 0);
  }
  static Log* shared = (Log*)mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shared->n = 0;
  L = shared;
  vf::set_phase("in a process of its own");
  pid_t pid = fork();
  VF_CHECK(pid >= 0, "harness: fork");
  if (pid == 0) {
    alarm(30);
    std::set_terminate(on_terminate);
    Env env;
    E = &env;
    env.worker.emplace();
    env.pool.emplace(1);
    try {
      a_body(*root).get();
    } catch (...) {
      L->add(E_CAUGHT, current_exc_id());
    }
    env.worker.reset();
    env.pool.reset();
    L->add(E_DONE, 0);
    _exit(0);
  }
  int st = 0;
  VF_CHECK(waitpid(pid, &st, 0) == pid, "harness: waitpid");
  std::string did = show(*shared), should = show(*want);
  VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended with status %x after %s, expected %s", st, did.c_str(), should.c_str());
  // a terminate handler may or may not see the exception
  if (term && shared->n && shared->ev[shared->n - 1][0] == E_TERM && shared->ev[shared->n - 1][1] == 0) shared->ev[shared->n - 1][1] = want->ev[want->n - 1][1], did = show(*shared);
  VF_CHECK(did == should, "the program did %s, expected %s", did.c_str(), should.c_str());
  for (auto& n : b.all)
    for (auto& s : n->st) ignored |= s.act == 1 && fate(n->kind) == IGNORED;
  if (term) vf::label("terminates");
  if (term || ignored) vf::nontrivial();
}
