// C28: awaiting, yielding and transferring control again and again uses bounded stack.  Only meaningful with a
// compiler that turns symmetric transfer into jumps whatever the surrounding code is: the clang flavour.
#include "kelcoro/kelcoro.hpp"
#include "kelcoro/job.hpp"
#include "kelcoro/stack_memory_resource.hpp"

#include "vf.h"

#include <memory>
#include <memory_resource>
#include <vector>

namespace {

char *lo, *hi;
long marks;
__attribute__((noinline, no_sanitize("address"))) void mark() {
  char* p = (char*)__builtin_frame_address(0);
  if (!lo || p < lo) lo = p;
  if (!hi || p > hi) hi = p;
  ++marks;
}

enum Kind { K_TASK, K_CHAN, K_GEN, N_KINDS };
const char* kn[] = {"task", "channel", "generator"};
struct Node;
struct Op {
  int how = 0;   // tasks: 0 run the child; channels and generators: 0 run, 1 splice, 2 yield values
  int reps = 1;
  Node* child = nullptr;
};
struct Node {
  int id = 0;
  Kind kind = K_TASK;
  int chain = 0;     // so many coroutines of this kind on top of the body, each awaiting/splicing the next one
  bool res = false;  // frames from a memory resource
  bool thrw = false; // ends with an exception
  int via = 0;       // how tasks are awaited, how channels are iterated
  int out = 0;       // channels and generators: values they produce in all
  std::vector<Op> ops;
};
struct Boom {};

using Tag = dd::with_pmr_resource;
Tag tag() { return dd::with_resource(*std::pmr::new_delete_resource()); }

dd::task<int> run_task(Node& n, int c);
dd::task<int> run_task(Node& n, int c, Tag);
dd::channel<int> run_chan(Node& n, int c);
dd::channel<int> run_chan(Node& n, int c, Tag);
dd::generator<int> run_gen(Node& n, int c);
dd::generator<int> run_gen(Node& n, int c, Tag);
#define MAKE(f, n, c) ((n).res ? f(n, c, tag()) : f(n, c))

void values(Node& n, int got, bool threw) {
  VF_CHECK(threw == n.thrw, "%s %d %s", kn[n.kind], n.id, threw ? "failed" : "did not fail");
  if (n.kind != K_TASK && !threw) VF_CHECK(got == n.out, "%s %d gave %d values, expected %d", kn[n.kind], n.id, got, n.out);
}
// runs a child of any kind to its end from a coroutine that can await
#define RUN_AWAIT(x)                                           \
  {                                                            \
    Node& d = (x);                                             \
    int got = 0;                                               \
    bool threw = false;                                        \
    try {                                                      \
      if (d.kind == K_TASK) {                                  \
        auto t = MAKE(run_task, d, d.chain);                   \
        if (d.via) {                                           \
          co_await t.wait();                                   \
          mark();                                              \
        }                                                      \
        got = co_await t;                                      \
      } else if (d.kind == K_CHAN) {                           \
        auto ch = MAKE(run_chan, d, d.chain);                  \
        if (d.via) {                                           \
          while (co_await ch.next()) mark(), ++got;            \
          if (auto e = ch.take_exception()) std::rethrow_exception(e); \
        } else                                                 \
          co_foreach(int v, ch) {                              \
            (void)v;                                           \
            mark();                                            \
            ++got;                                             \
          }                                                    \
      } else                                                   \
        for (int v : MAKE(run_gen, d, d.chain)) {              \
          (void)v;                                             \
          mark();                                              \
          ++got;                                               \
        }                                                      \
    } catch (Boom&) {                                          \
      threw = true;                                            \
    }                                                          \
    mark();                                                    \
    values(d, got, threw);                                     \
  }

#define TASK_BODY                                              \
  mark();                                                      \
  if (c) {                                                     \
    int r = co_await MAKE(run_task, n, c - 1);                 \
    mark();                                                    \
    co_return r;                                               \
  }                                                            \
  for (auto& o : n.ops)                                        \
    for (int i = 0; i < o.reps; ++i) RUN_AWAIT(*o.child)       \
  if (n.thrw) throw Boom{};                                    \
  co_return 1;
dd::task<int> run_task(Node& n, int c) { TASK_BODY }
dd::task<int> run_task(Node& n, int c, Tag) { TASK_BODY }

#define CHAN_BODY                                              \
  mark();                                                      \
  if (c) {                                                     \
    co_yield dd::elements_of(MAKE(run_chan, n, c - 1));        \
    mark();                                                    \
    co_return;                                                 \
  }                                                            \
  for (auto& o : n.ops)                                        \
    for (int i = 0; i < o.reps; ++i) {                         \
      if (o.how == 2) {                                        \
        if (i % 3 == 1) co_yield int(i);                       \
        else if (i % 3 == 2) co_yield dd::by_ref<int>{i};      \
        else co_yield i;                                       \
      } else if (o.how == 1) co_yield dd::elements_of(MAKE(run_chan, *o.child, o.child->chain)); \
      else RUN_AWAIT(*o.child)                                 \
      mark();                                                  \
    }                                                          \
  if (n.thrw) throw Boom{};
dd::channel<int> run_chan(Node& n, int c) { CHAN_BODY }
dd::channel<int> run_chan(Node& n, int c, Tag) { CHAN_BODY }

#define GEN_BODY                                               \
  mark();                                                      \
  if (c) {                                                     \
    co_yield dd::elements_of(MAKE(run_gen, n, c - 1));         \
    mark();                                                    \
    co_return;                                                 \
  }                                                            \
  for (auto& o : n.ops)                                        \
    for (int i = 0; i < o.reps; ++i) {                         \
      if (o.how == 2) {                                        \
        if (i % 3 == 1) co_yield int(i);                       \
        else if (i % 3 == 2) co_yield dd::by_ref<int>{i};      \
        else co_yield i;                                       \
      } else if (o.how == 1) co_yield dd::elements_of(MAKE(run_gen, *o.child, o.child->chain)); \
      mark();                                                  \
    }                                                          \
  if (n.thrw) throw Boom{};
dd::generator<int> run_gen(Node& n, int c) { GEN_BODY }
dd::generator<int> run_gen(Node& n, int c, Tag) { GEN_BODY }

// rings of coroutines which hand control to each other
struct Ring {
  std::vector<std::coroutine_handle<>> hs;
  int left = 0, form = 0, alive = 0;
};
dd::job member(Ring& r, size_t i) {
  r.alive++;
  co_await std::suspend_always{};
  while (r.left > 0) {
    r.left--;
    mark();
    auto next = r.hs[(i + 1) % r.hs.size()];
    if (r.form == 0) co_await dd::transfer_control_to{next};
    else co_await dd::this_coro::suspend_and([&](std::coroutine_handle<>) { return next; });
  }
  mark();
  r.alive--;
  // the rest is destroyed one after another
  if (i + 1 < r.hs.size() && r.alive) {
    for (size_t k = 0; k < r.hs.size(); ++k)
      if (k != i) r.hs[k].destroy(), r.alive--;
  } else if (r.alive)
    for (size_t k = 0; k < r.hs.size(); ++k)
      if (k != i) r.hs[k].destroy(), r.alive--;
}
struct Chain {
  int left = 0, born = 0;
};
dd::job link(Chain& c) {
  c.born++;
  mark();
  co_await std::suspend_always{};
  mark();
  if (c.left-- > 0) {
    auto j = link(c);
    co_await dd::this_coro::destroy_and_transfer_control_to(j.handle);
  }
}

struct Gen {
  std::vector<std::unique_ptr<Node>> nodes;
  bool chained = false, looped = false;

  Node* make(Kind k, int depth, int budget) {
    nodes.push_back(std::make_unique<Node>());
    Node& n = *nodes.back();
    n.id = nodes.size() - 1;
    n.kind = k;
    n.res = vf::chance(1, 4);
    n.via = vf::pick(2);
    n.thrw = vf::chance(1, 5);
    if (budget >= 1500 && vf::chance(1, 3)) {
      n.chain = 1500 + vf::pick(500);
      budget = 1;
      chained = true;
    }
    vf::desc("%*s%s %d%s%s", depth * 2, "", kn[k], n.id, n.res ? ", memory resource" : "", n.thrw ? ", throws" : "");
    if (n.chain) vf::desc(", below %d others of its kind", n.chain);
    vf::desc(", form %d\n", n.via);
    int nops = vf::range(1, 3);
    for (int i = 0; i < nops; ++i) {
      Op o;
      bool leaf = depth >= 4 || vf::chance(1, 3);
      if (k == K_TASK) {
        if (leaf && depth) break;
        o.how = 0;
      } else if (k == K_CHAN)
        o.how = leaf ? 2 : vf::pick(2);
      else
        o.how = leaf ? 2 : 1;
      o.reps = 1;
      if (budget >= 1500 && vf::chance(1, 2)) o.reps = 1500 + vf::pick(500), looped = true;
      vf::desc("%*s%d times: %s\n", depth * 2 + 1, "", o.reps, o.how == 2 ? "yield a value" : o.how == 1 ? "splice" : "run");
      Kind ck = o.how == 1 ? k : (Kind)vf::pick(3);
      if (o.how != 2) {
        o.child = make(ck, depth + 1, o.reps > 1 ? 1 : budget);
        if (o.how == 1 && o.child->thrw) {  // would end the body that splices it; there is only one catch per run
          o.child->thrw = false;
        }
      }
      n.ops.push_back(o);
      n.out += o.how == 2 ? o.reps : o.how == 1 ? o.reps * o.child->out : 0;
    }
    return &n;
  }
};

}  // namespace

VF_MODE(depth_seq, 20, true,
        "random programs of tasks, channels and generators that await, iterate and splice each other 1500-2000 times in loops or in chains 1500-2000 deep (with failures and memory resources), rings "
        "and chains of control transfers; the stack used between any two points may not exceed 24 KB; non-trivial: a loop or a chain of >=1500") {
  Gen g;
  lo = hi = nullptr;
  marks = 0;
  int what = vf::pick(6);
  if (what == 5) {
    int n = 1500 + vf::pick(1500);
    int k = vf::range(1, 3), form = vf::pick(3);
    vf::desc("%s of %d, %d transfers\n", form == 2 ? "chain" : "ring", k, n);
    if (form == 2) {
      Chain c;
      c.left = n;
      link(c).handle.resume();
      VF_CHECK(c.born == n + 1, "%d links of %d were made", c.born, n + 1);
    } else {
      Ring r;
      r.left = n;
      r.form = form;
      for (int i = 0; i < k; ++i) r.hs.push_back(member(r, i).handle);
      r.hs[0].resume();
      VF_CHECK(r.alive == 0 && r.left == 0, "the ring did not run to its end");
    }
    vf::nontrivial();
  } else {
    Node* n = g.make(K_TASK, 0, 2000);
    auto t = MAKE(run_task, *n, n->chain);
    if (n->via) {
      auto h = t.start_and_detach(true);
      VF_CHECK(h.done(), "the program did not run to its end");
      h.destroy();
    } else {
      bool threw = false;
      try {
        t.get();
      } catch (Boom&) {
        threw = true;
      }
      values(*n, 0, threw);
    }
    if (g.chained) vf::label("chains");
    if (g.looped) vf::label("loops");
    if ((g.chained || g.looped) && marks >= 1500) vf::nontrivial();
  }
  VF_CHECK(hi - lo < 24 * 1024, "%ld bytes of stack lie between points of a program that may need only a bounded amount", (long)(hi - lo));
}
