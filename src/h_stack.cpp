// C21: the lock-free stack (pushes, pushed chains, take-all) under every interleaving.
#include "vs_kelcoro.hpp"

namespace {

struct Node {
  Node* next = nullptr;
  int push = -1;   // id of the latest push of this node (plain: written by the pusher, read by the taker)
  int payload = 0;
};
enum { P_LO = 1, P_HI, T_LO, T_HI };

struct P {  // one node of one push
  int chain, pos;
  int lo = -1, hi = 1 << 30;
  int take = -1, at = -1;
};
struct Tk {
  int lo = -1, hi = 1 << 30;
};
struct World {
  std::vector<P> ps;   // index: push id
  int n_take = 0;
};
struct Op {
  int kind;  // 0 push, 1 chain, 2 take, 3 push again what was taken (as a chain), 4 push again one by one, 5 yield
  int len, id;
};

VF_MODE(stack_mt, 20, true,
        "1-4 threads push nodes and chains, take everything, and push what they took again (chain or one by one) on one stack under a random schedule with spurious CAS failures; "
        "non-trivial: >=2 threads, >=2 takes of nodes, >=3 switches") {
  World w;
  int nt = vf::range(1, 4);
  std::vector<std::vector<Op>> ops(nt);
  int n_new = 0;
  for (int t = 0; t < nt; ++t) {
    int n = vf::range(1, 6);
    for (int i = 0; i < n; ++i) {
      static const uint32_t ww[] = {6, 3, 4, 2, 2, 1};
      Op o{(int)vf::pick_w(ww, 6), 0, n_new};
      if (o.kind == 0) o.len = 1;
      if (o.kind == 1) o.len = vf::small(3);
      n_new += o.len;
      static const char* kn[] = {"push", "push a chain of", "take all", "push what was taken", "push what was taken one by one", "yield"};
      vf::desc("T%d: %s", t, kn[o.kind]);
      if (o.kind == 1) vf::desc(" %d", o.len);
      vf::desc("\n");
      ops[t].push_back(o);
    }
  }
  std::vector<Node> nodes(n_new);
  // what each thread did, written by that thread only
  struct Rec {
    std::vector<std::array<int, 3>> pushes;  // push id (global, by cell), chain, pos
    std::vector<std::pair<int, std::vector<int>>> takes;
  };
  std::vector<Rec> rec(nt + 1);
  enum { C_PUSH = 0, C_TAKE = 1, C_CHAIN = 2 };
  {
    vs::Run run;
    dd::nonowner_lockfree_stack<Node> st;
    auto tag = [&](Node* n, Rec& r, int chain, int pos) {
      int id = vs_add(C_PUSH, 1) - 1;
      n->push = id;
      n->payload = id * 7 + 1;
      r.pushes.push_back({id, chain, pos});
      vs_log(P_LO, id, 0, 0);
      return id;
    };
    auto push_chain = [&](Node* top, Rec& r) {
      int chain = vs_add(C_CHAIN, 1), pos = 0;
      int ids[64], k = 0;
      for (Node* n = top; n; n = n->next) ids[k++] = tag(n, r, chain, pos++);
      st.push_stack(top);
      for (int i = 0; i < k; ++i) vs_log(P_HI, ids[i], 0, 0);
    };
    auto push_one = [&](Node* n, Rec& r) {
      int id = tag(n, r, vs_add(C_CHAIN, 1), 0);
      st.push(n);
      vs_log(P_HI, id, 0, 0);
    };
    auto take = [&](Rec& r) {
      int t = vs_add(C_TAKE, 1) - 1;
      vs_log(T_LO, t, 0, 0);
      Node* top = st.try_pop_all();
      vs_log(T_HI, t, 0, 0);
      r.takes.push_back({t, {}});
      int k = 0;
      for (Node* n = top; n; n = n->next) {
        VF_CHECK(n >= nodes.data() && n < nodes.data() + nodes.size(), "a node that was never pushed was taken");
        VF_CHECK(n->payload == n->push * 7 + 1, "push %d: what was written before it is not visible to the taker", n->push);
        VF_CHECK(++k <= n_new, "the taken chain does not end");
        r.takes.back().second.push_back(n->push);
      }
      return top;
    };
    auto client = [&](int t) {
      Rec& r = rec[t];
      Node* mine = nullptr;  // taken and not pushed again
      for (auto& o : ops[t]) switch (o.kind) {
          case 0: push_one(&nodes[o.id], r); break;
          case 1: {
            Node* top = nullptr;
            for (int i = o.len; i-- > 0;) nodes[o.id + i].next = top, top = &nodes[o.id + i];
            push_chain(top, r);
            break;
          }
          case 2: {
            Node* top = take(r);
            // keep both: append
            if (top) {
              Node* last = top;
              while (last->next) last = last->next;
              last->next = mine;
              mine = top;
            }
            break;
          }
          case 3: push_chain(std::exchange(mine, nullptr), r); break;
          case 4:
            while (mine) {
              Node* n = mine;
              mine = n->next;
              push_one(n, r);
            }
            break;
          case 5: vs_yield(); break;
        }
    };
    std::vector<std::vs_thread> ts;
    for (int t = 1; t < nt; ++t) ts.emplace_back([&, t] { client(t); });
    client(0);
    for (auto& t : ts) t.join();
    take(rec[nt]);
    VF_CHECK(st.try_pop_all() == nullptr, "the stack is not empty after everything was taken");
  }
  // history
  std::vector<P> ps(vs_get(C_PUSH));
  std::vector<Tk> tk(vs_get(C_TAKE));
  for (auto& r : rec)
    for (auto& p : r.pushes) ps[p[0]].chain = p[1], ps[p[0]].pos = p[2];
  for (int i = 0; i < vs_nlog(); ++i) {
    vs_ev e = vs_log_at(i);
    if (e.kind == P_LO) ps[e.a].lo = i;
    if (e.kind == P_HI) ps[e.a].hi = i;
    if (e.kind == T_LO) tk[e.a].lo = i;
    if (e.kind == T_HI) tk[e.a].hi = i;
  }
  int full = 0;
  for (auto& r : rec)
    for (auto& [t, v] : r.takes) {
      full += !v.empty();
      for (size_t i = 0; i < v.size(); ++i) {
        P& p = ps[v[i]];
        VF_CHECK(p.take == -1, "push %d was taken twice", v[i]);
        p.take = t;
        p.at = i;
        VF_CHECK(p.lo < tk[t].hi, "push %d was taken by a take that ended before it", v[i]);
      }
      // order: the newer first, chains as they were
      for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = i + 1; j < v.size(); ++j) {
          P &a = ps[v[i]], &b = ps[v[j]];  // a is above b
          if (a.chain == b.chain) VF_CHECK(a.pos < b.pos, "pushes %d and %d of one chain are taken in the wrong order", v[i], v[j]);
          else VF_CHECK(!(a.hi < b.lo), "push %d was over before push %d began, but is above it", v[i], v[j]);
        }
    }
  for (size_t i = 0; i < ps.size(); ++i) {
    VF_CHECK(ps[i].take >= 0, "push %zu is lost", i);
    for (size_t t = 0; t < tk.size(); ++t)
      if ((int)t != ps[i].take && ps[i].hi < tk[t].lo && tk[t].hi < tk[ps[i].take].lo)
        vf::fail("push %zu was missed by take %zu and taken by the later %d", i, t, ps[i].take);
  }
  vf::label("pushes", ps.size());
  vf::label("takes", tk.size());
  if (nt >= 2 && full >= 2 && vs_switches() >= 3) vf::nontrivial();
}

}  // namespace
