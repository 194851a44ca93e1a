// C16: combined waits over many events at once.
#include "vs_kelcoro.hpp"

namespace {

// combined waits over many events
template <size_t N>
dd::job all_of(std::vector<std::unique_ptr<dd::event<int>>>& e, std::vector<int>& out, int& done) {
  auto r = co_await [&]<size_t... I>(std::index_sequence<I...>) { return dd::when_all(*e[I]...); }(std::make_index_sequence<N>{});
  out.clear();
  std::apply([&](auto&... x) { (out.push_back(x), ...); }, r);
  ++done;
}
template <size_t N>
dd::job any_of(std::vector<std::unique_ptr<dd::event<int>>>& e, std::pair<int, int>& out, int& done) {
  auto r = co_await [&]<size_t... I>(std::index_sequence<I...>) { return dd::when_any(*e[I]...); }(std::make_index_sequence<N>{});
  out = {(int)r.index(), std::visit([](int x) { return x; }, r)};
  ++done;
}
template <size_t N>
void comb_bulk() {
  std::vector<std::unique_ptr<dd::event<int>>> e;
  for (size_t i = 0; i < N; ++i) e.push_back(std::make_unique<dd::event<int>>());
  std::vector<int> all;
  std::pair<int, int> any{-1, -1};
  int all_done = 0, any_done = 0;
  all_of<N>(e, all, all_done);
  any_of<N>(e, any, any_done);
  std::vector<int> order(N);
  for (size_t i = 0; i < N; ++i) order[i] = i;
  for (size_t i = N; i > 1; --i) std::swap(order[i - 1], order[vf::pick(i)]);
  vf::desc("%d events notified, first %d, last %d", (int)N, order.front(), order.back());
  for (size_t k = 0; k < N; ++k) {
    bool r = e[order[k]]->notify_all(dd::this_thread_executor, (int)(order[k] * 3 + 1));
    VF_CHECK(r, "notifying event %d: nobody waits", order[k]);
    VF_CHECK(any_done == 1 && any.first == order[0] && any.second == order[0] * 3 + 1, "first-of %d events: done %d with event %d, the first was %d", (int)N, any_done, any.first, order[0]);
    VF_CHECK(all_done == (k + 1 == N), "all-of %d events: done %d after %d", (int)N, all_done, (int)k + 1);
  }
  for (size_t i = 0; i < N; ++i) VF_CHECK(all[i] == (int)i * 3 + 1, "all-of: input %d is %d", (int)i, all[i]);
  if (N >= 9) vf::nontrivial();
}
VF_MODE(evcomb_bulk, 100, true, "all-of and first-of 2-20 events, notified in random order; non-trivial: >=9 events") {
  switch (vf::pick(4)) {
    case 0: return comb_bulk<2>();
    case 1: return comb_bulk<9>();
    case 2: return comb_bulk<12>();
    default: return comb_bulk<20>();
  }
}

}  // namespace
