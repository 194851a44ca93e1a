// Workers of the harness itself: threads that resume coroutines handed to them.  Hand-over is ordinary
// mutex synchronisation, so a coroutine's own program order is a happens-before order.
#pragma once
#include <deque>
#include <memory>
#include <vector>

#include "vs_kelcoro.hpp"

namespace mt {

struct Crew {
  struct W {
    std::vs_mutex m;
    std::vs_condition_variable cv;
    std::deque<std::coroutine_handle<>> q;
    bool stop = false;
    std::vs_thread th;
  };
  std::vector<std::unique_ptr<W>> ws;
  void (*after_resume)() = nullptr;  // set before anything is posted
  // cells 254: posted, 255: resumed and returned
  enum { POSTED = 254, RETURNED = 255 };

  explicit Crew(int n) {
    for (int i = 0; i < n; ++i) ws.push_back(std::make_unique<W>());
    for (auto& w : ws) {
      W* p = w.get();
      p->th = std::vs_thread([this, p] { loop(*p); });
    }
  }
  void loop(W& w) {
    for (;;) {
      std::coroutine_handle<> h;
      {
        std::unique_lock l(w.m);
        w.cv.wait(l, [&] { return w.stop || !w.q.empty(); });
        if (w.q.empty()) return;
        h = w.q.front();
        w.q.pop_front();
      }
      h.resume();
      if (after_resume) after_resume();
      vs_add(RETURNED, 1);
    }
  }
  void post(int i, std::coroutine_handle<> h) {
    W& w = *ws[i % ws.size()];
    vs_add(POSTED, 1);
    {
      std::lock_guard l(w.m);
      w.q.push_back(h);
      w.cv.notify_one();  // under the lock: the crew may be gone as soon as `h` was taken
    }
  }
  // waits until whatever was posted has run, including what it posted itself
  void quiesce() {
    while (vs_get(RETURNED) < vs_get(POSTED)) vs_wait_ge(RETURNED, vs_get(POSTED), "posted coroutines to run");
  }
  // every coroutine must have finished before (otherwise it could post to a stopped worker)
  void stop() {
    for (auto& w : ws) {
      {
        std::lock_guard l(w->m);
        w->stop = true;
      }
      w->cv.notify_one();
    }
    for (auto& w : ws) w->th.join();
    ws.clear();
  }
  ~Crew() {
    if (!ws.empty()) stop();
  }
  struct Hop {
    Crew* c;
    int k;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) const { c->post(k, h); }
    void await_resume() const noexcept {}
  };
  Hop hop(int k) { return Hop{this, k}; }
};

}  // namespace mt
