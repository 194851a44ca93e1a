// Replacement concurrency types: same interface as std, but every operation is a scheduling point of
// vsched.  kelcoro's headers are included between vs_macros_on.hpp and vs_macros_off.hpp.
#pragma once
#include <bits/stdc++.h>
#include "vf.h"
#include "vsched.h"

#if defined(__SANITIZE_ADDRESS__)
  #define VS_ASAN 1
#elif defined(__has_feature)
  #if __has_feature(address_sanitizer)
    #define VS_ASAN 1
  #endif
#endif
#ifndef VS_ASAN
  #define VS_ASAN 0
#endif

namespace std {

// touch the object so that ASAN reports use after free of synchronisation objects
struct vs_canary {
#if VS_ASAN
  volatile char c = 0;
  void touch() const noexcept { (void)c; }
#else
  void touch() const noexcept {}
#endif
};

template <typename T>
struct vs_atomic_base {
 protected:
  mutable std::atomic<T> v;

 public:
  using value_type = T;
  constexpr vs_atomic_base() noexcept(std::is_nothrow_default_constructible_v<T>) : v() {}
  constexpr vs_atomic_base(T x) noexcept : v(x) {}
  vs_atomic_base(const vs_atomic_base&) = delete;
  vs_atomic_base& operator=(const vs_atomic_base&) = delete;
  static constexpr bool is_always_lock_free = std::atomic<T>::is_always_lock_free;
  bool is_lock_free() const noexcept { return v.is_lock_free(); }

  T load(memory_order m = memory_order_seq_cst) const noexcept {
    vs_point();
    T r = v.load(m);
    vs_point_after();
    return r;
  }
  void store(T x, memory_order m = memory_order_seq_cst) noexcept {
    vs_point();
    v.store(x, m);
    vs_point_after();
  }
  T exchange(T x, memory_order m = memory_order_seq_cst) noexcept {
    vs_point();
    T r = v.exchange(x, m);
    vs_point_after();
    return r;
  }
  bool compare_exchange_strong(T& e, T d, memory_order s, memory_order f) noexcept {
    vs_point();
    bool r = v.compare_exchange_strong(e, d, s, f);
    vs_point_after();
    return r;
  }
  bool compare_exchange_strong(T& e, T d, memory_order m = memory_order_seq_cst) noexcept {
    return compare_exchange_strong(e, d, m, fail_order(m));
  }
  bool compare_exchange_weak(T& e, T d, memory_order s, memory_order f) noexcept {
    vs_point();
    if (vs_spurious()) {
      e = v.load(f);
      return false;
    }
    bool r = v.compare_exchange_strong(e, d, s, f);
    vs_point_after();
    return r;
  }
  bool compare_exchange_weak(T& e, T d, memory_order m = memory_order_seq_cst) noexcept {
    return compare_exchange_weak(e, d, m, fail_order(m));
  }
  operator T() const noexcept { return load(); }
  T operator=(T x) noexcept {
    store(x);
    return x;
  }
  void wait(T old, memory_order m = memory_order_seq_cst) const noexcept {
    for (;;) {
      T x = load(m);
      if (std::memcmp(&x, &old, sizeof(T)) != 0) return;
      if (vs_self() < 0) { v.wait(old, m); return; }
      // value unchanged and we hold the baton: going to sleep is atomic with the check above only if
      // nothing ran in between, so check once more without a scheduling point
      T y = v.load(m);
      if (std::memcmp(&y, &old, sizeof(T)) != 0) return;
      vs_block(this, "atomic wait");
    }
  }
  // deliberately does not touch the object: notifying an atomic whose waiter already destroyed it is the
  // known standard-library problem (P2616), not a property of the code under test
  void notify_one() noexcept {
    vs_point();
    if (vs_self() < 0) { v.notify_one(); return; }
    vs_wake(this, 0);
    vs_point_after();
  }
  void notify_all() noexcept {
    vs_point();
    if (vs_self() < 0) { v.notify_all(); return; }
    vs_wake(this, 1);
    vs_point_after();
  }

 private:
  static constexpr memory_order fail_order(memory_order m) {
    return m == memory_order_acq_rel ? memory_order_acquire : m == memory_order_release ? memory_order_relaxed : m;
  }
};

template <typename T>
struct vs_atomic : vs_atomic_base<T> {
  using vs_atomic_base<T>::vs_atomic_base;
  using vs_atomic_base<T>::operator=;
};
#define VS_RMW(name)                                              \
  T name(T x, memory_order m = memory_order_seq_cst) noexcept {   \
    vs_point();                                                   \
    T r = this->v.name(x, m);                                     \
    vs_point_after();                                             \
    return r;                                                     \
  }
template <typename T>
  requires(std::is_integral_v<T> && !std::is_same_v<T, bool>)
struct vs_atomic<T> : vs_atomic_base<T> {
  using vs_atomic_base<T>::vs_atomic_base;
  using vs_atomic_base<T>::operator=;
  VS_RMW(fetch_add)
  VS_RMW(fetch_sub)
  VS_RMW(fetch_and)
  VS_RMW(fetch_or)
  VS_RMW(fetch_xor)
  T operator++() noexcept { return fetch_add(1) + 1; }
  T operator++(int) noexcept { return fetch_add(1); }
  T operator--() noexcept { return fetch_sub(1) - 1; }
  T operator--(int) noexcept { return fetch_sub(1); }
  T operator+=(T x) noexcept { return fetch_add(x) + x; }
  T operator-=(T x) noexcept { return fetch_sub(x) - x; }
  T operator&=(T x) noexcept { return fetch_and(x) & x; }
  T operator|=(T x) noexcept { return fetch_or(x) | x; }
  T operator^=(T x) noexcept { return fetch_xor(x) ^ x; }
};
template <typename P>
struct vs_atomic<P*> : vs_atomic_base<P*> {
  using T = P*;
  using vs_atomic_base<P*>::vs_atomic_base;
  using vs_atomic_base<P*>::operator=;
  T fetch_add(ptrdiff_t x, memory_order m = memory_order_seq_cst) noexcept {
    vs_point();
    T r = this->v.fetch_add(x, m);
    vs_point_after();
    return r;
  }
  T fetch_sub(ptrdiff_t x, memory_order m = memory_order_seq_cst) noexcept {
    vs_point();
    T r = this->v.fetch_sub(x, m);
    vs_point_after();
    return r;
  }
};
template <typename T>
vs_atomic(T) -> vs_atomic<T>;

using vs_atomic_bool = vs_atomic<bool>;
using vs_atomic_char = vs_atomic<char>;
using vs_atomic_int = vs_atomic<int>;
using vs_atomic_uint = vs_atomic<unsigned>;
using vs_atomic_long = vs_atomic<long>;
using vs_atomic_ulong = vs_atomic<unsigned long>;
using vs_atomic_schar = vs_atomic<signed char>;
using vs_atomic_uchar = vs_atomic<unsigned char>;
using vs_atomic_short = vs_atomic<short>;
using vs_atomic_ushort = vs_atomic<unsigned short>;
using vs_atomic_llong = vs_atomic<long long>;
using vs_atomic_ullong = vs_atomic<unsigned long long>;
using vs_atomic_int8_t = vs_atomic<int8_t>;
using vs_atomic_uint8_t = vs_atomic<uint8_t>;
using vs_atomic_int16_t = vs_atomic<int16_t>;
using vs_atomic_uint16_t = vs_atomic<uint16_t>;
using vs_atomic_int32_t = vs_atomic<int32_t>;
using vs_atomic_uint32_t = vs_atomic<uint32_t>;
using vs_atomic_int64_t = vs_atomic<int64_t>;
using vs_atomic_uint64_t = vs_atomic<uint64_t>;
using vs_atomic_size_t = vs_atomic<size_t>;
using vs_atomic_ptrdiff_t = vs_atomic<ptrdiff_t>;
using vs_atomic_intptr_t = vs_atomic<intptr_t>;
using vs_atomic_uintptr_t = vs_atomic<uintptr_t>;

struct vs_atomic_flag {
  vs_atomic<bool> b{false};
  constexpr vs_atomic_flag() noexcept = default;
  bool test_and_set(memory_order m = memory_order_seq_cst) noexcept { return b.exchange(true, m); }
  void clear(memory_order m = memory_order_seq_cst) noexcept { b.store(false, m); }
  bool test(memory_order m = memory_order_seq_cst) const noexcept { return b.load(m); }
  void wait(bool o, memory_order m = memory_order_seq_cst) const noexcept { b.wait(o, m); }
  void notify_one() noexcept { b.notify_one(); }
  void notify_all() noexcept { b.notify_all(); }
};

template <typename T>
struct vs_atomic_ref {
 private:
  T* p;

 public:
  using value_type = T;
  explicit vs_atomic_ref(T& x) noexcept : p(&x) {}
  vs_atomic_ref(const vs_atomic_ref&) noexcept = default;
  static constexpr size_t required_alignment = alignof(T);
#define VS_REF(call)                \
  vs_point();                       \
  auto r = std::atomic_ref<T>(*p).call; \
  vs_point_after();                 \
  return r;
  T load(memory_order m = memory_order_seq_cst) const noexcept { VS_REF(load(m)) }
  void store(T x, memory_order m = memory_order_seq_cst) const noexcept {
    vs_point();
    std::atomic_ref<T>(*p).store(x, m);
    vs_point_after();
  }
  T exchange(T x, memory_order m = memory_order_seq_cst) const noexcept { VS_REF(exchange(x, m)) }
  T fetch_add(T x, memory_order m = memory_order_seq_cst) const noexcept { VS_REF(fetch_add(x, m)) }
  T fetch_sub(T x, memory_order m = memory_order_seq_cst) const noexcept { VS_REF(fetch_sub(x, m)) }
  T fetch_or(T x, memory_order m = memory_order_seq_cst) const noexcept { VS_REF(fetch_or(x, m)) }
  T fetch_and(T x, memory_order m = memory_order_seq_cst) const noexcept { VS_REF(fetch_and(x, m)) }
  T operator++() const noexcept { return fetch_add(1) + 1; }
  T operator++(int) const noexcept { return fetch_add(1); }
  T operator--() const noexcept { return fetch_sub(1) - 1; }
  T operator--(int) const noexcept { return fetch_sub(1); }
  T operator+=(T x) const noexcept { return fetch_add(x) + x; }
  T operator-=(T x) const noexcept { return fetch_sub(x) - x; }
  bool is_lock_free() const noexcept { return true; }
  void wait(T old, memory_order m = memory_order_seq_cst) const noexcept {
    for (;;) {
      T x = load(m);
      if (std::memcmp(&x, &old, sizeof(T)) != 0) return;
      if (vs_self() < 0) { std::atomic_ref<T>(*p).wait(old, m); return; }
      T y = std::atomic_ref<T>(*p).load(m);
      if (std::memcmp(&y, &old, sizeof(T)) != 0) return;
      vs_block(p, "atomic_ref wait");
    }
  }
  void notify_one() const noexcept {
    vs_point();
    if (vs_self() < 0) { std::atomic_ref<T>(*p).notify_one(); return; }
    vs_wake(p, 0);
    vs_point_after();
  }
  void notify_all() const noexcept {
    vs_point();
    if (vs_self() < 0) { std::atomic_ref<T>(*p).notify_all(); return; }
    vs_wake(p, 1);
    vs_point_after();
  }
  operator T() const noexcept { return load(); }
  T operator=(T x) const noexcept { store(x); return x; }
  bool compare_exchange_strong(T& e, T d, memory_order s = memory_order_seq_cst, memory_order f = memory_order_seq_cst) const noexcept {
    VS_REF(compare_exchange_strong(e, d, s, f))
  }
  bool compare_exchange_weak(T& e, T d, memory_order s = memory_order_seq_cst, memory_order f = memory_order_seq_cst) const noexcept {
    if (vs_spurious()) { e = load(f); return false; }
    VS_REF(compare_exchange_strong(e, d, s, f))
  }
};
template <typename T>
vs_atomic_ref(T&) -> vs_atomic_ref<T>;

// free functions
#define VS_AT template <typename T> inline
VS_AT T atomic_load(const vs_atomic_base<T>* a) noexcept { return a->load(); }
VS_AT T atomic_load_explicit(const vs_atomic_base<T>* a, memory_order m) noexcept { return a->load(m); }
VS_AT void atomic_store(vs_atomic_base<T>* a, type_identity_t<T> x) noexcept { a->store(x); }
VS_AT void atomic_store_explicit(vs_atomic_base<T>* a, type_identity_t<T> x, memory_order m) noexcept { a->store(x, m); }
VS_AT T atomic_exchange(vs_atomic_base<T>* a, type_identity_t<T> x) noexcept { return a->exchange(x); }
VS_AT T atomic_exchange_explicit(vs_atomic_base<T>* a, type_identity_t<T> x, memory_order m) noexcept { return a->exchange(x, m); }
VS_AT bool atomic_compare_exchange_strong(vs_atomic_base<T>* a, type_identity_t<T>* e, type_identity_t<T> x) noexcept { return a->compare_exchange_strong(*e, x); }
VS_AT bool atomic_compare_exchange_weak(vs_atomic_base<T>* a, type_identity_t<T>* e, type_identity_t<T> x) noexcept { return a->compare_exchange_weak(*e, x); }
VS_AT bool atomic_compare_exchange_strong_explicit(vs_atomic_base<T>* a, type_identity_t<T>* e, type_identity_t<T> x, memory_order s, memory_order f) noexcept { return a->compare_exchange_strong(*e, x, s, f); }
VS_AT bool atomic_compare_exchange_weak_explicit(vs_atomic_base<T>* a, type_identity_t<T>* e, type_identity_t<T> x, memory_order s, memory_order f) noexcept { return a->compare_exchange_weak(*e, x, s, f); }
VS_AT T atomic_fetch_add(vs_atomic<T>* a, type_identity_t<T> x) noexcept { return a->fetch_add(x); }
VS_AT T atomic_fetch_sub(vs_atomic<T>* a, type_identity_t<T> x) noexcept { return a->fetch_sub(x); }
VS_AT T atomic_fetch_add_explicit(vs_atomic<T>* a, type_identity_t<T> x, memory_order m) noexcept { return a->fetch_add(x, m); }
VS_AT T atomic_fetch_sub_explicit(vs_atomic<T>* a, type_identity_t<T> x, memory_order m) noexcept { return a->fetch_sub(x, m); }
VS_AT void atomic_wait(const vs_atomic_base<T>* a, type_identity_t<T> x) noexcept { a->wait(x); }
VS_AT void atomic_wait_explicit(const vs_atomic_base<T>* a, type_identity_t<T> x, memory_order m) noexcept { a->wait(x, m); }
VS_AT void atomic_notify_one(vs_atomic_base<T>* a) noexcept { a->notify_one(); }
VS_AT void atomic_notify_all(vs_atomic_base<T>* a) noexcept { a->notify_all(); }
#undef VS_AT

inline void vs_atomic_thread_fence(memory_order m) noexcept {
  vs_point();
#if defined(__clang__)
  std::atomic_thread_fence(m);
#else
  std::atomic_thread_fence(m);
#endif
}

struct vs_mutex {
  std::mutex real;
  int owner = -1;
  vs_canary can;
  constexpr vs_mutex() noexcept = default;
  vs_mutex(const vs_mutex&) = delete;
  void operator=(const vs_mutex&) = delete;
  void lock() {
    can.touch();
    vs_mutex_lock(&owner);
    can.touch();
    real.lock();
  }
  bool try_lock() {
    can.touch();
    if (!vs_mutex_trylock(&owner)) return false;
    if (real.try_lock()) return true;
    return false;
  }
  void unlock() {
    can.touch();
    real.unlock();
    vs_mutex_unlock(&owner);
    vs_point_after();
  }
  void unlock_no_point() {
    can.touch();
    real.unlock();
    vs_mutex_unlock(&owner);
  }
};
struct vs_recursive_mutex {
  std::recursive_mutex real;
  int owner = -1, depth = 0;
  void lock() {
    if (vs_self() >= 0 && owner == vs_self()) { real.lock(); ++depth; return; }
    vs_mutex_lock(&owner);
    real.lock();
    depth = 1;
  }
  bool try_lock() {
    if (vs_self() >= 0 && owner == vs_self()) { real.lock(); ++depth; return true; }
    if (!vs_mutex_trylock(&owner)) return false;
    real.lock();
    depth = 1;
    return true;
  }
  void unlock() {
    bool last = --depth == 0;
    real.unlock();
    if (last) { vs_mutex_unlock(&owner); vs_point_after(); }
  }
};
// readers are treated as exclusive: fewer schedules, never a wrong one
struct vs_shared_mutex : vs_mutex {
  void lock_shared() { lock(); }
  void unlock_shared() { unlock(); }
  bool try_lock_shared() { return try_lock(); }
};

// timed locking: a time-out is possible whenever the mutex is not free
struct vs_timed_mutex : vs_shared_mutex {
  template <typename D>
  bool try_lock_for(const D&) { return try_lock_t(); }
  template <typename D>
  bool try_lock_until(const D&) { return try_lock_t(); }
  template <typename D>
  bool try_lock_shared_for(const D&) { return try_lock_t(); }
  template <typename D>
  bool try_lock_shared_until(const D&) { return try_lock_t(); }

 private:
  bool try_lock_t() {
    if (vs_spurious()) return try_lock();
    lock();
    return true;
  }
};

struct vs_once_flag {
  vs_mutex m;
  bool done = false;
  constexpr vs_once_flag() noexcept = default;
};
template <typename F, typename... A>
void vs_call_once(vs_once_flag& o, F&& f, A&&... a) {
  std::lock_guard<vs_mutex> l(o.m);
  if (o.done) return;
  std::invoke(std::forward<F>(f), std::forward<A>(a)...);
  o.done = true;
}

struct vs_condition_variable {
  std::condition_variable real;  // only used outside controlled runs
  vs_canary can;
  vs_condition_variable() = default;
  vs_condition_variable(const vs_condition_variable&) = delete;
  template <typename L>
  void wait(L& l) {
    can.touch();
    vs_point();
    if (vs_self() < 0) std::abort();
    bool sp = vs_spurious();
    mtx(l).unlock_no_point();
    if (sp) vs_yield();
    else vs_block(this, "condition variable wait");
    mtx(l).lock();
  }
  template <typename L>
  static auto& mtx(L& l) {
    if constexpr (requires { l.mutex(); }) return *l.mutex();
    else return l;
  }
  template <typename L, typename P>
  void wait(L& l, P p) {
    while (!p()) wait(l);
  }
  template <typename L, typename R, typename Pd>
  cv_status wait_for(L& l, const chrono::duration<R, Pd>&) {
    can.touch();
    vs_point();
    mtx(l).unlock_no_point();
    int to = vs_block_timed(this, "condition variable timed wait");
    mtx(l).lock();
    return to ? cv_status::timeout : cv_status::no_timeout;
  }
  template <typename L, typename R, typename Pd, typename P>
  bool wait_for(L& l, const chrono::duration<R, Pd>& d, P p) {
    while (!p())
      if (wait_for(l, d) == cv_status::timeout) return p();
    return true;
  }
  template <typename L, typename C, typename D>
  cv_status wait_until(L& l, const chrono::time_point<C, D>&) {
    return wait_for(l, chrono::seconds(1));
  }
  template <typename L, typename C, typename D, typename P>
  bool wait_until(L& l, const chrono::time_point<C, D>&, P p) {
    return wait_for(l, chrono::seconds(1), p);
  }
  void notify_one() noexcept {
    can.touch();
    vs_point();
    can.touch();
    vs_wake(this, 0);
    vs_point_after();
  }
  void notify_all() noexcept {
    can.touch();
    vs_point();
    can.touch();
    vs_wake(this, 1);
    vs_point_after();
  }
};
using vs_condition_variable_any = vs_condition_variable;

struct vs_thread {
  using id = std::thread::id;
  using native_handle_type = std::thread::native_handle_type;

 private:
  std::thread impl;
  int slot = -1;

 public:
  vs_thread() noexcept = default;
  template <typename F, typename... A>
    requires(!std::is_same_v<std::remove_cvref_t<F>, vs_thread>)
  explicit vs_thread(F&& f, A&&... a) {
    slot = vs_thread_create();
    if (slot == -1)
      throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "injected thread creation failure");
    impl = std::thread(
        [s = slot](auto&& f, auto&&... a) {
          vs_thread_enter(s);
          std::invoke(std::move(f), std::move(a)...);
          vs_thread_exit();
        },
        std::forward<F>(f), std::forward<A>(a)...);
    vs_point_after();
  }
  vs_thread(vs_thread&& o) noexcept : impl(std::move(o.impl)), slot(std::exchange(o.slot, -1)) {}
  vs_thread& operator=(vs_thread&& o) noexcept {
    impl = std::move(o.impl);  // terminates if joinable
    slot = std::exchange(o.slot, -1);
    return *this;
  }
  void swap(vs_thread& o) noexcept {
    impl.swap(o.impl);
    std::swap(slot, o.slot);
  }
  bool joinable() const noexcept { return impl.joinable(); }
  void join() {
    if (impl.joinable()) vs_thread_join(slot);
    impl.join();
    vs_point_after();
  }
  void detach() { impl.detach(); }
  id get_id() const noexcept { return impl.get_id(); }
  native_handle_type native_handle() { return impl.native_handle(); }
  static unsigned hardware_concurrency() noexcept { return 4; }
};
inline void swap(vs_thread& a, vs_thread& b) noexcept { a.swap(b); }

struct vs_jthread : vs_thread {
  using vs_thread::vs_thread;
  vs_jthread(vs_jthread&&) noexcept = default;
  vs_jthread& operator=(vs_jthread&& o) noexcept {
    if (joinable()) join();
    vs_thread::operator=(std::move(o));
    return *this;
  }
  ~vs_jthread() {
    if (joinable()) join();
  }
};

namespace vs_this_thread {
inline std::thread::id get_id() noexcept { return std::this_thread::get_id(); }
inline void yield() noexcept { vs_yield(); }
template <typename D>
void sleep_for(const D&) { vs_yield(); }
template <typename D>
void sleep_until(const D&) { vs_yield(); }
}  // namespace vs_this_thread

template <ptrdiff_t Max = 1 << 30>
struct vs_counting_semaphore {
  vs_atomic<ptrdiff_t> n;
  explicit vs_counting_semaphore(ptrdiff_t x) : n(x) {}
  void release(ptrdiff_t k = 1) {
    n.fetch_add(k);
    n.notify_all();
  }
  bool try_acquire() {
    ptrdiff_t x = n.load();
    while (x > 0)
      if (n.compare_exchange_strong(x, x - 1)) return true;
    return false;
  }
  void acquire() {
    for (;;) {
      if (try_acquire()) return;
      n.wait(0);
    }
  }
};
using vs_binary_semaphore = vs_counting_semaphore<1>;

// weak_ptr/shared_ptr hand-over is internally atomic, but other threads may run between its operations
template <typename T>
struct vs_weak_ptr : std::weak_ptr<T> {
  using std::weak_ptr<T>::weak_ptr;
  vs_weak_ptr() = default;
  vs_weak_ptr(const std::weak_ptr<T>& w) : std::weak_ptr<T>(w) {}
  std::shared_ptr<T> lock() const noexcept {
    vs_point();
    auto r = std::weak_ptr<T>::lock();
    vs_point_after();
    return r;
  }
  bool expired() const noexcept {
    vs_point();
    bool r = std::weak_ptr<T>::expired();
    vs_point_after();
    return r;
  }
};
template <typename T>
vs_weak_ptr(std::shared_ptr<T>) -> vs_weak_ptr<T>;

}  // namespace std

// helpers for harness code: plain threads of the case
namespace vs {
struct Run {  // controlled region
  Run() { vs_begin(); }
  ~Run() { vs_end(); }
  Run(Run&&) = delete;
};
}  // namespace vs
