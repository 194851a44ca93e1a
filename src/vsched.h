// Controlled scheduler: real OS threads, exactly one of which runs at a time.
// Implemented without libc synchronisation and without instrumentation, so that the baton is
// invisible to ThreadSanitizer: the only happens-before edges TSAN sees are those of the code under test.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
void vs_begin();      // start a controlled run, the calling thread becomes thread 0
void vs_end();        // let all other threads finish (deadlock => failure), end the run
int vs_active();
int vs_self();        // id of the calling thread, -1 if uncontrolled
void vs_point();      // potential preemption before an operation
void vs_point_after();// potential preemption after an operation (rarer)
void vs_yield();      // voluntary switch
// blocking by address
void vs_block(const void* addr, const char* what);
int vs_block_timed(const void* addr, const char* what);  // 1 if timed out
int vs_wake(const void* addr, int all);                  // returns number woken
// mutex model (the int is the owner field, -1 when free)
void vs_mutex_lock(int* owner);
int vs_mutex_trylock(int* owner);
void vs_mutex_unlock(int* owner);
int vs_spurious();  // decide: spurious wakeup / weak failure here?
// threads
int vs_thread_create();           // reserves a slot; -1 => injected creation failure
void vs_thread_enter(int slot);   // first thing in the new thread
void vs_thread_exit();            // last thing in the new thread
void vs_thread_join(int slot);    // logical part of join
void vs_fail_thread_creation_at(int nth);  // nth creation (1-based) from now fails; 0 = never
int vs_threads_created();
// cells: ints invisible to TSAN
enum { VS_CELLS = 2048 };
int vs_get(int c);
void vs_set(int c, int v);
int vs_add(int c, int d);               // returns new value
void vs_wait_ge(int c, int v, const char* what);  // blocks until cell >= v
// log of events, totally ordered, invisible to TSAN
struct vs_ev { int kind, a, b, c, tid; };
int vs_log(int kind, int a, int b, int c);  // returns index
int vs_nlog();
vs_ev vs_log_at(int i);
uint64_t vs_steps();
uint64_t vs_switches();
void vs_no_preempt(int on);  // suspend preemption (harness set-up code)
}
