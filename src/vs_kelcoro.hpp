#pragma once
#include "vs_shim.hpp"
#define atomic vs_atomic
#define atomic_bool vs_atomic_bool
#define atomic_char vs_atomic_char
#define atomic_int vs_atomic_int
#define atomic_uint vs_atomic_uint
#define atomic_long vs_atomic_long
#define atomic_ulong vs_atomic_ulong
#define atomic_int8_t vs_atomic_int8_t
#define atomic_uint8_t vs_atomic_uint8_t
#define atomic_int16_t vs_atomic_int16_t
#define atomic_uint16_t vs_atomic_uint16_t
#define atomic_int32_t vs_atomic_int32_t
#define atomic_uint32_t vs_atomic_uint32_t
#define atomic_int64_t vs_atomic_int64_t
#define atomic_uint64_t vs_atomic_uint64_t
#define atomic_size_t vs_atomic_size_t
#define atomic_ptrdiff_t vs_atomic_ptrdiff_t
#define atomic_intptr_t vs_atomic_intptr_t
#define atomic_uintptr_t vs_atomic_uintptr_t
#define atomic_flag vs_atomic_flag
#define atomic_ref vs_atomic_ref
#define atomic_thread_fence vs_atomic_thread_fence
#define atomic_schar vs_atomic_schar
#define atomic_uchar vs_atomic_uchar
#define atomic_short vs_atomic_short
#define atomic_ushort vs_atomic_ushort
#define atomic_llong vs_atomic_llong
#define atomic_ullong vs_atomic_ullong
#define timed_mutex vs_timed_mutex
#define shared_timed_mutex vs_timed_mutex
#define once_flag vs_once_flag
#define call_once vs_call_once
#define mutex vs_mutex
#define recursive_mutex vs_recursive_mutex
#define shared_mutex vs_shared_mutex
#define condition_variable vs_condition_variable
#define condition_variable_any vs_condition_variable_any
#define thread vs_thread
#define jthread vs_jthread
#define this_thread vs_this_thread
#define counting_semaphore vs_counting_semaphore
#define binary_semaphore vs_binary_semaphore
#define weak_ptr vs_weak_ptr

#include "kelcoro/algorithm.hpp"
#include "kelcoro/async_task.hpp"
#include "kelcoro/channel.hpp"
#include "kelcoro/common.hpp"
#include "kelcoro/events.hpp"
#include "kelcoro/executor_interface.hpp"
#include "kelcoro/generator.hpp"
#include "kelcoro/inplace_generator.hpp"
#include "kelcoro/job.hpp"
#include "kelcoro/kelcoro.hpp"
#include "kelcoro/latch.hpp"
#include "kelcoro/logical_thread.hpp"
#include "kelcoro/memory_support.hpp"
#include "kelcoro/nonowner_lockfree_stack.hpp"
#include "kelcoro/operation_hash.hpp"
#include "kelcoro/stack_memory_resource.hpp"
#include "kelcoro/task.hpp"
#include "kelcoro/thread_pool.hpp"

#undef atomic
#undef atomic_bool
#undef atomic_char
#undef atomic_int
#undef atomic_uint
#undef atomic_long
#undef atomic_ulong
#undef atomic_int8_t
#undef atomic_uint8_t
#undef atomic_int16_t
#undef atomic_uint16_t
#undef atomic_int32_t
#undef atomic_uint32_t
#undef atomic_int64_t
#undef atomic_uint64_t
#undef atomic_size_t
#undef atomic_ptrdiff_t
#undef atomic_intptr_t
#undef atomic_uintptr_t
#undef atomic_flag
#undef atomic_ref
#undef atomic_thread_fence
#undef atomic_schar
#undef atomic_uchar
#undef atomic_short
#undef atomic_ushort
#undef atomic_llong
#undef atomic_ullong
#undef timed_mutex
#undef shared_timed_mutex
#undef once_flag
#undef call_once
#undef mutex
#undef recursive_mutex
#undef shared_mutex
#undef condition_variable
#undef condition_variable_any
#undef thread
#undef jthread
#undef this_thread
#undef counting_semaphore
#undef binary_semaphore
#undef weak_ptr
