// The thread sanitizer does not model fences. A library that uses them is judged with stronger orders instead, so that
// a correct use of fences is not taken for a race.
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace std {
// Present in the binary exactly if something uses it
__attribute__((noinline)) inline void pbt_fence_used(memory_order order) noexcept
{
    atomic_thread_fence(order);
}
} // namespace std
__attribute__((noinline)) inline void pbt_builtin_fence_used(int) noexcept
{
    std::atomic_thread_fence(std::memory_order_seq_cst);
}

#define atomic_thread_fence pbt_fence_used
#define __atomic_thread_fence pbt_builtin_fence_used
#define __sync_synchronize() pbt_builtin_fence_used(0)

#ifdef PBT_FENCES
#define memory_order_relaxed memory_order_seq_cst
#define memory_order_consume memory_order_seq_cst
#define memory_order_acquire memory_order_seq_cst
#define memory_order_release memory_order_seq_cst
#define memory_order_acq_rel memory_order_seq_cst
#endif
