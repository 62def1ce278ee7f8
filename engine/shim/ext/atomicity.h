// Replacement for libstdc++'s <ext/atomicity.h> in controlled-scheduler builds: shared_ptr reference counts
// go through mc_refcount_add() (see mc_sched.cpp), never through the single-threaded fast path.
#ifndef _GLIBCXX_ATOMICITY_H
#define _GLIBCXX_ATOMICITY_H 1
#pragma GCC system_header
#include <bits/c++config.h>
#include <bits/gthr.h>
#include <bits/atomic_word.h>
extern "C" int mc_refcount_add(int*, int);
namespace __gnu_cxx _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
inline bool __is_single_threaded() noexcept { return false; }
inline _Atomic_word __exchange_and_add(volatile _Atomic_word* __mem, int __val) { return mc_refcount_add((int*)__mem, __val); }
inline void __atomic_add(volatile _Atomic_word* __mem, int __val) { mc_refcount_add((int*)__mem, __val); }
inline _Atomic_word __exchange_and_add_single(_Atomic_word* __mem, int __val) { return mc_refcount_add((int*)__mem, __val); }
inline void __atomic_add_single(_Atomic_word* __mem, int __val) { mc_refcount_add((int*)__mem, __val); }
inline _Atomic_word __exchange_and_add_dispatch(_Atomic_word* __mem, int __val) { return mc_refcount_add((int*)__mem, __val); }
inline void __atomic_add_dispatch(_Atomic_word* __mem, int __val) { mc_refcount_add((int*)__mem, __val); }
_GLIBCXX_END_NAMESPACE_VERSION
} // namespace
#define _GLIBCXX_READ_MEM_BARRIER __atomic_thread_fence(__ATOMIC_ACQUIRE)
#define _GLIBCXX_WRITE_MEM_BARRIER __atomic_thread_fence(__ATOMIC_RELEASE)
#endif
