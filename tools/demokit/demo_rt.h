// run-time services of the TBB stand-in: choices come from a settable function, locks are real
#pragma once
#include <atomic>
#include <mutex>
#include <set>
#include <thread>
#include <vector>
#include <cstddef>
#include <cstdint>
namespace demo {
inline uint64_t (*choose)(const char*,uint64_t)=nullptr;
inline std::mutex m; inline std::set<const void*> held;
}
inline uint64_t symx_choose_(const char*n,uint64_t k){ return demo::choose?demo::choose(n,k):0; }
inline void symx_sched_(){}
inline int symx_tid_(){ return 0; }
inline int symx_spawn_(void(*f)(void*),void*a){ f(a); return 0; }
inline void symx_join_(int){}
inline bool symx_trylock_(const void*p){ std::lock_guard<std::mutex> g(demo::m); return demo::held.insert(p).second; }
inline void symx_lock_(const void*p){ while(!symx_trylock_(p)) std::this_thread::yield(); }
inline void symx_unlock_(const void*p){ std::lock_guard<std::mutex> g(demo::m); demo::held.erase(p); }
