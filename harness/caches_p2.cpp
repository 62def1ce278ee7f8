// Second copy of the library; under sequential enumeration there is only one.
#ifndef MC_SCHED
#    undef cosim
#endif
#define CACHE cache_p2
#include "caches_p1.cpp"
