// Second copy of the library; under sequential enumeration there is only one.
#ifndef MC_SCHED
#    undef cosim
#endif
#define OPEN_LOCK open_p2
#include "locks_p1.cpp"
