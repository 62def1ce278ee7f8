# Harnesses built for the controlled scheduler / for sequential enumeration, and the sources of /repo they link.
MC_CHECKS := C01 C02 C06 C07 C11 C14 C15 C16 C21 C22 C24 C30
ASAN_CHECKS := C03 C04 C05 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C25 C26 C27 C28 C29 C30

SRCS_C01 := $(LIB_core)
SRCS_C02 := $(LIB_obs)
SRCS_C03 := $(LIB_sim)
SRCS_C04 := $(LIB_sim)
SRCS_C05 := $(LIB_obs) $(LIB_man)
SRCS_C06 := $(LIB_sim)
SRCS_C07 := $(LIB_sim)
SRCS_C08 := $(LIB_sim)
SRCS_C10 := $(LIB_sim)
SRCS_C11 := $(LIB_obs) $(LIB_man)
SRCS_C09 := $(LIB_sim)
SRCS_C12 := $(LIB_obs) $(LIB_man)
SRCS_C13 := $(LIB_sim) $(LIB_man)
SRCS_C14 := $(LIB_obs)
SRCS_C15 := $(LIB_obs) $(LIB_man)
SRCS_C16 := $(LIB_obs) $(LIB_man)
SRCS_C17 := $(LIB_sim)
SRCS_C18 := $(LIB_sim)
SRCS_C19 := $(LIB_uri)
SRCS_C20 := $(LIB_uri)
SRCS_C21 := $(LIB_core) cosim/utility/concurrency.cpp
SRCS2_C21 := $(LIB_core) cosim/utility/concurrency.cpp
EXTRA_C21 := locks_p1.cpp locks_p2.cpp
HFLAGS_locks_p2 := -Dcosim=cosim_p2
SRCS_C22 := $(LIB_fs)
SRCS2_C22 := $(LIB_fs)
EXTRA_C22 := caches_p1.cpp caches_p2.cpp
HFLAGS_caches_p2 := -Dcosim=cosim_p2
SRCS_C23 := $(LIB_core) cosim/function/utility.cpp cosim/function/linear_transformation.cpp cosim/function/vector_sum.cpp
SRCS_C24 := $(LIB_sim)
SRCS_C25 := $(LIB_core) cosim/utility/zip.cpp
SRCS_C26 := $(LIB_load)
EXTRA_C26 := fmi_stub.cpp
SRCS_C27 := $(LIB_load)
EXTRA_C27 := fmi_stub.cpp
SRCS_C28 := $(LIB_sim)
SRCS_C29 := $(LIB_load)
EXTRA_C29 := fmi_stub.cpp
SRCS_C30 := $(LIB_core) cosim/utility/filesystem.cpp cosim/utility/uuid.cpp
