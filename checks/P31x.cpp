// P31, compiled for a processor with AVX-512 (the lookup scans and rotations choose their code at compile time).
// mc-libs: -lrocksdb
// mc-flags: -mavx512f -mavx512bw -mavx512vl -mavx512dq
// mc-cpu: avx512f avx512bw avx512vl avx512dq avx2 fma
#include "P31.cpp"
