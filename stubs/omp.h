// Stub for the verifier's clang (no OpenMP headers installed): sequential semantics; the reported number of threads
// (which decides partitions) is what the contract sets.
#ifndef VP_OMP_STUB
#define VP_OMP_STUB
inline int vp_omp_threads = 1;
inline int omp_get_thread_num() { return 0; }
inline int omp_get_num_threads() { return vp_omp_threads; }
inline int omp_get_max_threads() { return vp_omp_threads; }
inline void omp_set_num_threads(int n) { vp_omp_threads = n; }
#endif
