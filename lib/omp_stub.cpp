// OpenMP runtime stubs: code under the controlled scheduler is compiled without -fopenmp (serial regions)
extern "C" {
__attribute__((weak)) int omp_get_num_procs() { return 1; }
__attribute__((weak)) int omp_get_thread_num() { return 0; }
__attribute__((weak)) int omp_get_num_threads() { return 1; }
__attribute__((weak)) int omp_get_max_threads() { return 1; }
__attribute__((weak)) void omp_set_num_threads(int) {}
__attribute__((weak)) double omp_get_wtime() { return 0; }
__attribute__((weak)) int omp_in_parallel() { return 0; }
}
