// the compiler used for the IR ships no omp.h; only these declarations are needed (single-threaded model)
#pragma once
extern "C" {
typedef struct { unsigned char x[4]; } omp_lock_t;
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
int omp_get_thread_num(); int omp_get_num_threads(); int omp_get_max_threads(); void omp_set_num_threads(int); double omp_get_wtime(); int omp_in_parallel(); int omp_get_level();
}
