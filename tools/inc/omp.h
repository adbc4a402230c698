// Declarations only: lets clang's parser read the OpenMP sources (gcc's own omp.h uses gcc-only attributes).
#pragma once
extern "C" {
int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_thread_num(void);
void omp_set_num_threads(int); double omp_get_wtime(void); int omp_in_parallel(void); int omp_get_num_procs(void);
void omp_set_dynamic(int); void omp_set_nested(int);
typedef struct { unsigned char x[4]; } omp_lock_t;
}
