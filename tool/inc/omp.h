#pragma once
typedef struct { void* _lk; } omp_lock_t;
typedef struct { void* _lk; } omp_nest_lock_t;
extern "C" {
void omp_set_num_threads(int); int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_thread_num(void); int omp_get_num_procs(void); int omp_in_parallel(void); int omp_get_level(void);
void omp_set_dynamic(int); int omp_get_dynamic(void);
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
void omp_init_nest_lock(omp_nest_lock_t*); void omp_destroy_nest_lock(omp_nest_lock_t*); void omp_set_nest_lock(omp_nest_lock_t*); void omp_unset_nest_lock(omp_nest_lock_t*); int omp_test_nest_lock(omp_nest_lock_t*);
double omp_get_wtime(void); double omp_get_wtick(void);
}
