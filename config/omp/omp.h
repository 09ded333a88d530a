/* stand-in declarations of the OpenMP runtime calls the library uses */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_max_threads(void);
#ifdef __cplusplus
}
#endif
#endif
