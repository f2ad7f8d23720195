// For the IR builds only: clang has no omp.h here.
#ifndef VERIF_STUB_OMP_H_
#define VERIF_STUB_OMP_H_
extern "C" {
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_max_threads(void);
void omp_set_num_threads(int);
}
#endif
