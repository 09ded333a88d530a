/* stand-in for the QMT library: one worker (number 2 of 3) receives an arbitrary piece lo .. lo+len-1 of the work */
#ifndef VERIF_QMT_H
#define VERIF_QMT_H
extern "C" int w_ext_lo();
extern "C" int w_ext_len();
typedef void (*qmt_userfunc_t)(int, int, int, void*);
static inline int qmt_num_threads() { return 3; }
static inline int qmt_thread_num() { return 0; }
static inline void qmt_call(qmt_userfunc_t f, int, void* a) { int lo = w_ext_lo(); f(lo, lo + w_ext_len(), 2, a); }
#endif
