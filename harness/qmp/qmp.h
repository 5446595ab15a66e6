/* mini-QMP: a small message-passing layer with the subset of the QMP API that
   QDP++'s parscalar architecture uses.  Ranks are forked processes that share
   memory.  It exists so the multi-node code can be executed, observed (message
   and collective logs) and perturbed (jitter, rendezvous sends) here. */
#ifndef MINI_QMP_H
#define MINI_QMP_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int QMP_bool_t;
#define QMP_TRUE 1
#define QMP_FALSE 0
typedef uint32_t QMP_u32_t;
typedef enum { QMP_SUCCESS = 0, QMP_ERROR = 1, QMP_NOMEM_ERR = 2, QMP_INVALID_ARG = 3 } QMP_status_t;
typedef enum { QMP_THREAD_SINGLE, QMP_THREAD_FUNNELED, QMP_THREAD_SERIALIZED, QMP_THREAD_MULTIPLE } QMP_thread_level_t;
typedef enum { QMP_SWITCH, QMP_GRID, QMP_MESH } QMP_ictype_t;
typedef struct mq_mem* QMP_mem_tp;
typedef struct mq_mem QMP_mem_t;
typedef struct mq_msgmem* QMP_msgmem_t;
typedef struct mq_msghandle* QMP_msghandle_t;
typedef void (*QMP_binary_func)(void* inout, void* in);
#define QMP_MEM_NONCACHE 1
#define QMP_MEM_COMMS 2
#define QMP_MEM_FAST 4

QMP_status_t QMP_init_msg_passing(int* argc, char*** argv, QMP_thread_level_t req, QMP_thread_level_t* prv);
QMP_bool_t QMP_is_initialized(void);
void QMP_finalize_msg_passing(void);
void QMP_abort(int status);
int QMP_get_number_of_nodes(void);
int QMP_get_node_number(void);
QMP_ictype_t QMP_get_msg_passing_type(void);
QMP_status_t QMP_declare_logical_topology(const int* dims, int ndim);
QMP_status_t QMP_layout_grid(int* dims, int ndim);
int QMP_get_logical_number_of_dimensions(void);
const int* QMP_get_logical_dimensions(void);
const int* QMP_get_logical_coordinates(void);
int* QMP_get_logical_coordinates_from(int node);
int QMP_get_node_number_from(const int* coord);
QMP_mem_t* QMP_allocate_aligned_memory(size_t n, size_t align, int flags);
void* QMP_get_memory_pointer(QMP_mem_t* m);
void QMP_free_memory(QMP_mem_t* m);
QMP_msgmem_t QMP_declare_msgmem(const void* p, size_t n);
void QMP_free_msgmem(QMP_msgmem_t m);
QMP_msghandle_t QMP_declare_send_to(QMP_msgmem_t m, int node, int prio);
QMP_msghandle_t QMP_declare_receive_from(QMP_msgmem_t m, int node, int prio);
QMP_msghandle_t QMP_declare_send_relative(QMP_msgmem_t m, int axis, int dir, int prio);
QMP_msghandle_t QMP_declare_receive_relative(QMP_msgmem_t m, int axis, int dir, int prio);
QMP_msghandle_t QMP_declare_multiple(QMP_msghandle_t* h, int n);
void QMP_free_msghandle(QMP_msghandle_t h);
QMP_status_t QMP_start(QMP_msghandle_t h);
QMP_status_t QMP_wait(QMP_msghandle_t h);
const char* QMP_error_string(QMP_status_t s);
QMP_status_t QMP_broadcast(void* p, size_t n);
QMP_status_t QMP_sum_int(int* v);
QMP_status_t QMP_sum_float(float* v);
QMP_status_t QMP_sum_double(double* v);
QMP_status_t QMP_sum_float_array(float* v, int n);
QMP_status_t QMP_sum_double_array(double* v, int n);
QMP_status_t QMP_max_float(float* v);
QMP_status_t QMP_max_double(double* v);
QMP_status_t QMP_min_float(float* v);
QMP_status_t QMP_min_double(double* v);
QMP_status_t QMP_binary_reduction(void* v, size_t n, QMP_binary_func f);
QMP_status_t QMP_barrier(void);
void QMP_verbose(QMP_bool_t v);
QMP_status_t QMP_route(void* buf, QMP_u32_t count, QMP_u32_t src, QMP_u32_t dst);
#ifdef __cplusplus
}
#endif
#endif
