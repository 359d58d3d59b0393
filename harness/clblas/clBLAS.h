// the part of clBLAS the library uses, served by harness/cl_device.cpp
#ifndef CLBLAS_H_
#define CLBLAS_H_
#include <CL/cl.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { clblasRowMajor, clblasColumnMajor } clblasOrder;
typedef enum { clblasNoTrans, clblasTrans, clblasConjTrans } clblasTranspose;
typedef int clblasStatus;
clblasStatus clblasSetup(void);
void clblasTeardown(void);
clblasStatus clblasSgemm(clblasOrder, clblasTranspose, clblasTranspose, size_t M, size_t N, size_t K, cl_float alpha, const cl_mem A, size_t offA, size_t lda, const cl_mem B, size_t offB, size_t ldb, cl_float beta, cl_mem C, size_t offC, size_t ldc, cl_uint queues, cl_command_queue*, cl_uint waits, const cl_event*, cl_event*);
clblasStatus clblasSgemv(clblasOrder, clblasTranspose, size_t M, size_t N, cl_float alpha, const cl_mem A, size_t offA, size_t lda, const cl_mem x, size_t offx, int incx, cl_float beta, cl_mem y, size_t offy, int incy, cl_uint queues, cl_command_queue*, cl_uint waits, const cl_event*, cl_event*);
#ifdef __cplusplus
}
#endif
#endif
