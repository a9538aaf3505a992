// Reference BLAS: textbook definitions of the calls nntl makes (the real library is outside of the repository).
#pragma once
#include <cblas.h>
extern "C" {
void cblas_dgemm(const enum CBLAS_ORDER o, const enum CBLAS_TRANSPOSE ta, const enum CBLAS_TRANSPOSE tb, const blasint m, const blasint n, const blasint k, const double al, const double* a, const blasint lda, const double* b, const blasint ldb, const double be, double* c, const blasint ldc) {
	for (blasint j = 0; j < n; ++j) for (blasint i = 0; i < m; ++i) { double s = 0; for (blasint q = 0; q < k; ++q) s += (ta == CblasNoTrans ? a[(size_t)q * lda + i] : a[(size_t)i * lda + q]) * (tb == CblasNoTrans ? b[(size_t)j * ldb + q] : b[(size_t)q * ldb + j]); double* d = c + (size_t)j * ldc + i; *d = be == 0 ? al * s : al * s + be * *d; } }
void cblas_dsyrk(const enum CBLAS_ORDER o, const enum CBLAS_UPLO u, const enum CBLAS_TRANSPOSE t, const blasint n, const blasint k, const double al, const double* a, const blasint lda, const double be, double* c, const blasint ldc) {
	for (blasint j = 0; j < n; ++j) for (blasint i = 0; i < n; ++i) { if (u == CblasLower ? i < j : i > j) continue; double s = 0; for (blasint q = 0; q < k; ++q) s += t == CblasNoTrans ? a[(size_t)q * lda + i] * a[(size_t)q * lda + j] : a[(size_t)i * lda + q] * a[(size_t)j * lda + q]; double* d = c + (size_t)j * ldc + i; *d = be == 0 ? al * s : al * s + be * *d; } }
void cblas_dsymm(const enum CBLAS_ORDER o, const enum CBLAS_SIDE sd, const enum CBLAS_UPLO u, const blasint m, const blasint n, const double al, const double* a, const blasint lda, const double* b, const blasint ldb, const double be, double* c, const blasint ldc) {
	for (blasint j = 0; j < n; ++j) for (blasint i = 0; i < m; ++i) { double s = 0; blasint kk = sd == CblasLeft ? m : n; for (blasint q = 0; q < kk; ++q) { blasint x = sd == CblasLeft ? i : q, y = sd == CblasLeft ? q : j; if (u == CblasLower ? x < y : x > y) { blasint z = x; x = y; y = z; } double av = a[(size_t)y * lda + x]; s += sd == CblasLeft ? av * b[(size_t)j * ldb + q] : b[(size_t)q * ldb + i] * av; } double* d = c + (size_t)j * ldc + i; *d = be == 0 ? al * s : al * s + be * *d; } }
void cblas_dimatcopy(const enum CBLAS_ORDER o, const enum CBLAS_TRANSPOSE t, const blasint r, const blasint c, const double al, double* a, const blasint lda, const blasint ldb) {
	double* tmp = new double[(size_t)r * c]; for (blasint j = 0; j < c; ++j) for (blasint i = 0; i < r; ++i) tmp[(size_t)j * r + i] = a[(size_t)j * lda + i]; for (blasint j = 0; j < c; ++j) for (blasint i = 0; i < r; ++i) { double v = tmp[(size_t)j * r + i]; if (al != 1) v *= al; if (t == CblasNoTrans) a[(size_t)j * ldb + i] = v; else a[(size_t)i * ldb + j] = v; } delete[] tmp; }
double cblas_ddot(const blasint n, const double* x, const blasint ix, const double* y, const blasint iy) { double s = 0; for (blasint i = 0; i < n; ++i) s += x[(ptrdiff_t)i * ix] * y[(ptrdiff_t)i * iy]; return s; }
void cblas_daxpy(const blasint n, const double al, const double* x, const blasint ix, double* y, const blasint iy) { for (blasint i = 0; i < n; ++i) y[(ptrdiff_t)i * iy] += al * x[(ptrdiff_t)i * ix]; }
}
