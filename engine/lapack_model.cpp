// Reference model of the LAPACK/BLAS routines Cantera calls (same storage conventions, unblocked
// algorithms), compiled with instrumentation so that linear solves stay symbolic. The pivot choice is
// taken from the concrete values without a path constraint: the solution does not depend on it.
#include <vector>
extern "C" {
int __verif_pivot(const double* col, int n);     // index of the largest magnitude (runtime.cpp, concrete)
int __verif_iszero(const double* p);
int dgemv_(const char* tr, const int* m, const int* n, const double* alpha, const double* a, const int* lda,
           const double* x, const int* incx, const double* beta, double* y, const int* incy, int) {
    bool t = *tr == 'T' || *tr == 't';
    int ny = t ? *n : *m, nx = t ? *m : *n;
    for (int i = 0; i < ny; i++) {
        double s = 0;
        for (int j = 0; j < nx; j++) s += (t ? a[j + (long) i * *lda] : a[i + (long) j * *lda]) * x[(long) j * *incx];
        double& Y = y[(long) i * *incy];
        Y = (*beta == 0.0) ? *alpha * s : *alpha * s + *beta * Y;
    }
    return 0;
}
int dgetrf_(const int* m, const int* n, double* a, int* lda, int* ipiv, int* info) {
    long L = *lda; int M = *m, N = *n, K = M < N ? M : N;
    *info = 0;
    for (int j = 0; j < K; j++) {
        int p = j + __verif_pivot(a + j + j * L, M - j);
        ipiv[j] = p + 1;
        if (__verif_iszero(a + p + j * L)) { if (!*info) *info = j + 1; continue; }
        if (p != j) for (int c = 0; c < N; c++) { double t = a[j + c * L]; a[j + c * L] = a[p + c * L]; a[p + c * L] = t; }
        for (int i = j + 1; i < M; i++) {
            if (__verif_iszero(a + i + j * L)) continue;
            double f = a[i + j * L] / a[j + j * L];
            a[i + j * L] = f;
            for (int c = j + 1; c < N; c++) a[i + c * L] -= f * a[j + c * L];
        }
    }
    return 0;
}
int dgetrs_(const char* tr, const int* n, const int* nrhs, double* a, const int* lda, int* ipiv, double* b,
            const int* ldb, int* info, int) {
    long L = *lda; int N = *n;
    bool t = *tr == 'T' || *tr == 't';
    *info = 0;
    for (int r = 0; r < *nrhs; r++) {
        double* x = b + (long) r * *ldb;
        if (!t) {
            for (int i = 0; i < N; i++) { int p = ipiv[i] - 1; if (p != i) { double v = x[i]; x[i] = x[p]; x[p] = v; } }
            for (int i = 0; i < N; i++) { double s = x[i]; for (int j = 0; j < i; j++) s -= a[i + j * L] * x[j]; x[i] = s; }
            for (int i = N - 1; i >= 0; i--) { double s = x[i]; for (int j = i + 1; j < N; j++) s -= a[i + j * L] * x[j]; x[i] = s / a[i + i * L]; }
        } else {
            for (int i = 0; i < N; i++) { double s = x[i]; for (int j = 0; j < i; j++) s -= a[j + i * L] * x[j]; x[i] = s / a[i + i * L]; }
            for (int i = N - 1; i >= 0; i--) { double s = x[i]; for (int j = i + 1; j < N; j++) s -= a[j + i * L] * x[j]; x[i] = s; }
            for (int i = N - 1; i >= 0; i--) { int p = ipiv[i] - 1; if (p != i) { double v = x[i]; x[i] = x[p]; x[p] = v; } }
        }
    }
    return 0;
}
int dgetri_(const int* n, double* a, const int* lda, int* ipiv, double*, int*, int* info) {
    long L = *lda; int N = *n, one = 1;
    std::vector<double> lu((long) N * N), e((long) N * N, 0.0);
    for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) lu[i + (long) j * N] = a[i + j * L];
    for (int i = 0; i < N; i++) e[i + (long) i * N] = 1.0;
    dgetrs_("N", n, n, lu.data(), n, ipiv, e.data(), n, info, one);
    for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) a[i + j * L] = e[i + (long) j * N];
    return 0;
}
int dgbtrf_(int* m, int* n, int* kl, int* ku, double* ab, int* ldab, int* ipiv, int* info) {
    long L = *ldab; int M = *m, N = *n, KL = *kl, KV = *ku + *kl;
    *info = 0;
    int ju = 0;
    #define AB(i, j) ab[(KV + (i) - (j)) + (long) (j) * L]
    for (int j = 0; j < N; j++) {     // fill-in area
        for (int i = j - KV; i < j - *ku; i++) if (i >= 0) AB(i, j) = 0.0;
    }
    for (int j = 0; j < (M < N ? M : N); j++) {
        int km = KL < M - 1 - j ? KL : M - 1 - j;
        int p = __verif_pivot(&AB(j, j), km + 1);
        ipiv[j] = j + p + 1;
        if (__verif_iszero(&AB(j + p, j))) { if (!*info) *info = j + 1; continue; }
        int u = j + *ku + p; if (u > N - 1) u = N - 1;
        if (u > ju) ju = u;
        if (p) for (int c = j; c <= ju; c++) { double t = AB(j, c); AB(j, c) = AB(j + p, c); AB(j + p, c) = t; }
        for (int i = j + 1; i <= j + km; i++) {
            if (__verif_iszero(&AB(i, j))) continue;
            double f = AB(i, j) / AB(j, j);
            AB(i, j) = f;
            for (int c = j + 1; c <= ju; c++) AB(i, c) -= f * AB(j, c);
        }
    }
    return 0;
}
int dgbtrs_(const char* tr, int* n, int* kl, int* ku, int* nrhs, double* ab, int* ldab, int* ipiv, double* b,
            int* ldb, int* info, int) {
    long L = *ldab; int N = *n, KL = *kl, KV = *ku + *kl;
    bool t = *tr == 'T' || *tr == 't';
    *info = 0;
    for (int r = 0; r < *nrhs; r++) {
        double* x = b + (long) r * *ldb;
        if (!t) {
            for (int j = 0; j < N; j++) {
                int p = ipiv[j] - 1;
                if (p != j) { double v = x[j]; x[j] = x[p]; x[p] = v; }
                for (int i = j + 1; i <= j + KL && i < N; i++) x[i] -= AB(i, j) * x[j];
            }
            for (int j = N - 1; j >= 0; j--) {
                x[j] = x[j] / AB(j, j);
                for (int i = j - 1; i >= j - KV && i >= 0; i--) x[i] -= AB(i, j) * x[j];
            }
        } else {
            for (int j = 0; j < N; j++) {
                double s = x[j];
                for (int i = j - KV < 0 ? 0 : j - KV; i < j; i++) s -= AB(i, j) * x[i];
                x[j] = s / AB(j, j);
            }
            for (int j = N - 1; j >= 0; j--) {
                for (int i = j + 1; i <= j + KL && i < N; i++) x[j] -= AB(i, j) * x[i];
                int p = ipiv[j] - 1;
                if (p != j) { double v = x[j]; x[j] = x[p]; x[p] = v; }
            }
        }
    }
    return 0;
}
}
