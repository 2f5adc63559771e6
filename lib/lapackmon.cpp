// Monitor on the boundary to BLAS/LAPACK (which are not instrumented): every array
// argument must span the extent the routine is documented to touch.  Linked with
// -Wl,--wrap=<routine>; a violation becomes an ordinary AddressSanitizer report.
#include <complex>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
typedef std::complex<double> Z;
typedef std::complex<float> C;
unsigned long vhLapackCalls = 0;
// set by a task to make its next divide-and-conquer decomposition report failure
thread_local bool vhLapackFail = false;
unsigned long vhLapackFailed = 0;
#ifdef VH_TSAN
// The routines are not instrumented: what they touch is told to ThreadSanitizer here.
#include <cstring>
#include <sched.h>
extern "C" void __tsan_write_range(void*, long);
extern "C" void __tsan_read_range(void*, long);
template <typename T> static void need(const char* what, const T* p, long n)
{
	if (__atomic_add_fetch(&vhLapackCalls, 1, __ATOMIC_RELAXED) % 7 == 0) sched_yield();
	if (n <= 0) return;
	bool in = strstr(what, "gemm a") || strstr(what, "gemm b");
	if (in) __tsan_read_range(const_cast<T*>(p), n * sizeof(T));
	else
		__tsan_write_range(const_cast<T*>(p), n * sizeof(T));
}
#else
extern "C" void* __asan_region_is_poisoned(void*, size_t);
static volatile char sink;
template <typename T> static void need(const char* what, const T* p, long n)
{
	__atomic_fetch_add(&vhLapackCalls, 1, __ATOMIC_RELAXED);
	if (n <= 0) return;
	void* q = __asan_region_is_poisoned(const_cast<T*>(p), n * sizeof(T));
	if (!q) return;
	fprintf(stderr, "BLAS/LAPACK argument too short: %s needs %ld elements\n", what, n);
	fflush(stderr);
	sink = *static_cast<volatile char*>(q);
	abort();
}
#endif
static bool failNow(int lwork, int* info)
{
	if (!vhLapackFail || lwork == -1) return false;
	vhLapackFail = false;
	__atomic_fetch_add(&vhLapackFailed, 1, __ATOMIC_RELAXED);
	*info = -4; // what the routine reports for a matrix it cannot take
	return true;
}
static long span(long ld, long rows, long cols) { return (cols <= 0 || rows <= 0) ? 0 : ld * (cols - 1) + rows; }
static long lw(int l) { return l == -1 ? 1 : std::max(1, l); }
#define SYEV(P, T)                                                                                                 \
	extern "C" void __real_##P##_(char*, char*, int*, T*, int*, T*, T*, int*, int*);                           \
	extern "C" void __wrap_##P##_(char* j, char* u, int* n, T* a, int* lda, T* w, T* work, int* lwork, int* i) \
	{                                                                                                          \
		if (*lda >= *n) {                                                                                  \
			need(#P " a", a, span(*lda, *n, *n));                                                      \
			need(#P " w", w, *n);                                                                      \
			need(#P " work", work, lw(*lwork));                                                        \
		}                                                                                                  \
		__real_##P##_(j, u, n, a, lda, w, work, lwork, i);                                                 \
	}
SYEV(dsyev, double)
SYEV(ssyev, float)
#define HEEV(P, T, R)                                                                                                        \
	extern "C" void __real_##P##_(char*, char*, int*, T*, int*, R*, T*, int*, R*, int*);                                 \
	extern "C" void __wrap_##P##_(char* j, char* u, int* n, T* a, int* lda, R* w, T* work, int* lwork, R* rwork, int* i) \
	{                                                                                                                    \
		if (*lda >= *n) {                                                                                            \
			need(#P " a", a, span(*lda, *n, *n));                                                                \
			need(#P " w", w, *n);                                                                                \
			need(#P " work", work, lw(*lwork));                                                                  \
			need(#P " rwork", rwork, std::max(1, 3 * *n - 2));                                                   \
		}                                                                                                            \
		__real_##P##_(j, u, n, a, lda, w, work, lwork, rwork, i);                                                    \
	}
HEEV(zheev, Z, double)
HEEV(cheev, C, float)
extern "C" void __real_zgeev_(char*, char*, int*, Z*, int*, Z*, Z*, int*, Z*, int*, Z*, int*, double*, int*);
extern "C" void __wrap_zgeev_(char* jl, char* jr, int* n, Z* a, int* lda, Z* w, Z* vl, int* ldvl, Z* vr, int* ldvr, Z* work, int* lwork, double* rwork, int* info)
{
	if (*lda >= *n) {
		need("zgeev a", a, span(*lda, *n, *n));
		need("zgeev w", w, *n);
		if (*jl == 'V' && *ldvl >= *n) need("zgeev vl", vl, span(*ldvl, *n, *n));
		if (*jr == 'V' && *ldvr >= *n) need("zgeev vr", vr, span(*ldvr, *n, *n));
		need("zgeev work", work, lw(*lwork));
		need("zgeev rwork", rwork, 2 * *n);
	}
	__real_zgeev_(jl, jr, n, a, lda, w, vl, ldvl, vr, ldvr, work, lwork, rwork, info);
}
#define GETR(P, Q, T)                                                                     \
	extern "C" void __real_##P##_(int*, int*, T*, int*, int*, int*);                  \
	extern "C" void __wrap_##P##_(int* m, int* n, T* a, int* lda, int* p, int* i)     \
	{                                                                                 \
		need(#P " a", a, span(*lda, *m, *n));                                     \
		need(#P " ipiv", p, std::min(*m, *n));                                    \
		__real_##P##_(m, n, a, lda, p, i);                                        \
	}                                                                                 \
	extern "C" void __real_##Q##_(int*, T*, int*, int*, T*, int*, int*);              \
	extern "C" void __wrap_##Q##_(int* n, T* a, int* lda, int* p, T* w, int* l, int* i) \
	{                                                                                 \
		need(#Q " a", a, span(*lda, *n, *n));                                     \
		need(#Q " ipiv", p, *n);                                                  \
		need(#Q " work", w, lw(*l));                                              \
		__real_##Q##_(n, a, lda, p, w, l, i);                                     \
	}
GETR(dgetrf, dgetri, double)
GETR(zgetrf, zgetri, Z)
GETR(sgetrf, sgetri, float)
GETR(cgetrf, cgetri, C)
#define SVDCHK(P)                                                                 \
	int mn = std::min(*m, *n), mx = std::max(*m, *n);                         \
	need(P " a", a, span(*lda, *m, *n));                                      \
	need(P " s", s, mn);                                                      \
	need(P " u", u, span(*ldu, *m, *jz == 'A' ? *m : mn));                    \
	need(P " vt", vt, span(*ldvt, *jz == 'A' ? *n : mn, *n));                 \
	need(P " work", work, lw(*lwork));                                        \
	(void)mx;
#define SDDR(P, T)                                                                                                                                       \
	extern "C" void __real_##P##_(char*, int*, int*, T*, int*, T*, T*, int*, T*, int*, T*, int*, int*, int*);                                        \
	extern "C" void __wrap_##P##_(char* jz, int* m, int* n, T* a, int* lda, T* s, T* u, int* ldu, T* vt, int* ldvt, T* work, int* lwork, int* iw, int* i) \
	{                                                                                                                                                \
		SVDCHK(#P)                                                                                                                               \
		need(#P " iwork", iw, 8 * mn);                                                                                                           \
		if (failNow(*lwork, i)) return; __real_##P##_(jz, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, iw, i);                                                                \
	}
SDDR(dgesdd, double)
SDDR(sgesdd, float)
#define SDDC(P, T, R)                                                                                                                                           \
	extern "C" void __real_##P##_(char*, int*, int*, T*, int*, R*, T*, int*, T*, int*, T*, int*, R*, int*, int*);                                           \
	extern "C" void __wrap_##P##_(char* jz, int* m, int* n, T* a, int* lda, R* s, T* u, int* ldu, T* vt, int* ldvt, T* work, int* lwork, R* rw, int* iw, int* i) \
	{                                                                                                                                                       \
		SVDCHK(#P)                                                                                                                                      \
		need(#P " iwork", iw, 8 * mn);                                                                                                                  \
		need(#P " rwork", rw, std::max(5L * mn * mn + 5L * mn, 2L * mx * mn + 2L * mn * mn + mn));                                                      \
		if (failNow(*lwork, i)) return; __real_##P##_(jz, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, rw, iw, i);                                                                   \
	}
SDDC(zgesdd, Z, double)
SDDC(cgesdd, C, float)
#define SVDR(P, T)                                                                                                                                         \
	extern "C" void __real_##P##_(char*, char*, int*, int*, T*, int*, T*, T*, int*, T*, int*, T*, int*, int*);                                         \
	extern "C" void __wrap_##P##_(char* jz, char* jv, int* m, int* n, T* a, int* lda, T* s, T* u, int* ldu, T* vt, int* ldvt, T* work, int* lwork, int* i) \
	{                                                                                                                                                  \
		SVDCHK(#P)                                                                                                                                 \
		__real_##P##_(jz, jv, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, i);                                                                  \
	}
SVDR(dgesvd, double)
SVDR(sgesvd, float)
#define SVDC(P, T, R)                                                                                                                                             \
	extern "C" void __real_##P##_(char*, char*, int*, int*, T*, int*, R*, T*, int*, T*, int*, T*, int*, R*, int*);                                            \
	extern "C" void __wrap_##P##_(char* jz, char* jv, int* m, int* n, T* a, int* lda, R* s, T* u, int* ldu, T* vt, int* ldvt, T* work, int* lwork, R* rw, int* i) \
	{                                                                                                                                                         \
		SVDCHK(#P)                                                                                                                                        \
		need(#P " rwork", rw, 5 * mn);                                                                                                                    \
		__real_##P##_(jz, jv, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, rw, i);                                                                     \
	}
SVDC(zgesvd, Z, double)
SVDC(cgesvd, C, float)
#define GEMM(P, T)                                                                                                                                                                          \
	extern "C" void __real_##P##_(char*, char*, int*, int*, int*, const T*, const T*, int*, const T*, int*, const T*, T*, int*);                                                        \
	extern "C" void __wrap_##P##_(char* ta, char* tb, int* m, int* n, int* k, const T* al, const T* a, int* lda, const T* b, int* ldb, const T* be, T* cc, int* ldc)                     \
	{                                                                                                                                                                                   \
		bool na = (*ta == 'N' || *ta == 'n'), nb = (*tb == 'N' || *tb == 'n');                                                                                                      \
		if (*m > 0 && *n > 0) {                                                                                                                                                     \
			if (*al != T(0)) {                                                                                                                                                  \
				need(#P " a", a, na ? span(*lda, *m, *k) : span(*lda, *k, *m));                                                                                             \
				need(#P " b", b, nb ? span(*ldb, *k, *n) : span(*ldb, *n, *k));                                                                                             \
			}                                                                                                                                                                   \
			need(#P " c", cc, span(*ldc, *m, *n));                                                                                                                              \
		}                                                                                                                                                                           \
		__real_##P##_(ta, tb, m, n, k, al, a, lda, b, ldb, be, cc, ldc);                                                                                                            \
	}
GEMM(dgemm, double)
GEMM(sgemm, float)
GEMM(zgemm, Z)
GEMM(cgemm, C)
