#include "Concurrency.h"
#include "GemmR.h"
#include "vh.h"
#include <limits>
using namespace PsimagLite;
typedef std::complex<double> Z;
typedef std::complex<float> C;
typedef vh::Ctx Ctx;
extern unsigned long vhLapackCalls;

template <typename T> struct Nan { static T v() { return std::numeric_limits<T>::quiet_NaN(); } };
template <typename T> struct Nan<std::complex<T>> { static std::complex<T> v() { return std::complex<T>(Nan<T>::v(), Nan<T>::v()); } };
template <typename T> struct Eps { static double v() { return 1e-12; } };
template <> struct Eps<float> { static double v() { return 2e-5; } };
template <> struct Eps<C> { static double v() { return 2e-5; } };

template <typename T> T opEl(const std::vector<T>& a, int ld, char op, int i, int j)
{
	if (op == 'N' || op == 'n') return a[i + (size_t)j * ld];
	T x = a[j + (size_t)i * ld];
	return (op == 'C' || op == 'c') ? vh::cconj(x) : x;
}
template <typename T> T scal(vh::Rng& r)
{
	switch (r.range(0, 3)) {
	case 0: return 0;
	case 1: return 1;
	case 2: return -1;
	}
	return vh::RandVal<T>::get(r);
}
static Concurrency* conc = nullptr;
template <typename T> void gemmCase(Ctx& c)
{
	vh::Rng& r = c.rng;
	static int argc = 1;
	static char name[] = "h";
	static char* argvv[] = { name, nullptr };
	static char** argv = argvv;
	if (!conc) conc = new Concurrency(&argc, &argv, 1);
	size_t nb = r.chance(0.1) ? 0 : r.dim(1, 12, 80);
	int nthreads = r.dim(1, 9, 40);
	int top = r.chance(0.2) ? 60 : 24;
	int m = r.dim(0, top, 170), n = r.dim(0, top, 170), k = r.dim(0, 12, 150);
	if (nb && r.chance(0.3)) { // block boundaries
		m = nb * r.range(0, 4) + r.range(-1, 1);
		n = nb * r.range(0, 4) + r.range(-1, 1);
		if (m < 0) m = 0;
		if (n < 0) n = 0;
	}
	const char* ops = "NTCntc";
	char ta = ops[r.range(0, 5)], tb = ops[r.range(0, 5)];
	bool na = ta == 'N' || ta == 'n', nbb = tb == 'N' || tb == 'n';
	int ra = na ? m : k, ca = na ? k : m, rb = nbb ? k : n, cb = nbb ? n : k;
	int pa = r.chance(0.5) ? 0 : r.range(1, 5), pb = r.chance(0.5) ? 0 : r.range(1, 5), pc = r.chance(0.5) ? 0 : r.range(1, 5);
	int lda = std::max(1, ra) + pa, ldb = std::max(1, rb) + pb, ldc = std::max(1, m) + pc;
	// exactly the extent BLAS may touch: the last column is not padded
	std::vector<T> A(ca ? (size_t)lda * (ca - 1) + ra : 0), B(cb ? (size_t)ldb * (cb - 1) + rb : 0), Cc(n ? (size_t)ldc * (n - 1) + m : 0);
	for (auto& x : A) x = vh::RandVal<T>::get(r);
	for (auto& x : B) x = vh::RandVal<T>::get(r);
	for (auto& x : Cc) x = vh::RandVal<T>::get(r);
	T alpha = scal<T>(r), beta = scal<T>(r);
	std::ostringstream d;
	d << "m=" << m << " n=" << n << " k=" << k << " nb=" << nb << " threads=" << nthreads << " ops=" << ta << tb << " ld=" << lda << "," << ldb << "," << ldc
	  << " alpha=" << alpha << " beta=" << beta;
	c.desc(d.str());
	c.sample(d.str());
	if (m && n) c.nontrivial(d.str());
	std::vector<T> want = Cc;
	for (int i = 0; i < m; ++i)
		for (int j = 0; j < n; ++j) {
			T s = 0;
			for (int l = 0; l < k; ++l) s += opEl(A, lda, ta, i, l) * opEl(B, ldb, tb, l, j);
			T old = beta == T(0) ? T(0) : beta * Cc[i + (size_t)j * ldc];
			want[i + (size_t)j * ldc] = alpha * s + old;
		}
	if (beta == T(0) && r.chance(0.5)) // BLAS never reads C then
		for (int i = 0; i < m; ++i)
			for (int j = 0; j < n; ++j) Cc[i + (size_t)j * ldc] = Nan<T>::v();
	std::vector<T> A0 = A, B0 = B, C0 = Cc;
	GemmR<T> g(false, nb, nthreads);
	T dummy[1];
	int times = r.chance(0.1) ? 2 : 1; // the same object serves several products
	for (int t = 0; t < times; ++t) {
		Cc = C0;
		g(ta, tb, m, n, k, alpha, A.empty() ? dummy : A.data(), lda, B.empty() ? dummy : B.data(), ldb, beta, Cc.empty() ? dummy : Cc.data(), ldc);
		EXPECT(A == A0 && B == B0, "gemm:inputs", "operand changed");
		for (int j = 0; j < n; ++j)
			for (int i = 0; i < ldc; ++i) {
				size_t q = i + (size_t)j * ldc;
				if (q >= Cc.size()) continue;
				if (i >= m)
					EXPECT(Cc[q] == C0[q], "gemm:outside", "element (" << i << "," << j << ") outside C changed");
				else
					EXPECT(vh::close(Cc[q], want[q], Eps<T>::v() * (10 + k) * 8), "gemm:value", "at " << i << "," << j << " got " << Cc[q] << " want " << want[q]);
			}
		c.count("products compared");
	}
	bool blocked = nb > 0 && ((size_t)m > nb || (size_t)n > nb) && m && n;
	if (blocked) c.count("products blocked");
	if (blocked && nthreads > 1) c.count("products threaded");
	c.count("GEMM calls monitored", vhLapackCalls);
	vhLapackCalls = 0;
}
FAMILY(gemmr_double, 5000, 40000) { gemmCase<double>(c); }
FAMILY(gemmr_complex, 5000, 40000) { gemmCase<Z>(c); }
FAMILY(gemmr_float, 1500, 10000) { gemmCase<float>(c); }
FAMILY(gemmr_cfloat, 1500, 10000) { gemmCase<C>(c); }
