// Documents of random named values for the binary format, with what they should read back as
#ifndef DOC_H
#define DOC_H
#include "CrsMatrix.h"
#include "Io/IoNg.h"
#include "Matrix.h"
#include "PsimagLite.h"
#include "vh.h"
#include <limits>
#include <stack>
#include <sys/wait.h>
#include <unistd.h>
using namespace PsimagLite;
typedef vh::Ctx Ctx;
typedef std::complex<double> Z;
typedef std::complex<float> Zf;
typedef IoNgSerializer Ser;

enum Plain { PL_A, PL_B = 7, PL_BIG = 70000, PL_NEG = -3 };
enum class Scoped { A, B = 200, C = 1000, NEG = -70000 };
enum class Tiny : unsigned char { A, B = 255 };

// ------- values ---------
template <typename T> T rv(vh::Rng& r)
{
	if constexpr (std::is_same<T, bool>::value) return r.chance(0.5);
	else if constexpr (std::is_floating_point<T>::value) {
		switch (r.range(0, 12)) {
		case 0: return 0;
		case 1: return -T(0);
		case 2: return std::numeric_limits<T>::infinity();
		case 3: return std::numeric_limits<T>::quiet_NaN();
		case 4: return std::numeric_limits<T>::denorm_min();
		case 5: return -std::numeric_limits<T>::max();
		case 6: return std::nextafter(T(1), T(2));
		default: return r.real(-1, 1) * std::pow(10.0, double(r.range(-20, 20)));
		}
	} else if constexpr (std::is_same<T, Plain>::value) {
		const Plain x[] = { PL_A, PL_B, PL_BIG, PL_NEG };
		return x[r.range(0, 3)];
	} else if constexpr (std::is_same<T, Scoped>::value) {
		const Scoped x[] = { Scoped::A, Scoped::B, Scoped::C, Scoped::NEG };
		return x[r.range(0, 3)];
	} else if constexpr (std::is_same<T, Tiny>::value) return r.chance(0.5) ? Tiny::A : Tiny::B;
	else if constexpr (std::is_integral<T>::value) {
		switch (r.range(0, 4)) {
		case 0: return std::numeric_limits<T>::max();
		case 1: return std::numeric_limits<T>::min();
		case 2: return 0;
		default: return T(r.next());
		}
	} else { // complex
		typename T::value_type a = rv<typename T::value_type>(r), b = rv<typename T::value_type>(r);
		return T(a, b);
	}
}
inline size_t len(vh::Rng& r) { return r.chance(0.2) ? 0 : r.chance(0.2) ? 1 : r.chance(0.03) ? r.range(100, 9000) : r.range(2, 30); }
template <typename T> std::vector<T> rvec(vh::Rng& r, size_t n)
{
	std::vector<T> v(n);
	for (size_t i = 0; i < n; ++i) v[i] = rv<T>(r);
	return v;
}
inline String rstr(vh::Rng& r)
{
	String s;
	size_t n = r.chance(0.15) ? 0 : r.range(1, 40);
	for (size_t i = 0; i < n; ++i) s += char(r.chance(0.1) ? r.range(0, 255) : r.range(32, 126));
	return s;
}
template <typename T> bool same(const T& a, const T& b)
{
	if constexpr (std::is_same<T, bool>::value) return a == b;
	else return memcmp(&a, &b, sizeof(T)) == 0;
}
inline bool same(const String& a, const String& b) { return a == b; }
template <typename T> bool same(const std::vector<T>& a, const std::vector<T>& b);
template <typename A, typename B> bool same(const std::pair<A, B>& a, const std::pair<A, B>& b) { return same(a.first, b.first) && same(a.second, b.second); }

// a composite object, as an application would write it
struct Obj {
	int i;
	std::vector<double> v;
	String s;
	Obj() : i(0) { }
	explicit Obj(vh::Rng& r) : i(rv<int>(r)), v(rvec<double>(r, len(r))), s(rstr(r)) { }
	void write(String label, Ser& io, Ser::WriteMode mode = Ser::NO_OVERWRITE) const
	{
		if (mode == Ser::NO_OVERWRITE) io.createGroup(label);
		io.write(label + "/i", i, mode);
		io.write(label + "/v", v, mode);
		if (mode == Ser::NO_OVERWRITE) io.write(label + "/s", s);
	}
	void overwrite(String label, Ser& io) const { write(label, io, Ser::ALLOW_OVERWRITE); }
	void read(String label, Ser& io)
	{
		io.read(i, label + "/i");
		io.read(v, label + "/v");
		io.read(s, label + "/s");
	}
};
inline bool same(const Obj& a, const Obj& b) { return a.i == b.i && same(a.v, b.v) && same(a.s, b.s); }
template <typename T> bool same(const std::vector<T>& a, const std::vector<T>& b)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i)
		if (!same(T(a[i]), T(b[i]))) return false;
	return true;
}
template <typename T> bool same(const Matrix<T>& a, const Matrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
	for (size_t i = 0; i < a.rows(); ++i)
		for (size_t j = 0; j < a.cols(); ++j)
			if (!same(a(i, j), b(i, j))) return false;
	return true;
}
template <typename T> bool same(const CrsMatrix<T>& a, const CrsMatrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols() || a.nonZeros() != b.nonZeros()) return false;
	for (size_t i = 0; i <= a.rows(); ++i)
		if (a.rows() && a.getRowPtr(i) != b.getRowPtr(i)) return false;
	for (size_t k = 0; k < a.nonZeros(); ++k)
		if (a.getCol(k) != b.getCol(k) || !same(a.getValue(k), b.getValue(k))) return false;
	return true;
}
template <typename T> bool same(const std::stack<T>& a_, const std::stack<T>& b_)
{
	std::stack<T> a = a_, b = b_;
	if (a.size() != b.size()) return false;
	while (a.size()) {
		if (!same(a.top(), b.top())) return false;
		a.pop(), b.pop();
	}
	return true;
}

// everything the library opened must be closed by now, or the file stays open
inline void expectNoHandles(Ctx& c, const char* when)
{
	ssize_t n = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_DATASET | H5F_OBJ_GROUP);
	EXPECT(n == 0, "handles", when << ": " << n << " objects of the file are still open");
	c.count("open handles checked");
}
struct Item {
	String kind, name;
	std::function<void(IoNg::Out&)> write;
	std::function<void(IoNg::Out&)> overwrite; // with ALLOW_OVERWRITE, where the type supports it
	std::function<bool(IoNg::In&)> check;      // reads and compares; throws if it cannot be read
	std::vector<std::function<void(IoNg::In&)>> wrong; // reads that must throw
	std::function<Item(vh::Rng&)> another;     // another value of the same type and name
};
// x is the destination's previous contents
template <typename T> Item make(String kind, String name, const T& v, const T& dirt)
{
	Item it;
	it.kind = kind;
	it.name = name;
	it.write = [v, name](IoNg::Out& o) { T x = v; o.write(x, name); };
	it.check = [v, dirt, name](IoNg::In& in) {
		T x = dirt;
		in.read(x, name);
		return same(x, v);
	};
	return it;
}
template <typename X> std::function<void(IoNg::In&)> wrongRead(String name)
{
	return [name](IoNg::In& in) { X x; in.read(x, name); };
}
template <typename T> Item scalarItem(vh::Rng& r, String kind, String name)
{
	T v = rv<T>(r);
	Item it = make<T>(kind, name, v, rv<T>(r));
	it.overwrite = [v, name](IoNg::Out& o) { o.write(v, name, Ser::ALLOW_OVERWRITE); };
	it.wrong = { wrongRead<std::vector<double>>(name), wrongRead<std::vector<Z>>(name), wrongRead<Matrix<double>>(name), wrongRead<std::vector<std::vector<int>>>(name), wrongRead<std::pair<int, int>>(name) };
	it.another = [kind, name](vh::Rng& q) { return scalarItem<T>(q, kind, name); };
	return it;
}
template <typename T> Item vecItem(vh::Rng& r, String kind, String name)
{
	std::vector<T> v = rvec<T>(r, len(r));
	Item it = make<std::vector<T>>(kind, name, v, rvec<T>(r, r.range(0, 5)));
	it.overwrite = [v, name](IoNg::Out& o) { o.write(v, name, Ser::ALLOW_OVERWRITE); };
	if constexpr (!std::is_same<T, bool>::value)
		if (v.size() != 1) it.wrong = { wrongRead<int>(name), wrongRead<double>(name), wrongRead<bool>(name), wrongRead<Scoped>(name) };
	if constexpr (std::is_floating_point<T>::value) it.wrong.push_back(wrongRead<std::vector<int>>(name)), it.wrong.push_back(wrongRead<std::vector<bool>>(name)), it.wrong.push_back(wrongRead<String>(name));
	else if constexpr (std::is_integral<T>::value) it.wrong.push_back(wrongRead<std::vector<double>>(name)), it.wrong.push_back(wrongRead<std::vector<Z>>(name));
	else it.wrong.push_back(wrongRead<std::vector<typename T::value_type>>(name)), it.wrong.push_back(wrongRead<std::vector<int>>(name));
	it.wrong.push_back(wrongRead<std::vector<std::vector<T>>>(name));
	it.wrong.push_back(wrongRead<CrsMatrix<double>>(name));
	it.another = [kind, name](vh::Rng& q) { return vecItem<T>(q, kind, name); };
	return it;
}
template <typename T> Item vecvecItem(vh::Rng& r, String kind, String name)
{
	std::vector<std::vector<T>> v(r.range(0, 5)), d(r.range(0, 3), rvec<T>(r, 2));
	for (auto& x : v) x = rvec<T>(r, len(r));
	Item it = make<std::vector<std::vector<T>>>(kind, name, v, d);
	it.overwrite = [v, name](IoNg::Out& o) { o.write(v, name, Ser::ALLOW_OVERWRITE); };
	it.wrong = { wrongRead<std::vector<T>>(name), wrongRead<double>(name), wrongRead<Matrix<double>>(name), wrongRead<String>(name) };
	it.another = [kind, name](vh::Rng& q) { return vecvecItem<T>(q, kind, name); };
	return it;
}
template <typename T> Matrix<T> rmat(vh::Rng& r)
{
	size_t n = r.range(0, 6), m = n ? r.range(0, 6) : 0;
	Matrix<T> a(n, m);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < m; ++j) a(i, j) = rv<T>(r);
	return a;
}
template <typename T> CrsMatrix<T> rcrs(vh::Rng& r)
{
	if (r.chance(0.1)) return CrsMatrix<T>();
	size_t n = r.range(1, 7), m = r.range(1, 7), k = 0;
	double p = r.unit();
	CrsMatrix<T> a(n, m);
	for (size_t i = 0; i < n; ++i) {
		a.setRow(i, k);
		for (size_t j = 0; j < m; ++j)
			if (r.chance(p)) a.pushCol(j), a.pushValue(rv<T>(r)), ++k;
	}
	a.setRow(n, k);
	a.checkValidity();
	return a;
}
template <typename M, typename F> Item matItem(vh::Rng& r, String kind, String name, F f)
{
	M v = f(r);
	Item it = make<M>(kind, name, v, f(r));
	it.overwrite = [v, name](IoNg::Out& o) { o.overwrite(v, name); };
	it.wrong = { wrongRead<double>(name), wrongRead<String>(name), wrongRead<std::vector<double>>(name), wrongRead<std::vector<std::vector<double>>>(name) };
	it.another = [kind, name, f](vh::Rng& q) { return matItem<M>(q, kind, name, f); };
	return it;
}
// an object all of whose members can be overwritten, and vectors of them
struct Obj2 {
	double x;
	std::vector<int> v;
	std::vector<std::vector<double>> w;
	Obj2() : x(0) { }
	explicit Obj2(vh::Rng& r) : x(rv<double>(r)), v(rvec<int>(r, len(r))), w(r.range(0, 3))
	{
		for (auto& y : w) y = rvec<double>(r, len(r));
	}
	void write(String label, Ser& io, Ser::WriteMode mode = Ser::NO_OVERWRITE) const
	{
		if (mode == Ser::NO_OVERWRITE) io.createGroup(label);
		io.write(label + "/x", x, mode);
		io.write(label + "/v", v, mode);
		io.write(label + "/w", w, mode);
	}
	void overwrite(String label, Ser& io) const { write(label, io, Ser::ALLOW_OVERWRITE); }
	void read(String label, Ser& io)
	{
		io.read(x, label + "/x");
		io.read(v, label + "/v");
		io.read(w, label + "/w");
	}
};
inline bool same(const Obj2& a, const Obj2& b) { return same(a.x, b.x) && same(a.v, b.v) && same(a.w, b.w); }
inline Item objVecItem(vh::Rng& r, String name)
{
	std::vector<Obj2> v(r.range(0, 4)), d(r.range(0, 3), Obj2(r));
	for (auto& x : v) x = Obj2(r);
	Item it = make<std::vector<Obj2>>("vector of objects", name, v, d);
	it.overwrite = [v, name](IoNg::Out& o) { o.overwrite(v, name); };
	it.wrong = { wrongRead<int>(name), wrongRead<std::vector<int>>(name) };
	it.another = [name](vh::Rng& q) { return objVecItem(q, name); };
	return it;
}
inline Item randomItem(vh::Rng& r, String name)
{
	switch (r.range(0, 44)) {
	case 0: return scalarItem<bool>(r, "bool", name);
	case 1: return scalarItem<char>(r, "char", name);
	case 2: return scalarItem<unsigned char>(r, "uchar", name);
	case 3: return scalarItem<short>(r, "short", name);
	case 4: return scalarItem<unsigned short>(r, "ushort", name);
	case 5: return scalarItem<int>(r, "int", name);
	case 6: return scalarItem<unsigned int>(r, "uint", name);
	case 7: return scalarItem<long>(r, "long", name);
	case 8: return scalarItem<SizeType>(r, "size", name);
	case 9: return scalarItem<float>(r, "float", name);
	case 10: return scalarItem<double>(r, "double", name);
	case 11: return scalarItem<Plain>(r, "enum", name);
	case 12: return scalarItem<Scoped>(r, "enum class", name);
	case 13: return scalarItem<Tiny>(r, "tiny enum", name);
	case 14:
	case 15: {
		Item it = make<String>("string", name, rstr(r), rstr(r));
		it.wrong = { wrongRead<std::vector<double>>(name), wrongRead<Obj>(name) };
		return it;
	}
	case 16: {
		std::pair<int, double> v(rv<int>(r), rv<double>(r));
		Item it = make<std::pair<int, double>>("pair", name, v, std::pair<int, double>(1, 2));
		it.overwrite = [v, name](IoNg::Out& o) { o.write(v, name, Ser::ALLOW_OVERWRITE); };
		it.wrong = { wrongRead<int>(name), wrongRead<String>(name) };
		return it;
	}
	case 17: {
		std::pair<SizeType, Obj> v(rv<SizeType>(r), Obj(r));
		return make<std::pair<SizeType, Obj>>("pair obj", name, v, std::pair<SizeType, Obj>(1, Obj(r)));
	}
	case 18: return vecItem<bool>(r, "vector bool", name);
	case 19: return vecItem<char>(r, "vector char", name);
	case 20: return vecItem<int>(r, "vector int", name);
	case 21: return vecItem<SizeType>(r, "vector size", name);
	case 22: return vecItem<float>(r, "vector float", name);
	case 23:
	case 24: return vecItem<double>(r, "vector double", name);
	case 25: return vecItem<Zf>(r, "vector complex float", name);
	case 26:
	case 27: return vecItem<Z>(r, "vector complex", name);
	case 28: return vecvecItem<int>(r, "vector vector int", name);
	case 29: return vecvecItem<double>(r, "vector vector double", name);
	case 30: return vecvecItem<Z>(r, "vector vector complex", name);
	case 31: {
		std::vector<std::pair<int, double>> v(r.range(0, 5)), d(r.range(0, 3));
		for (auto& x : v) x.first = rv<int>(r), x.second = rv<double>(r);
		return make<std::vector<std::pair<int, double>>>("vector pair", name, v, d);
	}
	case 32: {
		std::vector<Obj> v(r.range(0, 4)), d(r.range(0, 3), Obj(r));
		for (auto& x : v) x = Obj(r);
		return make<std::vector<Obj>>("vector obj", name, v, d);
	}
	case 33: {
		std::vector<Scoped> v = rvec<Scoped>(r, r.range(0, 6));
		return make<std::vector<Scoped>>("vector enum class", name, v, std::vector<Scoped>(r.range(0, 3)));
	}
	case 34: {
		std::stack<Obj> v, d;
		for (int i = r.range(0, 4); i > 0; --i) v.push(Obj(r));
		if (r.chance(0.3)) d.push(Obj(r));
		return make<std::stack<Obj>>("stack", name, v, d);
	}
	case 35: return matItem<Matrix<double>>(r, "matrix double", name, rmat<double>);
	case 36: return matItem<Matrix<Z>>(r, "matrix complex", name, rmat<Z>);
	case 37: return matItem<Matrix<int>>(r, "matrix int", name, rmat<int>);
	case 38: return matItem<CrsMatrix<double>>(r, "crs double", name, rcrs<double>);
	case 39: return matItem<CrsMatrix<Z>>(r, "crs complex", name, rcrs<Z>);
	case 40: {
		std::vector<std::pair<int, Obj>> v(r.range(0, 3));
		for (auto& x : v) x.first = rv<int>(r), x.second = Obj(r);
		return make<std::vector<std::pair<int, Obj>>>("vector pair obj", name, v, std::vector<std::pair<int, Obj>>(r.range(0, 2)));
	}
	case 41: {
		String str = rstr(r);
		return matItem<Obj>(r, "object", name, [str](vh::Rng& q) {
			Obj o(q);
			o.s = str; // strings cannot be overwritten
			return o;
		});
	}
	case 44: return objVecItem(r, name);
	case 42: {
		std::vector<double> v = rvec<double>(r, len(r));
		Item it = make<std::vector<double>>("real as complex", name, v, v);
		it.check = [v, name](IoNg::In& in) {
			std::vector<Z> x(3);
			in.read(x, name);
			if (x.size() != v.size()) return false;
			for (size_t i = 0; i < v.size(); ++i)
				if (!same(x[i].real(), v[i]) || x[i].imag() != 0) return false;
			return true;
		};
		return it;
	}
	default: {
		// growing vector written entry by entry
		std::vector<double> v = rvec<double>(r, r.range(1, 5));
		Item it = make<std::vector<double>>("entries", name, v, v);
		it.write = [v, name](IoNg::Out& o) {
			for (size_t i = 0; i < v.size(); ++i) o.writeVectorEntry(v[i], name, i);
		};
		it.check = [v, name](IoNg::In& in) {
			double x = 1;
			in.readLastVectorEntry(x, name);
			bool ok = same(x, v.back());
			SizeType n = 0;
			in.read(n, name + "/Size");
			for (size_t i = 0; i < v.size(); ++i) {
				in.read(x, name + "/" + ttos(i));
				ok = ok && same(x, v[i]);
			}
			return ok && n == v.size();
		};
		return it;
	}
	}
}
// names that extend each other on purpose
inline String randomName(vh::Rng& r, std::vector<String>& used)
{
	for (;;) {
		String s;
		if (used.size() && r.chance(0.3)) s = used[r.range(0, used.size() - 1)] + (r.chance(0.5) ? "0" : "x");
		else
			for (int i = r.range(1, 6); i > 0; --i) s += char(r.chance(0.8) ? r.range('a', 'e') : r.range('0', '9'));
		bool ok = (s != "Canary" && s.find('/') == String::npos);
		for (auto& u : used) ok = ok && u != s;
		if (!ok) continue;
		used.push_back(s);
		return s;
	}
}
#endif
