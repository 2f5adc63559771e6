#include "Complex.h"
#include "PsimagLite.h"
#include "SparseVector.h"
#include "vh.h"
#include <map>
using namespace PsimagLite;
typedef vh::Ctx Ctx;
typedef std::complex<double> Z;

template <typename T> struct Model { // the vector represented
	size_t n;
	std::map<size_t, T> e;
	T at(size_t i) const
	{
		auto it = e.find(i);
		return it == e.end() ? T(0) : it->second;
	}
	std::vector<T> dense() const
	{
		std::vector<T> v(n, T(0));
		for (auto& x : e) v.at(x.first) = x.second;
		return v;
	}
};
struct Parts { // boundaries as a basis offers them: the last one is the end
	std::vector<SizeType> b;
	SizeType partition() const { return b.size(); }
	SizeType partition(SizeType i) const { return b.at(i); }
};
template <typename T> static T val(vh::Rng& r, int kind)
{
	if (kind == 0) return vh::RandVal<T>::getInt(r);
	T x = vh::RandVal<T>::get(r);
	if (kind == 2) x *= std::pow(10., r.range(-13, 6));
	return x;
}
template <typename T> static double scaleOf(const Model<T>& m)
{
	double s = 0;
	for (auto& x : m.e) s = std::max(s, std::abs(x.second));
	return s;
}
// entries of a sparse vector added up
template <typename T> static std::map<size_t, T> sumUp(const SparseVector<T>& s)
{
	std::map<size_t, T> m;
	for (size_t i = 0; i < s.indices(); ++i) m[s.index(i)] += s.value(i);
	return m;
}
template <typename T> static void same(Ctx& c, const SparseVector<T>& s, const Model<T>& m, const char* what, double scale)
{
	EXPECT(s.size() == m.n, "size", what << ": size " << s.size() << " not " << m.n);
	auto got = sumUp(s);
	for (auto& x : got) EXPECT(x.first < m.n && std::abs(x.second - m.at(x.first)) <= 1e-12 * scale + 6e-15, "value", what << ": entry " << x.first << " is " << x.second << " not " << m.at(x.first));
	for (auto& x : m.e) EXPECT(got.count(x.first) || std::abs(x.second) <= 1e-12 * scale + 6e-15, "value", what << ": entry " << x.first << " is missing");
	c.count("vectors compared");
}
template <typename T> static SparseVector<T> make(Ctx& c, size_t n, int kind, Model<T>& m, double& scale, String& d)
{
	vh::Rng& r = c.rng;
	m.n = n;
	m.e.clear();
	SparseVector<T> s(n);
	int how = n ? r.range(0, 3) : 3;
	d += " how" + std::to_string(how) + "[";
	if (how == 0) {
		std::vector<T> v(n, T(0));
		double p = r.pick(std::vector<double> { 0, 0.1, 0.5, 1 });
		for (size_t i = 0; i < n; ++i)
			if (r.chance(p)) m.e[i] = v[i] = val<T>(r, kind);
		s = SparseVector<T>(v);
		for (size_t i = 0; i < s.indices(); ++i) EXPECT(s.value(i) == v[s.index(i)] && s.value(i) != T(0), "fromDense", "entry " << s.index(i));
	}
	else if (how == 1) {
		size_t off = r.range(0, n), len = r.range(0, n - off);
		std::vector<T> v(len);
		for (size_t i = 0; i < len; ++i) m.e[off + i] = v[i] = val<T>(r, kind);
		if (r.chance(0.5) && n) s.add(r.range(0, n - 1), T(3)); // forgotten
		if (r.chance(0.5)) s.sort();
		s.fromChunk(v, off, n);
	}
	else {
		if (how == 3 && r.chance(0.3)) {
			if (r.chance(0.5)) s = SparseVector<T>(SizeType(r.range(1, 2 * n + 2)));
			const bool other = s.size() != n;
			s.add(0, T(1));
			if (r.chance(0.5) && !other) s.clear();
			else
				s.resize(n);
		}
		size_t k = n ? (r.chance(0.2) ? r.range(0, 2) : r.range(0, 2 * n)) : 0;
		std::vector<std::pair<size_t, T>> added;
		for (size_t i = 0; i < k; ++i) {
			size_t idx = r.range(0, n - 1);
			T v = val<T>(r, kind);
			if (!added.empty() && r.chance(0.25)) { // cancel an earlier one
				auto& a = r.pick(added);
				idx = a.first;
				v = -a.second;
			}
			added.push_back(std::make_pair(idx, v));
			size_t at = s.add(idx, v);
			EXPECT(at + 1 == s.indices() && s.index(at) == idx && s.value(at) == v, "add", "entry " << at);
			m.e[idx] += v;
			scale = std::max(scale, std::abs(v));
			if (r.chance(0.1)) s.sort(); // and goes on adding
		}
	}
	for (auto& x : m.e) {
		scale = std::max(scale, std::abs(x.second));
		std::ostringstream os;
		os.precision(17);
		os << x.first << ":" << x.second << " ";
		d += os.str();
	}
	d += "]";
	c.desc(d);
	return s;
}
template <typename T> static void family(Ctx& c)
{
	vh::Rng& r = c.rng;
	size_t n = r.chance(0.1) ? r.range(0, 1) : r.dim(1, 25, 400);
	int kind = r.range(0, 2);
	String d = "n=" + std::to_string(n);
	double scale = 0;
	Model<T> ma, mb;
	SparseVector<T> a = make<T>(c, n, kind, ma, scale, d), b = make<T>(c, n, kind, mb, scale, d);
	c.nontrivial(d);
	same(c, a, ma, "built", scale);
	// before and after sorting it is the same vector
	SparseVector<T> as = a;
	as.sort();
	same(c, as, ma, "sorted", scale);
	size_t na = as.indices();
	for (size_t i = 1; i < na; ++i) EXPECT(as.index(i - 1) < as.index(i), "sorted", "indices " << as.index(i - 1) << " then " << as.index(i));
	SparseVector<T> bs = b;
	bs.sort();
	SparseVector<T> twice = as;
	twice.sort();
	EXPECT(twice.indices() == na, "sorted", "sorting twice");
	// scalar product and norm
	T dot = 0;
	double n2 = 0, mag = 0;
	for (size_t i = 0; i < n; ++i) {
		dot += ma.at(i) * vh::cconj(mb.at(i));
		mag += std::abs(ma.at(i)) * std::abs(mb.at(i));
		n2 += std::norm(ma.at(i));
	}
	double tol = 1e-12 * (mag + scale * scale) + 1e-15 * scale;
	T got = as.scalarProduct(bs);
	EXPECT(std::abs(got - dot) <= tol, "scalarProduct", "product is " << got << " not " << dot);
	EXPECT(std::abs(as * bs - dot) <= tol, "scalarProduct", "product is " << as * bs << " not " << dot);
	double nm = vh::creal(norm(as));
	EXPECT(std::fabs(nm - std::sqrt(n2)) <= 1e-10 * scale + 1e-15, "norm", "norm is " << nm << " not " << std::sqrt(n2));
	// equality is that of the vectors
	double diff = 0;
	for (size_t i = 0; i < n; ++i) diff = std::max(diff, std::abs(ma.at(i) - mb.at(i)));
	if (diff > 1e-7 || diff == 0) EXPECT((as == bs) == (diff == 0) && (bs == as) == (diff == 0), "equal", "the vectors differ by " << diff << " but equality is " << (as == bs) << " and " << (bs == as));
	EXPECT(as == as && as == twice, "equal", "a vector differs from itself");
	{ // one entry changed, added or removed
		Model<T> m2 = ma;
		size_t at = n ? r.range(0, n - 1) : 0;
		if (n) m2.e[at] += T(r.pick(std::vector<double> { 1, -2, 1e-6 }));
		SparseVector<T> x(m2.dense());
		x.sort();
		if (n) EXPECT(!(x == as) && !(as == x), "equal", "equal to a vector that differs at " << at);
		SparseVector<T> same(ma.dense());
		same.sort();
		if (scale < 1e3) EXPECT(same == as && as == same, "equal", "differs from the vector it represents");
		SparseVector<T> longer(n + 1);
		longer.sort();
		EXPECT(!(longer == as), "equal", "equal to a vector of another size");
		c.count("equalities checked");
	}
	// scaling and subtraction, from sorted and unsorted vectors
	T f = val<T>(r, r.range(0, 1));
	Model<T> mf = ma;
	for (auto& x : mf.e) x.second *= f;
	double fs = scale * (std::abs(f) + 1);
	same(c, f * a, mf, "scaled", fs);
	SparseVector<T> x = r.chance(0.5) ? a : as;
	bool ind = x.indices() > 0;
	x *= f;
	same(c, x, mf, "scaled in place", fs);
	Model<T> md = ma;
	for (auto& y : mb.e) md.e[y.first] -= y.second;
	SparseVector<T> y = r.chance(0.5) ? a : as;
	y -= r.chance(0.5) ? b : bs;
	same(c, y, md, "subtracted", scale);
	y.sort();
	same(c, y, md, "subtracted and sorted", scale);
	if (r.chance(0.3)) {
		SparseVector<T> z = a;
		z -= z;
		z.sort();
		Model<T> zero;
		zero.n = n;
		same(c, z, zero, "subtracted from itself", scale);
	}
	if (kind == 0 && ind) {
		size_t big = 0;
		for (size_t i = 0; i < n; ++i) big += std::abs(ma.at(i)) > 1e-3;
		EXPECT(as.isOne() == (big <= 1), "isOne", "isOne of a vector with " << big << " entries");
	}
	// chunks, into destinations that hold something else
	size_t lo = n, hi = 0;
	for (size_t i = 0; i < a.indices(); ++i) {
		lo = std::min(lo, size_t(a.index(i)));
		hi = std::max(hi, size_t(a.index(i)) + 1);
	}
	std::vector<T> dest(r.range(0, 30), T(-7)), dense = ma.dense();
	size_t i0 = r.chance(0.7) && lo < hi ? r.range(0, lo) : r.range(0, n), tot = r.chance(0.7) && hi >= i0 ? r.range(hi > i0 ? hi - i0 : 0, n - i0) : r.range(0, n - i0);
	bool fits = lo >= hi || (i0 <= lo && i0 + tot >= hi), test = r.chance(0.5);
	bool refused = vh::throws([&] { a.toChunk(dest, i0, tot, test); });
	EXPECT(refused == !fits, "chunk:fit", "chunk " << i0 << "," << tot << " of a vector with entries in " << lo << ".." << hi << (refused ? " was refused" : " was extracted"));
	if (!refused) {
		EXPECT(dest.size() == tot, "chunk", "chunk of " << dest.size() << " not " << tot);
		for (size_t i = 0; i < tot; ++i) EXPECT(std::abs(dest[i] - dense[i0 + i]) <= 1e-12 * scale, "chunk", "chunk " << i0 << "," << tot << " has " << dest[i] << " not " << dense[i0 + i] << " at " << i);
		c.count("chunks compared");
	}
	else
		c.count("chunks refused");
	// partitions (with empty ones), the last boundary being the end
	Parts parts;
	parts.b.push_back(0);
	for (int k = r.range(0, 4); k > 0; --k) parts.b.push_back(r.range(0, n));
	parts.b.push_back(n);
	if (lo < hi && r.chance(0.5)) { // one that fits
		parts.b.push_back(r.range(0, lo));
		parts.b.push_back(r.range(hi, n));
		auto bad = [&](SizeType q) { return q > lo && q < hi; };
		parts.b.erase(std::remove_if(parts.b.begin(), parts.b.end(), bad), parts.b.end());
	}
	std::sort(parts.b.begin(), parts.b.end());
	int want = -1;
	for (size_t k = 0; k + 1 < parts.b.size(); ++k)
		if (lo < hi && parts.b[k] <= lo && hi <= parts.b[k + 1]) want = k;
	if (lo < hi) {
		try {
			SizeType k = a.findPartition(parts);
			EXPECT(int(k) == want, "partition", "entries in " << lo << ".." << hi << " with boundaries " << vh::str(parts.b) << " are said to be in " << k);
			std::vector<T> ch(3, T(5));
			SizeType k2 = a.toChunk(ch, parts);
			EXPECT(k2 == k && ch.size() == parts.b[k + 1] - parts.b[k], "partition", "chunk");
			for (size_t i = 0; i < ch.size(); ++i) EXPECT(std::abs(ch[i] - dense[parts.b[k] + i]) <= 1e-12 * scale, "partition", "chunk of partition " << k << " at " << i);
			c.count("partitions found");
		} catch (const std::runtime_error& e) {
			EXPECT(want < 0, "partition:refused", "entries in " << lo << ".." << hi << " with boundaries " << vh::str(parts.b) << " were refused");
			c.count("partitions refused");
		}
	}
	else
		EXPECT(vh::throws([&] { (void)a.findPartition(parts); }), "partition", "a vector without entries was placed in a partition");
	std::ostringstream os;
	os << a;
	std::istringstream is(os.str());
	String label;
	getline(is, label, ',');
	size_t sz = 0, cnt = 0;
	char comma;
	is >> sz >> comma >> cnt;
	EXPECT(label == "SparseVector" && sz == n && cnt == a.indices(), "print", os.str());
}
FAMILY(real, 36000, 480000) { family<double>(c); }
FAMILY(cplx, 36000, 480000) { family<Z>(c); }
