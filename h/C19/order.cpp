#include "BitManip.h"
#include "Permutations.h"
#include "Sort.h"
#include "SumDecomposition.h"
#include "vh.h"
#include <cassert>
#include <map>
#include <set>
#include "PackIndices.h"
using namespace PsimagLite;
typedef vh::Ctx Ctx;
typedef std::vector<SizeType> VU;

template <typename T> static void sortCase(Ctx& c, const std::vector<T>& v)
{
	vh::Rng& r = c.rng;
	size_t n = v.size(), part = n > 0 && r.chance(0.3) ? r.range(1, n) : 0, m = part ? part : n;
	c.desc("sort " + std::to_string(part) + " of " + vh::str(v));
	std::vector<T> x = v;
	VU p(m, 77777);
	Sort<std::vector<T>> s;
	if (part) s.sort(x, p, part);
	else
		s.sort(x, p);
	EXPECT(x.size() == n && p.size() == m, "sizes", "sizes " << x.size() << " " << p.size());
	std::vector<bool> seen(m, false);
	for (size_t i = 0; i < m; ++i) {
		EXPECT(i == 0 || !(x[i] < x[i - 1]), "order", "sorted sequence is " << vh::str(x));
		EXPECT(p[i] < m && !seen[p[i]], "permutation", "not a permutation: " << vh::str(p));
		seen[p[i]] = true;
		EXPECT(x[i] == v[p[i]], "map", "element " << i << " of " << vh::str(x) << " is not element " << p[i] << " of the input");
	}
	for (size_t i = m; i < n; ++i) EXPECT(x[i] == v[i], "tail", "element " << i << " beyond the part sorted changed");
	if (m > 1) c.nontrivial(vh::str(v) + "," + std::to_string(part));
	c.count("sequences sorted");
}
FAMILY(sort, 16000, 240000)
{
	vh::Rng& r = c.rng;
	size_t n = r.chance(0.1) ? r.range(0, 2) : r.chance(0.1) ? r.range(100, c.thorough ? 5000 : 700) : r.range(0, 40);
	int shape = r.range(0, 5);
	std::vector<double> d(n);
	for (size_t i = 0; i < n; ++i) {
		double x = r.real(-5, 5);
		d[i] = shape == 0 ? x : shape == 1 ? double(r.range(-3, 3)) : shape == 2 ? double(i) : shape == 3 ? -double(i) : shape == 4 ? double(i % 7) : 4.5;
	}
	switch (r.range(0, 3)) {
	case 0:
		return sortCase(c, d);
	case 1:
		return sortCase(c, std::vector<int>(d.begin(), d.end()));
	case 2: {
		VU u;
		for (double x : d) u.push_back(x < 0 ? SizeType(-x) + (SizeType(1) << 63) : SizeType(x));
		return sortCase(c, u);
	}
	default: {
		std::vector<String> s;
		for (double x : d) s.push_back(String(r.range(0, 3), 'a') + std::to_string(int(x)));
		return sortCase(c, s);
	}
	}
}
FAMILY(permutations, 3200, 24000)
{
	vh::Rng& r = c.rng;
	size_t n = r.range(0, c.thorough ? 8 : 7);
	VU v(n);
	SizeType hi = r.pick(std::vector<int> { 0, 1, 2, 9, 1000000 });
	for (auto& x : v) x = r.chance(0.05) ? ~SizeType(0) - r.range(0, 2) : r.range(0, hi);
	c.desc("permutations of " + vh::str(v));
	Permutations<VU> p(v);
	VU want = v;
	std::sort(want.begin(), want.end());
	size_t count = 0;
	bool more = true;
	do {
		++count;
		EXPECT(p.size() == n, "size", "size " << p.size());
		for (size_t i = 0; i < n; ++i) EXPECT(p[i] == want[i], "arrangement", "arrangement " << count << " of " << vh::str(v) << " is not " << vh::str(want) << " at " << i);
		std::ostringstream a, b;
		a << p;
		for (auto x : want) b << x << " ";
		EXPECT(a.str() == b.str(), "print", a.str());
		more = std::next_permutation(want.begin(), want.end());
		bool inc = p.increase();
		EXPECT(inc == more, "end", "after arrangement " << count << " of " << vh::str(v) << " increase gives " << inc);
	} while (more);
	EXPECT(!p.increase(), "end", "increase after the end");
	c.count("arrangements visited", count);
	if (count > 1) c.nontrivial("p" + vh::str(v));
}
static void compositions(VU& cur, size_t x, SizeType left, std::vector<VU>& out)
{
	if (x == cur.size()) {
		if (left == 0) out.push_back(cur);
		return;
	}
	for (SizeType i = 0; i <= left; ++i) {
		cur[x] = i;
		compositions(cur, x + 1, left - i, out);
	}
}
FAMILY(decompositions, 3200, 16000)
{
	vh::Rng& r = c.rng;
	size_t total = r.range(0, 6);
	SizeType sum = r.range(0, total > 4 ? 8 : 12);
	VU cur(total);
	std::vector<VU> all;
	compositions(cur, 0, sum, all);
	int sel = r.range(0, int(all.size()) + 1);
	int kind = r.range(0, 2);
	c.desc("decompositions of " + std::to_string(sum) + " in " + std::to_string(total) + " kind " + std::to_string(kind) + " " + std::to_string(sel));
	SumDecomposition sd = kind == 0 ? SumDecomposition(total, sum) : SumDecomposition(total, sum, kind == 1 ? SumDecomposition::SEL_SIZE : SumDecomposition::SEL_INDEX, sel);
	EXPECT(sd.size() == all.size(), "count", "there are " << all.size() << " but size is " << sd.size());
	std::vector<VU> want;
	if (kind == 0) want = all;
	if (kind == 2 && sel < int(all.size())) want.push_back(all[sel]);
	EXPECT(sd.storedSize() == want.size(), "stored", "stored " << sd.storedSize() << " not " << want.size());
	std::set<VU> got, expected(want.begin(), want.end());
	for (size_t i = 0; i < want.size(); ++i) {
		const VU& x = sd(i);
		EXPECT(expected.count(x), "member", vh::str(x) << " is not one of the decompositions");
		EXPECT(got.insert(x).second, "twice", vh::str(x) << " is listed twice");
	}
	EXPECT(vh::throws([&] { (void)sd(want.size()); }) && vh::throws([&] { (void)sd(want.size() + r.range(1, 1000)); }), "refuse", "an index beyond the list was accepted");
	std::ostringstream a;
	a << sd;
	EXPECT(strtoul(a.str().c_str(), nullptr, 10) == want.size(), "print", a.str());
	c.count("decompositions listed", want.size());
	if (all.size() > 1) c.nontrivial("d" + std::to_string(total) + "," + std::to_string(sum) + "," + std::to_string(kind) + "," + std::to_string(sel));
}
FAMILY(bits, 8000, 80000)
{
	vh::Rng& r = c.rng;
	for (int k = 0; k < 20; ++k) {
		unsigned long w = r.next();
		switch (r.range(0, 4)) {
		case 0:
			w >>= r.range(0, 63);
			break;
		case 1:
			w = ~(w & r.next() & r.next());
			break;
		case 2:
			w = 1UL << r.range(0, 63);
			break;
		case 3:
			w = ~0UL >> r.range(0, 63) << r.range(0, 63);
		}
		int n = 0;
		for (int i = 0; i < 64; ++i) n += w >> i & 1;
		c.desc(std::to_string(w));
		EXPECT(BitManip::count(w) == n, "count", w << " has " << n << " bits, not " << BitManip::count(w));
		EXPECT(BitManip::countKernighan(w) == SizeType(n), "kernighan", w << " has " << n << " bits, not " << BitManip::countKernighan(w));
		c.nontrivial("b" + std::to_string(w));
		c.count("words counted");
	}
	EXPECT(BitManip::count(0) == 0 && BitManip::count(~0UL) == 64 && BitManip::countKernighan(0) == 0 && BitManip::countKernighan(~0UL) == 64, "count", "extremes");
}
FAMILY(pack, 8000, 80000)
{
	vh::Rng& r = c.rng;
	SizeType n = r.dim(1, 40, 400), m = r.dim(1, 40, 400);
	c.desc("pack " + std::to_string(n) + "x" + std::to_string(m));
	VU perm(n * m), inv(n * m);
	for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
	for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[r.range(0, i - 1)]);
	for (size_t i = 0; i < perm.size(); ++i) inv[perm[i]] = i;
	PackIndices pk(n);
	for (SizeType i = 0; i < n * m; ++i) {
		SizeType x = 99999, y = 99999;
		pk.unpack(x, y, perm[i]);
		EXPECT(x < n && y < m && x + y * n == perm[i], "unpack", perm[i] << " unpacks to " << x << "," << y << " with " << n);
		EXPECT(pk.pack(x, y, inv) == i, "pack", x << "," << y << " packs to " << pk.pack(x, y, inv) << " not " << i);
	}
	SizeType big = r.next() >> 1, x = 0, y = 0, q = r.range(1, 1L << 40);
	SizeType n2 = r.range(1, 3000);
	for (int k = 0; k < 20; ++k) { // around multiples
		SizeType m2 = r.range(1, 3000), i = n2 * m2 - r.range(0, 1);
		PackIndices(n2).unpack(x, y, i);
		EXPECT(x == i % n2 && y == i / n2, "unpack", i << " unpacks to " << x << "," << y << " with " << n2);
	}
	PackIndices(q).unpack(x, y, big);
	EXPECT(x == big % q && y == big / q, "unpack", big << " unpacks to " << x << "," << y << " with " << q);
	c.nontrivial("k" + std::to_string(n) + "," + std::to_string(m) + "," + std::to_string(big));
	c.count("indices packed", n * m);
}
