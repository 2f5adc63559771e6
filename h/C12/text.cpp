#include "CrsMatrix.h"
#include "Io/IoSimple.h"
#include "Map.h"
#include "Matrix.h"
#include "Stack.h"
#include "vh.h"
#include <memory>
#include <unistd.h>
using namespace PsimagLite;
typedef vh::Ctx Ctx;
typedef std::complex<double> Z;
typedef IoSimple::In In;

static const double big[] = { 0, -0.0, 1e-300, -1e300, 1.0 / 3, 1e15, 123456789.123456789, 5e-324, 2.2250738585072014e-308, -1, 0.1 };
template <typename T> T rv(vh::Rng& r)
{
	if constexpr (std::is_same<T, double>::value) return r.chance(0.3) ? big[r.range(0, 10)] : r.real(-1, 1) * std::pow(10.0, double(r.range(-12, 12)));
	else if constexpr (std::is_same<T, float>::value) return float(r.real(-1, 1) * std::pow(10.0, double(r.range(-12, 12))));
	else if constexpr (std::is_same<T, Z>::value) {
		double a = rv<double>(r), b = rv<double>(r);
		return Z(a, b);
	} else if constexpr (std::is_same<T, bool>::value) return r.chance(0.5);
	else return r.chance(0.2) ? std::numeric_limits<T>::max() : r.chance(0.2) ? std::numeric_limits<T>::min() : T(r.range(-1000, 1000));
}
// equality to p digits
static bool eq(double a, double b, int p)
{
	if (p >= 17) return a == b;
	return std::fabs(a - b) <= (0.51 * std::pow(10.0, 1 - p) + 2e-16) * std::fabs(a) + 1e-323;
}
static bool eq(float a, float b, int p) { return p >= 9 ? a == b : eq(double(a), double(b), p) || std::fabs(a - b) <= 0.51 * std::pow(10.0, 1 - p) * std::fabs(a) * 1.001 + 2e-7 * std::fabs(a); }
static bool eq(Z a, Z b, int p) { return eq(a.real(), b.real(), p) && eq(a.imag(), b.imag(), p); }
static bool eq(int a, int b, int) { return a == b; }
static bool eq(long a, long b, int) { return a == b; }
static bool eq(SizeType a, SizeType b, int) { return a == b; }
static bool eq(bool a, bool b, int) { return a == b; }
static bool eq(const String& a, const String& b, int) { return a == b; }

struct Entry {
	String label;   // as given to the reader
	char kind;      // s: one token after the label, v: vector, m: matrix, k: stack
	std::function<void(IoSimple::Out&)> write;
	std::function<bool(In&, long)> read; // throws if it cannot be read
	size_t lines;   // that it takes in the file
};
template <typename T> Entry scalar(vh::Rng& r, String label, int p)
{
	T v = rv<T>(r), dirt = rv<T>(r);
	Entry e;
	e.label = label + "=", e.kind = 's', e.lines = 1;
	e.write = [=](IoSimple::Out& o) { o.write(v, label); };
	e.read = [=](In& in, long level) {
		T x = dirt;
		in.readline(x, label + "=", level);
		return eq(v, x, p);
	};
	return e;
}
template <typename T> Entry vec(vh::Rng& r, String label, int p)
{
	std::vector<T> v(r.chance(0.25) ? 0 : r.dim(1, 9, 1500)), d(r.range(0, 4));
	for (auto& x : v) x = rv<T>(r);
	for (auto& x : d) x = rv<T>(r);
	Entry e;
	e.label = label, e.kind = 'v', e.lines = v.size() + 3;
	e.write = [=](IoSimple::Out& o) { o.write(v, label); };
	e.read = [=](In& in, long level) {
		std::vector<T> x = d;
		std::pair<String, SizeType> sc = in.read(x, label, level);
		if (sc.first != label) return false;
		if (x.size() != v.size()) return false;
		for (size_t i = 0; i < v.size(); ++i)
			if (!eq(v[i], x[i], p)) return false;
		return true;
	};
	return e;
}
template <typename T> Entry mat(vh::Rng& r, String label, int p)
{
	size_t n = r.dim(1, 5, 60), m = r.dim(1, 5, 60);
	Matrix<T> v(n, m);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < m; ++j) v(i, j) = rv<T>(r);
	Entry e;
	e.label = label, e.kind = 'm', e.lines = n + 3;
	bool dirty = r.chance(0.3);
	e.write = [=](IoSimple::Out& o) { o.write(v, label); };
	e.read = [=](In& in, long level) {
		Matrix<T> x;
		if (dirty) x.resize(n, m), x.setTo(T(3));
		in.read(x, label, level);
		if (x.rows() != v.rows() || x.cols() != v.cols()) return false;
		for (size_t i = 0; i < v.rows(); ++i)
			for (size_t j = 0; j < v.cols(); ++j)
				if (!eq(v(i, j), x(i, j), p)) return false;
		return true;
	};
	return e;
}
template <typename T> Entry crs(vh::Rng& r, String label, int p)
{
	size_t n = r.dim(1, 5, 60), k = 0;
	double q = r.unit();
	CrsMatrix<T> a(n, n);
	for (size_t i = 0; i < n; ++i) {
		a.setRow(i, k);
		for (size_t j = 0; j < n; ++j)
			if (r.chance(q)) a.pushCol(j), a.pushValue(rv<T>(r)), ++k;
	}
	a.setRow(n, k);
	a.checkValidity();
	Entry e;
	e.label = label, e.kind = 'm', e.lines = 0;
	e.write = [=](IoSimple::Out& o) { o.write(a, label); };
	e.read = [=](In& in, long level) {
		CrsMatrix<T> x;
		in.read(x, label, level);
		if (x.rows() != a.rows() || x.cols() != a.cols() || x.nonZeros() != a.nonZeros()) return false;
		for (size_t i = 0; i <= a.rows(); ++i)
			if (x.getRowPtr(i) != a.getRowPtr(i)) return false;
		for (size_t i = 0; i < a.nonZeros(); ++i)
			if (x.getCol(i) != a.getCol(i) || !eq(a.getValue(i), x.getValue(i), p)) return false;
		return true;
	};
	return e;
}
static Entry stk(vh::Rng& r, String label, int p)
{
	std::stack<double> v, d;
	for (int i = r.dim(0, 5, 300); i > 0; --i) v.push(rv<double>(r));
	if (r.chance(0.5)) d.push(7);
	Entry e;
	e.label = label, e.kind = 'k', e.lines = v.size() + 3;
	e.write = [=](IoSimple::Out& o) { o.write(v, label); };
	e.read = [=](In& in, long level) {
		std::stack<double> x = d, y = v;
		in.read(x, label, level);
		if (x.size() != y.size()) return false;
		for (; x.size(); x.pop(), y.pop())
			if (!eq(y.top(), x.top(), p)) return false;
		return true;
	};
	return e;
}
static Entry str(vh::Rng& r, String label)
{
	String v, d = r.chance(0.5) ? "stale" : "";
	if (!r.chance(0.3))
		for (int i = r.dim(1, 12, 3000); i > 0; --i) v += char(r.range(33, 126));
	if (r.chance(0.15)) v += r.chance(0.5) ? "La=3" : "#C1#";
	Entry e;
	e.label = label + "=", e.kind = 's', e.lines = 1;
	bool viaStream = r.chance(0.3);
	String comment = r.chance(0.2) ? "longer than what follows" : "";
	e.write = [=](IoSimple::Out& o) {
		if (viaStream) { // the stream may be used again
			OstringStream msg(std::cout.precision());
			msg() << comment << " ! " << comment;
			if (comment.size()) o.printline(msg);
			else msg().str("");
			msg() << label << "=" << v;
			o.printline(msg);
		} else
			o.printline(label + "=" + v);
	};
	e.read = [=](In& in, long level) {
		String x = d;
		in.readline(x, label + "=", level);
		return x == v;
	};
	return e;
}
static std::vector<Entry> mapEntries(vh::Rng& r, String label, int p, std::function<void(IoSimple::Out&)>& writeAll)
{
	std::map<int, double> m;
	for (int i = r.range(1, 4); i > 0; --i) m[r.range(-5, 30)] = rv<double>(r);
	std::vector<Entry> es;
	for (auto& kv : m) {
		Entry e;
		String l = label + "[" + std::to_string(kv.first) + "]=";
		double v = kv.second;
		e.label = l, e.kind = 's', e.lines = 1;
		e.write = [](IoSimple::Out&) { };
		e.read = [=](In& in, long level) {
			double x = 3;
			in.readline(x, l, level);
			return eq(v, x, p);
		};
		es.push_back(e);
	}
	writeAll = [=](IoSimple::Out& o) {
		std::ostringstream os;
		os.precision(p);
		printMap(os, m, label);
		o << os.str();
	};
	return es;
}
FAMILY(history, 4000, 60000)
{
	vh::Rng& r = c.rng;
	int p = r.chance(0.4) ? 17 : r.range(2, 17);
	String fn = c.scratch() + "/t" + ttos(c.index);
	unlink(fn.c_str());
	// scalar labels extend each other; labels of containers do not
	std::vector<String> labels = { "La", "Lab", "Lab0", "L", "#X", "Lb[3]", "Lb[3]x", "xLa", "Z:Lab", "y#C0#La" };
	std::vector<Entry> es;
	size_t n = r.dim(1, 25, 160);
	std::ostringstream d;
	{
		std::unique_ptr<IoSimple::Out> out(new IoSimple::Out(fn));
		out->setPrecision(p);
		for (size_t i = 0; i < n; ++i) {
			if (r.chance(0.05)) { // another session
				out->close();
				out.reset(new IoSimple::Out());
				out->open(fn, std::ios_base::app);
				out->setPrecision(p);
				c.count("append sessions");
			}
			String l = r.pick(labels);
			String cl = String(r.chance(0.2) ? "x" : "") + "#C" + std::to_string(r.range(0, 4)) + "#"; // few, so that they repeat
			Entry e;
			int k = r.range(0, 17);
			switch (k) {
			case 0: e = scalar<int>(r, l, p); break;
			case 1: e = scalar<SizeType>(r, l, p); break;
			case 2: e = scalar<double>(r, l, p); break;
			case 3: e = scalar<Z>(r, l, p); break;
			case 4: e = scalar<float>(r, l, p); break;
			case 5: e = scalar<bool>(r, l, p); break;
			case 6: e = scalar<long>(r, l, p); break;
			case 7: e = vec<int>(r, cl, p); break;
			case 8: e = vec<double>(r, cl, p); break;
			case 9: e = vec<Z>(r, cl, p); break;
			case 10: e = vec<SizeType>(r, cl, p); break;
			case 11: e = mat<double>(r, cl, p); break;
			case 12: e = mat<Z>(r, cl, p); break;
			case 13: e = crs<double>(r, cl, p); break;
			case 14: e = crs<Z>(r, cl, p); break;
			case 15: e = stk(r, cl, p); break;
			case 16: e = str(r, l); break;
			default: {
				std::function<void(IoSimple::Out&)> w;
				std::vector<Entry> me = mapEntries(r, "M" + std::to_string(r.range(0, 2)), p, w);
				w(*out);
				for (size_t q = 0; q + 1 < me.size(); ++q) es.push_back(me[q]);
				e = me.back();
				break;
			}
			}
			e.write(*out);
			es.push_back(e);
			d << e.label << ":" << k << " ";
			if (r.chance(0.1)) out->printline("# a remark; nothing=here Z");
		}
	}
	d << " precision " << p;
	c.desc(d.str());
	c.nontrivial(d.str());
	In in(fn);
	size_t pos = 0; // entries consumed so far
	for (size_t step = 0; step < 12 + 2 * n; ++step) {
		size_t pick = r.range(0, es.size() - 1);
		String label = es[pick].label;
		std::vector<size_t> ahead, all;
		for (size_t i = 0; i < es.size(); ++i) {
			if (es[i].label != label) continue;
			all.push_back(i);
			if (i >= pos) ahead.push_back(i);
		}
		double x = r.unit();
		if (x < 0.1) {
			in.rewind();
			pos = 0;
		} else if (x < 0.2) {
			SizeType k = in.count(label);
			EXPECT(k == ahead.size(), "count", "count(" << label << ") = " << k << " instead of " << ahead.size());
			pos = 0; // it starts again
			c.count("counts");
		} else if (x < 0.3) {
			String miss = r.chance(0.5) ? "Labx=" : "QQ";
			int k = r.range(0, 3);
			long lev = r.chance(0.3) ? In::LAST_INSTANCE : r.range(0, 2);
			bool t = vh::throws([&]() {
				if (k == 0) { int y; in.readline(y, miss, lev); }
				else if (k == 1) { String y; in.readline(y, miss, lev); }
				else if (k == 2) { std::vector<double> y; in.read(y, miss, lev); }
				else { Matrix<double> y; in.read(y, miss, lev); }
			});
			EXPECT(t, "missing", "label " << miss << " that is not in the file was read");
			in.rewind();
			pos = 0;
			c.count("missing labels refused");
		} else if (x < 0.35) {
			// as something else
			Entry& e = es[pick];
			in.rewind();
			pos = 0;
			bool t = vh::throws([&]() {
				if (e.kind == 's') { std::vector<double> y; in.read(y, label); }
				else { int y; in.readline(y, label); }
			});
			EXPECT(t, "kind", label << " read as a value of another kind");
			in.rewind();
			c.count("wrong kinds refused");
		} else if (x < 0.5) {
			size_t want = all.back();
			bool ok = false;
			try {
				ok = es[want].read(in, In::LAST_INSTANCE);
			} catch (const std::exception& e) {
				c.fail("last:throws", "last " + label + ": " + e.what());
			}
			EXPECT(ok, "last", "the last " << label << " is not entry " << want);
			pos = want + 1;
			c.count("last instances");
		} else {
			long level = r.chance(0.5) ? 0 : r.range(0, ahead.size() + 1);
			if (size_t(level) >= ahead.size()) {
				bool t = vh::throws([&]() { es[pick].read(in, level); });
				EXPECT(t, "level", "occurrence " << level << " of " << label << " read though there are only " << ahead.size());
				in.rewind();
				pos = 0;
				c.count("missing occurrences refused");
				continue;
			}
			// the entries in between may be of other types, as text they are still skipped
			bool ok = false, threw = false;
			size_t want = ahead[level];
			try {
				ok = es[want].read(in, level);
			} catch (const std::exception& e) {
				threw = true;
				c.fail("level:throws", "occurrence of " + label + ": " + e.what());
			}
			EXPECT(ok && !threw, "value", "occurrence " << level << " of " << label << " after entry " << pos << " is not entry " << want);
			pos = want + 1;
			c.count("values read back");
		}
	}
	unlink(fn.c_str());
}
// to a stream of the caller's: the same text as to a file, and the stream stays usable
FAMILY(stream, 800, 6000)
{
	vh::Rng& r = c.rng;
	int p = r.range(2, 17);
	String fn = c.scratch() + "/s" + ttos(c.index);
	std::vector<Entry> es;
	for (int i = r.range(1, 8); i > 0; --i) switch (r.range(0, 5)) {
		case 0: es.push_back(scalar<double>(r, "La", p)); break;
		case 1: es.push_back(vec<double>(r, "#C", p)); break;
		case 2: es.push_back(mat<Z>(r, "#C", p)); break;
		case 3: es.push_back(str(r, "Lb")); break;
		case 4: es.push_back(stk(r, "#C", p)); break;
		default: es.push_back(scalar<SizeType>(r, "Lc", p)); break;
		}
	std::ostringstream os;
	os << "before ";
	{
		IoSimple::Out out(fn), out2(os);
		EXPECT(out.filename() == fn && out.rank() == 0 && !out.ng(), "stream:file name", out.filename());
		out.setPrecision(p);
		out2.setPrecision(p);
		for (auto& e : es) e.write(out), e.write(out2);
		EXPECT(vh::throws([&]() { out2.close(); }), "stream:close", "a stream of the caller's was closed");
		EXPECT(vh::throws([&]() { out2.open(fn + ".x", std::ios_base::out); }), "stream:open", "a stream of the caller's was opened as a file");
		String nowhere = r.chance(0.5) ? fn + ".dir/x" : c.scratch();
		EXPECT(vh::throws([&]() { IoSimple::Out no(nowhere); }), "stream:nowhere", "a file that can't be opened was accepted: " << nowhere);
		EXPECT(vh::throws([&]() { IoSimple::In no(fn + ".none"); }), "stream:nothing", "a file that doesn't exist was accepted");
		IoSimple::Out later;
		EXPECT(vh::throws([&]() { later.open(nowhere, std::ios_base::out); }), "stream:nowhere later", "a file that can't be opened was accepted: " << nowhere);
		c.count("unopenable files refused");
	}
	os << "after";
	std::ifstream f(fn.c_str());
	std::ostringstream got;
	got << f.rdbuf();
	EXPECT(os.str() == "before " + got.str() + "after", "stream:text", "stream has\n" << os.str() << "\nfile has\n" << got.str());
	c.desc(os.str());
	c.nontrivial(os.str());
	c.count("streams compared");
	unlink(fn.c_str());
}
// a file cut after any line: the value cut is not returned
FAMILY(cut, 800, 8000)
{
	vh::Rng& r = c.rng;
	String fn = c.scratch() + "/u" + ttos(c.index);
	Entry e;
	switch (r.range(0, 4)) {
	case 0: e = vec<double>(r, "#C", 17); break;
	case 1: e = mat<double>(r, "#C", 17); break;
	case 2: e = vec<Z>(r, "#C", 17); break;
	case 3: e = mat<Z>(r, "#C", 17); break;
	default: e = stk(r, "#C", 17); break;
	}
	{
		IoSimple::Out out(fn);
		out.setPrecision(17);
		out.write(5, "Lx");
		e.write(out);
	}
	std::ifstream f(fn.c_str());
	std::vector<String> lines;
	String s;
	while (std::getline(f, s)) lines.push_back(s);
	f.close();
	size_t last = 0; // last line with contents
	for (size_t i = 0; i < lines.size(); ++i)
		if (lines[i] != "") last = i;
	size_t keep = r.range(0, lines.size());
	bool newline = keep < 1 || r.chance(0.6);
	{
		std::ofstream g(fn.c_str());
		for (size_t i = 0; i < keep; ++i) {
			g << lines[i];
			if (i + 1 < keep || newline) g << "\n";
		}
	}
	c.desc("keep " + std::to_string(keep) + " of " + std::to_string(lines.size()) + (newline ? "" : ", no newline"));
	c.nontrivial(c.index + 1);
	In in(fn);
	bool ok = false, threw = false;
	try {
		ok = e.read(in, r.chance(0.3) ? In::LAST_INSTANCE : 0);
	} catch (const vh::CaseEnd&) {
		throw;
	} catch (...) {
		threw = true;
	}
	if (keep > last) {
		EXPECT(ok, "cut:complete", "a complete value was not read");
		c.count("complete values read");
	} else {
		EXPECT(threw, "cut:accepted", "a value cut after line " << keep << " of " << lines.size() << " was returned");
		c.count("cut values refused");
	}
	In in2;
	EXPECT(vh::throws([&]() { in2.open(fn + ".absent"); }), "absent", "an absent file was opened");
	in2.open(fn);
	if (keep > 0) {
		int x = 1;
		in2.readline(x, "Lx=");
		EXPECT(x == 5, "cut:first", "Lx came back as " << x);
	}
	unlink(fn.c_str());
}
