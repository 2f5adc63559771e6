#include "InputNg.h"
#include "InputCheckBase.h"
#include "Options.h"
#include "vh.h"
#include <fstream>
#include <map>
#include <memory>
#include <unistd.h>
using namespace PsimagLite;
typedef vh::Ctx Ctx;
typedef std::complex<double> Z;

struct Check : public InputCheckBase {
	std::string extra;
	std::string import() const { return extra; }
	bool check(const String& label, const std::vector<String>& v, SizeType line) const { return label.substr(0, 3) == "Mat"; }
	void check(const String& label, const String& v, SizeType) { }
	bool checkSimpleLabel(const String& label, SizeType) const { return false; }
};
typedef InputNg<Check> Input;

static String num(double x)
{
	char b[64];
	snprintf(b, sizeof b, "%.17g", x);
	return b;
}
static String cnum(Z z) { return "(" + num(z.real()) + "," + num(z.imag()) + ")"; }

struct Stmt {
	enum Kind { TEXT, VEC, MAT, CMAT } kind = TEXT;
	String label;
	std::vector<String> tokens; // TEXT: one value; otherwise the numbers that follow (without the count)
	size_t rows = 0, cols = 0;
};
// what a label holds, in order
typedef std::map<String, std::vector<Stmt>> Model;
struct Doc {
	std::vector<Stmt> st;
	Model model;
	std::map<String, std::map<String, double>> maps;
	String text;
};
static String realText(vh::Rng& r)
{
	static const char* forms[] = { "0", "-0", "+3.5", "1e5", "-1.5E-3", ".5", "7.", "1e+2", "-2", "123456789.125" };
	return r.chance(0.4) ? forms[r.range(0, 9)] : num(r.real(-1, 1) * std::pow(10.0, double(r.range(-8, 8))));
}
static String intText(vh::Rng& r)
{
	int v = r.chance(0.2) ? std::numeric_limits<int>::max() : r.range(-1000, 1000);
	return (v >= 0 && r.chance(0.2) ? "+" : "") + std::to_string(v);
}
static String wordText(vh::Rng& r)
{
	String s;
	for (int i = r.dim(1, 10, 2000); i > 0; --i) {
		char ch = char(r.range(33, 126));
		if (ch == '#' || (ch == '=' && i == 0)) ch = 'x';
		s += ch;
	}
	if (s[0] == '=') s[0] = 'y'; // "a==b" has the value "b"
	return s;
}
static String label(vh::Rng& r)
{
	static const char* base[] = { "A", "AB", "ABC", "Total", "TotalSites", "x", "Lab1", "q_w", "P/R", "dir0:", "Mt:5" };
	String s = base[r.range(0, 10)];
	if (r.chance(0.3)) s += std::to_string(r.range(0, 12));
	return s;
}
static String sp(vh::Rng& r, int lo)
{
	String s;
	for (int i = r.range(lo, lo + (r.chance(0.3) ? 3 : 0)); i > 0; --i) s += r.chance(0.8) ? ' ' : '\t';
	return s;
}
static String comment(vh::Rng& r)
{
	String s = "#";
	for (int i = r.range(0, 20); i > 0; --i) s += char(r.range(32, 126));
	return s;
}
static String eol(vh::Rng& r)
{
	String s = sp(r, 0);
	if (r.chance(0.2)) s += comment(r);
	s += "\n";
	if (r.chance(0.15)) s += sp(r, 0) + "\n";
	if (r.chance(0.15)) s += sp(r, 0) + comment(r) + "\n";
	return s;
}
static Doc randomDoc(vh::Rng& r)
{
	Doc d;
	std::map<String, char> kindOf; // a label is of one kind
	size_t n = r.dim(1, 14, 120);
	bool burst = r.chance(0.06); // one label many times
	if (burst) n = r.chance(0.2) ? r.range(90, 130) : r.range(8, 40);
	auto pickLabel = [&]() { return burst && r.chance(0.8) ? String("R") : label(r); };
	std::vector<String> chunks;
	for (size_t i = 0; i < n; ++i) {
		int k = burst && r.chance(0.8) ? r.range(0, 6) : r.range(0, 9);
		Stmt s;
		s.rows = s.cols = 0;
		String out;
		if (k <= 3) {
			s.kind = Stmt::TEXT;
			s.label = pickLabel();
			if (kindOf.count(s.label) && kindOf[s.label] != 't') continue;
			kindOf[s.label] = 't';
			s.tokens = { r.chance(0.4) ? intText(r) : r.chance(0.6) ? realText(r) : wordText(r) };
			// "a=b=c" is text up to the end
			out = sp(r, 0) + s.label + "=" + sp(r, 0) + s.tokens[0] + eol(r);
		} else if (k <= 6) {
			s.kind = Stmt::VEC;
			s.label = "V" + pickLabel();
			if (kindOf.count(s.label) && kindOf[s.label] != 'v') continue;
			kindOf[s.label] = 'v';
			int type = r.range(0, 2);
			for (int q = r.dim(1, 8, 500); q > 0; --q) s.tokens.push_back(type == 0 ? intText(r) : type == 1 ? realText(r) : cnum(Z(r.real(-2, 2), r.real(-2, 2))));
			out = sp(r, 0) + s.label + (r.chance(0.2) ? eol(r) : sp(r, 1)) + std::to_string(s.tokens.size());
			for (auto& t : s.tokens) out += (r.chance(0.2) ? eol(r) : sp(r, 1)) + t;
			out += eol(r);
		} else if (k == 7) {
			s.kind = r.chance(0.5) ? Stmt::MAT : Stmt::CMAT;
			s.label = "Mat" + label(r);
			if (kindOf.count(s.label)) continue;
			kindOf[s.label] = 'm';
			s.rows = r.dim(1, 4, 30), s.cols = r.dim(1, 4, 30);
			for (size_t q = 0; q < s.rows * s.cols; ++q) s.tokens.push_back(s.kind == Stmt::MAT ? realText(r) : r.chance(0.7) ? cnum(Z(r.real(-2, 2), r.real(-2, 2))) : realText(r));
			out = s.label + sp(r, 1) + std::to_string(s.rows) + sp(r, 1) + std::to_string(s.cols);
			for (size_t q = 0; q < s.tokens.size(); ++q) out += (q % s.cols == 0 && r.chance(0.7) ? eol(r) : sp(r, 1)) + s.tokens[q];
			out += eol(r);
		} else if (k == 8) {
			// entries of a map
			String name = r.chance(0.5) ? "Map" : r.chance(0.5) ? "aMap" : "Map2";
			s.kind = Stmt::TEXT;
			String key = std::string(1, char('a' + r.range(0, 5)));
			s.label = name + "[" + key + "]";
			if (kindOf.count(s.label)) continue;
			kindOf[s.label] = 't';
			s.tokens = { realText(r) };
			d.maps[name][key] = std::strtod(s.tokens[0].c_str(), 0);
			out = s.label + "=" + s.tokens[0] + eol(r);
		} else {
			// one line for several labels
			String a = "e" + std::to_string(i) + "_", b = r.chance(0.5) ? ":x" : "";
			out = "!" + a + "$i" + b;
			size_t m = r.dim(1, 5, 60);
			for (size_t q = 0; q < m; ++q) {
				String v = r.chance(0.5) ? intText(r) : "w" + std::to_string(r.range(0, 99));
				out += (q && r.chance(0.3)) ? "  " : " ";
				out += v;
				Stmt t = s;
				t.kind = Stmt::TEXT, t.label = a + std::to_string(q) + b, t.tokens = { v };
				d.st.push_back(t);
				d.model[t.label].push_back(t);
			}
			chunks.push_back(out + "\n");
			continue;
		}
		chunks.push_back(out);
		d.st.push_back(s);
		d.model[s.label].push_back(s);
	}
	String t = r.chance(0.2) ? " " + comment(r) + "\n\n" : "";
	for (auto& x : chunks) t += x;
	if (r.chance(0.3)) // no final end of line
		while (t.size() && t.back() == '\n') t.pop_back();
	d.text = t;
	return d;
}
static std::unique_ptr<Input::Readable> parse(Ctx& c, const String& text, const char* tag = "i", String import = "")
{
	Check chk;
	chk.extra = import;
	if (c.rng.chance(0.5)) {
		Input::Writeable w(chk, text);
		return std::unique_ptr<Input::Readable>(new Input::Readable(w));
	}
	String fn = c.scratch() + "/" + tag;
	{
		std::ofstream f(fn.c_str());
		f << text;
	}
	Input::Writeable w(fn, chk);
	return std::unique_ptr<Input::Readable>(new Input::Readable(w));
}
static bool isInt(const String& s)
{
	size_t i = (s[0] == '+' || s[0] == '-') ? 1 : 0;
	return s.size() > i && s.find_first_not_of("0123456789", i) == String::npos && std::fabs(std::strtod(s.c_str(), 0)) <= 2147483647.0;
}
static bool isReal(const String& s)
{
	char* e = 0;
	if (s.find_first_not_of("0123456789+-.eE") != String::npos) return false;
	std::strtod(s.c_str(), &e);
	return *e == 0 && e != s.c_str();
}
static Z tokenValue(const String& t)
{
	if (t[0] != '(') return std::strtod(t.c_str(), 0);
	size_t k = t.find(',');
	return Z(std::strtod(t.substr(1, k - 1).c_str(), 0), std::strtod(t.substr(k + 1).c_str(), 0));
}
// expects an error that names what
template <typename F> void refuses(Ctx& c, F f, const char* key, const String& what, const String& text)
{
	String msg;
	bool threw = false;
	try {
		f();
	} catch (const std::exception& e) {
		threw = true;
		msg = e.what();
	}
	EXPECT(threw, key, "no error for " << what << " in:\n" << text);
	EXPECT(what == "" || msg.find(what) != String::npos, (String(key) + ":message").c_str(), "the error does not name " << what << ": " << msg);
	c.count("errors observed");
}
static void readAs(Ctx& c, Input::Readable& io, const Stmt& s, const String& text)
{
	vh::Rng& r = c.rng;
	String l = s.label;
	String lq = l + (r.chance(0.5) ? "=" : "");
	if (s.kind == Stmt::TEXT) {
		const String& t = s.tokens[0];
		switch (r.range(0, 5)) {
		case 0: {
			String v = "stale";
			io.readline(v, lq);
			EXPECT(v == t, "text", l << " is '" << v << "' instead of '" << t << "' in:\n" << text);
			break;
		}
		case 1:
		case 2: {
			int v = -77;
			if (!isInt(t)) {
				refuses(c, [&]() { io.readline(v, lq); }, "int:accepted", "", text + "\n" + t);
				return;
			}
			io.readline(v, lq);
			EXPECT(v == std::strtol(t.c_str(), 0, 10), "int", l << " is " << v << " instead of " << t << " in:\n" << text);
			break;
		}
		case 3: {
			SizeType v = 77;
			if (!isInt(t) || std::strtol(t.c_str(), 0, 10) < 0) {
				refuses(c, [&]() { io.readline(v, lq); }, "size:accepted", "", text + "\n" + t);
				return;
			}
			if (r.chance(0.5)) io.read(v, lq);
			else io.readline(v, lq);
			EXPECT(v == SizeType(std::strtol(t.c_str(), 0, 10)), "size", l << " is " << v << " instead of " << t << " in:\n" << text);
			break;
		}
		case 4: {
			double v = -77;
			if (!isReal(t)) {
				refuses(c, [&]() { io.readline(v, lq); }, "real:accepted", "", text + "\n" + t);
				return;
			}
			io.readline(v, lq);
			EXPECT(v == std::strtod(t.c_str(), 0), "real", l << " is " << v << " instead of " << t << " in:\n" << text);
			break;
		}
		default: {
			long v = -77;
			if (!isInt(t)) {
				refuses(c, [&]() { io.readline(v, lq); }, "long:accepted", "", text + "\n" + t);
				return;
			}
			io.readline(v, lq);
			EXPECT(v == std::strtol(t.c_str(), 0, 10), "long", l << " is " << v << " instead of " << t << " in:\n" << text);
			break;
		}
		}
	} else if (s.kind == Stmt::VEC) {
		bool allReal = true, allInt = true;
		for (auto& t : s.tokens) allReal = allReal && t[0] != '(', allInt = allInt && t[0] != '(' && std::strtod(t.c_str(), 0) == std::floor(std::strtod(t.c_str(), 0)) && std::fabs(std::strtod(t.c_str(), 0)) <= 2147483647.0;
		int k = r.range(0, 3);
		if (k == 0) {
			std::vector<Z> v(2, 5);
			io.read(v, l);
			EXPECT(v.size() == s.tokens.size(), "vector:size", l << " has " << v.size() << " entries in:\n" << text);
			for (size_t i = 0; i < v.size(); ++i) EXPECT(v[i] == tokenValue(s.tokens[i]), "vector", l << "[" << i << "] is " << v[i] << " in:\n" << text);
		} else if (k == 1) {
			std::vector<double> v(3, 5);
			if (!allReal) {
				refuses(c, [&]() { io.read(v, l); }, "vector:complex accepted", "", text);
				return;
			}
			io.read(v, l);
			EXPECT(v.size() == s.tokens.size(), "vector:size", l << " has " << v.size() << " entries in:\n" << text);
			for (size_t i = 0; i < v.size(); ++i) EXPECT(v[i] == tokenValue(s.tokens[i]).real(), "vector", l << "[" << i << "] is " << v[i] << " in:\n" << text);
		} else if (k == 2) {
			std::vector<int> v;
			if (!allInt) {
				refuses(c, [&]() { io.read(v, l); }, "vector:non-integer accepted", "", text);
				return;
			}
			io.read(v, l);
			EXPECT(v.size() == s.tokens.size(), "vector:size", l << " has " << v.size() << " entries in:\n" << text);
			for (size_t i = 0; i < v.size(); ++i) EXPECT(v[i] == tokenValue(s.tokens[i]).real(), "vector", l << "[" << i << "] is " << v[i] << " in:\n" << text);
		} else {
			std::vector<String> v(20, "z");
			io.read(v, l);
			EXPECT(v == s.tokens, "vector:text", l << " differs in:\n" << text);
		}
	} else {
		bool cplx = s.kind == Stmt::CMAT;
		for (auto& t : s.tokens) cplx = cplx || t[0] == '(';
		if (cplx || r.chance(0.4)) {
			Matrix<Z> m;
			io.read(m, l);
			EXPECT(m.rows() == s.rows && m.cols() == s.cols, "matrix:shape", l << " is " << m.rows() << "x" << m.cols() << " in:\n" << text);
			for (size_t i = 0; i < s.rows; ++i)
				for (size_t j = 0; j < s.cols; ++j) EXPECT(m(i, j) == tokenValue(s.tokens[i * s.cols + j]), "matrix", l << "(" << i << "," << j << ") is " << m(i, j) << " in:\n" << text);
		} else {
			Matrix<double> m;
			io.read(m, l);
			EXPECT(m.rows() == s.rows && m.cols() == s.cols, "matrix:shape", l << " is " << m.rows() << "x" << m.cols() << " in:\n" << text);
			for (size_t i = 0; i < s.rows; ++i)
				for (size_t j = 0; j < s.cols; ++j) EXPECT(m(i, j) == tokenValue(s.tokens[i * s.cols + j]).real(), "matrix", l << "(" << i << "," << j << ") is " << m(i, j) << " in:\n" << text);
		}
	}
	c.count("values read");
}
FAMILY(wellformed, 20000, 100000)
{
	vh::Rng& r = c.rng;
	Doc d = randomDoc(r);
	c.desc(d.text);
	c.nontrivial(d.text);
	std::unique_ptr<Input::Readable> io;
	try {
		io = parse(c, d.text);
	} catch (const std::exception& e) {
		c.fail("rejected", String("well-formed input rejected: ") + e.what() + "\n" + d.text);
	}
	EXPECT(!io->isAinur() && io->version() == 2, "version", "version " << io->version());
	std::map<String, size_t> next;
	std::vector<String> labels;
	for (auto& x : d.model) labels.push_back(x.first);
	if (labels.empty()) return;
	for (size_t step = 0; step < 3 * d.st.size(); ++step) {
		String l = r.pick(labels);
		std::vector<Stmt>& v = d.model[l];
		size_t& k = next[l];
		if (k >= v.size()) { // taken out for good
			String x;
			refuses(c, [&]() { io->readline(x, l); }, "removed:accepted", l, d.text);
			continue;
		}
		if (v[k].kind == Stmt::TEXT && r.chance(0.2)) {
			String x;
			bool force = r.chance(0.4);
			if (force) io->readline(x, l, true, true);
			else io->readline(x, l, false);
			EXPECT(x == v[k].tokens[0], "text", l << " is '" << x << "' instead of '" << v[k].tokens[0] << "' in:\n" << d.text);
			if (force) ++k;
			c.count("values read");
			continue;
		}
		size_t errs = 0;
		bool wasRefused = false;
		// a refused read takes nothing
		try {
			uint64_t before = errs;
			(void)before;
			// other kinds
			if (r.chance(0.15)) {
				if (v[k].kind == Stmt::TEXT) refuses(c, [&]() { std::vector<double> x; io->read(x, l); }, "kind:accepted", l, d.text);
				else refuses(c, [&]() { int x; io->readline(x, l); }, "kind:accepted", l, d.text);
				continue;
			}
			if (r.chance(0.1)) {
				String miss = l + "_";
				int q = r.range(0, 4);
				refuses(c, [&]() {
					if (q == 0) { int x; io->readline(x, miss); }
					else if (q == 1) { String x; io->readline(x, miss + "="); }
					else if (q == 2) { std::vector<int> x; io->read(x, miss); }
					else if (q == 3) { Matrix<double> x; io->read(x, miss); }
					else { double x; io->readline(x, miss); }
				}, "missing:accepted", miss, d.text);
				continue;
			}
			// what kind it is read as decides whether it is refused
			vh::Rng save = r;
			(void)save;
			const Stmt& s = v[k];
			// learn whether it is refused by asking for the text afterwards
			readAs(c, *io, s, d.text);
			if (s.kind == Stmt::TEXT && k + 1 < v.size()) {
				String x;
				io->readline(x, l, false);
				wasRefused = (x == s.tokens[0] && x != v[k + 1].tokens[0]);
				bool ambiguous = s.tokens[0] == v[k + 1].tokens[0];
				EXPECT(ambiguous || wasRefused || x == v[k + 1].tokens[0], "sequence", "after reading " << l << " once, it is " << x << " in:\n" << d.text);
				if (ambiguous) {
					// give up on this label
					labels.erase(std::find(labels.begin(), labels.end(), l));
					if (labels.empty()) break;
					continue;
				}
			} else if (s.kind != Stmt::TEXT && k + 1 < v.size()) {
				std::vector<String> x, y = s.tokens;
				Input::Readable copy(*io);
				copy.read(x, l);
				if (x == v[k + 1].tokens && y == v[k + 1].tokens) {
					labels.erase(std::find(labels.begin(), labels.end(), l));
					if (labels.empty()) break;
					continue;
				}
				wasRefused = (x == y);
				EXPECT(wasRefused || x == v[k + 1].tokens, "sequence", "after reading " << l << " once, it is something else in:\n" << d.text);
			}
			if (!wasRefused && k + 1 < v.size()) ++k, c.count("repeated labels read");
		} catch (const vh::CaseEnd&) {
			throw;
		} catch (const std::exception& e) {
			c.fail("read:throws", "reading " + l + ": " + e.what() + "\n" + d.text);
		}
	}
	for (auto& m : d.maps) {
		bool forced = false;
		for (auto& kv : m.second) forced = forced || next[m.first + "[" + kv.first + "]"] > 0;
		if (forced) continue;
		std::map<String, double> x;
		io->read(x, m.first);
		EXPECT(x == m.second, "map", "map " << m.first << " has " << x.size() << " entries instead of " << m.second.size() << " in:\n" << d.text);
		c.count("maps read");
	}
}
FAMILY(malformed, 12000, 30000)
{
	vh::Rng& r = c.rng;
	Doc d = randomDoc(r);
	String bad, what, pre = d.text;
	if (pre.size() && pre.back() != '\n') pre += "\n";
	String post = r.chance(0.5) ? "after=1\n" : "";
	int k = r.range(0, 13);
	bool atRead = false;
	std::function<void(Input::Readable&)> f;
	switch (k) {
	case 0: { // wrong count
		int n = r.range(1, 6), m = r.range(0, 6);
		if (m == n) ++m;
		bad = "Vbad " + std::to_string(n);
		for (int i = 0; i < m; ++i) bad += " " + std::to_string(i);
		bad += "\n";
		what = m == 0 ? "line" : "Vbad";
		break;
	}
	case 1: bad = "Vbad 3 1 2 abc\n", what = "Vbad"; break;
	case 2: bad = "Vbad " + intText(r) + "\n", what = "line"; break;
	case 3: bad = "miss=" + sp(r, 0) + eol(r), what = "miss"; break;
	case 4: bad = "alone\n", post = "", what = "alone"; break;
	case 5: bad = "!a$k 1 2 3\n", what = "!a$k"; break;
	case 6: bad = "!a 1 2 3\n", what = "!a"; break;
	case 7: bad = "!a$i\n", what = "!a$i"; break;
	case 8: bad = "alone\nw=5\n", post = "z=1\n", what = ""; break;
	case 9: {
		bad = "Matbad 2 2 1 2 3" + String(r.chance(0.5) ? "" : " 4 5") + "\n", atRead = true, what = "Matbad";
		bool z = r.chance(0.5);
		f = [z](Input::Readable& io) {
			if (z) { Matrix<Z> m; io.read(m, "Matbad"); }
			else { Matrix<double> m; io.read(m, "Matbad"); }
		};
		break;
	}
	case 10: {
		static const char* t[] = { "Matbad 0 2\n", "Matbad 2 -1 1 2\n", "Matbad 1 1 (1,\n", "Matbad 1 1 1.2.3\n", "Matbad 100000 100000 1\n", "Matbad 1 1 (1,2)3\n", "Matbad 1 1 (1)\n", "Matbad x 1\n" };
		bad = t[r.range(0, 6)], atRead = true;
		f = [](Input::Readable& io) { Matrix<Z> m; io.read(m, "Matbad"); };
		break;
	}
	case 11: {
		static const char* t[] = { "1-2", "--1", "+", "-", "1e", "1.2.3", "e5", ".", "1e5.2", "abc", "1x", "(1,2)", "1,2" };
		String v = t[r.range(0, 12)];
		bad = "num=" + v + "\n", atRead = true;
		int q = r.range(0, 3);
		f = [q](Input::Readable& io) {
			if (q == 0) { int x; io.readline(x, "num="); }
			else if (q == 1) { double x; io.readline(x, "num="); }
			else if (q == 2) { SizeType x; io.readline(x, "num="); }
			else { long x; io.readline(x, "num="); }
		};
		break;
	}
	case 12: {
		static const char* t[] = { "1-2", "--1", "+", "1e", "1.2.3", ".", "(1,2", "(1)", "(1,2)0", "(,1)", "(1,)", "(1,2,3)", "1,2" };
		bad = String("Vbad 2 1 ") + t[r.range(0, 12)] + "\n", atRead = true;
		bool z = r.chance(0.5);
		f = [z](Input::Readable& io) {
			if (z) { std::vector<Z> x; io.read(x, "Vbad"); }
			else { std::vector<double> x; io.read(x, "Vbad"); }
		};
		break;
	}
	default: bad = "space 5\n", what = "line"; break;
	}
	String text = pre + bad + post;
	c.desc(text);
	c.nontrivial(text);
	if (atRead) {
		std::unique_ptr<Input::Readable> io;
		refuses(c, [&]() {
			io = parse(c, text);
			f(*io);
		}, "malformed:accepted", what, text);
	} else
		refuses(c, [&]() { parse(c, text); }, "malformed:accepted", what, text);
}
static void readEverything(Ctx& c, Input::Readable& io, const std::vector<String>& labels)
{
	for (auto& l : labels) {
		for (int q = 0; q < 9; ++q) {
			try {
				switch (q) {
				case 0: { int x; io.readline(x, l); break; }
				case 1: { SizeType x; io.readline(x, l); break; }
				case 2: { double x; io.readline(x, l); break; }
				case 3: { String x; io.readline(x, l); break; }
				case 4: { std::vector<double> x; io.read(x, l); break; }
				case 5: { std::vector<Z> x; io.read(x, l); break; }
				case 6: { Matrix<double> x; io.read(x, l); break; }
				case 7: { Matrix<Z> x; io.read(x, l); break; }
				default: { std::map<String, double> x; io.read(x, l); break; }
				}
				c.count("values of mutated inputs read");
			} catch (const std::exception&) {
				c.count("errors in mutated inputs");
			}
		}
	}
}
FAMILY(mutated, 12000, 80000)
{
	vh::Rng& r = c.rng;
	Doc d = randomDoc(r);
	String t = d.text;
	static const String chars = "=#!$i()[],.+-eE @\n\t 0123456789abz\r\"';{}\\";
	for (int m = r.range(1, 6); m > 0; --m) {
		size_t n = t.size();
		if (n == 0) t = "=", n = 1;
		size_t p = r.range(0, n - 1);
		switch (r.range(0, 5)) {
		case 0: t.erase(p, r.range(1, 8)); break;
		case 1: t.insert(p, 1, chars[r.range(0, chars.size() - 1)]); break;
		case 2: t[p] = char(r.range(0, 255)); break;
		case 3: t = t.substr(0, p); break;
		case 4: {
			String u = t.substr(p, r.range(1, 30));
			t.insert(r.range(0, t.size()), u);
			break;
		}
		default: t[p] = chars[r.range(0, chars.size() - 1)]; break;
		}
	}
	// not the other language
	if (t.size() > 1 && t[0] == '#' && t[1] == '#') t[0] = ' ';
	c.desc(t);
	c.nontrivial(t);
	std::unique_ptr<Input::Readable> io;
	try {
		io = parse(c, t);
	} catch (const std::exception&) {
		c.count("errors in mutated inputs");
		return;
	}
	std::vector<String> labels;
	for (auto& x : d.model) labels.push_back(x.first);
	for (auto& x : d.maps) labels.push_back(x.first);
	labels.push_back(" ");
	readEverything(c, *io, labels);
	if (!vh::throws([&]() { String x; io->readline(x, ""); })) c.fail("nolabel", "an empty label was read");
}
// the other language, through the same reader
FAMILY(ainur, 1200, 4000)
{
	vh::Rng& r = c.rng;
	int i = r.range(0, 1000);
	double x = r.real(-3, 3);
	std::vector<double> v(r.range(1, 5));
	for (auto& y : v) y = r.range(-9, 9);
	std::ostringstream os;
	os.precision(17);
	String import = "integer myint;\nreal myreal;\nstring mystr;\nvector myvec;\nmatrix mymat;\ninteger unset;\n";
	std::vector<String> st;
	auto add = [&]() { st.push_back(os.str()), os.str(""); };
	os << "myint=" << i << ";\n", add();
	os << "myreal = " << x << ";\n", add();
	os << "mystr=\"a b#" << i << "\";\n", add();
	os << "myvec=[";
	for (size_t k = 0; k < v.size(); ++k) os << (k ? ", " : "") << v[k];
	os << "];\n", add();
	os << "mymat=[[1, " << i << "],\n[3.5, 4]];\n", add();
	os << "# just a remark = 5;\n", add();
	String text = "##Ainur1.0\n";
	while (st.size()) {
		size_t k = r.range(0, st.size() - 1);
		text += st[k];
		st.erase(st.begin() + k);
	}
	c.desc(text);
	c.nontrivial(text);
	std::unique_ptr<Input::Readable> io;
	try {
		io = parse(c, text, "a.ain", import);
		EXPECT(io->isAinur() && io->version() == 3, "ainur:version", "version " << io->version());
		int j = -1;
		io->readline(j, r.chance(0.5) ? "myint=" : "myint");
		EXPECT(j == i, "ainur:int", "myint is " << j << " in:\n" << text);
		SizeType s = 1;
		io->readline(s, "myint=");
		EXPECT(s == SizeType(i), "ainur:int", "myint is " << s << " in:\n" << text);
		double y = 0;
		io->readline(y, r.chance(0.5) ? "myreal=" : "myreal");
		EXPECT(y == x, "ainur:real", "myreal is " << y << " in:\n" << text);
		String str;
		io->readline(str, "mystr=");
		EXPECT(str == "a b#" + std::to_string(i), "ainur:string", "mystr is " << str << " in:\n" << text);
		std::vector<double> w;
		io->read(w, "myvec");
		EXPECT(w == v, "ainur:vector", "myvec differs in:\n" << text);
		Matrix<double> m;
		io->read(m, "mymat");
		EXPECT(m.rows() == 2 && m.cols() == 2 && m(0, 0) == 1 && m(0, 1) == i && m(1, 0) == 3.5 && m(1, 1) == 4, "ainur:matrix", "mymat differs in:\n" << text);
	} catch (const vh::CaseEnd&) {
		throw;
	} catch (const std::exception& e) {
		c.fail("ainur:throws", String(e.what()) + "\n" + text);
	}
	refuses(c, [&]() { int j; io->readline(j, "nothere="); }, "ainur:missing", "nothere", text);
	refuses(c, [&]() { int j; io->readline(j, "unset="); }, "ainur:unset", "unset", text);
	c.count("scripts read");
}
FAMILY(options, 2000, 6000)
{
	vh::Rng& r = c.rng;
	std::vector<String> reg = { "none", "twositedmrg", "two", "wft", "minimizeDisk", "a", "ab" };
	std::vector<String> chosen;
	String opts;
	bool unknown = false;
	for (int i = r.range(0, 6); i > 0; --i) {
		bool bad = r.chance(0.08);
		String o = bad ? (r.chance(0.5) ? "tw" : "wftx") : r.pick(reg);
		unknown = unknown || bad;
		chosen.push_back(o);
		if (opts.size() || r.chance(0.1)) opts += ",";
		opts += o;
	}
	int mode = r.range(0, 2);
	c.desc(opts + " mode " + std::to_string(mode));
	c.nontrivial(opts + std::to_string(mode));
	Options::Writeable w(reg, mode == 0 ? Options::Writeable::DISABLED : mode == 1 ? Options::Writeable::PERMISSIVE : Options::Writeable::STRICT);
	if (mode == 2 && unknown) {
		refuses(c, [&]() { Options::Readable o(w, opts); }, "options:unknown accepted", "option", opts);
		return;
	}
	Options::Readable o(w, opts);
	for (auto& x : reg) {
		bool b = std::find(chosen.begin(), chosen.end(), x) != chosen.end();
		EXPECT(o.isSet(x) == (b && mode != 0), "options", "option " << x << " set: " << o.isSet(x) << " in " << opts << " mode " << mode);
	}
	c.count("options checked");
}
