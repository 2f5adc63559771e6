#include "Ainur.h"
#include "vh.h"
#include <fstream>
#include <map>
#include <memory>
using namespace PsimagLite;
typedef vh::Ctx Ctx;
typedef std::complex<double> Z;

static String num(double x)
{
	char b[64];
	snprintf(b, sizeof b, "%.17g", x);
	return b;
}

// the value of a variable, as the script denotes it
struct Var {
	enum Kind { INT, REAL, STRING, VINT, VREAL, VCPLX, VWORD, MREAL, MCPLX, MWORD, NONE } kind = NONE;
	String name;
	int i = 0;
	double x = 0;
	String s;
	size_t rows = 0, cols = 0;
	std::vector<int> vi;
	std::vector<double> vx;
	std::vector<Z> vz;
	std::vector<String> vs;
	bool fill = false; // "..." stands for as many as the reader wants
};
static const char* TYPES[] = { "integer", "real", "string", "vector.integer", "vector", "vector.complex", "vector.string", "matrix", "matrix.complex", "matrix.string" };

// macros usable in values: name and what it stands for
struct Macro {
	String name, value;
};

struct Script {
	std::vector<Var> vars;
	std::vector<std::vector<String>> tokens; // statements, as tokens between which blanks may be inserted; "" marks a mandatory blank
	std::vector<std::pair<size_t, size_t>> before; // order constraints between statements
	std::vector<Macro> macros;
	std::vector<String> unused;
};

static String blanks(vh::Rng& r, bool mandatory)
{
	String s;
	int n = r.range(0, 3);
	if (mandatory && n == 0) n = 1;
	for (int i = 0; i < n; ++i) {
		switch (r.range(0, 8)) {
		case 0:
			s += "\n";
			break;
		case 1:
			s += "\t";
			break;
		case 2:
			s += "# remark = ; [1,2] \\x\n";
			break;
		case 3:
			s += "#\n";
			break;
		default:
			s += " ";
		}
	}
	return s;
}
// blanks inside values: no comments there
static String blanks0(vh::Rng& r)
{
	String s;
	for (int i = r.range(0, 2); i > 0; --i) s += r.pick(std::vector<String> { " ", "\n", "\t", " " });
	return s;
}
static String word(vh::Rng& r, size_t n = 6)
{
	static const String al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
	String s;
	for (int i = r.range(1, n); i > 0; --i) s += r.pick(al);
	return s;
}
static String name(vh::Rng& r, bool forMacro)
{
	String s;
	if (r.chance(0.2)) s = "_";
	s += word(r, 4);
	for (int i = r.range(0, 3); i > 0; --i) {
		int k = r.range(0, 4);
		s += k == 0 ? String("_") : k == 1 ? String(1, char('0' + r.range(0, 9))) : k == 2 && !forMacro ? String(":") : word(r, 2);
	}
	return s;
}
// text for a number, possibly through a macro
static String viaMacro(vh::Rng& r, Script& s, const String& text)
{
	if (!r.chance(0.2)) return text;
	for (auto& m : s.macros)
		if (m.value == text) return "\\" + m.name;
	return text;
}
static int randInt(vh::Rng& r, Script& s, String& text)
{
	int i;
	switch (r.range(0, 5)) {
	case 0:
		i = r.pick(std::vector<int> { 2147483647, -2147483647 - 1, 0, -1, 1 });
		break;
	case 1:
		if (s.macros.size()) {
			auto& m = r.pick(s.macros);
			char* e;
			long x = strtol(m.value.c_str(), &e, 10);
			if (!*e) {
				text = "\\" + m.name;
				return x;
			}
		}
		// fall through
	default:
		i = r.range(-1000, 1000);
	}
	text = (i > 0 && r.chance(0.1) ? "+" : "") + std::to_string(i);
	return i;
}
static double randReal(vh::Rng& r, Script& s, String& text)
{
	if (s.macros.size() && r.chance(0.15)) {
		auto& m = r.pick(s.macros);
		char* e;
		double x = strtod(m.value.c_str(), &e);
		if (!*e && m.value.find_first_not_of("0123456789+-.eE") == String::npos) {
			text = "\\" + m.name;
			return x;
		}
	}
	text = r.pick(std::vector<String> { num(r.real(-5, 5)), num(r.real(-5, 5) * 1e-7), num(r.real(-5, 5) * 1e12), "7.", "-0", "1e5", "2.5E-3", ".5", std::to_string(r.range(-99, 99)) });
	return strtod(text.c_str(), nullptr);
}
static Z randCplx(vh::Rng& r, Script& s, String& text)
{
	String a, b;
	double x = randReal(r, s, a), y = randReal(r, s, b);
	switch (r.range(0, 4)) {
	case 0:
		text = a;
		return Z(x, 0);
	case 1:
		text = r.chance(0.5) ? "i" : "-i";
		return Z(0, text == "i" ? 1 : -1);
	case 2:
		text = "i" + b;
		return Z(0, y);
	default:
		text = a + (a[0] == '\\' || r.chance(0.5) ? " i " : "i") + b;
		return Z(x, y);
	}
}
static String list(vh::Rng& r, const std::vector<String>& el)
{
	String s = "[" + blanks0(r);
	for (size_t i = 0; i < el.size(); ++i) s += (i ? "," + blanks0(r) : "") + el[i] + blanks0(r);
	return s + "]";
}
static String randomString(vh::Rng& r, Script& s, String& text)
{
	if (r.chance(0.4)) return text = word(r, 10); // unquoted
	static const String al = "abcXYZ 019.,:+-*/()[]{}=#%&?<>'_|~^@$";
	String v;
	text = "\"";
	for (int i = r.range(0, 12); i > 0; --i) {
		if (r.chance(0.1) && s.macros.size()) {
			// the macro name ends at the first other character
			auto& m = r.pick(s.macros);
			v += m.value, text += "\\" + m.name;
			String sep(1, r.pick(String(" -.,")));
			if (r.chance(0.3)) { // adjacent macros
				auto& m2 = r.pick(s.macros);
				v += m2.value, text += "\\" + m2.name;
			}
			if (i == 1 && r.chance(0.5)) break; // or at the closing quote
			v += sep, text += sep;
			continue;
		}
		String ch(1, r.pick(al));
		// "!" at the start is for native macros, and a function call is not a string
		v += ch, text += ch;
	}
	text += "\"";
	return v;
}
// a value's text
static String randomValue(vh::Rng& r, Script& s, Var& v)
{
	String text;
	std::vector<String> el;
	size_t n = r.dim(1, 6, 200);
	switch (v.kind) {
	case Var::INT:
		v.i = randInt(r, s, text);
		return text;
	case Var::REAL:
		v.x = randReal(r, s, text);
		return text;
	case Var::STRING:
		do {
			v.s = randomString(r, s, text);
		} while (v.s.size() > 2 && v.s[0] == '(' && v.s.find(")(") != String::npos);
		return text;
	case Var::VINT:
		v.vi.clear();
		el.resize(n);
		for (auto& x : el) v.vi.push_back(randInt(r, s, x));
		break;
	case Var::VREAL:
		v.vx.clear();
		el.resize(n);
		for (auto& x : el) v.vx.push_back(randReal(r, s, x));
		break;
	case Var::VCPLX:
		v.vz.clear();
		el.resize(n);
		for (auto& x : el) v.vz.push_back(randCplx(r, s, x));
		break;
	case Var::VWORD:
		v.vs.clear();
		el.resize(n);
		for (auto& x : el) v.vs.push_back(x = word(r));
		break;
	case Var::MREAL:
	case Var::MCPLX:
	case Var::MWORD: {
		v.rows = r.chance(0.05) ? 0 : r.range(1, 4), v.cols = v.rows ? r.range(1, 4) : 0;
		v.vx.clear(), v.vz.clear(), v.vs.clear();
		std::vector<String> rows;
		for (size_t i = 0; i < v.rows; ++i) {
			el.assign(v.cols, "");
			for (auto& x : el)
				if (v.kind == Var::MREAL)
					v.vx.push_back(randReal(r, s, x));
				else if (v.kind == Var::MCPLX)
					v.vz.push_back(randCplx(r, s, x));
				else
					v.vs.push_back(x = word(r));
			rows.push_back(list(r, el));
		}
		return list(r, rows);
	}
	default:
		return "";
	}
	v.fill = false;
	if (n > 0 && r.chance(0.12)) { // all equal, as many as wanted
		el.resize(1);
		el.push_back(r.chance(0.5) ? "..." : " ... ");
		v.fill = true;
		if (v.kind == Var::VINT) v.vi.resize(1);
		if (v.kind == Var::VREAL) v.vx.resize(1);
		if (v.kind == Var::VCPLX) v.vz.resize(1);
		if (v.kind == Var::VWORD) v.vs.resize(1);
		return list(r, el);
	}
	if (n > 0 && r.chance(0.15)) { // all equal, with a multiplicity
		int m = r.dim(1, 20, 120);
		el.resize(1);
		el.push_back("...x" + std::to_string(m));
		if (v.kind == Var::VINT) v.vi.assign(m, int(v.vi[0]));
		if (v.kind == Var::VREAL) v.vx.assign(m, double(v.vx[0]));
		if (v.kind == Var::VCPLX) v.vz.assign(m, Z(v.vz[0]));
		if (v.kind == Var::VWORD) {
			el.pop_back();
			v.vs.resize(1);
		}
	}
	return list(r, el);
}

static Script randomScript(vh::Rng& r)
{
	Script s;
	std::map<String, bool> names;
	auto fresh = [&](bool mac) {
		String n;
		do {
			n = name(r, mac);
		} while (names.count(n) || n == "AinurFromFile");
		names[n] = true;
		return n;
	};
	for (int i = r.range(0, 4); i > 0; --i) {
		Macro m;
		m.name = fresh(true);
		String text;
		if (s.macros.size() && r.chance(0.4)) { // in terms of another
			auto& o = r.pick(s.macros);
			m.value = o.value, text = "\\" + o.name;
			if (r.chance(0.3)) m.value += "5", text += "\\_five_";
		}
		else {
			text = m.value = r.chance(0.4) ? std::to_string(r.range(-50, 50)) : r.chance(0.5) ? num(r.real(-2, 2)) : word(r);
			if (r.chance(0.3)) text = "\"" + text + "\"";
		}
		s.tokens.push_back({ "string", "", m.name, "=", text });
		s.macros.push_back(m);
	}
	s.tokens.push_back({ "integer", "", "_five_", "=", "5" });
	for (int i = r.dim(1, 8, 60); i > 0; --i) {
		Var v;
		v.kind = Var::Kind(r.range(0, 9));
		v.name = fresh(r.chance(0.5));
		String type = r.chance(0.9) ? TYPES[v.kind] : "sometype";
		int form = r.range(0, 3);
		size_t first = s.tokens.size();
		if (form == 0 && r.chance(0.2)) { // without value
			v.kind = Var::NONE;
			s.tokens.push_back({ type, "", v.name });
		}
		else if (form <= 1) {
			String t = randomValue(r, s, v);
			s.tokens.push_back({ type, "", v.name });
			s.tokens.push_back({ v.name, "=", t });
		}
		else {
			String t = randomValue(r, s, v);
			s.tokens.push_back({ type, "", v.name, "=", t });
		}
		if (v.kind != Var::NONE && r.chance(0.25)) s.tokens.push_back({ v.name, "=", randomValue(r, s, v) }); // the last one counts
		for (size_t k = first; k + 1 < s.tokens.size(); ++k) s.before.push_back({ k, k + 1 });
		s.vars.push_back(v);
	}
	return s;
}
static String randomText(vh::Rng& r, const Script& s)
{
	std::vector<size_t> left;
	for (size_t i = 0; i < s.tokens.size(); ++i) left.push_back(i);
	String t = r.chance(0.5) ? "##Ainur1.0\n" : "";
	while (left.size()) {
		size_t k = r.range(0, left.size() - 1);
		bool ok = true;
		for (auto& b : s.before)
			if (b.second == left[k] && std::find(left.begin(), left.end(), b.first) != left.end()) ok = false;
		if (!ok) continue;
		const auto& st = s.tokens[left[k]];
		t += blanks(r, false);
		for (size_t i = 0; i < st.size(); ++i) {
			if (st[i] == "") {
				t += blanks(r, true);
				continue;
			}
			if (i && st[i - 1] != "") t += blanks(r, false);
			t += st[i];
		}
		if (st.back().find('"') != String::npos || st.size() > 2) {
			if (st.size() > 2) t += blanks0(r);
		}
		else
			t += blanks(r, false);
		t += ";";
		left.erase(left.begin() + k);
	}
	t += blanks(r, false);
	if (r.chance(0.2)) t += "# the end";
	return t;
}

template <typename T> static bool readAs(Ctx& c, const Ainur& a, T& x, const String& label, const String& text)
{
	try {
		a.readValue(x, label);
	} catch (const std::exception& e) {
		c.fail("read", "reading " + label + ": " + e.what() + "\n" + text);
	}
	c.count("values read");
	return true;
}
template <typename T> static std::vector<T> contents(const Matrix<T>& m)
{
	std::vector<T> v;
	for (SizeType i = 0; i < m.rows(); ++i)
		for (SizeType j = 0; j < m.cols(); ++j) v.push_back(m(i, j));
	return v;
}
static bool same(const std::vector<Z>& a, const std::vector<Z>& b)
{
	return a == b;
}
template <typename F> static void refuses(Ctx& c, F f, const char* key, const String& mention, const String& text)
{
	try {
		f();
	} catch (const vh::CaseEnd&) {
		throw;
	} catch (const std::exception& e) {
		if (mention != "" && String(e.what()).find(mention) == String::npos) c.fail(String(key) + ":message", "the error does not mention " + mention + ": " + e.what() + "\n" + text);
		c.count("errors observed");
		return;
	}
	c.fail(key, "no error for\n" + text);
}
static void checkVar(Ctx& c, const Ainur& a, const Var& v, const String& text)
{
	vh::Rng& r = c.rng;
	if (v.fill) {
		int m = r.dim(1, 6, 200);
		auto filled = [&](auto w, const auto& one, const char* what) {
			w.resize(m);
			readAs(c, a, w, v.name, text);
			EXPECT(w == decltype(w)(m, one), "fill", v.name << " read as " << m << " " << what << " is " << vh::str(w) << " in\n" << text);
			w.clear();
			refuses(c, [&]() { a.readValue(w, v.name); }, "fill:nosize", "", v.name + " without a size in " + text);
			c.count("vectors filled");
		};
		if (v.kind == Var::VINT) filled(std::vector<int>(), v.vi[0], "integers");
		if (v.kind == Var::VREAL) filled(std::vector<double>(), v.vx[0], "reals");
		if (v.kind == Var::VCPLX) filled(std::vector<Z>(), v.vz[0], "complex");
		if (v.kind == Var::VWORD) filled(std::vector<String>(), v.vs[0], "strings");
		return;
	}
	switch (v.kind) {
	case Var::INT: {
		int i = 77;
		readAs(c, a, i, v.name, text);
		EXPECT(i == v.i, "int", v.name << " is " << i << " not " << v.i << " in\n" << text);
		double x = 77;
		readAs(c, a, x, v.name, text);
		EXPECT(x == v.i, "int", v.name << " is " << x << " not " << v.i << " in\n" << text);
		SizeType n = 77;
		if (v.i >= 0) {
			readAs(c, a, n, v.name, text);
			EXPECT(n == SizeType(v.i), "int", v.name << " is " << n << " not " << v.i << " in\n" << text);
		}
		else
			refuses(c, [&]() { a.readValue(n, v.name); }, "negative", "", v.name + " in " + text);
		break;
	}
	case Var::REAL: {
		double x = 77;
		readAs(c, a, x, v.name, text);
		EXPECT(x == v.x, "real", v.name << " is " << x << " not " << v.x << " in\n" << text);
		break;
	}
	case Var::STRING: {
		String s = "old";
		readAs(c, a, s, v.name, text);
		EXPECT(s == v.s, "string", v.name << " is " << s << " not " << v.s << " in\n" << text);
		break;
	}
	case Var::VINT: {
		std::vector<int> w(r.range(0, 3), 77);
		readAs(c, a, w, v.name, text);
		EXPECT(w == v.vi, "vint", v.name << " is " << vh::str(w) << " not " << vh::str(v.vi) << " in\n" << text);
		std::vector<double> x;
		readAs(c, a, x, v.name, text);
		EXPECT(x == std::vector<double>(v.vi.begin(), v.vi.end()), "vint", v.name << " is " << vh::str(x) << " not " << vh::str(v.vi) << " in\n" << text);
		std::vector<SizeType> u(r.range(0, 3), 77);
		if (std::all_of(v.vi.begin(), v.vi.end(), [](int i) { return i >= 0; })) {
			readAs(c, a, u, v.name, text);
			EXPECT(u == std::vector<SizeType>(v.vi.begin(), v.vi.end()), "vsize", v.name << " is " << vh::str(u) << " not " << vh::str(v.vi) << " in\n" << text);
			c.count("vectors of sizes read");
		}
		else
			refuses(c, [&]() { a.readValue(u, v.name); }, "vsize:negative", "", v.name + " in " + text);
		break;
	}
	case Var::VREAL: {
		std::vector<double> w(r.range(0, 3), 77);
		readAs(c, a, w, v.name, text);
		EXPECT(w == v.vx, "vreal", v.name << " is " << vh::str(w) << " not " << vh::str(v.vx) << " in\n" << text);
		break;
	}
	case Var::VCPLX: {
		std::vector<Z> w(r.range(0, 3), 77);
		readAs(c, a, w, v.name, text);
		EXPECT(same(w, v.vz), "vcplx", v.name << " is " << vh::str(w) << " not " << vh::str(v.vz) << " in\n" << text);
		break;
	}
	case Var::VWORD: {
		std::vector<String> w(r.range(0, 3), "old");
		readAs(c, a, w, v.name, text);
		EXPECT(w == v.vs, "vword", v.name << " is " << vh::str(w) << " not " << vh::str(v.vs) << " in\n" << text);
		break;
	}
	case Var::MREAL: {
		Matrix<double> m(r.range(0, 1) * 2, 2);
		readAs(c, a, m, v.name, text);
		EXPECT(m.rows() == v.rows && m.cols() == v.cols && contents(m) == v.vx, "mreal", v.name << " is " << vh::str(contents(m)) << " not " << vh::str(v.vx) << " in\n" << text);
		break;
	}
	case Var::MCPLX: {
		Matrix<Z> m;
		readAs(c, a, m, v.name, text);
		EXPECT(m.rows() == v.rows && m.cols() == v.cols && same(contents(m), v.vz), "mcplx", v.name << " is " << vh::str(contents(m)) << " not " << vh::str(v.vz) << " in\n" << text);
		break;
	}
	case Var::MWORD: {
		Matrix<String> m;
		readAs(c, a, m, v.name, text);
		EXPECT(m.rows() == v.rows && m.cols() == v.cols && contents(m) == v.vs, "mword", v.name << " differs in\n" << text);
		break;
	}
	case Var::NONE: {
		int i;
		refuses(c, [&]() { a.readValue(i, v.name); }, "novalue", v.name, v.name + " in\n" + text);
		String s;
		refuses(c, [&]() { a.readValue(s, v.name); }, "novalue", v.name, v.name + " in\n" + text);
		std::vector<double> w;
		refuses(c, [&]() { a.readValue(w, v.name); }, "novalue", v.name, v.name + " in\n" + text);
	}
	}
}

FAMILY(wellformed, 12000, 150000)
{
	vh::Rng& r = c.rng;
	Script s = randomScript(r);
	String text = randomText(r, s);
	c.desc(text);
	c.nontrivial(text);
	std::unique_ptr<Ainur> a;
	try {
		a.reset(new Ainur(text));
	} catch (const std::exception& e) {
		c.fail("rejected", String("rejected: ") + e.what() + "\n" + text);
	}
	for (auto& v : s.vars) checkVar(c, *a, v, text);
	for (auto& m : s.macros) {
		Var v;
		v.kind = Var::STRING, v.name = m.name, v.s = m.value;
		checkVar(c, *a, v, text);
	}
	// the same again, in another order and with a prefix
	std::vector<Var> vs = s.vars;
	for (size_t i = 0; i < vs.size(); ++i) std::swap(vs[i], vs[r.range(0, vs.size() - 1)]);
	for (auto& v : vs) {
		if (v.name.size() < 2) continue;
		size_t k = r.range(0, v.name.size() - 1);
		a->prefix() = v.name.substr(0, k);
		Var w = v;
		w.name = v.name.substr(k);
		if (w.name == "" || w.kind == Var::NONE) continue;
		checkVar(c, *a, w, text);
	}
	a->prefix() = "";
	int x;
	refuses(c, [&]() { a->readValue(x, "nosuchlabel"); }, "unknown", "nosuchlabel", text);
	// everything is listed
	std::ostringstream all;
	a->printAll(all);
	std::map<String, String> map;
	a->setMap(map);
	for (auto& v : s.vars) {
		EXPECT(all.str().find(" " + v.name + " ") != String::npos, "printAll", "printAll does not have " << v.name << " of\n" << text);
		EXPECT(map.count(v.name), "setMap", "setMap does not have " << v.name << " of\n" << text);
	}
	c.count("scripts read");
}
// labels declared as optional ("type!") and never read are reported
FAMILY(unused, 400, 4000)
{
	vh::Rng& r = c.rng;
	String text;
	std::vector<String> opt;
	for (int i = r.range(1, 6); i > 0; --i) {
		String n = "l" + std::to_string(i) + word(r, 3);
		bool o = r.chance(0.6);
		text += String("integer") + (o ? "!" : "") + " " + n + (r.chance(0.5) ? " = 3;\n" : ";\n" + n + "=3;\n");
		if (o) opt.push_back(n);
	}
	c.desc(text);
	c.nontrivial(text);
	Ainur a(text);
	String want;
	for (auto& n : opt) {
		int x = 0;
		if (r.chance(0.5))
			a.readValue(x, n);
		else
			want += n + "\n";
	}
	std::ostringstream os;
	a.printUnused(os);
	EXPECT(os.str() == (want.size() ? "Unused keys:\n" + want : want), "unused", "unused keys are " << os.str() << " not " << want << " in\n" << text);
	c.count("unused lists checked");
}
// functions tabulated in files
FAMILY(function, 2000, 20000)
{
	vh::Rng& r = c.rng;
	size_t cols = r.range(2, 4), rows = r.range(1, 8);
	bool comma = r.chance(0.4);
	size_t cx = 0, cy = 1;
	int args = r.range(comma ? 1 : 0, 3);
	if (args >= 2) cx = r.range(0, cols - 1);
	if (args >= 3)
		cy = r.range(0, cols - 1);
	std::vector<std::vector<double>> data;
	String file = c.scratch() + "/f" + std::to_string(c.index) + ".txt", body;
	for (size_t i = 0; i < rows; ++i) {
		std::vector<double> row(cols);
		if (r.chance(0.2)) body += r.chance(0.5) ? "  " : "\t";
		for (size_t j = 0; j < cols; ++j) {
			row[j] = j == cx ? double(i) * 0.25 - 0.5 : r.chance(0.3) ? r.real(-1, 1) * 1e-8 : r.real(-5, 5);
			body += String(j ? (comma ? (r.chance(0.3) ? ", " : ",") : (r.chance(0.3) ? "  " : " ")) : "") + num(row[j]);
		}
		data.push_back(row);
		if (i + 1 < rows || r.chance(0.8)) body += r.chance(0.2) ? "\n \t\n\n" : "\n";
	}
	enum { GOOD, SHORT, TEXT, LONG, NOFILE, NOPOINT, BADCOL, BADSEP, MANY, NOARG, KINDS };
	int bad = r.chance(0.4) ? r.range(1, KINDS - 1) : GOOD;
	if (bad == SHORT && cx == 0 && cy == 0) bad = TEXT;
	if (bad == SHORT) body += "\n3\n";
	if (bad == TEXT) body += comma ? "\nx,x,x,x\n" : "\nx x x x\n";
	if (bad == LONG) body += "\n" + String(r.range(2000, 9000), '#') + "\n";
	{
		std::ofstream f(file.c_str());
		f << body;
	}
	String sp = r.chance(0.4) ? " " : "";
	String arg = bad == NOFILE ? "\"/nonexistent/f.txt\"" : "\"" + file + "\"";
	if (args >= 1 || bad == BADSEP || bad == BADCOL || bad == MANY) arg += "," + sp + (bad == BADSEP ? "colon" : comma ? "comma" : "space");
	if (args >= 2 || bad == BADCOL || bad == MANY) arg += "," + sp + (bad == BADCOL ? (r.chance(0.5) ? std::to_string(cols) : String("-1")) : std::to_string(cx));
	if (args >= 3 || bad == MANY) arg += "," + sp + std::to_string(cy);
	if (bad == MANY) arg += ",7";
	String text = "function f = \\AinurFromFile(" + arg + ");\nreal open = \\f(%t);\n";
	if (bad == NOARG) text = r.chance(0.5) ? "function f = \\AinurFromFile;\n" : "function f = \\AinurFromFile();\n";
	for (size_t i = 0; i < rows && bad != NOARG; ++i) text += "real y" + std::to_string(i) + "=\\f(" + num(data[i][cx]) + ");\n";
	String vec;
	for (size_t i = 0; i < rows; ++i) vec += (i ? ", \\f(" : "[\\f(") + num(data[i][cx]) + ")";
	if (bad != NOARG && args == 0) text += "vector all = " + vec + "];\nvector same = [\\f(" + num(data[0][cx]) + "), ...x3];\n";
	// the calls of the last part are per element, and the first point stands for every repeated one
	c.desc(text + "--- file\n" + body);
	c.nontrivial(text + body);
	String where = text + "--- file\n" + body;
	if (bad != GOOD && bad != NOPOINT) {
		refuses(c, [&]() {
			Ainur a(text);
			if (bad == TEXT || bad == NOARG) { // nothing is left to fail later
				double x;
				a.readValue(x, "y0");
			}
		},
		        "function:accepted", "", where);
		return;
	}
	std::unique_ptr<Ainur> a;
	try {
		a.reset(new Ainur(text));
	} catch (const std::exception& e) {
		c.fail("function:rejected", String(e.what()) + "\n" + where);
	}
	String open;
	readAs(c, *a, open, "open", where);
	for (size_t i = 0; i < rows; ++i) {
		double x = 77;
		readAs(c, *a, x, "y" + std::to_string(i), where);
		EXPECT(x == data[i][cy], "function:value", "f(" << data[i][cx] << ") is " << x << " not " << data[i][cy] << " in\n" << where);
		String call = open;
		replaceAll(call, "%t", num(data[i][cx]));
		x = PsimagLite::atof(a->resolve(call));
		EXPECT(x == data[i][cy], "function:resolve", call << " resolves to " << x << " not " << data[i][cy] << " in\n" << where);
		c.count("function values");
	}
	std::vector<double> all, want;
	if (args == 0) {
	readAs(c, *a, all, "all", where);
	for (size_t i = 0; i < rows; ++i) want.push_back(data[i][cy]);
	EXPECT(all == want, "function:vector", "all is " << vh::str(all) << " not " << vh::str(want) << " in\n" << where);
	readAs(c, *a, all, "same", where);
	EXPECT(all == std::vector<double>(3, data[0][cy]), "function:ellipsis", "same is " << vh::str(all) << " in\n" << where);
	}
	if (bad == NOPOINT) {
		String call = open;
		replaceAll(call, "%t", "0.1");
		refuses(c, [&]() { a->resolve(call); }, "function:nopoint", "", call + " in\n" + where);
	}
}
static void readAll(Ctx& c, const Ainur& a, const std::vector<String>& names)
{
	uint64_t good = 0, bad = 0;
	auto attempt = [&](auto x, const String& n) {
		try {
			a.readValue(x, n);
			++good;
		} catch (const std::exception&) {
			++bad;
		}
	};
	for (auto& n : names) {
		attempt(int(), n);
		attempt(SizeType(), n);
		attempt(double(), n);
		attempt(String(), n);
		attempt(std::vector<int>(2), n);
		attempt(std::vector<SizeType>(), n);
		attempt(std::vector<double>(3), n);
		attempt(std::vector<Z>(), n);
		attempt(std::vector<String>(), n);
		attempt(Matrix<double>(), n);
		attempt(Matrix<Z>(), n);
		attempt(Matrix<String>(), n);
		String s;
		try {
			a.readValue(s, n);
			a.resolve(s);
			replaceAll(s, "%t", "1");
			a.resolve(s);
		} catch (const std::exception&) {
		}
	}
	std::ostringstream os;
	a.printAll(os);
	a.printUnused(os);
	c.count("values of mutated scripts read", good);
	c.count("errors reading mutated scripts", bad);
}
// one error in an otherwise well-formed script
FAMILY(malformed, 8000, 80000)
{
	vh::Rng& r = c.rng;
	Script s = randomScript(r);
	int kind = r.range(0, 15);
	String text, mention, badname = "zzbad";
	bool atParse = true;
	String before = randomText(r, s) + "\n", after;
	{
		Script s2;
		s2.tokens.push_back({ "integer", "", "zzafter", "=", "1" });
		after = r.chance(0.5) ? randomText(r, s2) : "";
	}
	String bad;
	auto one = [&](std::initializer_list<const char*> l) { return String(*(l.begin() + r.range(0, l.size() - 1))); };
	std::function<void(const Ainur&)> reads;
	switch (kind) {
	case 0:
		bad = badname + "=5;";
		mention = badname;
		break;
	case 1:
		bad = "real " + (s.vars.size() ? s.vars[0].name : "_five_") + (r.chance(0.5) ? ";" : "=1;");
		mention = s.vars.size() ? s.vars[0].name : "_five_";
		break;
	case 2:
		bad = one({ "integer zzbad = ;", "integer zzbad;zzbad=;", "integer zzbad=\n;", "zzbad", "integer;", "integer 5=3;", "=5;", "integer zzbad 5;", "integer zzbad=5", "integer zzbad", "]", "integer zz-bad=3;", "integer zzbad==;x;" });
		if (bad.back() != ';') after = "";
		break;
	case 3: // not a number
		atParse = false;
		bad = "integer zzbad=" + one({ "abc", "1.5", "5-3", "1e3", "\"5", "5 6", "--5", "+", "-", "99999999999", "2147483648", "[5]", "0x10", "5#6" }) + ";";
		reads = [](const Ainur& a) { int i; a.readValue(i, "zzbad"); };
		break;
	case 4:
		atParse = false;
		bad = "real zzbad=" + one({ "abc", "1.5.2", "1e", "e5", "1,5", "[1.5]", "1.5 2", "--1.5", "1.5-2", "i", "." }) + ";";
		reads = [](const Ainur& a) { double x; a.readValue(x, "zzbad"); };
		break;
	case 5:
		atParse = false;
		bad = "vector zzbad=" + one({ "5", "[1", "1]", "[1,,2]", "[1 2]", "[1,2]]", "[1,2][3]", "[[1,2]]", "[1;2]", "[a,b]", "[1,2] 3", "[,1]", "[1,]", "(1,2)", "[1.5, ...x0]", "[1.5, ...x-2]", "[1.5, ...xa]", "[1. 5]", "[1.5, ...]", "[1, 2-3]" }) + ";";
		reads = [](const Ainur& a) { std::vector<double> x; a.readValue(x, "zzbad"); };
		if (bad.find("1;2") != String::npos) atParse = true;
		break;
	case 6:
		atParse = false;
		bad = "matrix zzbad=" + one({ "5", "[1,2]", "[[1,2],[3]]", "[[1],[2,3]]", "[[1,2],[3,4]", "[[1,2][3,4]]", "[[1,2],[3,a]]", "[[1,2],[3,4]]x", "[[1 2],[3 4]]", "[[]]", "[[1,2],]" }) + ";";
		reads = [](const Ainur& a) { Matrix<double> x; a.readValue(x, "zzbad"); };
		break;
	case 7: // unknown, self-referring or nested macros
		bad = one({ "string zzbad=\\nosuch;", "string zzbad=\"\\nosuch\";", "string zzbad=\\zzbad;", "string zzbad=\"a\\zzbad b\";", "string zza=\\zzb;string zzb=\\zza;", "string zza=\"\\zza\\zza\";", "string zzbad=\\;", "string zzbad=\"\\\\\";", "string zzbad=\"\\ a\";", "integer zza; integer zzbad=\\zza;",
		            "string zzbad=\\AinurFromFile;", "string zzbad=\\AinurFromFile();", "string zzbad=\"!\\_five_\";" });
		break;
	case 8: // characters that are not allowed
		bad = "integer zzbad=5;";
		bad.insert(r.range(0, bad.size()), 1, r.pick(std::vector<char> { '`', '\x01', '\x7f', char(0x80), char(0xff), '\0', '\x0b', '\x0c' }));
		mention = "Lexical";
		break;
	case 9:
		atParse = false;
		bad = "vector.integer zzbad=" + one({ "[1.5]", "[1e2]", "[1,-2.]", "[99999999999]", "[2-1]", "[+]" }) + ";";
		reads = [](const Ainur& a) { std::vector<int> x; a.readValue(x, "zzbad"); };
		break;
	case 10:
		atParse = false;
		bad = "vector.integer zzbad=[1,-2];";
		reads = [](const Ainur& a) { std::vector<SizeType> x; a.readValue(x, "zzbad"); };
		break;
	case 11:
		atParse = false;
		bad = "vector.complex zzbad=[1," + one({ "1i2i3", "ii", "1i", "a", "1+2", "i2i", "1 i 2 3" }) + "];";
		reads = [](const Ainur& a) { std::vector<Z> x; a.readValue(x, "zzbad"); };
		break;
	case 12:
		atParse = false;
		bad = "string zzbad=\"\";";
		reads = [](const Ainur& a) { String x; a.readValue(x, "zzbad2"); };
		mention = "zzbad2";
		break;
	case 13:
		bad = one({ "x", "!", "*", "5", "\"", "]" });
		after = "";
		break;
	case 14:
		bad = "string zza0=xxxxxxxx;";
		for (int i = 1; i < 40; ++i) bad += "string zza" + std::to_string(i) + "=\"\\zza" + std::to_string(i - 1) + " \\zza" + std::to_string(i - 1) + "\";";
		break;
	default:
		atParse = false;
		bad = "function zzbad=5;";
		reads = [](const Ainur& a) { a.resolve("(\"f.txt\")(0.5)"); };
	}
	text = before + bad + after;
	c.desc(text);
	c.nontrivial(text);
	if (!atParse) {
		std::unique_ptr<Ainur> a;
		try {
			a.reset(new Ainur(text));
		} catch (const std::exception& e) {
			c.fail("malformed:parse", String("rejected: ") + e.what() + "\n" + text);
		}
		refuses(c, [&]() { reads(*a); }, "malformed:read", mention, text);
		for (auto& v : s.vars) checkVar(c, *a, v, text); // and the others are what they were
		return;
	}
	refuses(c, [&]() { Ainur a(text); }, "malformed:accepted", mention, text);
}
// arbitrary text: errors or values, nothing else
FAMILY(mutated, 10000, 150000)
{
	vh::Rng& r = c.rng;
	Script s = randomScript(r);
	String t = r.chance(0.1) ? "" : randomText(r, s);
	if (r.chance(0.2)) t += "function f=\\AinurFromFile(\"/etc/hostname\");real q=\\f(%t);";
	static const std::vector<String> frag = { ";", "=", "[", "]", ",", "\\", "\"", "#", "\n", "...", "...x3", "...x", "i", "(", ")", ")(", "!", "_", ":", "5", "-", " ", "real ", "integer x=", "\\_five_", "AinurFromFile", "\\AinurFromFile(", "%t", "[[", "]]", "\t", "\r", "e", "." };
	int edits = r.range(1, 6);
	for (int e = 0; e < edits; ++e) {
		size_t p = r.range(0, t.size());
		switch (r.range(0, 6)) {
		case 0:
			t.insert(p, r.pick(frag));
			break;
		case 1:
			t.insert(p, 1, char(r.range(32, 126)));
			break;
		case 2:
			if (p < t.size()) t.erase(p, r.range(1, 5));
			break;
		case 3:
			if (r.chance(0.3)) t.resize(p);
			break;
		case 4:
			if (p < t.size()) t[p] = r.pick(frag)[0];
			break;
		case 5:
			if (r.chance(0.05)) t.insert(p, 1, char(r.range(0, 255)));
			break;
		case 6: {
			size_t q = r.range(0, t.size());
			t.insert(p, t.substr(q, r.range(0, 20)));
		}
		}
	}
	// no giant vectors on purpose
	for (size_t p = t.find("...x"); p != String::npos; p = t.find("...x", p + 4)) {
		size_t digits = 0;
		while (p + 4 + digits < t.size() && t[p + 4 + digits] >= '0' && t[p + 4 + digits] <= '9') ++digits;
		if (digits > 5) t.erase(p + 4 + 5, digits - 5);
	}
	c.desc(t);
	c.nontrivial(t);
	std::vector<String> names = { "_five_", "AinurFromFile", "f", "q", "" };
	for (auto& v : s.vars) names.push_back(v.name);
	for (auto& m : s.macros) names.push_back(m.name);
	std::unique_ptr<Ainur> a;
	try {
		a.reset(new Ainur(t));
	} catch (const std::exception&) {
		c.count("mutated scripts refused");
		return;
	}
	c.count("mutated scripts parsed");
	readAll(c, *a, names);
}
