#include "../C15/astref.h"
#include "CanonicalExpression.h"
#include "GetBraOrKet.h"
#include "OneOperatorSpec.h"
#include "vh.h"
#include <map>
typedef vh::Ctx Ctx;

// a formal sum of words in the operators' names: products do not commute and nothing cancels by accident
template <typename S> struct Poly {
	int meta;
	bool empty;
	std::map<VS, S> w;
	Poly() : meta(1), empty(true) { }
	Poly& operator+=(const Poly& o)
	{
		for (auto& x : o.w) w[x.first] += x.second;
		empty = empty && o.empty;
		return *this;
	}
	Poly& operator*=(const Poly& o)
	{
		std::map<VS, S> r;
		for (auto& x : w)
			for (auto& y : o.w) {
				VS k = x.first;
				k.insert(k.end(), y.first.begin(), y.first.end());
				r[k] += x.second * y.second;
			}
		w = r;
		return *this;
	}
	Poly& operator*=(const S& s)
	{
		for (auto& x : w) x.second *= s;
		return *this;
	}
};
static bool isLabel(const String& s)
{
	static const std::regex re("[A-Za-z_][A-Za-z0-9_?'\\[\\]]*");
	return std::regex_match(s, re);
}
template <typename S> struct Item {
	typedef Poly<S> ResultType;
	typedef S ComplexOrRealType;
	typedef int AuxiliaryType;
	static bool isEmpty(const ResultType& r) { return r.empty; }
	static bool metaEqual(const ResultType& a, const ResultType& b) { return a.meta == b.meta; }
	ResultType operator()(String s, AuxiliaryType& aux) const
	{
		if (!isLabel(s)) throw RuntimeError("no such operator " + s + "\n");
		++aux;
		ResultType r;
		r.meta = s[0] == 'M' ? 2 : 1;
		r.empty = false;
		r.w[VS { s }] = S(1);
		// operators are not monomials, so that the order of sums and products shows
		r.w[VS { s, "1" }] = S(2);
		return r;
	}
};
enum Verdict { Ok, Bad, Skip };
static VS pieces(const String& s, char sep)
{
	VS r(1);
	for (char ch : s)
		if (ch == sep) r.push_back("");
		else
			r.back() += ch;
	return r;
}
template <typename S> static bool imagOk(double x, S& f);
template <> bool imagOk(double x, Z& f)
{
	f *= Z(0, x);
	return true;
}
template <> bool imagOk(double, double&) { return false; }
template <typename S> static Verdict reference(const String& expr, Poly<S>& want, int& calls)
{
	want = Poly<S>();
	calls = 0;
	// the sign rule and parentheses
	int depth = 0;
	String flat;
	VS inside;
	for (size_t i = 0; i < expr.size(); ++i) {
		char ch = expr[i];
		if (ch == '@') return Skip;
		if (ch == '-' && i > 0 && expr[i - 1] != '(' && expr[i - 1] != '+') return Bad;
		if (ch == '(') {
			if (++depth > 1) return Bad;
			inside.push_back("");
			flat += '@';
		}
		else if (ch == ')') {
			if (--depth < 0) return Bad;
		}
		else if (depth) inside.back() += ch;
		else
			flat += ch;
	}
	if (depth) return Bad;
	if (expr == "") return Skip;
	std::vector<S> values;
	for (auto& in : inside) {
		size_t p;
		static const String pi = "3.1415926535897931";
		while ((p = in.find("pi")) != String::npos) in.replace(p, 2, pi);
		VS t = pieces(in, ':');
		for (auto& x : t)
			if (x == "") return Skip;
		Ref<S> ref;
		if (!ref.parse(t)) return Bad;
		try {
			S v = ref.eval();
			if (!(std::abs(v) < 1e100)) return Skip;
			values.push_back(v);
		} catch (const Undefined&) {
			return Skip;
		}
	}
	size_t at = 0;
	static const std::regex number("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)"), imag("(-?)([0-9]+\\.?[0-9]*|\\.[0-9]+)?i");
	bool metaBad = false, bad = false;
	for (auto& term : pieces(flat, '+')) {
		if (term == "") return Skip;
		S f = 1;
		Poly<S> prod;
		std::smatch m;
		for (auto& factor : pieces(term, '*')) {
			if (factor == "") return Skip;
			if (factor == "@") f *= values[at++];
			else if (factor.find('@') != String::npos) {
				for (char ch : factor) at += ch == '@';
				bad = true;
			}
			else if (std::regex_match(factor, number)) f *= strtod(factor.c_str(), nullptr);
			else if (std::regex_match(factor, m, imag)) {
				if (!imagOk((m[1] == "-" ? -1 : 1) * (m[2] == "" ? 1 : strtod(String(m[2]).c_str(), nullptr)), f)) bad = true;
			}
			else if (isLabel(factor)) {
				++calls;
				int aux = 0;
				Poly<S> p = Item<S>()(factor, aux);
				if (prod.empty) prod = p;
				else {
					metaBad = metaBad || prod.meta != p.meta;
					prod *= p;
				}
			}
			else
				bad = true;
		}
		if (prod.empty) continue; // no operator in the term
		prod *= f;
		metaBad = metaBad || prod.meta != 1;
		want += prod;
	}
	return bad || metaBad ? Bad : Ok;
}
template <typename S> static void clean(Poly<S>& p)
{
	for (auto it = p.w.begin(); it != p.w.end();) // words of a zero coefficient mean nothing
		if (it->second == S(0)) it = p.w.erase(it);
		else
			++it;
}
static String scalar(vh::Rng& r)
{
	return r.pick(VS { "2", "0.5", "3.25", ".5", "7.", "10", "0", "1", num(r.range(1, 9999) / 1000.0) });
}
template <typename S> static String arithm(vh::Rng& r)
{
	static const VS ops = { "+", "*", "/", "%", "sin", "cos", "exp", "?" };
	VS t;
	size_t open = 1, limit = r.pick(std::vector<int> { 1, 3, 6, 10 });
	bool cplx = std::is_same<S, Z>::value;
	while (open) {
		String s;
		if (t.size() + open < limit && r.chance(0.75)) s = t.empty() && r.chance(0.3) ? "-" : r.pick(ops);
		else
			s = r.chance(0.1) ? "pi" : cplx && r.chance(0.3) ? r.pick(VS { "i", "2i", "1+2i", "1+-2i", "0.5+i", "3i+2" }) : t.empty() && r.chance(0.4) ? "-" + scalar(r) : scalar(r);
		t.push_back(s);
		open += arity(s);
		--open;
	}
	String j;
	for (size_t i = 0; i < t.size(); ++i) j += (i ? ":" : "") + t[i];
	return "(" + j + ")";
}
template <typename S> static String randomExpr(vh::Rng& r)
{
	static const VS labels = { "c", "c'", "nup", "ndown", "c?1", "c?1'", "splus", "i1", "A[3]", "x", "sz", "I", "z2", "id" };
	String e;
	bool cplx = std::is_same<S, Z>::value;
	for (int n = r.dim(1, 5, 12), i = 0; i < n; ++i) {
		if (i) e += "+";
		for (int m = r.dim(1, 5, 8), k = 0; k < m; ++k) {
			if (k) e += "*";
			String sg = k == 0 && r.chance(0.3) ? "-" : "";
			if (r.chance(0.5)) e += r.pick(labels);
			else if (r.chance(0.4)) e += sg + scalar(r);
			else if (cplx && r.chance(0.4)) e += sg + (r.chance(0.3) ? "" : scalar(r)) + "i";
			else
				e += arithm<S>(r);
		}
	}
	return e;
}
template <typename S> static void judge(Ctx& c, const String& e)
{
	vh::Rng& r = c.rng;
	Poly<S> want;
	int calls = 0;
	c.desc(e);
	Verdict v = reference(e, want, calls);
	clean(want);
	Item<S> item;
	CanonicalExpression<Item<S>> ce(item);
	Poly<S> got, empty;
	bool used = r.chance(0.5);
	if (used) { // a result that already holds something
		got.empty = false;
		got.w[VS { "old" }] = 5;
	}
	int aux = 0;
	bool ret = false;
	try {
		ret = ce(got, e, empty, aux);
	} catch (const std::exception& x) {
		EXPECT(v != Ok, "rejected", e << " was refused: " << x.what());
		if (v == Bad) c.count("malformed expressions refused");
		return;
	}
	if (v == Skip) return;
	EXPECT(v == Ok, "accepted", e << " is malformed but was accepted");
	if (want.empty) {
		EXPECT(ret == used, "flag", e << " has no operators");
		return;
	}
	EXPECT(ret, "flag", e << " has operators but the result is said to be empty");
	clean(got);
	for (auto& x : want.w) EXPECT(got.w.count(x.first) || std::abs(x.second) < 1e-8, "value", e << " lacks the product " << vh::str(x.first));
	for (auto& x : got.w) {
		auto it = want.w.find(x.first);
		S y = it == want.w.end() ? S(0) : it->second;
		EXPECT(std::abs(x.second - y) <= 1e-7 * (1 + std::abs(y)), "value", e << " has coefficient " << x.second << " not " << y << " for " << vh::str(x.first));
	}
	EXPECT(got.meta == 1 && !got.empty, "meta", e);
	c.nontrivial(e);
	c.count("expressions compared");
}
template <typename S> static void exprFamily(Ctx& c)
{
	for (int k = 0; k < 6; ++k) judge<S>(c, randomExpr<S>(c.rng));
}
template <typename S> static void badFamily(Ctx& c)
{
	vh::Rng& r = c.rng;
	static const VS junk = { "-", "(", ")", "()", "((2))", "(c)", "2c", "-c", "M", "i", "2i", "ii", "-i", "1.2.3", "*", "+", "3i4", "(1:2)", "(+:1)", "()*", ".", "@", "c-d", "1e3", "(foo)", "%", " " };
	for (int k = 0; k < 6; ++k) {
		String e = randomExpr<S>(r);
		for (int n = r.range(1, 2); n > 0; --n) {
			size_t p = r.range(0, e.size());
			if (r.chance(0.3) && p < e.size()) e.erase(p, r.range(1, 3));
			else if (r.chance(0.3)) e = e + r.pick(VS { "+", "*" }) + r.pick(junk);
			else
				e.insert(p, r.pick(junk));
		}
		judge<S>(c, e);
	}
}
FAMILY(canonicalReal, 3000, 40000) { exprFamily<double>(c); }
FAMILY(canonicalCplx, 3000, 40000) { exprFamily<Z>(c); }
FAMILY(malformedReal, 2000, 30000) { badFamily<double>(c); }
FAMILY(malformedCplx, 2000, 30000) { badFamily<Z>(c); }

static String randomText(vh::Rng& r, const VS& parts, int n)
{
	String s;
	for (int i = r.range(0, n); i > 0; --i) s += r.pick(parts);
	return s;
}
FAMILY(replace, 1500, 15000)
{
	vh::Rng& r = c.rng;
	typedef CanonicalExpression<Item<double>> CE;
	static const VS parts = { "%s", "%", "s", "1", "12", "x", "%s1", "*", "c" };
	String s = randomText(r, parts, 12), label = r.pick(VS { "%s", "%p", "1", "12", "x", "%", "c" });
	int value = r.range(-3, 130);
	c.desc(s + " | " + label + " -> " + std::to_string(value));
	VS cut(1); // pieces between occurrences, from the left
	for (size_t i = 0; i < s.size();)
		if (s.compare(i, label.size(), label) == 0) {
			cut.push_back("");
			i += label.size();
		}
		else
			cut.back() += s[i++];
	String all, one;
	for (size_t i = 0; i < cut.size(); ++i) {
		all += (i ? std::to_string(value) : "") + cut[i];
		one += (i == 0 ? "" : i == 1 ? std::to_string(value) : label) + cut[i];
	}
	auto a = CE::replaceAll(s, label, value), o = CE::replaceOne(s, label, value);
	EXPECT(a.first == (cut.size() > 1) && a.second == all, "replaceAll", s << " with " << label << " replaced by " << value << " is " << a.second << " not " << all);
	EXPECT(o.first == (cut.size() > 1) && o.second == one, "replaceOne", s << " with one " << label << " replaced by " << value << " is " << o.second << " not " << one);
	if (a.first) c.nontrivial(s + "|" + label + "|" + std::to_string(value));
	c.count("replacements");
}

static bool digits(const String& s) { return s != "" && s.find_first_not_of("0123456789") == String::npos; }
static bool small(const String& s) { return s.size() < 10 || (s.find_first_not_of('0') == String::npos) || strtod(s.c_str(), nullptr) <= 2147483647.0; }
FAMILY(label, 4000, 60000)
{
	vh::Rng& r = c.rng;
	static const VS parts = { "c", "nup", "?", "'", "1", "27", "0", "-3", " ", "x", "[2]", "99999999999", "?1", "?3'", "2147483647", "2147483648" };
	String s = randomText(r, parts, 5);
	c.desc(s);
	String l = s;
	bool tr = !s.empty() && s.back() == '\'';
	if (tr) l.pop_back();
	size_t q = l.find('?');
	String n = q == String::npos ? "0" : l.substr(q + 1);
	bool ok = digits(n) && small(n);
	try {
		OneOperatorSpec spec(s);
		EXPECT(ok, "accepted", "operator " << s << " was accepted");
		EXPECT(spec.label == l.substr(0, q), "name", "operator " << s << " has name " << spec.label);
		EXPECT(spec.dof == strtoul(n.c_str(), 0, 10), "index", "operator " << s << " has index " << spec.dof);
		EXPECT(spec.transpose == tr, "transpose", "operator " << s << " has transpose " << spec.transpose);
		c.nontrivial("op" + s);
		c.count("labels decomposed");
	} catch (const std::exception& e) {
		EXPECT(!ok, "rejected", "operator " << s << " was refused: " << e.what());
		c.count("labels refused");
	}
}
FAMILY(site, 3000, 50000)
{
	vh::Rng& r = c.rng;
	bool round = r.chance(0.3);
	String b = round ? "(" : "[", e = round ? ")" : "]";
	VS parts = { "c", "nup", "?1", "'", "1", "27", b, e, "averylonglabelindeed", b + "12" + e, b + "%s" + e, "x", ":" };
	String s = randomText(r, parts, 5);
	c.desc(s);
	int nb = 0, ne = 0;
	for (char ch : s) {
		nb += ch == b[0];
		ne += ch == e[0];
	}
	size_t pb = s.find(b), pe = s.find(e);
	bool judged = nb <= 1 && ne <= 1, ok = nb == ne && (nb == 0 || pb < pe);
	try {
		auto x = round ? OneOperatorSpec::extractSiteIfAny(s, '(', ')') : OneOperatorSpec::extractSiteIfAny(s);
		EXPECT(nb > 0 || ne == 0, "site:accepted", s << " was accepted");
		EXPECT(ne > 0 || nb == 0, "site:accepted", s << " was accepted");
		if (!judged) return;
		EXPECT(ok, "site:accepted", s << " was accepted");
		EXPECT(x.hasSiteString == (nb > 0), "site:has", s);
		EXPECT(x.root == (nb ? s.substr(0, pb) + s.substr(pe + 1) : s), "site:root", s << " has root " << x.root);
		EXPECT(x.siteString == (nb ? s.substr(pb + 1, pe - pb - 1) : ""), "site:site", s << " has site " << x.siteString);
		if (nb) c.nontrivial("site" + s);
		c.count("sites extracted");
	} catch (const std::exception& ex) {
		EXPECT(!judged || !ok, "site:rejected", s << " was refused: " << ex.what());
	}
	String n = randomText(r, VS { "1", "0", "27", "-", "+", " ", "99999", "2147483647", "x", "." }, 3);
	bool nok = digits(n) && small(n);
	EXPECT(OneOperatorSpec::isNonNegativeInteger(n) == digits(n), "site:number", n);
	try {
		SizeType v = OneOperatorSpec::strToNumberOrFail(n);
		EXPECT(nok && v == strtoul(n.c_str(), 0, 10), "site:number", "site " << n << " is " << v);
		c.count("site numbers");
	} catch (const std::exception& ex) {
		EXPECT(!nok, "site:number", n << " was refused");
	}
}
FAMILY(braket, 6000, 80000)
{
	vh::Rng& r = c.rng;
	static const VS parts = { "P", "X", "Q", "R", "gs", "time", "0", "1", "23", "|", "<", ">", "y", "-1", "99999999999" };
	String s;
	if (r.chance(0.7)) {
		s = r.pick(VS { "gs", "time", "P", "Q", "X", "R" });
		if (s.size() == 1) s += std::to_string(r.range(0, r.chance(0.5) ? 9 : 100000));
		if ((s[0] == 'P' || s[0] == 'Q') && r.chance(0.4)) s += "X" + std::to_string(r.range(0, 300));
		if (r.chance(0.2)) s.insert(r.range(0, s.size()), r.pick(parts));
		if (r.chance(0.7)) s = r.chance(0.5) ? "|" + s + ">" : "<" + s + "|";
		if (r.chance(0.15)) s.insert(r.range(0, s.size()), r.pick(parts));
	}
	else
		s = randomText(r, parts, 5);
	c.desc(s);
	String in = s;
	bool ket = true;
	if (s.size() > 2 && s[0] == '|' && s.back() == '>') in = s.substr(1, s.size() - 2);
	else if (s.size() > 2 && s[0] == '<' && s.back() == '|') {
		in = s.substr(1, s.size() - 2);
		ket = false;
	}
	static const std::regex re("([PQ])([0-9]+)(X([0-9]+))?|(X)([0-9]+)|(R)([0-9]+)");
	std::smatch m;
	bool ok = false, p = false, rv = false;
	unsigned long first = 0, second = 0;
	if (in == "gs") ok = true;
	else if (in == "time") ok = p = true;
	else if (std::regex_match(in, m, re)) {
		ok = true;
		String a = m[2].matched ? String(m[2]) : m[8].matched ? String(m[8]) : "0", b = m[4].matched ? String(m[4]) : m[6].matched ? String(m[6]) : "0";
		ok = small(a) && small(b);
		first = strtoul(a.c_str(), 0, 10);
		second = strtoul(b.c_str(), 0, 10);
		p = m[1] == "P";
		rv = m[7] == "R";
	}
	try {
		GetBraOrKet g(s);
		EXPECT(ok, "bra:accepted", "vector " << s << " was accepted");
		EXPECT(g.isKet() == ket, "bra:ket", "vector " << s << " isKet " << g.isKet());
		EXPECT(g.toString() == in, "bra:string", "vector " << s << " is " << g.toString());
		EXPECT(g.isPvector() == p && g.isRvector() == rv, "bra:kind", "vector " << s);
		if (p || rv) {
			EXPECT(g.pIndex() == first, "bra:index", "vector " << s << " has index " << g.pIndex());
			EXPECT(vh::throws([&] { (void)g.levelIndex(); }) && vh::throws([&] { (void)g.sectorIndex(); }), "bra:kind", "vector " << s << " has a level or sector");
		}
		else {
			EXPECT(g.sectorIndex() == first && g.levelIndex() == second, "bra:index", "vector " << s << " has sector " << g.sectorIndex() << " level " << g.levelIndex());
			EXPECT(vh::throws([&] { (void)g.pIndex(); }), "bra:kind", "vector " << s << " has an index");
		}
		c.nontrivial("bra" + s);
		c.count("vectors decomposed");
	} catch (const std::exception& e) {
		EXPECT(!ok, "bra:rejected", "vector " << s << " was refused: " << e.what());
		c.count("vectors refused");
	}
}

// sums of products with scalars in parentheses: terms, scalars and their numbers
template <typename T> static T quasiValue(const std::complex<double>& z, std::complex<double>*) { return z; }
template <typename T> static T quasiValue(const std::complex<double>& z, double*) { return z.real(); }
template <typename T> static void quasi(Ctx& c)
{
	vh::Rng& r = c.rng;
	size_t n = r.range(1, 5), ns = r.dim(0, 6, 40), used = 0;
	if (ns > 6) n = r.range(1, 20);
	std::vector<double> scalars;
	VS terms;
	String s;
	auto num = [&](double& x) {
		x = r.range(0, 99) * 0.25;
		return ttos(x);
	};
	for (size_t i = 0; i < n; ++i) {
		String t, w;
		size_t here = i + 1 == n ? ns - used : r.range(0, std::min<size_t>(ns - used, 3));
		if (r.chance(0.8) || here == 0) t = w = r.pick(VS { "c", "splus[3]", "n?1'", "x", "|gs", "2.5", "3i" });
		for (size_t k = 0; k < here; ++k) {
			double x, y, v;
			String e = num(x);
			v = x;
			switch (r.range(0, 4)) {
			case 0: e = "-" + e, v = -x; break;
			case 1: e = "+:" + e + ":" + num(y), v = x + y; break;
			case 2: e = "*:" + e + ":" + num(y), v = x * y; break;
			case 3: e = "*:pi:" + e, v = 3.14159265358979323846 * x; break;
			}
			String star = t == "" ? "" : "*";
			w += star + "@" + std::to_string(used++) + "@";
			t += star + "(" + e + ")";
			scalars.push_back(v);
		}
		s += (i ? "+" : "") + t;
		terms.push_back(w);
	}
	c.desc(s);
	c.nontrivial(s);
	QuasiCanonical<T> q(s);
	EXPECT(q.numberOfTerms() == n, "quasi:terms", s << " has " << q.numberOfTerms() << " terms, not " << n);
	for (size_t i = 0; i < n; ++i) EXPECT(q.term(i) == terms[i], "quasi:term", s << " has term " << q.term(i) << " not " << terms[i]);
	for (size_t k = 0; k < scalars.size(); ++k) {
		int at = q.scalarIndex("@" + std::to_string(k) + "@");
		EXPECT(at == int(k), "quasi:scalarIndex", "of " << k << " is " << at);
		EXPECT(std::abs(q.scalarFromIndex(k) - T(scalars[k])) <= 1e-12 * (1 + std::fabs(scalars[k])), "quasi:scalar", s << " scalar " << k << " is " << q.scalarFromIndex(k) << " not " << scalars[k]);
	}
	for (size_t k : { scalars.size(), scalars.size() + 1, scalars.size() + 1000 })
		EXPECT(q.scalarIndex("@" + std::to_string(k) + "@") == -1, "quasi:scalarIndex", "of " << k << " of " << scalars.size());
	for (const char* x : { "", "@", "@@", "c", "@0", "0@", "x@0@" }) EXPECT(q.scalarIndex(x) == -1, "quasi:scalarIndex", "of " << x);
	// kinds of scalar
	double x;
	String t = num(x), im = (r.chance(0.5) ? "-" : "") + t + "i";
	EXPECT(QuasiCanonical<T>::isRealScalar(t) && QuasiCanonical<T>::isRealScalar("-" + t), "quasi:isRealScalar", t);
	EXPECT(!QuasiCanonical<T>::isRealScalar(im) && !QuasiCanonical<T>::isRealScalar("c" + t) && !QuasiCanonical<T>::isRealScalar(t + "c"), "quasi:isRealScalar", t);
	EXPECT(QuasiCanonical<T>::isPureComplex(im) && QuasiCanonical<T>::isPureComplex("i") && !QuasiCanonical<T>::isPureComplex(t) && !QuasiCanonical<T>::isPureComplex("c" + im) && !QuasiCanonical<T>::isPureComplex(""), "quasi:isPureComplex", im);
	if (vh::IsCplx<T>::value) {
		T z = QuasiCanonical<T>::pureComplex(im);
		EXPECT(std::abs(z - quasiValue<T>(std::complex<double>(0, im[0] == '-' ? -x : x), (T*)0)) < 1e-12, "quasi:pureComplex", im << " is " << z);
	} else
		EXPECT(vh::throws([&]() { QuasiCanonical<T>::pureComplex(im); }), "quasi:pureComplex", im << " was accepted where all is real");
	// unbalanced
	String bad = s;
	switch (r.range(0, 3)) {
	case 0: bad += "(1"; break;
	case 1: bad += "1)"; break;
	case 2: bad += "((1))"; break;
	default: bad += "x-1"; break;
	}
	EXPECT(vh::throws([&]() { QuasiCanonical<T> b(bad); }), "quasi:accepted", bad << " was accepted");
	c.count("quasi canonical expressions checked");
}
FAMILY(quasi_double, 2000, 30000) { quasi<double>(c); }
FAMILY(quasi_complex, 2000, 30000) { quasi<std::complex<double>>(c); }
