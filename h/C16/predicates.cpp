#include "PredicateAwesome.h"
#include "PredicateSimple.h"
#include "vh.h"
using namespace PsimagLite;
typedef vh::Ctx Ctx;
typedef std::vector<String> VS;

static String num(double x)
{
	char b[64];
	snprintf(b, sizeof b, "%.17g", x);
	return b;
}
static String text(double x) { return num(x); }
static String text(int x) { return std::to_string(x); }
static String text(SizeType x) { return std::to_string(x); }

template <typename T> struct Env {
	VS names;
	std::vector<T> vals;
};
static double value(vh::Rng& r, double)
{
	return r.chance(0.4) ? double(r.range(-12, 12)) : r.chance(0.5) ? r.range(-40, 40) * 0.25 : r.real(-10, 10) * r.pick(std::vector<double> { 1, 1e-9, 1e9 });
}
static int value(vh::Rng& r, int) { return r.range(-12, 12); }
static SizeType value(vh::Rng& r, SizeType) { return r.range(0, 20); }

static bool overflow;
template <typename T> static T op2(char o, T a, T b)
{
	if (std::is_same<T, SizeType>::value && o == '-' && a < b) overflow = true;
	return o == '+' ? a + b : o == '-' ? a - b : a * b;
}
// one side of a comparison and its value
template <typename T> static String side(vh::Rng& r, const Env<T>& env, T& v)
{
	auto leaf = [&](T& x) -> String {
		if (r.chance(0.6) && env.names.size()) {
			size_t k = r.range(0, env.names.size() - 1);
			x = env.vals[k];
			return env.names[k];
		}
		x = value(r, T());
		if (r.chance(0.2) && env.names.size()) x = r.pick(env.vals); // equality must happen
		return text(x);
	};
	if (r.chance(0.7)) return leaf(v);
	if (r.chance(0.2)) { // a long one: at each level the first operand is an expression
		size_t n = r.range(3, 9), times = 0;
		String ops, s;
		for (size_t i = 0; i < n; ++i) ops += r.chance(0.2) && times++ < 2 ? '*' : r.pick(String("+++-"));
		std::vector<T> x(n + 1);
		for (size_t i = 0; i < n; ++i) {
			s += (i ? ":" : "") + String(1, ops[i]);
			if (i > 0) s += ":" + leaf(x[i - 1]);
		}
		s += ":" + leaf(x[n - 1]);
		s += ":" + leaf(x[n]);
		v = op2(ops[n - 1], x[n - 1], x[n]);
		for (size_t i = n - 1; i-- > 0;) v = op2(ops[i], v, x[i]);
		return s;
	}
	// level by level: op, two operands, the first of which may be an expression
	T a, b, d;
	char o = r.pick(String("+-*")), o2 = r.pick(String("+-*"));
	if (r.chance(0.6)) {
		String sa = leaf(a), sb = leaf(b);
		v = op2(o, a, b);
		return String(1, o) + ":" + sa + ":" + sb;
	}
	String sa = leaf(a), sb = leaf(b), sd = leaf(d);
	v = op2(o, op2(o2, b, d), a);
	return String(1, o) + ":" + String(1, o2) + ":" + sa + ":" + sb + ":" + sd;
}
static bool divides(double a, double b) { return std::fmod(a, b) == 0; }
static bool divides(int a, int b) { return a % b == 0; }
static bool divides(SizeType a, SizeType b) { return a % b == 0; }

enum Tri { NO, YES, ERROR };
template <typename T> static Tri compare(const String& op, T a, T b)
{
	if (op == "%%") return b == 0 ? ERROR : divides(a, b) ? YES : NO;
	bool x = op == "==" ? a == b : op == "!=" ? a != b : op == "<" ? a < b : op == ">" ? a > b : op == "<=" ? a <= b : a >= b;
	return x ? YES : NO;
}
template <typename T> static String simple(vh::Rng& r, const Env<T>& env, Tri& t)
{
	T a, b;
	static const VS ops = { "==", "!=", "<", ">", "<=", ">=", "%%" };
	String op = r.pick(ops);
	String s = side(r, env, a);
	s += op;
	if (op == "%%" && r.chance(0.7)) {
		b = r.range(1, 4);
		s += text(b);
	}
	else
		s += side(r, env, b);
	t = compare(op, a, b);
	return s;
}
template <typename T> static Env<T> environment(vh::Rng& r)
{
	Env<T> e;
	// names that are parts of each other, of functions and of numbers
	static const VS all = { "l", "time", "s", "ti", "e", "site", "li", "t", "c", "n", "o", "x2", "i", "%t", "$n", "E", "in", "l0" };
	size_t n = r.range(1, 4);
	while (e.names.size() < n) {
		String s = r.pick(all);
		if (std::find(e.names.begin(), e.names.end(), s) != e.names.end()) continue;
		if (s[0] == '%') continue; // looks like an operator
		e.names.push_back(s);
		e.vals.push_back(value(r, T()));
	}
	return e;
}
static String show(Tri t) { return t == NO ? "false" : t == YES ? "true" : "an error"; }
template <typename T> static String show(const Env<T>& e)
{
	String s;
	for (size_t i = 0; i < e.names.size(); ++i) s += (i ? ", " : " with ") + e.names[i] + "=" + text(e.vals[i]);
	return s;
}
struct Spec {
	VS got;
	void operator()(String s) { got.push_back(s); }
};
template <typename P, typename T> static bool call(P& p, const Env<T>& e)
{
	switch (e.names.size()) {
	case 1:
		return p.isTrue(e.names[0], e.vals[0]);
	case 2:
		return p.isTrue(e.names[0], e.vals[0], e.names[1], e.vals[1]);
	case 3:
		return p.isTrue(e.names[0], e.vals[0], e.names[1], e.vals[1], e.names[2], e.vals[2]);
	default:
		return p.isTrue(e.names[0], e.vals[0], e.names[1], e.vals[1], e.names[2], e.vals[2], e.names[3], e.vals[3]);
	}
}
template <typename T> static void formula(Ctx& c)
{
	vh::Rng& r = c.rng;
	overflow = false;
	Env<T> env = environment<T>(r);
	String sepOr = r.chance(0.7) ? "," : ";", sepAnd = r.chance(0.7) ? "&" : "|";
	Spec spec;
	VS options;
	String p;
	Tri all = NO;
	bool decided = false;
	int n = r.dim(1, 4, 40);
	for (int i = 0; i < n; ++i) {
		if (i) p += sepOr;
		if (r.chance(0.1)) {
			options.push_back("@" + String(r.pick(VS { "M=2", "x", "", "M==2&l", "keep<3" })));
			p += options.back();
			continue;
		}
		Tri one = YES;
		bool known = false;
		int m = r.dim(1, 3, 25);
		for (int j = 0; j < m; ++j) {
			if (j) p += sepAnd;
			Tri t;
			p += simple(r, env, t);
			if (!known && t != YES) one = t, known = true;
		}
		if (!decided && one != NO) all = one, decided = true;
	}
	if (overflow) return;
	c.desc(p + show(env));
	c.nontrivial(p + show(env));
	Tri got = NO;
	try {
		PredicateAwesome<Spec> pred(p, sepOr, sepAnd, &spec);
		EXPECT(spec.got == options, "options", "options of " << p << " were " << vh::str(spec.got));
		c.count("options routed", options.size());
		bool b = call(pred, env);
		got = b ? YES : NO;
		EXPECT(call(pred, env) == b, "formula:repeat", "asking again differs: " << p << show(env));
		EXPECT(spec.got == options, "options", "options of " << p << " were handled again");
	} catch (const vh::CaseEnd&) {
		throw;
	} catch (const std::exception& e) {
		if (all != ERROR) c.fail("formula:rejected", p + show(env) + " was refused: " + e.what());
		got = ERROR;
	}
	EXPECT(got == all, "formula", p << show(env) << " is " << show(got) << " not " << show(all));
	c.count(got == YES ? "true formulas" : got == NO ? "false formulas" : "errors in formulas");
	if (options.size()) EXPECT(vh::throws([&]() { PredicateAwesome<> q(p, sepOr, sepAnd); }), "options:default", "options were accepted without a handler: " << p);
}
FAMILY(formulaInt, 6000, 80000) { formula<int>(c); }
FAMILY(formulaSize, 4000, 60000) { formula<SizeType>(c); }
FAMILY(formulaReal, 6000, 80000) { formula<double>(c); }

template <typename T> static void single(Ctx& c)
{
	vh::Rng& r = c.rng;
	overflow = false;
	Env<T> env = environment<T>(r);
	Tri t;
	String p = simple(r, env, t), q = p;
	if (overflow) return;
	String sep = ":";
	if (r.chance(0.3)) {
		sep = "/";
		replaceAll(q, ":", "/");
	}
	c.desc(q + show(env));
	c.nontrivial(q + show(env));
	Tri got;
	try {
		PredicateSimple s(q, sep);
		got = s.isTrue(env.names, env.vals) ? YES : NO;
		PredicateAnd a(p);
		EXPECT(call(a, env) == (got == YES), "single:and", "PredicateAnd differs for " << p << show(env));
	} catch (const vh::CaseEnd&) {
		throw;
	} catch (const std::exception& e) {
		if (t != ERROR) c.fail("single:rejected", q + show(env) + " was refused: " + e.what());
		got = ERROR;
	}
	EXPECT(got == t, "single", q << show(env) << " is " << show(got) << " not " << show(t));
	c.count("comparisons");
}
FAMILY(singleInt, 3000, 40000) { single<int>(c); }
FAMILY(singleReal, 3000, 40000) { single<double>(c); }
FAMILY(singleFloat, 500, 4000)
{
	PredicateSimple s("x<=y");
	float a = c.rng.real(-1, 1), b = c.rng.chance(0.3) ? a : std::nextafter(a, float(c.rng.real(-1, 1)));
	c.desc(num(a) + "<=" + num(b));
	c.nontrivial(num(a) + num(b));
	bool got = s.isTrue(VS { "x", "y" }, std::vector<float> { a, b });
	EXPECT(got == (a <= b), "float", num(a) << "<=" << num(b) << " is " << got);
	c.count("comparisons");
}
// refused, either when built or when asked
FAMILY(malformed, 4000, 40000)
{
	vh::Rng& r = c.rng;
	static const VS bad = { "l", "ll", "l=", "=l", "==5", "l==", "l=5", "l%2", "l<", ">3", "abc", "l=>5", "l===5", "foo==1", "l==foo", "l==1.2.3", "l==+:1", "l==+:1:2:3", "l==1:2", "+:l==2", "l==:", ":==l", "l<1<2", "l%%%2", "l!5", "l == 5", "l==5 ", " l==5", "!=!=", "<<<", "%%%%",
		"&", "&&", "l==5&x", "l==5&==", "l==sinx", "ll==3", "l2==3", "l==l5", "-l==3", "l==--1" };
	String b = r.pick(bad), p;
	bool first = r.chance(0.5);
	// a false predicate before it in the same list does not hide it forever: it is asked when the others are false
	String other = r.pick(VS { "l==7", "7==l", "l>=7&l<=7", "l%%7&l==7" });
	p = first ? b + (r.chance(0.5) ? "," + other : "") : other + "," + b;
	int val = r.range(1, 6);
	c.desc(p + " with l=" + std::to_string(val));
	c.nontrivial(p + std::to_string(val));
	bool refused = vh::throws([&]() {
		PredicateAwesome<> q(p);
		q.isTrue("l", val);
	});
	// a conjunction stops at its first false member
	bool hidden = b.substr(0, 5) == "l==5&" && val != 5 && b != "l==5&==" && b != "l==5&x";
	EXPECT(refused || hidden, "malformed:accepted", p << " was accepted with l=" << val);
	c.count("malformed predicates refused");
	PredicateAwesome<> empty("");
	EXPECT(!empty.isTrue("l", val) && !empty.isTrue("l", val, "m", val), "empty", "the empty predicate is true");
	EXPECT(!empty.isTrue("l", val, "m", val, "n", val) && !empty.isTrue("l", val, "m", val, "n", val, "o", val), "empty", "the empty predicate is true");
}
// any text: a truth value or an exception
FAMILY(mutated, 6000, 80000)
{
	vh::Rng& r = c.rng;
	overflow = false;
	Env<int> env = environment<int>(r);
	String p;
	for (int i = r.range(1, 3); i > 0; --i) {
		Tri t;
		p += simple(r, env, t) + (i > 1 ? (r.chance(0.5) ? "," : "&") : "");
	}
	static const VS frag = { "=", "<", ">", "%", "%%", "!", ",", "&", ":", "0", "1", "@", "l", "sin", "?", "+", "-", "*", "/", "%%0", "e", "." };
	for (int e = r.range(1, 4); e > 0; --e) {
		size_t q = r.range(0, p.size());
		switch (r.range(0, 2)) {
		case 0:
			p.insert(q, r.pick(frag));
			break;
		case 1:
			p.insert(q, 1, char(r.range(33, 126)));
			break;
		case 2:
			if (q < p.size()) p.erase(q, r.range(1, 3));
		}
	}
	// integers that do not fit their type have no value to compare
	double largest = 12, bound = 100;
	for (size_t i = 0; i < p.size(); ++i)
		if (isdigit(p[i])) largest = std::max(largest, std::fabs(std::strtod(p.c_str() + i, 0)));
	for (char ch : p) bound *= ch == '*' ? largest : 1;
	if (!(bound * largest < 2e9)) return;
	c.desc(p + show(env));
	c.nontrivial(p + show(env));
	bool e = vh::throws([&]() {
		Spec spec;
		PredicateAwesome<Spec> q(p, ",", "&", &spec);
		call(q, env);
	});
	c.count(e ? "errors in mutated predicates" : "mutated predicates evaluated");
}
