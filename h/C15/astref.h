// reference evaluation of colon-separated expressions (operands level by level)
#ifndef ASTREF_H
#define ASTREF_H
#include "AST/ExpressionForAST.h"
#include "AST/PlusMinusMultiplyDivide.h"
#include <complex>
#include <regex>
using namespace PsimagLite;
typedef std::complex<double> Z;
typedef std::vector<String> VS;

static String num(double x)
{
	char b[64];
	snprintf(b, sizeof b, "%.17g", x);
	return b;
}
static int arity(const String& t)
{
	if (t == "+" || t == "-" || t == "*" || t == "/" || t == "%") return 2;
	if (t == "sin" || t == "cos" || t == "log" || t == "exp") return 1;
	if (t == "?") return 3;
	return 0;
}
static bool literal(const String& t, double& x)
{
	static const std::regex re("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?");
	if (!std::regex_match(t, re)) return false;
	x = strtod(t.c_str(), nullptr);
	return true;
}
static bool literal(const String& t, int& x)
{
	double y;
	if (!literal(t, y)) return false;
	x = y;
	return true;
}
static bool literal(const String& t, Z& x)
{
	static const String n = "([0-9]+\\.?[0-9]*(?:[eE][+-]?[0-9]+)?|\\.[0-9]+(?:[eE][+-]?[0-9]+)?)";
	static const std::regex re("([+-]*)" + n), im("([+-]*)" + n + "?i"), both("([+-]*)" + n + "([+-]+)" + n + "?i"), rev("([+-]*)" + n + "?i([+-]+)" + n),
	    par("\\(([^,]*),([^,]*)\\)");
	std::smatch m;
	auto val = [](String sg, String d) {
		double s = 1;
		for (char ch : sg) s *= ch == '-' ? -1 : 1;
		return s * (d == "" ? 1 : strtod(d.c_str(), nullptr));
	};
	if (std::regex_match(t, m, re)) x = Z(val(m[1], m[2]), 0);
	else if (std::regex_match(t, m, im)) x = Z(0, val(m[1], m[2]));
	else if (std::regex_match(t, m, both)) x = Z(val(m[1], m[2]), val(m[3], m[4]));
	else if (std::regex_match(t, m, rev)) x = Z(val(m[3], m[4]), val(m[1], m[2]));
	else if (std::regex_match(t, m, par)) {
		double a, b;
		if (!literal(String(m[1]), a) || !literal(String(m[2]), b)) return false;
		x = Z(a, b);
	}
	else
		return false;
	return true;
}
static double mag(double x) { return std::fabs(x); }
static double mag(int x) { return std::abs(x); }
static double mag(Z x) { return std::abs(x); }
static bool truth(double x) { return std::fabs(x) >= 1; }
static bool truth(int x) { return x != 0; }
static bool truth(Z x) { return std::norm(x) >= 1; }
template <typename T> static T fn(const String& f, T x)
{
	if (f == "sin") return std::sin(x);
	if (f == "cos") return std::cos(x);
	if (f == "log") return std::log(x);
	return std::exp(x);
}
struct Undefined { }; // results the oracle does not judge: integer overflow, magnitudes beyond integers
static double arith(char op, double a, double b) { return op == '+' ? a + b : op == '-' ? a - b : op == '*' ? a * b : a / b; }
static Z arith(char op, Z a, Z b) { return op == '+' ? a + b : op == '-' ? a - b : op == '*' ? a * b : a / b; }
static int arith(char op, int a, int b)
{
	long r = op == '+' ? long(a) + b : op == '-' ? long(a) - b : op == '*' ? long(a) * b : long(a) / b;
	if (r > 2000000000 || r < -2000000000) throw Undefined();
	return r;
}
// the value of a list of tokens in which the operands of the operators follow level by level; false if it is not an expression
template <typename T> struct Ref {
	struct N {
		String t;
		T v;
		std::vector<int> ch;
	};
	std::vector<N> nodes;
	bool parse(const VS& tokens)
	{
		size_t next = 1;
		for (size_t i = 0; i < tokens.size(); ++i) {
			if (i >= next) return false; // too long
			N n;
			n.t = tokens[i];
			n.v = T(0);
			int a = arity(tokens[i]);
			if (a == 0 && !literal(tokens[i], n.v)) return false;
			for (int k = 0; k < a; ++k) n.ch.push_back(next++);
			nodes.push_back(n);
		}
		return tokens.size() == next;
	}
	T eval(int i = 0) const
	{
		const N& n = nodes[i];
		if (n.ch.empty()) return n.v;
		T a = eval(n.ch[0]);
		if (n.ch.size() == 1) return fn<T>(n.t, a);
		T b = eval(n.ch[1]);
		if (n.t == "?") {
			T d = eval(n.ch[2]);
			if (mag(a) != 1 && std::fabs(mag(a) - 1) < 1e-9) throw Undefined();
			return truth(a) ? b : d;
		}
		if (n.t == "/") {
			double nn = std::norm(b);
			if (nn > 0.99e-6 && nn < 1.01e-6) throw Undefined();
			return nn < 1e-6 ? a : arith('/', a, b);
		}
		if (n.t == "%") {
			double x = mag(a), y = mag(b);
			if (!(x < 1e15) || !(y < 1e15)) throw Undefined();
			// the integer parts; do not judge values a rounding error away from an integer
			if (!std::is_same<T, double>::value && !std::is_same<T, int>::value && (std::fabs(x - std::round(x)) < 1e-9 * (1 + x) || std::fabs(y - std::round(y)) < 1e-9 * (1 + y)) && (x != std::round(x) || y != std::round(y))) throw Undefined();
			unsigned long ix = x, iy = y;
			return T(iy == 0 ? ix : ix % iy);
		}
		return arith(n.t[0], a, b);
	}
};
static bool agree(double a, double b)
{
	if (a != a || b != b) return a != a && b != b;
	return a == b || std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b));
}
static bool agree(int a, int b) { return a == b; }
static bool agree(Z a, Z b)
{
	double d = std::abs(a - b), s = std::abs(a) + std::abs(b);
	if (!(s < 1e300)) return true; // infinities of complex functions are not specified
	return d <= 1e-9 * s;
}
#endif
