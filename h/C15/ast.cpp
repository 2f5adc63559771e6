#include "astref.h"
#include "vh.h"
#include <deque>
#include <memory>
typedef vh::Ctx Ctx;

static String join(const VS& t)
{
	String s;
	for (size_t i = 0; i < t.size(); ++i) s += (i ? ":" : "") + t[i];
	return s;
}
template <typename T> static T evalCode(const VS& tokens)
{
	typedef PlusMinusMultiplyDivide<T> Prim;
	Prim primitives;
	ExpressionForAST<Prim> e(tokens, primitives);
	T first = e.exec();
	T second = e.exec(); // evaluation changes nothing
	if (!(first == second) && first == first) throw std::logic_error("evaluating twice differs");
	return first;
}

static String lit(vh::Rng& r, double)
{
	return r.pick(VS { num(r.real(-5, 5)), std::to_string(r.range(-9, 9)), "0.25", "1e-3", "-2.5E2", ".5", "3.", "+7", "0", num(r.real(-1, 1) * 1e-4) });
}
static String lit(vh::Rng& r, int)
{
	return std::to_string(r.range(-9, 9));
}
static String lit(vh::Rng& r, Z)
{
	double a = r.real(-3, 3), b = r.real(-3, 3);
	switch (r.range(0, 9)) {
	case 0:
		return num(a);
	case 1:
		return num(b) + "i";
	case 2:
		return r.pick(VS { "i", "-i", "+i", "0", "1", "-1", "2i" });
	case 3:
		return std::to_string(r.range(-9, 9)) + (r.chance(0.5) ? "+" : "-") + std::to_string(r.range(0, 9)) + "i";
	case 4:
		return num(a) + (b < 0 ? "" : "+") + num(b) + "i";
	case 5:
		return num(a * 1e-5) + (b < 0 ? "" : "+") + num(b * 1e-7) + "i";
	case 6:
		return "(" + num(a) + "," + num(b) + ")";
	case 7:
		return num(b) + (r.chance(0.5) ? "i+" : "i-") + num(std::fabs(a));
	case 8:
		return num(a) + (r.chance(0.5) ? "+i" : "-i");
	default:
		return num(a) + "+" + num(-std::fabs(b)) + "i";
	}
}
// random expression, level by level
template <typename T> static VS randomTokens(vh::Rng& r)
{
	static const VS ops = { "+", "-", "*", "/", "%", "sin", "cos", "log", "exp", "?" }, iops = { "+", "-", "*", "/", "%", "?" };
	VS t;
	size_t open = 1;
	size_t limit = r.chance(0.01) ? r.range(30, 400) : r.pick(std::vector<int> { 1, 3, 6, 12, 30 });
	while (open) {
		bool op = t.size() + open < limit && r.chance(0.8);
		String s = op ? r.pick(std::is_same<T, int>::value ? iops : ops) : lit(r, T());
		t.push_back(s);
		open += arity(s);
		--open;
	}
	return t;
}
template <typename T> static void check(Ctx& c, const VS& tokens, bool& judged)
{
	Ref<T> ref;
	bool ok = ref.parse(tokens);
	T want = T(0), got = T(0);
	judged = false;
	if (ok) {
		try {
			want = ref.eval();
		} catch (const Undefined&) {
			return;
		}
	}
	judged = true;
	try {
		got = evalCode<T>(tokens);
	} catch (const std::logic_error& e) {
		c.fail("value", String(e.what()) + " for " + join(tokens));
	} catch (const std::exception& e) {
		if (ok) c.fail("rejected", join(tokens) + " was refused: " + e.what());
		c.count("malformed expressions refused");
		return;
	}
	EXPECT(ok, "accepted", join(tokens) << " is not an expression but its value is " << got);
	EXPECT(agree(got, want), "value", join(tokens) << " is " << got << " not " << want);
	c.count("expressions evaluated");
}
template <typename T> static void family(Ctx& c)
{
	vh::Rng& r = c.rng;
	for (int k = 0; k < 8; ++k) {
		VS t = randomTokens<T>(r);
		c.desc(join(t));
		bool judged;
		check<T>(c, t, judged);
		if (judged && t.size() > 1) c.nontrivial(join(t));
	}
}
template <typename T> static void malformed(Ctx& c)
{
	vh::Rng& r = c.rng;
	static const VS junk = { "", "foo", "1.2.3", "--", "1e", "e", ".", "sinx", "Sin", "x", "++", "1-2", "1,2", "i", "1i2", "2i3i", "1+2", "(1,2", "(1,2)3", "()", "0x10", "nan", "inf", " 1", "1 ", "+-", "1+2i+3", "-sin", "**", "??", "2ii", "1+i2", "%%", "infi" };
	for (int k = 0; k < 8; ++k) {
		VS t = randomTokens<T>(r);
		for (int e = r.range(1, 2); e > 0; --e) {
			size_t p = r.range(0, t.size() - 1);
			switch (r.range(0, 5)) {
			case 0:
				t.erase(t.begin() + p);
				break;
			case 1:
				t.insert(t.begin() + p, lit(r, T()));
				break;
			case 2:
				t.push_back(lit(r, T()));
				break;
			case 3:
				t[p] = r.pick(junk);
				break;
			case 4:
				t.resize(p);
				break;
			case 5:
				t.insert(t.begin() + p, r.pick(VS { "+", "?", "sin", "%" }));
			}
			if (t.empty()) break;
		}
		c.desc(join(t));
		bool judged;
		check<T>(c, t, judged);
		if (judged) c.nontrivial(join(t));
	}
}
FAMILY(real, 4000, 60000) { family<double>(c); }
FAMILY(cplx, 4000, 60000) { family<Z>(c); }
FAMILY(integer, 3000, 30000) { family<int>(c); }
FAMILY(malformedReal, 3000, 30000) { malformed<double>(c); }
FAMILY(malformedCplx, 3000, 30000) { malformed<Z>(c); }

// trees with inputs that change between evaluations
FAMILY(inputs, 1500, 15000)
{
	vh::Rng& r = c.rng;
	typedef PlusMinusMultiplyDivide<double> Prim;
	typedef Tree<Prim> TreeT;
	typedef Input<std::vector<double>> In;
	Prim prim;
	size_t nin = r.range(1, 5);
	std::vector<std::unique_ptr<In>> in;
	for (size_t i = 0; i < nin; ++i) in.emplace_back(new In(i));
	VS t = randomTokens<double>(r);
	std::vector<std::unique_ptr<TreeT>> tree;
	std::vector<int> which;
	for (auto& s : t) {
		int w = arity(s) == 0 ? int(r.range(0, nin - 1)) : -1;
		which.push_back(w);
		tree.emplace_back(w < 0 ? new TreeT(prim, prim.findNodeFromCode(s), false) : new TreeT(prim, *in[w], false));
		if (w >= 0) s = "#" + std::to_string(w);
	}
	size_t next = 1;
	bool linear = true;
	for (size_t i = 0; i < t.size(); ++i) {
		int a = arity(t[i]);
		linear = linear && a < 2;
		if (a == 2 && r.chance(0.5)) {
			tree[i]->setDescendants(*tree[next], *tree[next + 1]);
			next += 2;
		}
		else
			for (int k = 0; k < a; ++k) tree[i]->setDescendants(*tree[next++]);
	}
	c.desc(join(t));
	c.nontrivial(join(t));
	EXPECT(tree[0]->isLinearTree() == linear, "linear", "isLinearTree of " << join(t));
	for (int rep = 0; rep < 3; ++rep) {
		std::vector<double> vals(nin);
		for (auto& x : vals) x = r.chance(0.2) ? r.range(-2, 2) : r.real(-3, 3);
		VS t2 = t;
		for (size_t i = 0; i < t.size(); ++i)
			if (which[i] >= 0) t2[i] = num(vals[which[i]]);
		Ref<double> ref;
		if (!ref.parse(t2)) throw vh::HarnessError("inputs");
		double want;
		try {
			want = ref.eval();
		} catch (const Undefined&) {
			continue;
		}
		tree[0]->set(vals);
		double got = tree[0]->exec();
		EXPECT(agree(got, want), "inputs", join(t) << " with " << vh::str(vals) << " is " << got << " not " << want);
		c.count("expressions with inputs evaluated");
	}
}
