// C21: lattices against their definitions, through both input languages
#include "InputNg.h"
#include "InputCheckBase.h"
#include "Geometry/Geometry.h"
#include "Geometry/GeometryDca.h"
#include "Io/IoNg.h"
#include "vh.h"
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
using namespace PsimagLite;
typedef vh::Ctx Ctx;
typedef std::complex<double> Z;

struct Check : public InputCheckBase {
	std::string extra;
	std::string import() const { return extra; }
	bool check(const String& label, const std::vector<String>& v, SizeType) const
	{
		if (label.substr(0, 10) != "Connectors" || v.size() < 3) return false;
		return v.size() == 2 + size_t(atoi(v[0].c_str()) * atoi(v[1].c_str())); // a matrix
	}
	void check(const String&, const String&, SizeType) { }
	bool checkSimpleLabel(const String&, SizeType) const { return false; }
};
typedef InputNg<Check> InputX;
typedef InputX::Readable IoX;
struct Globals {
	enum class ConnectionEnum { SYSTEM_SYSTEM,
		                    SYSTEM_ENVIRON,
		                    ENVIRON_SYSTEM,
		                    ENVIRON_ENVIRON };
};
static String num(double x)
{
	char b[64];
	snprintf(b, sizeof b, "%.17g", x);
	return b;
}
static String num(const Z& z) { return "(" + num(z.real()) + "," + num(z.imag()) + ")"; }
static double part(vh::Rng& r) { return r.range(-64, 64) / 8.0; }
static void draw(vh::Rng& r, double& x) { x = part(r); }
static void draw(vh::Rng& r, Z& x) { x = Z(part(r), part(r)); }
static double cj(double x) { return x; }
static Z cj(const Z& x) { return std::conj(x); }

struct Bond {
	size_t dir = 0, entry = 0;
	double sign = 1;
};
typedef std::map<std::pair<size_t, size_t>, Bond> Bonds; // lower site first
template <typename T> struct Term {
	String kind, options;
	size_t L = 0, orbitals = 1, leg = 0, distance = 1, bath = 0, ly = 0;
	bool px = false, py = false, hasPx = false, constant = false, hasDistance = false, hasPy = false, hasOrbitals = false;
	int sign = 1;
	size_t dirs = 0;
	std::vector<size_t> sizes; // entries per direction
	Bonds bonds;
	std::vector<std::vector<std::vector<T>>> values; // direction, entry, orbitals^2 (or one)
	std::vector<T> raw; // LongRange
	bool exactUse = true; // every entry is used
	bool compact = false, entangler = false;
	T ent = 0;
	size_t maxc = 0;
	bool general() const { return kind == "LongRange" || kind == "General"; }
};
static void add(Bonds& b, size_t i, size_t j, size_t dir, size_t entry, double sign = 1)
{
	Bond x;
	x.dir = dir;
	x.entry = entry;
	x.sign = sign;
	b[std::make_pair(std::min(i, j), std::max(i, j))] = x;
}
// the ladder on sites off .. off+n-1; bonds that close a period come last
static void ladderBonds(Bonds& b, size_t n, size_t leg, bool px, bool py, size_t off)
{
	size_t lx = n / leg;
	for (size_t x = 0; x < lx; ++x)
		for (size_t y = 0; y < leg; ++y) {
			size_t s = x * leg + y;
			if (y + 1 < leg) add(b, off + s, off + s + 1, 1, py ? s : x * (leg - 1) + y);
			if (x + 1 < lx) add(b, off + s, off + s + leg, 0, s);
		}
	if (px && lx > 1)
		for (size_t y = 0; y < leg; ++y) add(b, off + y, off + (lx - 1) * leg + y, 0, (lx - 1) * leg + y);
	if (py)
		for (size_t x = 0; x < lx; ++x) add(b, off + x * leg, off + x * leg + leg - 1, 1, x * leg + leg - 1);
}
template <typename T> static void define(Term<T>& t)
{
	const String& k = t.kind;
	size_t L = t.L;
	if (k == "chain" || k == "longchain") {
		t.dirs = 1;
		for (size_t i = 0; i < L; ++i) { // entry i: from i forward
			size_t j = i + t.distance;
			if (j < L)
				add(t.bonds, i, j, 0, i);
			else if (t.px && !t.bonds.count(std::make_pair(j - L, i)))
				add(t.bonds, i, j - L, 0, i);
		}
		// distances d and L-d: the bond (i,j) with j-i = L-d is numbered by its last site
		t.sizes = { t.px ? L : L - t.distance };
		t.exactUse = !(t.px && 2 * t.distance == L);
	} else if (k == "ladder" || k == "ladderx") {
		t.dirs = k == "ladder" ? 2 : 4;
		ladderBonds(t.bonds, L, t.leg, t.px, t.py, 0);
		size_t lx = L / t.leg;
		t.sizes = { t.px ? L : L - t.leg, t.py ? L : L - lx };
		t.exactUse = !(t.px && lx <= 2);
		if (k == "ladderx") {
			for (size_t x = 0; x + 1 < lx; ++x) {
				add(t.bonds, 2 * x + 1, 2 * x + 2, 2, x);
				add(t.bonds, 2 * x, 2 * x + 3, 3, x);
			}
			t.sizes.push_back(L - t.leg);
			t.sizes.push_back(L - t.leg);
			t.exactUse = false;
		}
	} else if (k == "ladderbath") {
		t.dirs = 3;
		size_t n = L / (1 + t.bath), h = n / 2, first = h * t.bath;
		ladderBonds(t.bonds, n, t.leg, t.px, t.py, first);
		for (size_t s = 0; s < n; ++s)
			for (size_t b = 0; b < t.bath; ++b)
				add(t.bonds, first + s, s < h ? b * h + s : first + n + b * h + s - h, 2, s * t.bath + b);
		t.sizes = { t.px ? n : n - t.leg, t.py ? n : n - n / t.leg, t.bath * n };
		t.exactUse = !(t.px && n / t.leg <= 2);
	} else if (k == "star") {
		t.dirs = 1;
		for (size_t i = 0; i < L; ++i)
			if (i != 1) add(t.bonds, i, 1, 0, i == 0 ? 0 : i - 1);
		t.sizes = { L - 1 };
	} else if (k == "ktwoniffour") {
		t.dirs = 4;
		t.exactUse = false;
		auto inv = [](size_t i) { return i % 8 == 4; };
		auto put = [&](size_t i, size_t j, size_t dir, double s) {
			if (i < L && j < L) add(t.bonds, i, j, dir, 0, s * (inv(i) || inv(j) ? t.sign : 1));
		};
		for (size_t c = 3; c < L; c += 4) { // the metal; 4n is the x oxygen to its left
			put(c, c - 3, 0, 1);
			put(c, c + 1, 0, -1);
			put(c, c - 1, 1, -1);
			put(c, c - 2, 1, 1);
			put(c - 3, c - 2, 2, 1);
			put(c - 3, c - 1, 3, 1);
			put(c + 1, c - 1, 2, 1);
			put(c + 1, c - 2, 3, 1);
		}
	} else if (k == "Honeycomb") {
		t.dirs = 3;
		t.exactUse = false;
		size_t ly = t.ly, lx = L / ly;
		for (size_t x = 0; x < lx; ++x)
			for (size_t y = 0; y < ly; ++y) {
				size_t s = x * ly + y;
				if (y + 1 < ly) add(t.bonds, s, s + 1, y % 4 == 0 ? 1 : y % 4 == 2 ? 0 : 2, 0);
				if (lx > 1 && (t.px || x + 1 < lx)) {
					size_t nx = (x + 1) % lx;
					if (y % 4 == 0 && y + 1 < ly) add(t.bonds, s, nx * ly + y + 1, 0, 0);
					if (y % 4 == 3) add(t.bonds, s, nx * ly + y - 1, 1, 0);
				}
			}
		if (t.py)
			for (size_t x = 0; x < lx; ++x) add(t.bonds, x * ly, x * ly + ly - 1, 2, 0);
	} else {
		t.dirs = 1;
		t.exactUse = false;
	}
	for (size_t& s : t.sizes)
		if (s == 0) {
			t.exactUse = false;
			s = 1;
			if (t.orbitals == 1) t.constant = true;
		}
	if (t.constant) t.sizes.assign(t.dirs, 1), t.exactUse = false;
}
template <typename T> static Term<T> randomTerm(vh::Rng& r, size_t L, const String& only = "")
{
	static const char* kinds[] = { "chain", "longchain", "ladder", "ladderx", "ladderbath", "ktwoniffour", "star", "LongRange", "General", "Honeycomb" };
	Term<T> t;
	while (true) {
		t = Term<T>();
		t.kind = only.size() ? only : String(kinds[r.range(0, 9)]);
		t.L = L;
		t.orbitals = r.chance(0.6) ? 1 : r.range(2, 3);
		t.constant = r.chance(0.3);
		t.hasOrbitals = t.orbitals > 1 || r.chance(0.5);
		t.px = r.chance(0.4);
		t.hasPx = t.px || r.chance(0.5);
		if (t.kind == "chain" || t.kind == "longchain") {
			if (r.chance(0.5)) {
				t.hasDistance = true;
				t.distance = r.range(1, L > 1 ? L - 1 : 1);
			}
			if (t.distance >= L) continue;
		} else if (t.kind == "ladder" || t.kind == "ladderx" || t.kind == "ladderbath") {
			size_t n = L;
			if (t.kind == "ladderbath") {
				t.bath = r.range(0, 3);
				if (L % (1 + t.bath)) continue;
				n = L / (1 + t.bath);
				if (n % 2) continue;
			}
			t.leg = t.kind == "ladderx" ? 2 : r.range(1, 6);
			if (n % t.leg) continue;
			t.hasPy = t.leg > 2;
			t.py = t.hasPy && r.chance(0.5);
			if (t.leg == n && n > 2 && r.chance(0.8)) continue;
		} else if (t.kind == "ktwoniffour") {
			if (L % 4) continue;
			t.orbitals = 2;
			t.hasOrbitals = true;
			t.constant = true;
			t.sign = r.chance(0.5) ? 1 : -1;
		} else if (t.kind == "star") {
			if (L < 2) continue;
		} else if (t.kind == "Honeycomb") {
			t.constant = true;
			std::vector<size_t> d;
			for (size_t ly = 1; ly <= L; ++ly)
				if (L % ly == 0) d.push_back(ly);
			t.ly = r.pick(d);
			t.py = t.ly % 4 == 0 && r.chance(0.5);
			if (t.ly == L && r.chance(0.8)) continue;
		} else {
			t.hasOrbitals = true;
			t.px = t.hasPx = false;
			int w = r.range(0, 9);
			t.compact = w < 4;
			t.entangler = w == 9;
			t.constant = !t.compact && r.chance(0.2);
			t.maxc = r.chance(0.5) ? 0 : r.range(1, 9);
		}
		break;
	}
	// an empty list of values cannot be written: matrices ask for one, numbers for constant values
	define(t);
	t.options = t.compact ? "compact" : t.constant ? "ConstantValues" : "none";
	if (t.general()) {
		size_t n = L * t.orbitals;
		t.raw.assign(n * n, T(0));
		draw(r, t.ent);
		t.ent = std::real(t.ent);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j)
				if (t.entangler) {
					if (j > i) t.raw[i * n + j] = t.ent;
				} else if (r.chance(0.5) && (i < j || r.chance(0.1)))
					draw(r, t.raw[i * n + j]);
		return t;
	}
	for (size_t s : t.sizes) {
		std::vector<std::vector<T>> v(s, std::vector<T>(t.orbitals == 1 ? 1 : t.orbitals * t.orbitals));
		for (auto& e : v)
			for (auto& x : e) draw(r, x);
		t.values.push_back(v);
	}
	return t;
}
template <typename T> static T value(const Term<T>& t, size_t i, size_t e1, size_t j, size_t e2)
{
	if (t.general()) return t.raw[(i * t.orbitals + e1) * t.L * t.orbitals + j * t.orbitals + e2];
	auto it = t.bonds.find(std::make_pair(std::min(i, j), std::max(i, j)));
	if (it == t.bonds.end()) return 0;
	const Bond& b = it->second;
	const std::vector<T>& m = t.values[b.dir][t.constant ? 0 : b.entry];
	if (t.orbitals == 1) return m[0];
	return (i > j ? m[e1 * t.orbitals + e2] : cj(m[e2 * t.orbitals + e1])) * b.sign;
}
static size_t orbitalsOf(const String& kind, size_t orb, size_t i) { return kind == "ktwoniffour" && i % 4 == 3 ? 1 : orb; }

static String lit(double x, bool) { return num(x); }
static String lit(const Z& z, bool ainur) { return ainur ? num(z.real()) + "i" + num(z.imag()) : num(z); }
template <typename T> static String script(vh::Rng& r, const std::vector<Term<T>>& ts, bool ainur)
{
	String s = ainur ? "##Ainur1.0\n" : "";
	String eol = ainur ? ";\n" : "\n";
	s += "TotalNumberOfSites=" + std::to_string(ts[0].L) + eol + "NumberOfTerms=" + std::to_string(ts.size()) + eol;
	const bool cplx = std::is_same<T, Z>::value;
	String mtype = cplx ? "matrix.complex " : "matrix ", vtype = cplx ? "vector.complex " : "vector ";
	for (size_t q = 0; q < ts.size(); ++q) {
		const Term<T>& t = ts[q];
		String p = ainur && ts.size() > 1 ? "gt" + std::to_string(q) + ":" : "";
		auto line = [&](const String& type, const String& name, const String& v, bool quote = false) {
			s += (ainur ? type + p : String("")) + name + "=" + (ainur && quote ? "\"" + v + "\"" : v) + eol;
		};
		// the text form gives repeated labels in order: every term has the label or none
		if (t.hasOrbitals) line("", "DegreesOfFreedom", std::to_string(t.orbitals));
		line("", "GeometryKind", t.kind, true);
		line("", "GeometryOptions", t.options, true);
		if (t.hasPx) line("integer ", "IsPeriodicX", t.px ? "1" : "0");
		if (t.hasPy || t.kind == "Honeycomb") line("integer ", "IsPeriodicY", t.py ? "1" : "0");
		if (t.leg) line("", "LadderLeg", std::to_string(t.leg));
		if (t.hasDistance) line("", "LongChainDistance", std::to_string(t.distance));
		if (t.kind == "ladderbath") line("", "BathSitesPerSite", std::to_string(t.bath));
		if (t.kind == "ktwoniffour") line("integer ", "SignChange", std::to_string(t.sign));
		if (t.kind == "Honeycomb") line("integer ", "HoneycombLy", std::to_string(t.ly));
		auto matrix = [&](const String& name, const std::vector<std::vector<String>>& rows) {
			if (!ainur) {
				s += name + " " + std::to_string(rows.size()) + " " + std::to_string(rows[0].size()) + "\n";
				for (auto& row : rows) {
					for (auto& x : row) s += x + " ";
					s += "\n";
				}
				return;
			}
			s += mtype + p + name + "=[";
			for (size_t i = 0; i < rows.size(); ++i) {
				s += i ? ",\n[" : "[";
				for (size_t j = 0; j < rows[i].size(); ++j) s += (j ? ", " : "") + rows[i][j];
				s += "]";
			}
			s += "];\n";
		};
		if (t.general()) {
			line("integer ", "GeometryMaxConnections", std::to_string(t.maxc));
			if (t.entangler) {
				line("real ", "GeometryEntangler", num(std::real(t.ent)));
				continue;
			}
			size_t n = t.L * t.orbitals;
			std::vector<std::vector<String>> rows;
			if (t.compact) {
				for (size_t i = 0; i < n; ++i)
					for (size_t j = 0; j < n; ++j)
						if (t.raw[i * n + j] != T(0)) {
							std::vector<String> row;
							row.push_back(std::to_string(i / t.orbitals));
							if (t.orbitals > 1) row.push_back(std::to_string(i % t.orbitals));
							row.push_back(std::to_string(j / t.orbitals));
							if (t.orbitals > 1) row.push_back(std::to_string(j % t.orbitals));
							row.push_back(lit(t.raw[i * n + j], ainur));
							rows.push_back(row);
						}
				for (size_t i = rows.size(); i > 1; --i) std::swap(rows[i - 1], rows[r.range(0, i - 1)]);
				if (rows.empty()) rows.push_back(t.orbitals > 1 ? std::vector<String> { "0", "0", "0", "0", "0" } : std::vector<String> { "0", "0", "0" });
			} else
				for (size_t i = 0; i < n; ++i) {
					rows.push_back(std::vector<String>());
					for (size_t j = 0; j < n; ++j) rows[i].push_back(lit(t.raw[i * n + j], ainur));
				}
			matrix("Connectors", rows);
			continue;
		}
		for (size_t d = 0; d < t.dirs; ++d) {
			String name = (ainur ? "dir" + std::to_string(d) + ":" : String("")) + "Connectors";
			const auto& v = t.values[d];
			if (t.orbitals == 1) {
				if (!ainur) {
					s += name + " " + std::to_string(v.size());
					for (auto& e : v) s += " " + num(e[0]);
					s += "\n";
					continue;
				}
				s += vtype + p + name + "=[";
				for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + lit(v[i][0], ainur);
				s += "];\n";
				continue;
			}
			for (size_t i = 0; i < v.size(); ++i) {
				std::vector<std::vector<String>> rows(t.orbitals);
				for (size_t e = 0; e < t.orbitals * t.orbitals; ++e) rows[e / t.orbitals].push_back(lit(v[i][e], ainur));
				matrix(name + (ainur && v.size() > 1 ? std::to_string(i) : ""), rows);
			}
		}
	}
	return s;
}
template <typename T> struct World {
	typedef PsimagLite::Geometry<T, IoX, Globals> G;
	std::unique_ptr<InputX::Writeable> w;
	std::unique_ptr<IoX> io;
	std::unique_ptr<G> g;
	World(const Check& c, const String& text)
	    : w(new InputX::Writeable(c, text)), io(new IoX(*w)), g(new G(*io)) { }
};
static void quiet()
{
	static std::ofstream n("/dev/null");
	std::cerr.rdbuf(n.rdbuf());
	std::cout.rdbuf(n.rdbuf());
}
template <typename T> static Check checkFor()
{
	Check ck;
	ck.extra = PsimagLite::Geometry<T, IoX, Globals>::import();
	{ // the names are declared by their own lines
		String out, line;
		for (char ch : ck.extra) {
			line += ch;
			if (ch != '\n') continue;
			if (line.find("Connectors") == String::npos) out += line;
			line = "";
		}
		ck.extra = out;
	}
	return ck;
}
template <typename T> static void judge(Ctx& c, const std::vector<Term<T>>& ts, const typename World<T>::G& g, const String& text)
{
	typedef Globals::ConnectionEnum CE;
	vh::Rng& r = c.rng;
	size_t L = ts[0].L;
	EXPECT(g.terms() == ts.size() && g.numberOfSites() == L, "shape", g.terms() << " terms " << g.numberOfSites() << " sites in\n" << text);
	size_t maxc = 0;
	for (size_t q = 0; q < ts.size(); ++q) {
		const Term<T>& t = ts[q];
		EXPECT(g.directions(q) == t.dirs, "directions", g.directions(q) << " not " << t.dirs << " in\n" << text);
		EXPECT(g.options(q) == t.options, "options", g.options(q) << " in\n" << text);
		maxc = std::max(maxc, size_t(g.maxConnections(q)));
		size_t total = 0;
		std::vector<std::set<size_t>> used(t.dirs);
		std::vector<std::set<size_t>> want(t.dirs);
		for (auto& b : t.bonds) want[b.second.dir].insert(b.second.entry);
		for (size_t i = 0; i < L; ++i) {
			size_t oi = orbitalsOf(t.kind, t.orbitals, i);
			EXPECT(g.orbitals(q, i) == oi, "orbitals", "site " << i << " has " << g.orbitals(q, i) << " in\n" << text);
			for (size_t j = 0; j < L; ++j) {
				auto it = t.bonds.find(std::make_pair(std::min(i, j), std::max(i, j)));
				bool is = t.general() || it != t.bonds.end();
				if (is && !(i == j && !t.general())) {
					++total;
					size_t d = g.calcDir(q, i, j), dw = t.general() ? 0 : it->second.dir;
					EXPECT(d == dw, t.kind + ":direction", "bond " << i << "-" << j << " has direction " << d << " not " << dw << " in\n" << text);
					if (!t.constant && !t.general()) {
						size_t h = g.handle(q, i, j);
						EXPECT(h == it->second.entry, t.kind + ":entry", "bond " << i << "-" << j << " uses entry " << h << " not " << it->second.entry << " in\n" << text);
						used[d].insert(h);
					}
				}
				size_t oj = orbitalsOf(t.kind, t.orbitals, j);
				for (size_t e1 = 0; e1 < oi; ++e1)
					for (size_t e2 = 0; e2 < oj; ++e2) {
						T w = value(t, i, e1, j, e2), x = g(i, e1, j, e2, q);
						EXPECT(x == w, t.kind + ":value", "term " << q << " value " << i << "," << e1 << " - " << j << "," << e2 << " is " << x << " not " << w << " in\n" << text);
						size_t smax = (i + j) / 2;
						x = g(smax, smax + 1, i, e1, j, e2, q);
						EXPECT(x == w, t.kind + ":value", "term " << q << " value with smax " << smax << " of " << i << "," << e1 << " - " << j << "," << e2 << " is " << x << " not " << w << " in\n" << text);
						c.count("bond values checked");
					}
			}
		}
		if (t.exactUse)
			for (size_t d = 0; d < t.dirs; ++d)
				EXPECT(used[d].size() == t.values[d].size(), t.kind + ":unused", used[d].size() << " of " << t.values[d].size() << " entries of direction " << d << " used in\n" << text);
		c.count("terms checked");
		if (total) c.count("bonds checked", total);
		// symmetries
		bool chain = t.kind == "chain" || t.kind == "longchain";
		if (chain || t.kind == "ladder" || t.general()) {
			size_t nd = t.kind == "ladder" ? 2 : 1;
			for (size_t d = 0; d < nd; ++d) {
				size_t len = t.kind == "ladder" ? (d == 0 ? L / t.leg : t.leg) : L;
				EXPECT(g.length(d, q) == len, t.kind + ":length", "length " << g.length(d, q) << " in\n" << text);
				bool periodic = t.general() ? false : d == 0 ? t.px : t.py;
				size_t a = r.range(0, 3 * len);
				std::set<size_t> image;
				for (size_t i = 0; i < L; ++i) {
					size_t k = g.translate(i, d, a, q);
					size_t w = nd == 1 ? (i + a) % L : d == 0 ? (i + a * t.leg) % L : i - i % t.leg + (i % t.leg + a) % t.leg;
					EXPECT(k == w, t.kind + ":translate", "site " << i << " by " << a << " along " << d << " is " << k << " not " << w << " in\n" << text);
					image.insert(k);
					EXPECT(g.translate(i, d, len, q) == i, t.kind + ":translate", "site " << i << " by a period is " << g.translate(i, d, len, q) << " in\n" << text);
				}
				EXPECT(image.size() == L, t.kind + ":translate", "not one to one in\n" << text);
				if (periodic && ts.size() == 1)
					for (auto& b : t.bonds)
						EXPECT(g.connected(0, 1, g.translate(b.first.first, d, a, q), g.translate(b.first.second, d, a, q)), t.kind + ":translate", "bond " << b.first.first << "-" << b.first.second << " broken by a translation of " << a << " along " << d << " in\n" << text);
				c.count("translations checked");
			}
			for (size_t i = 0; i < L; ++i) {
				size_t k = g.findReflection(i, q);
				EXPECT(k < L && g.findReflection(k, q) == i, t.kind + ":reflection", "site " << i << " reflects to " << k << " in\n" << text);
				EXPECT(t.kind == "ladder" ? (k % t.leg == i % t.leg && k / t.leg + i / t.leg + 1 == L / t.leg) : k + i + 1 == L, t.kind + ":reflection", "site " << i << " reflects to " << k << " in\n" << text);
			}
			if (ts.size() == 1)
				for (auto& b : t.bonds) EXPECT(g.connected(0, 1, g.findReflection(b.first.first, q), g.findReflection(b.first.second, q)), t.kind + ":reflection", "bond " << b.first.first << "-" << b.first.second << " broken by reflection in\n" << text);
			c.count("reflections checked");
		}
		if (t.general() && t.maxc) EXPECT(g.maxConnections(q) == t.maxc, "maxConnections", g.maxConnections(q) << " in\n" << text);
	}
	EXPECT(g.maxConnections() == maxc, "maxConnections", g.maxConnections() << " not " << maxc);
	for (size_t i = 0; i < L; ++i)
		for (size_t j = 0; j < L; ++j) {
			bool w = false;
			for (auto& t : ts) w = w || t.general() || (i != j && t.bonds.count(std::make_pair(std::min(i, j), std::max(i, j))));
			size_t smax = r.range(0, L - 1);
			EXPECT(g.connected(smax, smax + 1, i, j) == w, "connected:" + ts[0].kind, i << "-" << j << " connected " << !w << " in\n" << text);
			CE k = g.connectionKind(smax, i, j), kw = i <= smax ? (j <= smax ? CE::SYSTEM_SYSTEM : CE::SYSTEM_ENVIRON) : (j <= smax ? CE::ENVIRON_SYSTEM : CE::ENVIRON_ENVIRON);
			EXPECT(k == kw, "connectionKind", i << "-" << j << " with smax " << smax << " is " << int(k));
		}
	// printed matrices
	bool skip = false;
	for (auto& t : ts) skip = skip || t.orbitals * t.L > 30;
	if (skip || r.chance(0.7)) return;
	std::ostringstream os;
	g.print(os);
	std::istringstream is(os.str());
	for (auto& t : ts) {
		String l;
		std::getline(is, l);
		EXPECT(l == "#orbital changes first", "print", "header " << l);
		for (size_t i = 0; i < L; ++i)
			for (size_t e1 = 0; e1 < orbitalsOf(t.kind, t.orbitals, i); ++e1)
				for (size_t j = 0; j < L; ++j)
					for (size_t e2 = 0; e2 < orbitalsOf(t.kind, t.orbitals, j); ++e2) {
						T x(0);
						is >> x;
						EXPECT(!is.fail() && x == value(t, i, e1, j, e2), "print", "printed " << x << " for " << i << "," << e1 << " - " << j << "," << e2 << " in\n" << os.str() << text);
					}
		std::getline(is, l);
	}
	c.count("lattices printed");
}
template <typename T> static void testLattice(Ctx& c, bool ainur)
{
	quiet();
	vh::Rng& r = c.rng;
	size_t L = r.chance(0.003) ? 4 * r.range(6, ainur ? 12 : 40) : ainur ? (r.chance(0.5) ? 4 * r.range(1, 3) : r.range(1, 10)) : r.chance(0.5) ? 4 * r.range(1, 8) : r.range(1, 24);
	size_t n = r.chance(0.7) ? 1 : r.range(2, 3);
	std::vector<Term<T>> ts;
	for (size_t i = 0; i < n; ++i) ts.push_back(randomTerm<T>(r, L));
	if (!ainur && n > 1) { // labels repeat: all the terms carry the same ones
		if (ts[0].general()) ts.resize(1);
		for (size_t i = 1; i < ts.size(); ++i) ts[i] = randomTerm<T>(r, L, ts[0].kind);
		bool distance = false;
		for (auto& t : ts) distance = distance || t.hasDistance, t.hasOrbitals = t.hasPx = true;
		for (auto& t : ts) {
			if (distance && !t.hasDistance) t.hasDistance = true;
			if (t.leg && (t.leg > 2) != (ts[0].leg > 2)) {
				ts.resize(1);
				break;
			}
		}
	}
	String text = script(r, ts, ainur);
	c.desc(text);
	c.nontrivial(text);
	std::unique_ptr<World<T>> w;
	try {
		w.reset(new World<T>(checkFor<T>(), text));
	} catch (const std::exception& e) {
		c.fail("refused:" + ts[0].kind, String(e.what()) + " for\n" + text);
		return;
	}
	judge<T>(c, ts, *w->g, text);
	c.sample(text);
}
FAMILY(text_real, 12000, 60000) { testLattice<double>(c, false); }
FAMILY(text_complex, 6000, 30000) { testLattice<Z>(c, false); }
FAMILY(ainur_real, 1500, 8000) { testLattice<double>(c, true); }
FAMILY(ainur_complex, 800, 4000) { testLattice<Z>(c, true); }

FAMILY(split, 20000, 60000)
{
	quiet();
	vh::Rng& r = c.rng;
	size_t L = r.range(2, 40), spb = r.chance(0.5) ? 1 : r.range(1, 6);
	bool all = r.chance(0.4);
	String text = "TotalNumberOfSites=" + std::to_string(L) + "\nNumberOfTerms=1\nGeometryKind=star\nGeometryOptions=ConstantValues\nConnectors 1 1.0\n";
	c.desc(std::to_string(L) + " " + std::to_string(spb) + " " + std::to_string(all));
	c.nontrivial(std::to_string(L) + " " + std::to_string(spb) + " " + std::to_string(all));
	static std::map<size_t, std::unique_ptr<World<double>>> cache;
	std::unique_ptr<World<double>>& w = cache[L];
	if (!w) w.reset(new World<double>(checkFor<double>(), text));
	std::vector<SizeType> S, E;
	std::vector<std::vector<SizeType>> X, Y;
	bool bad = spb > 1 && (L % spb || L / spb < 3);
	bool threw = false;
	try {
		w->g->split(spb, S, X, Y, E, all);
	} catch (const std::exception&) {
		threw = true;
	}
	EXPECT(threw == bad, "split:refusal", "split of " << L << " in blocks of " << spb << (threw ? " refused" : " accepted"));
	if (bad) {
		c.count("splits refused");
		return;
	}
	std::vector<int> seen(L, 0);
	auto count = [&](const std::vector<SizeType>& v, size_t want, bool anyOrder) {
		EXPECT(v.size() == want, "split", "block of " << v.size() << " in " << L << " by " << spb);
		for (size_t i = 0; i < v.size(); ++i) {
			EXPECT(v[i] < L, "split", "site " << v[i] << " of " << L << " by " << spb);
			++seen[v[i]];
			if (i && !anyOrder) EXPECT(v[i] == v[i - 1] + 1, "split", "block not consecutive in " << L << " by " << spb);
		}
	};
	count(S, spb, false);
	for (auto& b : X) count(b, spb, true);
	for (auto& b : Y) count(b, spb, true);
	count(E, spb, false);
	EXPECT(!all || Y.empty(), "split", "environment blocks with everything in the system");
	for (size_t i = 0; i < L; ++i) EXPECT(seen[i] == 1, "split", "site " << i << " is in " << seen[i] << " blocks of " << L << " by " << spb << (all ? " all" : ""));
	// the system grows to the right from its first block, the environment to the left from the last
	if (!all) {
		size_t next = spb;
		for (auto& b : X) {
			for (size_t i = 0; i < spb; ++i) EXPECT(b[i] == next + i, "split:order", "system block " << vh::str(b) << " of " << L << " by " << spb);
			next += spb;
		}
		size_t last = L - spb;
		for (auto& b : Y) {
			std::set<SizeType> s(b.begin(), b.end());
			EXPECT(*s.rbegin() + 1 == last && *s.begin() + spb == last, "split:order", "environment block " << vh::str(b) << " of " << L << " by " << spb);
			last -= spb;
		}
	}
	c.count("splits checked");
}

// infinite growth of an open chain: the site next to the system stands for the missing ones
FAMILY(growth, 4000, 20000)
{
	quiet();
	vh::Rng& r = c.rng;
	size_t L = r.range(4, 24);
	Term<double> t = randomTerm<double>(r, L, "chain");
	t.px = t.hasPx = t.hasDistance = false;
	t.distance = 1;
	t.bonds.clear();
	t.sizes.clear();
	t.values.clear();
	define(t);
	for (size_t s : t.sizes) {
		std::vector<std::vector<double>> v(s, std::vector<double>(t.orbitals * t.orbitals));
		for (auto& e : v)
			for (auto& x : e) draw(r, x);
		t.values.push_back(v);
	}
	std::vector<Term<double>> ts(1, t);
	String text = script(r, ts, false);
	c.desc(text);
	c.nontrivial(text);
	World<double> w(checkFor<double>(), text);
	size_t smax = r.range(0, L - 3), emin = r.range(smax + 2, L - 1);
	for (size_t i = 0; i < L; ++i) {
		if (i > smax && i < emin) continue;
		for (size_t j = 0; j < L; ++j) {
			if (j > smax && j < emin) continue;
			size_t a = std::min(i, j), b = std::max(i, j);
			bool cross = a == smax && b == emin;
			bool is = cross || b - a == 1;
			EXPECT(w.g->connected(smax, emin, i, j) == is, "growth:connected", i << "-" << j << " with " << smax << "," << emin << " connected " << !is << " in\n" << text);
			if (!is) continue;
			for (size_t e1 = 0; e1 < t.orbitals; ++e1)
				for (size_t e2 = 0; e2 < t.orbitals; ++e2) {
					double x = (*w.g)(smax, emin, i, e1, j, e2, 0);
					double y = !cross ? value(t, i, e1, j, e2) : i < j ? value(t, smax, e1, smax + 1, e2) : value(t, smax, e2, smax + 1, e1);
					EXPECT(x == y, "growth:value", i << "," << e1 << "-" << j << "," << e2 << " with " << smax << "," << emin << " is " << x << " not " << y << " in\n" << text);
					c.count("growth values checked");
				}
		}
	}
}
// the same for ladders: both ends have as many sites, and the columns that are missing between them are cut out
FAMILY(ladderGrowth, 1500, 8000)
{
	quiet();
	vh::Rng& r = c.rng;
	bool x = r.chance(0.4);
	size_t leg = x ? 2 : 2 * r.range(1, 3), lx = 2 * r.range(1, 4), L = leg * lx;
	Term<double> t;
	do {
		t = randomTerm<double>(r, L, x ? "ladderx" : "ladder");
	} while (t.leg != leg || t.px);
	std::vector<Term<double>> ts(1, t);
	String text = script(r, ts, false);
	c.desc(text);
	c.nontrivial(text);
	World<double> w(checkFor<double>(), text);
	for (size_t n = 1; 2 * n < L; ++n) {
		size_t smax = n - 1, emin = L - n, cut = (emin - smax - 1) / leg * leg;
		for (size_t i = 0; i <= smax; ++i)
			for (size_t j = emin; j < L; ++j) {
				bool is = t.bonds.count(std::make_pair(i, j - cut));
				if (is) EXPECT(w.g->connected(smax, emin, i, j) && w.g->connected(smax, emin, j, i), "growth:connected", i << "-" << j << " with " << smax << "," << emin << " not connected in\n" << text);
				if (!w.g->connected(smax, emin, i, j)) continue;
				for (size_t e1 = 0; e1 < t.orbitals; ++e1)
					for (size_t e2 = 0; e2 < t.orbitals; ++e2) {
						double y = value(t, i, e1, j - cut, e2), a = (*w.g)(smax, emin, i, e1, j, e2, 0), b = (*w.g)(smax, emin, j, e2, i, e1, 0);
						EXPECT(a == y && b == y, "growth:value", i << "," << e1 << "-" << j << "," << e2 << " with " << smax << "," << emin << " is " << a << " and " << b << " not " << y << " in\n" << text);
						c.count("ladder growth values checked");
					}
			}
	}
}
// a site is at the fringe when it has a neighbour on the other side
FAMILY(fringe, 600, 3000)
{
	quiet();
	vh::Rng& r = c.rng;
	bool honey = r.chance(0.7);
	size_t L = honey ? 4 * r.range(2, 8) : r.range(3, 24);
	Term<double> t = randomTerm<double>(r, L, honey ? "Honeycomb" : "chain");
	if (!honey && t.px) {
		t.px = false;
		t.bonds.clear();
		t.sizes.clear();
		define(t);
		t.values.assign(1, std::vector<std::vector<double>>(t.sizes[0], std::vector<double>(t.orbitals * t.orbitals, 1.0)));
	}
	std::vector<Term<double>> ts(1, t);
	String text = script(r, ts, false);
	c.desc(text);
	c.nontrivial(text);
	Check ck;
	InputX::Writeable w(ck, text);
	IoX io(w);
	std::unique_ptr<GeometryBase<double, IoX>> g;
	if (honey)
		g.reset(new Honeycomb<double, IoX>(L, io));
	else
		g.reset(new LongChain<double, IoX>(L, io));
	for (size_t smax = 0; smax + 1 < L; ++smax)
		for (size_t i = 0; i < L; ++i) {
			bool is = false;
			for (auto& b : t.bonds)
				if (b.first.first <= smax && b.first.second > smax && (b.first.first == i || b.first.second == i)) is = true;
			EXPECT(g->fringe(i, smax, smax + 1) == is, t.kind + ":fringe", "site " << i << " with smax " << smax << " fringe " << !is << " in\n" << text);
			c.count("fringe sites checked");
		}
}
// ladders may take more sites for fringe, never fewer
FAMILY(fringeSound, 600, 3000)
{
	quiet();
	vh::Rng& r = c.rng;
	String kind = r.chance(0.5) ? "ladder" : "ladderx";
	size_t L = 2 * r.range(1, 12);
	Term<double> t;
	do {
		t = randomTerm<double>(r, L, kind);
	} while (t.px);
	std::vector<Term<double>> ts(1, t);
	String text = script(r, ts, false);
	c.desc(text);
	c.nontrivial(text);
	Check ck;
	InputX::Writeable w(ck, text);
	IoX io(w);
	std::unique_ptr<GeometryBase<double, IoX>> g;
	if (kind == "ladder")
		g.reset(new Ladder<double, IoX>(L, io));
	else
		g.reset(new LadderX<double, IoX>(L, io));
	for (size_t smax = 0; smax + 1 < L; ++smax)
		for (auto& b : t.bonds)
			if (b.first.first <= smax && b.first.second > smax) {
				EXPECT(g->fringe(b.first.first, smax, smax + 1) && g->fringe(b.first.second, smax, smax + 1), t.kind + ":fringe", "sites " << b.first.first << " and " << b.first.second << " with smax " << smax << " not fringe in\n" << text);
				EXPECT(g->getSubstituteSite(smax, smax + 1, b.first.second) == b.first.second, t.kind + ":substitute", "site " << b.first.second << " with smax " << smax << " replaced in\n" << text);
				c.count("fringe bonds checked");
			}
}
// what is written to a data file is what was given
// points of the mesh of a star, and sums of momenta on a 2x2 cluster
FAMILY(mesh, 1500, 8000)
{
	quiet();
	vh::Rng& r = c.rng;
	size_t L = r.range(2, 9), mesh = r.chance(0.5) ? r.range(1, 12) : r.range(1, 150), orb = r.range(1, 6);
	if (mesh < 13 && r.chance(0.7)) mesh *= mesh;
	bool star = r.chance(0.8);
	String text = "TotalNumberOfSites=" + std::to_string(L) + "\nNumberOfTerms=1\nGeometryKind=" + (star ? "star" : "chain") + "\nGeometryOptions=ConstantValues\nConnectors 1 1.0\n";
	c.desc(std::to_string(mesh) + " " + std::to_string(orb) + "\n" + text);
	c.nontrivial(std::to_string(mesh) + " " + std::to_string(orb) + text);
	Check ck = checkFor<double>();
	InputX::Writeable w(ck, text);
	IoX io(w);
	typedef PsimagLite::Geometry<double, IoX, Globals> G;
	G g(io, false, mesh);
	if (star) {
		size_t m = 0;
		while ((m + 1) * (m + 1) <= mesh) ++m;
		EXPECT(g.sizeOfMesh() == m * m, "mesh:size", g.sizeOfMesh() << " points for " << mesh);
		EXPECT(g.dimension() == 2, "mesh:dimension", g.dimension());
		for (size_t k = 0; k < m * m; ++k) {
			std::vector<double> v(2, 99);
			g.getMeshVector(v, k);
			EXPECT(v.size() == 2 && vh::close(v[0], -M_PI + 2 * M_PI * (k / m) / m, 1e-12) && vh::close(v[1], -M_PI + 2 * M_PI * (k % m) / m, 1e-12), "mesh:point", "point " << k << " of " << m << "x" << m << " is " << vh::str(v));
		}
		std::vector<double> v(r.range(0, 3), 5);
		g.index2Rvector(r.range(0, L - 1), v);
		EXPECT(v.size() == 2 && v[0] == 0 && v[1] == 0, "mesh:origin", vh::str(v));
		v.assign(r.range(0, 3), 5);
		g.index2Kvector(r.range(0, L - 1), v);
		EXPECT(v.size() == 2 && v[0] == 0 && v[1] == 0, "mesh:origin", vh::str(v));
		EXPECT(g.nGroupK() == 1, "mesh:group", g.nGroupK());
		size_t j = r.range(0, 9);
		EXPECT(g.ickequ(j, r.range(0, 3)) == j, "mesh:group", "identity moves " << j);
	}
	PsimagLite::GeometryDca<double, G> dca(g, orb);
	for (size_t a = 0; a < 4; ++a)
		for (size_t b = 0; b < 4; ++b) {
			size_t sum = 99, sub = 99;
			bool t = vh::throws([&]() { sum = dca.kSum(a, b); }), u = vh::throws([&]() { sub = dca.kSustract(a, b); });
			bool good = star && orb == 4;
			EXPECT(t == !good && u == !good, "dca:refusal", "sums of momenta for " << orb << " orbitals" << (t ? " refused" : " accepted"));
			// momenta 0 and pi in each direction
			size_t want = ((a + b) & 1) | ((((a >> 1) + (b >> 1)) & 1) << 1);
			if (good) EXPECT(sum == want && sub == want, "dca:sum", a << "+" << b << " is " << sum << " and the difference " << sub);
		}
	c.count("meshes checked");
}

FAMILY(write, 300, 1500)
{
	quiet();
	vh::Rng& r = c.rng;
	std::vector<Term<double>> ts;
	size_t L = r.range(2, 12);
	for (size_t i = r.range(1, 2); i > 0; --i) ts.push_back(randomTerm<double>(r, L));
	String text = script(r, ts, true);
	c.desc(text);
	c.nontrivial(text);
	World<double> w(checkFor<double>(), text);
	String file = c.scratch() + "/g" + std::to_string(r.range(0, 1000000000)) + ".hd5";
	{
		IoNg::Out out(file, IoNg::ACC_TRUNC);
		w.g->write("geometry", out.serializer());
	}
	IoNg::In in(file);
	SizeType n = 0;
	in.read(n, "geometry/linSize_");
	EXPECT(n == L, "write", "linSize_ is " << n);
	for (size_t q = 0; q < ts.size(); ++q) {
		String p = "geometry/terms_/" + std::to_string(q);
		Matrix<double> m;
		in.read(m, p + "/cachedValues_");
		if (ts[q].kind != "ktwoniffour")
			for (size_t i = 0; i < L * ts[q].orbitals; ++i)
				for (size_t j = 0; j < L * ts[q].orbitals; ++j)
					EXPECT(m(i, j) == value(ts[q], i / ts[q].orbitals, i % ts[q].orbitals, j / ts[q].orbitals, j % ts[q].orbitals), "write", "entry " << i << "," << j << " is " << m(i, j) << " in\n" << text);
		String o;
		in.read(o, p + "/gOptions_");
		EXPECT(o == ts[q].options, "write", "options " << o);
		c.count("lattices written");
	}
	unlink(file.c_str());
}
FAMILY(refused, 3000, 10000)
{
	quiet();
	vh::Rng& r = c.rng;
	size_t L = r.range(2, 16);
	Term<double> t = randomTerm<double>(r, L);
	std::vector<Term<double>> ts(1, t);
	String why;
	auto drop = [](const String& s, const String& label, const String& with = "") {
		String out;
		std::istringstream is(s);
		for (String l; std::getline(is, l);) out += l.substr(0, label.size()) == label ? with : l + "\n";
		return out;
	};
	String text;
	switch (r.range(0, 10)) {
	case 10: {
		text = "TotalNumberOfSites=" + std::to_string(L) + "\nNumberOfTerms=1\nGeometryKind=" + (r.chance(0.5) ? "ktwoniffour" : "Honeycomb") + "\nGeometryOptions=none\nDegreesOfFreedom=2\nSignChange=1\nIsPeriodicY=0\nHoneycombLy=1\n";
		for (int i = 0; i < 4; ++i) text += "Connectors 2 2\n1 2\n3 4\n";
		why = "values per bond";
		break;
	}
	case 0:
		text = drop(script(r, ts, false), "GeometryKind", "GeometryKind=chian\n");
		why = "unknown kind";
		break;
	case 1:
		text = drop(script(r, ts, false), r.chance(0.5) ? "GeometryOptions" : r.chance(0.5) ? "NumberOfTerms" : "TotalNumberOfSites");
		why = "missing label";
		break;
	case 2:
		text = drop(script(r, ts, false), "DegreesOfFreedom") + "DegreesOfFreedom=0\n";
		why = "no degrees of freedom";
		break;
	case 3:
		if (t.general() || t.orbitals > 1) return;
		ts[0].values[r.range(0, t.dirs - 1)].resize(r.range(1, 3) + ts[0].values[0].size() * 0 + t.L * 3, std::vector<double>(1, 1.0));
		text = script(r, ts, false);
		why = "too many connectors";
		break;
	case 4: {
		if (t.general() || t.orbitals > 1 || t.constant) return;
		auto& v = ts[0].values[r.range(0, t.dirs - 1)];
		if (v.size() < 2) return;
		v.pop_back();
		text = script(r, ts, false);
		why = "too few connectors";
		break;
	}
	case 5:
		t = Term<double>();
		t.kind = r.pick(std::vector<String> { "ladder", "ladderx" });
		t.leg = r.chance(0.3) ? 0 : r.range(2, 7);
		if (t.leg && L % t.leg == 0) return;
		text = "TotalNumberOfSites=" + std::to_string(L) + "\nNumberOfTerms=1\nGeometryKind=" + t.kind + "\nGeometryOptions=ConstantValues\nIsPeriodicY=0\nLadderLeg=" + std::to_string(t.leg) + "\nConnectors 1 1\nConnectors 1 1\nConnectors 1 1\nConnectors 1 1\n";
		why = "leg does not divide";
		break;
	case 6:
		text = "TotalNumberOfSites=" + std::to_string(L) + "\nNumberOfTerms=1\nGeometryKind=chain\nGeometryOptions=ConstantValues\nLongChainDistance=" + std::to_string(r.chance(0.3) ? 0 : r.range(L, 2 * L)) + "\nConnectors 1 1\n";
		why = "distance";
		break;
	case 7: {
		size_t b = r.range(1, 5);
		if (L % (1 + b) == 0 && (L / (1 + b)) % 2 == 0) return;
		text = "TotalNumberOfSites=" + std::to_string(L) + "\nNumberOfTerms=1\nGeometryKind=ladderbath\nGeometryOptions=ConstantValues\nLadderLeg=1\nBathSitesPerSite=" + std::to_string(b) + "\nConnectors 1 1\nConnectors 1 1\nConnectors 1 1\n";
		why = "bath sites";
		break;
	}
	case 8: {
		String row = r.pick(std::vector<String> { "0 " + std::to_string(L) + " 1", std::to_string(L + 3) + " 0 1", "0.5 1 1", "0 1.25 1", "-1 0 1", "0 -1 2" });
		text = "TotalNumberOfSites=" + std::to_string(L) + "\nNumberOfTerms=1\nGeometryKind=LongRange\nGeometryOptions=compact\nDegreesOfFreedom=1\nGeometryMaxConnections=0\nConnectors 2 3\n0 1 1\n" + row + "\n";
		why = "compact entry";
		break;
	}
	case 9: {
		size_t rows = r.range(1, L + 3), cols = r.range(1, L + 3);
		if (rows == L && cols >= L) return;
		if (rows > L && rows / L == 1) rows = L, cols = L - 1;
		text = "TotalNumberOfSites=" + std::to_string(L) + "\nNumberOfTerms=1\nGeometryKind=LongRange\nGeometryOptions=none\nDegreesOfFreedom=1\nGeometryMaxConnections=0\nConnectors " + std::to_string(rows) + " " + std::to_string(cols) + "\n";
		for (size_t i = 0; i < rows * cols; ++i) text += "0.5 ";
		text += "\n";
		why = "matrix size";
		break;
	}
	}
	c.desc(why + "\n" + text);
	c.nontrivial(text);
	bool threw = false;
	try {
		World<double> w(checkFor<double>(), text);
	} catch (const std::exception&) {
		threw = true;
	}
	EXPECT(threw, "accepted:" + why, "accepted:\n" << text);
	c.count("refusals checked");
}
