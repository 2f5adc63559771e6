#include "../C15/astref.h"
#include "PsiBase64.h"
#include "PsimagLite.h"
#include "vh.h"
#include <climits>
#include <fstream>
typedef vh::Ctx Ctx;

static String randomText(vh::Rng& r, const VS& parts, int n)
{
	String s;
	for (int i = r.range(0, n); i > 0; --i) s += r.pick(parts);
	return s;
}
static String randomBytes(vh::Rng& r, int n)
{
	String s;
	int kind = r.range(0, 3);
	for (int i = r.range(0, n); i > 0; --i) s += kind == 0 ? char(r.range(0, 255)) : kind == 1 ? char(r.range(32, 126)) : kind == 2 ? char(r.pick(std::vector<int> { 0, 255, 63, 62, 251, 252, 3 })) : char(r.range(0, 3) * 85);
	return s;
}
static String hex(const String& s)
{
	String h;
	char b[4];
	for (unsigned char ch : s.substr(0, 40)) {
		snprintf(b, sizeof b, "%02x", ch);
		h += b;
	}
	return h + (s.size() > 40 ? ".." : "");
}

FAMILY(split, 24000, 360000)
{
	vh::Rng& r = c.rng;
	static const VS parts = { "a", "bc", ",", " ", ";", ",,", "=", "x y", "|", "\n", "\t", "..", "-" };
	String s = r.chance(0.1) ? randomBytes(r, 30) : randomText(r, parts, r.dim(14, 14, 1200)), d = r.pick(VS { " ", ",", ", ", ";=", "", "|", "\n\t ", ".", "abc" });
	c.desc(hex(s) + " | " + hex(d));
	VS want, got, kept;
	String cur;
	for (size_t i = 0; i <= s.size(); ++i)
		if (i == s.size() || d.find(s[i]) != String::npos) {
			if (cur != "") want.push_back(cur);
			cur = "";
		}
		else
			cur += s[i];
	if (r.chance(0.5)) kept = VS { "already", "" };
	got = kept;
	split(got, s, d);
	VS all = kept;
	all.insert(all.end(), want.begin(), want.end());
	EXPECT(got == all, "split", "tokens of " << s << " by [" << d << "] are " << vh::str(got) << " not " << vh::str(all));
	if (d == " ") {
		got.clear();
		split(got, s);
		EXPECT(got == want, "split", "tokens of " << s << " are " << vh::str(got));
	}
	if (want.size() > 1) c.nontrivial(s + "\001" + d);
	c.count("strings split");
}
FAMILY(replace, 24000, 360000)
{
	vh::Rng& r = c.rng;
	static const VS parts = { "a", "b", "aa", "ab", "x", "xyx", "%", "" };
	String s = r.chance(0.1) ? randomBytes(r, 30) : randomText(r, parts, r.dim(14, 14, 1200)), f = randomText(r, parts, 2), t = r.chance(0.3) ? f + r.pick(parts) : r.chance(0.3) ? r.pick(parts) + f : randomText(r, parts, 3);
	c.desc(s + " | " + f + " -> " + t);
	String want, got = s;
	size_t n = 0;
	for (size_t i = 0; i < s.size();)
		if (f != "" && s.compare(i, f.size(), f) == 0) {
			want += t;
			i += f.size();
			++n;
		}
		else
			want += s[i++];
	replaceAll(got, f, t);
	EXPECT(got == want, "replace", s << " with " << f << " replaced by " << t << " is " << got << " not " << want);
	if (n) c.nontrivial(s + "\001" + f + "\001" + t);
	c.count("replacements");
}
FAMILY(names, 18000, 180000)
{
	vh::Rng& r = c.rng;
	static const VS parts = { "a", "file", ".", "/", "txt", "..", "//", "data.x", "-", " " };
	String s = randomText(r, parts, r.dim(7, 7, 600));
	c.desc(s);
	String base, stem = s;
	for (char ch : s)
		if (ch == '/') base = "";
		else
			base += ch;
	for (size_t i = 0; i < s.size(); ++i)
		if (s[i] == '.') stem = s.substr(0, i);
	EXPECT(PsimagLite::basename(s) == base, "basename", "file name of " << s << " is " << PsimagLite::basename(s));
	EXPECT(basenameOf(s) == stem, "stem", s << " without extension is " << basenameOf(s));
	if (s != base || s != stem) c.nontrivial(s);
	c.count("names decomposed");
}

FAMILY(numbers, 30000, 480000)
{
	vh::Rng& r = c.rng;
	static const VS parts = { "1", "23", "0", "9", "-", "+", ".", "e", "E", "5", "e-3", "E+7", "x", " ", "i", "n", "2147483647", "2147483648", "99999999999999999999", "inf", "nan", "0x1" };
	String s = r.chance(0.1) ? randomBytes(r, 6) : randomText(r, parts, 5);
	if (s.find('\0') != String::npos) s = "";
	if (r.chance(0.2)) s = num(r.real(-1, 1) * std::pow(10., r.range(-300, 300)));
	if (r.chance(0.1)) s = std::to_string(int(r.next()));
	c.desc(hex(s) + " " + s);
	static const std::regex digits("[0-9]+"), integer("[+-]?[0-9]+"), real("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?");
	bool id = std::regex_match(s, digits), in = std::regex_match(s, integer), fl = std::regex_match(s, real);
	EXPECT(isAnInteger(s) == id, "isAnInteger", s << " isAnInteger gives " << !id);
	EXPECT(isAfloat(s) == fl, "isAfloat", s << " isAfloat gives " << !fl);
	if (in) {
		size_t dpos = s.find_first_of("0123456789"), nz = s.find_first_not_of('0', dpos);
		size_t sig = nz == String::npos ? 0 : s.size() - nz;
		__int128 v = 0;
		if (sig < 30)
			for (size_t i = dpos; i < s.size(); ++i) v = v * 10 + (s[i] - '0');
		if (s[0] == '-') v = -v;
		if (sig < 30 && v >= INT_MIN && v <= INT_MAX) {
			int got = 0;
			try {
				got = PsimagLite::atoi(s);
			} catch (const std::exception& e) {
				c.fail("atoi:rejected", s + " was refused");
			}
			EXPECT(got == int(v), "atoi", s << " is " << got);
			c.nontrivial("i" + s);
			c.count("integers read");
		}
		else
			EXPECT(vh::throws([&] { (void)PsimagLite::atoi(s); }), "atoi:range", s << " does not fit in an int but was accepted");
	}
	else {
		EXPECT(vh::throws([&] { (void)PsimagLite::atoi(s); }), "atoi:accepted", s << " was accepted as an integer");
		c.count("non-numbers refused");
	}
	if (fl) {
		double got = 0, want = strtod(s.c_str(), nullptr);
		try {
			got = PsimagLite::atof(s);
		} catch (const std::exception& e) {
			c.fail("atof:rejected", s + " was refused");
		}
		EXPECT(got == want, "atof", s << " is " << got << " not " << want);
		c.nontrivial("f" + s);
		c.count("reals read");
	}
	else
		EXPECT(vh::throws([&] { (void)PsimagLite::atof(s); }), "atof:accepted", s << " was accepted as a number");
}
FAMILY(conversions, 18000, 240000)
{
	vh::Rng& r = c.rng;
	// complex text, exactly
	double a = r.chance(0.2) ? r.range(-5, 5) : r.real(-1, 1) * std::pow(10., r.range(-20, 20)), b = r.chance(0.2) ? r.range(-5, 5) : r.real(-1, 1) * std::pow(10., r.range(-20, 20));
	String s;
	Z want(a, b);
	switch (r.range(0, 4)) {
	case 0:
		s = num(a) + (b < 0 || std::signbit(b) ? "" : "+") + num(b) + "i";
		break;
	case 1:
		s = num(a);
		want = a;
		break;
	case 2:
		s = num(b) + "i";
		want = Z(0, b);
		break;
	case 3:
		s = num(b) + "i" + (std::signbit(a) ? "" : "+") + num(a);
		break;
	default:
		s = "(" + num(a) + "," + num(b) + ")";
	}
	c.desc(s);
	try {
		Z got = stringToComplex(s);
		EXPECT(got == want, "complex", s << " is " << got);
	} catch (const std::exception& e) {
		c.fail("complex:rejected", s + " was refused");
	}
	// to text and back: integers exactly, reals to ten digits
	long i = r.chance(0.5) ? r.range(-1000, 1000) : long(r.next());
	unsigned long u = r.next();
	int k = int(r.next());
	EXPECT(ttos(i) == std::to_string(i) && ttos(u) == std::to_string(u) && ttos(k) == std::to_string(k), "ttos", ttos(i) << " " << ttos(u) << " " << ttos(k) << " from " << i << " " << u << " " << k);
	double x = strtod(ttos(a).c_str(), nullptr);
	EXPECT(std::fabs(x - a) <= 1e-9 * std::fabs(a), "ttos", ttos(a) << " from " << a);
	Z z = stringToComplex(ttos(Z(a, b)));
	EXPECT(std::fabs(z.real() - a) <= 1e-9 * std::fabs(a) && std::fabs(z.imag() - b) <= 1e-9 * std::fabs(b), "ttos", ttos(Z(a, b)) << " from " << a << "," << b);
	EXPECT(ttos(String("label")) == "label" && ttos('c') == "c", "ttos", "text");
	// pairs
	std::pair<SizeType, SizeType> p(r.next() >> r.range(0, 63), r.range(0, 99)), q(7, 7);
	std::stringstream ss;
	ss << p;
	EXPECT(ss.str() == std::to_string(p.first) + " " + std::to_string(p.second) + " ", "pair", "pair printed as " << ss.str());
	ss >> q;
	EXPECT(p == q, "pair", "pair " << p.first << " " << p.second << " read back as " << q.first << " " << q.second);
	// integer arithmetic
	SizeType m = r.range(0, 1000), n = r.range(0, 30);
	bool div = n > 0 && m % n == 0;
	try {
		SizeType d = integerDivision(m, n);
		EXPECT(div && d * n == m, "division", m << "/" << n << " is " << d);
	} catch (const std::exception&) {
		EXPECT(!div, "division", m << "/" << n << " was refused");
	}
	SizeType w = r.chance(0.1) ? 0 : r.next() >> r.range(0, 63), bits = log2Integer(w);
	EXPECT((bits == 64 || (w >> bits) == 0) && (bits == 0 || (w >> (bits - 1)) == 1), "bits", w << " has " << bits << " bits");
	c.nontrivial(s);
	c.count("conversions");
}

static String standard64(const String& s)
{
	static const char* tab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	String o;
	for (size_t i = 0; i < s.size(); i += 3) {
		unsigned long v = 0;
		size_t n = std::min<size_t>(3, s.size() - i);
		for (size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)s[i + k] : 0);
		for (size_t k = 0; k < 4; ++k) o += k <= n ? tab[v >> (18 - 6 * k) & 63] : '=';
	}
	return o;
}
FAMILY(base64, 18000, 240000)
{
	vh::Rng& r = c.rng;
	String s = randomBytes(r, r.pick(std::vector<int> { 4, 20, 300, c.thorough ? 20000 : 2000 }));
	c.desc(hex(s));
	String want = standard64(s);
	PsiBase64::Encode e(s), e2(reinterpret_cast<const unsigned char*>(s.data()), s.size());
	EXPECT(e() == want, "encode", hex(s) << " is encoded as " << e() << " not " << want);
	EXPECT(e2() == want, "encode", hex(s) << " is encoded as " << e2() << " not " << want);
	EXPECT(PsiBase64::Decode(want)() == s, "decode", want << " is decoded as " << hex(PsiBase64::Decode(want)()));
	String unpadded = want.substr(0, want.find('='));
	EXPECT(PsiBase64::Decode(unpadded)() == s, "decode", unpadded << " is decoded as " << hex(PsiBase64::Decode(unpadded)()));
	// what follows the padding or a foreign character is no part of the data
	String tail = want + r.pick(VS { "=", "\n", " ", "\n#InputEndsHere\n", "!" }) + r.pick(VS { "", "QUJD", "x" });
	EXPECT(PsiBase64::Decode(tail)() == s, "decode", tail << " is decoded as " << hex(PsiBase64::Decode(tail)()));
	std::ostringstream os, os2, os3;
	os << e;
	EXPECT(os.str() == "#InputStartsHere\n" + want + "\n#InputEndsHere\n", "print", "printed as " << os.str());
	PsiApp::base64encode(os2, s, false);
	EXPECT(os2.str() == want + "\n", "print", "printed as " << os2.str());
	if (r.chance(0.2)) {
		String file = c.scratch() + "/f" + std::to_string(c.index);
		std::ofstream(file.c_str(), std::ios::binary) << s;
		EXPECT(PsiApp::slurp(file) == s, "slurp", "contents of a file of " << s.size() << " bytes");
		PsiApp::echoBase64(os3, file);
		String head = "PsiApp::echoBase64: Echo of " + file + " in base64\n";
		EXPECT(os3.str() == head + want + "\n", "print", "echo is " << os3.str());
		::unlink(file.c_str());
		c.count("files echoed");
	}
	c.nontrivial(s);
	c.count("byte strings encoded");
}
