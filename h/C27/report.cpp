#include "ApplicationInfo.h"
#include "Concurrency.h"
#include "DeepCopyOrNot.h"
#include "Io/IoSimple.h"
#include "Io/IoSelector.h"
#include "Limit.h"
#include "LineMarker.h"
#include "MemoryUsage.h"
#include "MicroArchitecture.h"
#include "Optional.h"
#include "Profiling.h"
#include "ProgressIndicator.h"
#include "PsimagLite.h"
#include "RedirectOutput.hh"
#include "vh.h"
#include <fcntl.h>
#include <fstream>
#include <iomanip>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
using namespace PsimagLite;
typedef vh::Ctx Ctx;

static std::string show(const std::string& s)
{
	std::string r;
	for (char ch : s) r += (ch == '\n') ? std::string("\\n") : (ch == '\t') ? std::string("\\t") : std::string(1, ch);
	return r.substr(0, 400);
}
static double now()
{
	timeval t;
	gettimeofday(&t, 0);
	return t.tv_sec + 1e-6 * t.tv_usec;
}
// the origin of the progress clock, and how well it is known
static double origin()
{
	double best = 1e9, o = 0;
	for (int k = 0; k < 2000 && best > 5e-5; ++k) {
		double a = now(), t = ProgressIndicator::time().millis(), b = now();
		if (b - a < best) best = b - a, o = a - t;
	}
	if (best > 5e-4) throw vh::HarnessError("cannot read the clock undisturbed");
	return o;
}
static std::string text(vh::Rng& r, int maxLen)
{
	static const std::string A = "abcXYZ 0123456789.,=:+-[]()%\\\"'/_";
	std::string s;
	int n = r.range(0, maxLen);
	for (int i = 0; i < n; ++i) s += r.pick(A);
	return s;
}
static std::string slurp(const std::string& f, bool* ok = 0)
{
	std::ifstream in(f, std::ios::binary);
	if (ok) *ok = bool(in);
	std::ostringstream o;
	o << in.rdbuf();
	return o.str();
}

// what was reported, in order: a caller, and the text after its time stamp
struct Said {
	std::string caller, what;
	double lo, hi;
};

// checks `got` against the sequence and returns "" or what is wrong
static std::string judge(const std::string& got, const std::vector<Said>& said)
{
	size_t at = 0;
	for (size_t k = 0; k < said.size(); ++k) {
		const Said& s = said[k];
		std::string w = "report " + std::to_string(k) + " of " + std::to_string(said.size()) + ": ";
		std::string head = s.caller + " [";
		if (got.compare(at, head.size(), head)) return w + "expected " + show(head) + " found " + show(got.substr(at, 80));
		at += head.size();
		size_t e = got.find("]: ", at);
		if (e == std::string::npos) return w + "no time stamp in " + show(got.substr(at, 80));
		std::string st = got.substr(at, e - at);
		size_t dot = st.find('.');
		if (dot == std::string::npos || st.size() - dot != 4 || st.find_first_not_of("0123456789.") != std::string::npos) return w + "time stamp [" + st + "]";
		double t = strtod(st.c_str(), 0);
		if (t < s.lo - 0.00051 || t > s.hi + 0.00051)
			return w + "time stamp " + st + " outside [" + std::to_string(s.lo) + "," + std::to_string(s.hi) + "]";
		at = e + 3;
		if (got.compare(at, s.what.size(), s.what)) return w + "expected " + show(s.what) + " found " + show(got.substr(at, s.what.size() + 40));
		at += s.what.size();
	}
	if (at != got.size()) return "after the last report: " + show(got.substr(at));
	return "";
}

struct CoutTo {
	std::streambuf* old;
	CoutTo(std::ostream& o) : old(std::cout.rdbuf(o.rdbuf())) { }
	~CoutTo() { std::cout.rdbuf(old); }
};
struct CerrTo {
	std::streambuf* old;
	CerrTo(std::ostream& o) : old(std::cerr.rdbuf(o.rdbuf())) { }
	~CerrTo() { std::cerr.rdbuf(old); }
};

FAMILY(progress, 3000, 60000)
{
	vh::Rng& r = c.rng;
	if (chdir(c.scratch().c_str())) throw vh::HarnessError("chdir");
	double base = origin();
	int np = r.range(1, 4);
	std::vector<std::unique_ptr<ProgressIndicator>> P;
	std::vector<std::string> name;
	std::vector<int> tid;
	for (int i = 0; i < np; ++i) {
		name.push_back(text(r, 12));
		tid.push_back(r.chance(0.75) ? 0 : r.range(1, 9));
		P.emplace_back(tid[i] ? new ProgressIndicator(name[i], tid[i]) : new ProgressIndicator(name[i]));
	}
	std::ostringstream out, cerr_;
	int prec = r.range(0, 17);
	out.precision(prec);
	int how = r.range(0, 3);
	if (how == 1) out << std::scientific;
	if (how == 2) out << std::fixed;
	if (how == 3) out << std::hex << std::boolalpha << std::left;
	std::ios_base::fmtflags fl = out.flags();
	std::ostringstream outCout;
	std::vector<Said> so, sc, sb;
	OstringStream shared(r.range(1, 15)); // one message stream used again and again
	bool active = false;
	struct Off { // leaves the buffer off for the next case
		bool& active;
		~Off()
		{
			if (!active) return;
			std::ostringstream none;
			CerrTo ce(none);
			ProgressIndicator::updateBuffer(0);
		}
	} off { active };
	int nops = r.dim(1, 14, 200), buffered = 0, reused = 0, silent = 0;
	std::string d = "out prec " + std::to_string(prec) + " format " + std::to_string(how) + "\n", expectErr, fileWanted;
	CoutTo ct(outCout);
	CerrTo ce(cerr_);
	for (int k = 0; k < nops; ++k) {
		int w = r.range(0, np - 1), op = r.range(0, 11);
		std::string t = text(r, r.chance(0.01) ? 4000 : r.chance(0.3) ? 60 : 15);
		d += std::to_string(w) + (tid[w] ? "(thread)" : "") + " op " + std::to_string(op) + " \"" + t + "\"\n";
		c.desc(d);
		bool quiet = tid[w] != 0;
		bool toCout = r.chance(0.2);
		std::ostream& os = toCout ? static_cast<std::ostream&>(std::cout) : out;
		std::vector<Said>& to = toCout ? sc : so;
		double lo = now() - base;
		Said s { name[w], "", lo - 1e-3, 0 };
		if (op < 3) {
			P[w]->printline(t, os);
			s.what = t + "\n";
		} else if (op < 6) {
			shared() << t;
			P[w]->printline(shared, os);
			s.what = t + "\n";
			if (quiet) { // nothing was said: the message stays with its owner
				shared().str("");
			}
			++reused;
		} else if (op < 8) {
			P[w]->print(t, os);
			s.what = t;
		} else if (op < 9) {
			OstringStream own(5);
			double x = r.real(-10, 10);
			own() << t << x;
			char b[64];
			snprintf(b, sizeof b, "%.5g", x);
			P[w]->printline(own, os);
			s.what = t + b + "\n";
		} else if (op < 10) {
			P[w]->printMemoryUsage();
			if (!quiet) {
				std::string g = outCout.str();
				size_t p = g.rfind("Current virtual memory is ");
				unsigned long a = 0, b = 0;
				int used = 0;
				if (p == std::string::npos || sscanf(g.c_str() + p, "Current virtual memory is %lu kB maximum was %lu kB%n", &a, &b, &used) != 2)
					c.fail("progress-memory", "memory report reads: " + show(g));
				if (a == 0 || a > b) c.fail("progress-memory", "memory " + std::to_string(a) + " above its maximum " + std::to_string(b));
				s.what = g.substr(p, used) + "\n";
				s.hi = now() - base + 1e-3;
				sc.push_back(s);
				if (active) sb.push_back(s), ++buffered;
				c.count("memory reports");
				continue;
			}
			continue;
		} else {
			int sig = r.range(1, 20);
			ProgressIndicator::updateBuffer(sig);
			std::string f = "buffer" + std::to_string(getpid()) + ".txt";
			if (active) {
				active = false;
				bool ok = false;
				std::string g = slurp(f, &ok);
				if (!ok) c.fail("progress-buffer", "no file " + f);
				if (g.empty() || g.back() != '\n') c.fail("progress-buffer", "buffer file does not end in a new line: " + show(g));
				g.pop_back();
				std::string e = judge(g, sb);
				if (!e.empty()) c.fail("progress-buffer", "file " + f + ": " + e);
				c.count("buffered reports", sb.size());
				sb.clear();
			} else active = true;
			expectErr += "ProgressIndicator: signal " + std::to_string(sig) + " received. buffer is now " + (active ? "active" : "inactive") + "\n";
			continue;
		}
		s.hi = now() - base + 1e-3;
		if (quiet) ++silent;
		else {
			to.push_back(s);
			if (active) sb.push_back(s), ++buffered;
		}
		if (out.flags() != fl || out.precision() != prec)
			c.fail("progress-format", "the stream's format changed: precision " + std::to_string(out.precision()) + " flags " + std::to_string(out.flags()) + " before " + std::to_string(fl));
	}
	std::string e = judge(out.str(), so);
	if (!e.empty()) c.fail("progress-text", e);
	e = judge(outCout.str(), sc);
	if (!e.empty()) c.fail("progress-text", "standard output: " + e);
	if (cerr_.str() != expectErr) c.fail("progress-signal", "error output " + show(cerr_.str()) + " expected " + show(expectErr));
	c.count("reports judged", so.size() + sc.size());
	c.count("reused message streams", reused);
	c.count("silent reports", silent);
	if (so.size() + sc.size() > 1) c.nontrivial(d);
}

FAMILY(profiling, 1000, 10000)
{
	vh::Rng& r = c.rng;
	std::ostringstream out;
	int n = r.range(1, 4);
	struct One {
		std::unique_ptr<Profiling> p;
		std::string name;
		bool dead;
	};
	double base = origin();
	std::vector<One> v;
	std::vector<Said> said;
	std::string d;
	int k = r.range(1, 12);
	auto say = [&](const std::string& nm, const std::string& what, double lo) { said.push_back(Said { nm, what, lo - 1e-3, now() - base + 1e-3 }); };
	for (int i = 0; i < k; ++i) {
		double lo = now() - base;
		int op = r.range(0, 2);
		if (v.empty() || (op == 0 && int(v.size()) < n)) {
			std::string nm = text(r, 8), ad = text(r, 8);
			bool with = r.chance(0.5);
			d += "new " + nm + (with ? " with " + ad : "") + "\n";
			c.desc(d);
			v.push_back(One { std::unique_ptr<Profiling>(with ? new Profiling(nm, ad, out) : new Profiling(nm, out)), nm, false });
			say(nm, with ? "starting clock " + ad + "\n" : "starting clock\n", lo);
		} else if (op == 1) {
			One& o = r.pick(v);
			std::string m = text(r, 10);
			d += "end " + o.name + " " + m + "\n";
			c.desc(d);
			o.p->end(m);
			if (!o.dead) say(o.name, "stopping clock " + m + "\n", lo);
			o.dead = true;
		} else {
			size_t w = r.range(0, v.size() - 1);
			d += "scope end " + v[w].name + "\n";
			c.desc(d);
			v[w].p.reset();
			if (!v[w].dead) say(v[w].name, "stopping clock \n", lo);
			v.erase(v.begin() + w);
		}
	}
	std::string e = judge(out.str(), said);
	if (!e.empty()) c.fail("profiling", e);
	c.count("clocks", said.size());
	if (said.size() > 2) c.nontrivial(d);
}

FAMILY(status, 2000, 20000)
{
	vh::Rng& r = c.rng;
	std::string dir = c.scratch(), f = dir + "/status";
	std::map<std::string, std::string> want;
	std::string body;
	int n = r.range(0, 9);
	for (int i = 0; i < n; ++i) {
		std::string lab = std::string(1, 'A' + i) + "Lab" + std::to_string(i) + ":";
		int ws = r.range(0, 4);
		std::string pad, val = text(r, r.chance(0.03) ? 3000 : 20);
		if (r.chance(0.02)) val += std::string(r.range(40000, 90000), 'x');
		for (int j = 0; j < ws; ++j) pad += r.chance(0.5) ? '\t' : ' ';
		size_t b = val.find_first_not_of(" \t");
		val = (b == std::string::npos) ? "v" : val.substr(b);
		for (int q; (q = val.find("Lab")) >= 0;) val[q] = 'x';
		want[lab] = val;
		body += lab + pad + val;
		if (i + 1 < n || r.chance(0.7)) body += "\n";
	}
	c.desc(body.substr(0, 2000));
	std::ofstream(f) << body;
	bool missing = r.chance(0.05);
	MemoryUsage m(missing ? dir + "/nothing" : f);
	int rounds = r.range(1, 3);
	for (int q = 0; q < rounds; ++q) {
		for (int i = 0; i < 10; ++i) {
			std::string lab = std::string(1, 'A' + i) + "Lab" + std::to_string(i) + ":";
			std::string got = m.findEntry(lab), exp = (!missing && want.count(lab)) ? want[lab] : "NOT_FOUND";
			if (got != exp) c.fail("status-entry", lab + " gave " + show(got) + " expected " + show(exp));
			c.count("entries compared");
		}
		// the file changes; the report does after an update only
		std::map<std::string, std::string> w2;
		std::string b2;
		for (auto& kv : want) {
			w2[kv.first] = std::to_string(r.range(0, 1000000)) + " kB";
			b2 += kv.first + "\t" + w2[kv.first] + "\n";
		}
		std::ofstream(f) << b2;
		if (r.chance(0.7)) {
			m.update();
			want = w2;
		}
	}
	if (n > 1) c.nontrivial(body);
	// this process
	MemoryUsage self;
	unsigned long peak = strtoul(self.findEntry("VmPeak:").c_str(), 0, 10), size = strtoul(self.findEntry("VmSize:").c_str(), 0, 10);
	if (peak < size || size == 0) c.fail("status-self", "VmPeak " + std::to_string(peak) + " VmSize " + std::to_string(size));
	unsigned long pid = strtoul(self.findEntry("\nPid:").c_str(), 0, 10);
	if (pid != (unsigned long)getpid()) c.fail("status-self", "Pid " + std::to_string(pid));
}

FAMILY(timing, 2000, 20000)
{
	vh::Rng& r = c.rng;
	typedef MemoryUsage::TimeHandle T;
	auto us = [](const T& t) { return (__int128)t.seconds() * 1000000 + t.useconds(); };
	__int128 model = 0;
	T acc(0, 0);
	std::string d;
	int n = r.range(1, 20);
	for (int i = 0; i < n; ++i) {
		T a(r.range(0, r.chance(0.2) ? 4000000000LL : 5), r.range(0, 999999)), b(r.range(0, 5), r.range(0, 999999));
		d += std::to_string(a.seconds()) + "." + std::to_string(a.useconds()) + " - " + std::to_string(b.seconds()) + "." + std::to_string(b.useconds()) + "\n";
		c.desc(d);
		T e = a - b;
		if (us(e) != us(a) - us(b)) c.fail("time-minus", "difference off by " + std::to_string((long)(us(e) - us(a) + us(b))) + " us");
		acc += e;
		model += us(a) - us(b);
		if (us(acc) != model) c.fail("time-add", "sum off by " + std::to_string((long)(us(acc) - model)) + " us");
		double ex = (double)model / 1e6;
		if (std::fabs(acc.millis() - ex) > 1e-9 + 1e-12 * std::fabs(ex)) c.fail("time-seconds", "reads " + std::to_string(acc.millis()) + " expected " + std::to_string(ex));
		c.count("times compared");
	}
	// clocks against the system's
	double t0 = now();
	MemoryUsage m;
	double t1 = now();
	usleep(r.range(0, 3000));
	double t2 = now();
	double e = m.time().millis();
	double t3 = now();
	if (e < t2 - t1 - 1e-5 || e > t3 - t0 + 1e-5) c.fail("time-elapsed", "elapsed " + std::to_string(e) + " outside [" + std::to_string(t2 - t1) + "," + std::to_string(t3 - t0) + "]");
	double p0 = ProgressIndicator::time().millis(), s0 = now();
	usleep(r.range(0, 2000));
	double s1 = now(), p1 = ProgressIndicator::time().millis(), s2 = now();
	if (p1 - p0 < s1 - s0 - 1e-5) c.fail("time-elapsed", "progress clock advanced by " + std::to_string(p1 - p0));
	ApplicationInfo ai("x");
	time_t ta = time(0), tb = ai.unixTime(), tc = time(0);
	(void)tc;
	if (tb < ta - 1 || tb > ta + 2) c.fail("time-unix", "unixTime");
	if (ai.unixTime(true) < 0 || ai.unixTime(true) > 999999) c.fail("time-unix", "microseconds");
	c.count("clocks read");
	c.nontrivial(d);
}

// standard output goes to the file from then on, and nowhere else; what was written before stays where it was
FAMILY(redirect, 500, 6000)
{
	vh::Rng& r = c.rng;
	std::string dir = c.scratch(), f = dir + "/out", std_ = dir + "/std", err_ = dir + "/err";
	bool app = r.chance(0.4), unbuf = r.chance(0.5), bad = r.chance(0.1), abrupt = unbuf && r.chance(0.5), two = r.chance(0.5), none = r.chance(0.1);
	std::string old = r.chance(0.5) ? text(r, 200) + "\n" : "", before, after;
	int nb = r.range(0, 5), na = r.range(0, 60);
	for (int i = 0; i < nb; ++i) before += text(r, 40) + "\n";
	std::vector<std::string> lines;
	for (int i = 0; i < na; ++i) lines.push_back(text(r, 200) + "\n"), after += lines.back();
	unlink(f.c_str());
	if (!old.empty()) std::ofstream(f) << old;
	std::string target = bad ? dir + "/no/such/out" : f;
	c.desc(std::string(app ? "append" : "truncate") + (unbuf ? " unbuffered" : "") + (bad ? " bad" : "") + (abrupt ? " abrupt" : "") + (none ? " not redirected" : "") + " old " + show(old) + " before "
	       + show(before) + " after " + show(after));
	fflush(0);
	pid_t p = fork();
	if (p == 0) {
		int fd = open(std_.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600), fe = open(err_.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
		dup2(fd, 1);
		dup2(fe, 2);
		std::cout << before;
		std::cout.flush();
		if (two) RedirectOutput::setAppName("one", "two");
		else RedirectOutput::setAppName("one");
		RedirectOutput ro;
		if (ro.hasBeenRedirected()) _exit(3);
		try {
			if (!none) RedirectOutput::doIt(target, app ? std::ofstream::app : std::ofstream::out, unbuf);
		} catch (std::exception& e) {
			std::cerr << e.what();
			std::cout << "still here\n";
			std::cout.flush();
			_exit(ro.hasBeenRedirected() ? 4 : 7);
		}
		if (ro.hasBeenRedirected() == none) _exit(5);
		for (auto& l : lines) std::cout << l;
		if (abrupt && !none) _exit(0);
		if (none) std::cout.flush();
		exit(0);
	}
	int st = 0;
	if (waitpid(p, &st, 0) < 0) throw vh::HarnessError("waitpid");
	std::string so = slurp(std_), se = slurp(err_), sf = slurp(f);
	if (!WIFEXITED(st)) c.fail("redirect-end", "died of signal " + std::to_string(WTERMSIG(st)) + ": " + show(se));
	int rc = WEXITSTATUS(st);
	std::string expFile = (app ? old : std::string("")) + after, expOut = before, expErr;
	if (none) {
		expFile = old;
		expOut = before + after;
	} else if (bad) {
		if (rc != 7) c.fail("redirect-bad", "exit status " + std::to_string(rc) + " for a file that cannot be written");
		expFile = old;
		expOut = before + "still here\n";
		if (se.find("one: Could not redirect") == std::string::npos || se.find(target) == std::string::npos) c.fail("redirect-bad", "message " + show(se));
	} else expErr = std::string(two ? "two" : "one") + ": Standard output sent to " + target + "\n";
	if (!(bad && !none) && rc != 0) c.fail("redirect-end", "exit status " + std::to_string(rc) + ": " + show(se));
	if (so != expOut) c.fail("redirect-lost", "standard output has " + show(so) + " expected " + show(expOut));
	if (sf != expFile) c.fail("redirect-lost", "file has " + std::to_string(sf.size()) + " bytes " + show(sf) + " expected " + std::to_string(expFile.size()) + ": " + show(expFile));
	if (!(bad && !none) && se != expErr) c.fail("redirect-note", "error output " + show(se) + " expected " + show(expErr));
	c.count("lines redirected", none || bad ? 0 : na);
	c.count("redirections");
	if (!bad && na) c.nontrivial(c.seed * 1000003 + c.index);
}

FAMILY(markers, 400, 4000)
{
	vh::Rng& r = c.rng;
	std::string f = c.scratch() + "/m.txt";
	int n = r.range(1, 8);
	std::vector<std::string> names;
	std::string d;
	{
		IoSimple::Out out(f);
		for (int i = 0; i < n; ++i) {
			names.push_back("Mark" + std::to_string(r.range(0, 3)));
			LineMarker m(names.back());
			m.save(out);
			if (r.chance(0.5)) out.printline("filler " + text(r, 10));
			d += names.back() + " ";
		}
	}
	c.desc(d);
	IoSimple::In in(f);
	// markers are met in the order in which they were written
	size_t at = 0;
	int reads = r.range(1, 10), found = 0, absent = 0;
	for (int k = 0; k < reads; ++k) {
		std::string nm = r.chance(0.6) && at < names.size() ? names[at] : "Mark" + std::to_string(r.range(0, 4));
		size_t w = at;
		while (w < names.size() && names[w] != nm) ++w;
		bool ok = true;
		try {
			LineMarker m(in, nm);
			std::string g = c.scratch() + "/copy.txt";
			{
				IoSimple::Out o2(g);
				m.save(o2);
			}
			if (slurp(g).find(nm + "=0") == std::string::npos) c.fail("marker-copy", "marker " + nm + " saved again as " + show(slurp(g)));
		} catch (std::exception&) {
			ok = false;
		}
		if (ok != (w < names.size())) c.fail("marker", "marker " + nm + (ok ? " found" : " not found") + " after " + std::to_string(at) + " of " + d);
		if (!ok) {
			++absent;
			break;
		}
		at = w + 1;
		++found;
	}
	c.count("markers found", found);
	c.count("markers absent", absent);
	if (n > 1) c.nontrivial(d);
}

FAMILY(app, 400, 4000)
{
	vh::Rng& r = c.rng;
	std::vector<std::string> args;
	std::string dirs, nm = "prog" + std::to_string(r.range(0, 99));
	for (int i = r.range(0, 3); i > 0; --i) dirs += (r.chance(0.3) ? "/" : "") + text(r, 4) + "/";
	args.push_back(dirs + nm);
	for (int i = r.range(0, 5); i > 0; --i) args.push_back(text(r, 8));
	std::vector<char*> av;
	std::string line = "PsiApp: CmdLine: ";
	for (auto& a : args) av.push_back(&a[0]), line += a + " ";
	av.push_back(0);
	c.desc(line);
	int argc = args.size();
	char** argv = av.data();
	PsiApp app(args[0], &argc, &argv, 1);
	if (app.name() != nm) c.fail("app-name", args[0] + " is named " + app.name());
	std::ostringstream o;
	app.printCmdLine(o);
	if (o.str() != line + "\n") c.fail("app-line", "command line " + show(o.str()) + " expected " + show(line));
	// the machine
	std::string ven, other, l;
	bool have = false;
	std::ifstream ci("/proc/cpuinfo");
	while (std::getline(ci, l))
		if (l.find("vendor_id") != std::string::npos) {
			have = true;
			break;
		}
	if (have) {
		if (l.find("Intel") != std::string::npos) ven = "Intel";
		else if (l.find("AMD") != std::string::npos) ven = "AMD";
		else {
			size_t p = l.find(':');
			ven = p == std::string::npos ? "" : l.substr(p + 1);
			p = ven.find_first_not_of(" \t");
			ven = p == std::string::npos ? "" : ven.substr(p);
		}
	}
	if (MicroArchitecture().vendorId() != ven) c.fail("app-vendor", "vendor " + MicroArchitecture().vendorId() + " expected " + ven);
	std::string comp = r.chance(0.4) ? ven : r.chance(0.5) ? "Intel" : r.chance(0.5) ? "AMD" : "Other";
	std::ostringstream o2;
	app.checkMicroArch(o2, comp);
	std::string exp = "Compiled MicroArchitecture is " + comp + "\nRunning on MicroArchitecture " + ven + "\n";
	bool warn = o2.str().find("WARNING") != std::string::npos;
	if (o2.str().compare(0, exp.size(), exp) || warn != (comp != ven)) c.fail("app-arch", "report " + show(o2.str()));
	// information on the run
	ApplicationInfo ai(nm);
	char host[1025] = "";
	gethostname(host, 1024);
	if (ai.hostname() != host) c.fail("app-info", "hostname " + ai.hostname());
	if (ai.pid() != (unsigned)getpid()) c.fail("app-info", "pid");
	if (ai.runId() != ai.runId() || ai.runId().empty() || ai.runId().find_first_not_of("0123456789") != std::string::npos) c.fail("app-info", "run id " + ai.runId());
	std::ostringstream o3;
	o3 << ai;
	if (o3.str().find("Hostname: " + std::string(host) + "\n") == std::string::npos || o3.str().find("RunID=" + ai.runId() + "\n") == std::string::npos
	    || o3.str().find("SizeType=" + std::to_string(sizeof(SizeType)) + "\n") == std::string::npos)
		c.fail("app-info", "report " + show(o3.str()));
	size_t p = o3.str().find("UnixTimeStart=");
	if (p == std::string::npos || std::labs(atol(o3.str().c_str() + p + 14) - time(0)) > 5) c.fail("app-info", "start time in " + show(o3.str()));
	ai.finalize();
	std::ostringstream o4;
	o4 << ai;
	p = o4.str().find("UnixTimeEnd=");
	if (p == std::string::npos || std::labs(atol(o4.str().c_str() + p + 12) - time(0)) > 5 || o4.str().compare(0, nm.size() + 1, nm + "\n")) c.fail("app-info", "final report " + show(o4.str()));
	std::string var = "VH_" + std::to_string(r.range(0, 99)), val = text(r, 20);
	std::ostringstream dump;
	{
		CoutTo ct(dump);
		ApplicationInfo::setEnv(var, val);
	}
	const char* e = getenv(var.c_str());
	if (!e || val != e) c.fail("app-env", var + " is " + (e ? e : "not set"));
	if (dump.str() != "Set " + var + "=" + val + "\n") c.fail("app-env", "reported " + show(dump.str()));
	c.count("applications");
	c.nontrivial(line);
}

FAMILY(run_record, 100, 1000)
{
	vh::Rng& r = c.rng;
	std::string f = c.scratch() + "/r.h5", nm = "name" + text(r, 12);
	ApplicationInfo ai(nm);
	bool fin = r.chance(0.7);
	c.desc(nm);
	{
		IoSelector::Out out(f, IoSelector::ACC_TRUNC);
		ai.write("Run", out.serializer());
		if (fin) {
			ai.finalize();
			ai.write("Run", out.serializer());
		}
		out.close();
	}
	IoSelector::In in(f);
	String a, b;
	time_t s = 0, t = 0;
	in.read(a, "Run/Name");
	in.read(b, "Run/RunId");
	in.read(s, "Run/UnixTimeStart");
	if (a != nm || b != ai.runId()) c.fail("record", "name " + a + " run " + b);
	if (std::labs(s - time(0)) > 5) c.fail("record", "start " + std::to_string(s));
	bool end = true;
	try {
		in.read(t, "Run/UnixTimeEnd");
	} catch (...) {
		end = false;
	}
	if (end != fin || (end && (t < s || t > time(0) + 1))) c.fail("record", "end " + std::to_string(t));
	c.count("run records");
	c.nontrivial(nm);
}

struct Counted {
	static int alive, copies;
	int v;
	Counted(int x) : v(x) { ++alive; }
	Counted(const Counted& o) : v(o.v) { ++alive, ++copies; }
	~Counted() { --alive; }
};
int Counted::alive = 0;
int Counted::copies = 0;

FAMILY(holders, 500, 5000)
{
	vh::Rng& r = c.rng;
	int x = r.range(0, 1000);
	std::string xs = std::to_string(x);
	Optional<std::string> full(xs), none(0);
	if (!full.nonNull() || none.nonNull()) c.fail("optional", "nonNull");
	if (&full() != &xs) c.fail("optional", "does not refer to its object");
	full() = "other";
	if (xs != "other") c.fail("optional", "not written through");
	Counted::alive = Counted::copies = 0;
	{
		std::vector<std::unique_ptr<Counted>> src;
		bool deep = r.chance(0.5);
		DeepCopyOrNot<Counted> dc(deep);
		int n = r.range(0, 10);
		std::vector<const Counted*> got;
		for (int i = 0; i < n; ++i) {
			src.emplace_back(new Counted(i * 7));
			const Counted& g = dc(*src.back());
			got.push_back(&g);
			if ((&g == src.back().get()) == deep) c.fail("deepcopy", deep ? "not a copy" : "a copy");
		}
		if (Counted::copies != (deep ? n : 0)) c.fail("deepcopy", "copies " + std::to_string(Counted::copies));
		if (deep) for (auto& s : src) s->v = -1;
		for (int i = 0; i < n; ++i)
			if (got[i]->v != i * 7) c.fail("deepcopy", "value changed");
		c.count("holders", n);
		c.nontrivial(uint64_t(n * 2 + deep) * 1000 + x);
	}
	if (Counted::alive) c.fail("deepcopy", std::to_string(Counted::alive) + " copies never destroyed");
}

FAMILY(limits, 100, 600)
{
	vh::Rng& r = c.rng;
	int s = r.range(1000000, 2000000000), h = r.chance(0.3) ? 0 : r.range(1000000, 2000000000);
	c.desc(std::to_string(s) + " " + std::to_string(h));
	rlim_t cur = s, mx = h > s ? h : s;
	fflush(0);
	pid_t p = fork();
	if (p == 0) {
		Limit l;
		if (h) l.memory(s, h);
		else l.memory(s);
		Limit::PairRlimType q = l.memory();
		rlimit k;
		getrlimit(RLIMIT_AS, &k);
		_exit(q.first != cur || q.second != mx ? 1 : k.rlim_cur != cur || k.rlim_max != mx ? 2 : 0);
	}
	int st = 0;
	waitpid(p, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("limit", "memory limit not the one asked for, status " + std::to_string(st));
	c.count("limits set");
	c.nontrivial(uint64_t(s) * 31 + h);
}
