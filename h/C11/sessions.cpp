#include "../C10/doc.h"
#include <map>
#include <memory>
#include <sys/mman.h>
extern volatile long crashAt;
extern volatile double crashTear;
extern volatile long writesSeen;

// A history is a list of operations, fixed in advance, so that it can be replayed and cut anywhere
struct Op {
	enum Kind { OPEN, WRITE, AGAIN, OVERWRITE, FLUSH, CLOSE, BADOPEN } kind;
	IoNg::OpenMode mode;
	bool reuse;   // open with the object that was open before
	bool destroy; // close by destroying the object
	bool twice;   // close, then close again and flush
	size_t item;  // index in versions
};
struct History {
	std::vector<Item> versions;
	std::vector<Op> ops;
	String text;
};
typedef std::map<String, std::vector<size_t>> State; // name -> versions its value may be

static void put(History& h, Op::Kind k, size_t item = 0)
{
	Op o;
	o.kind = k, o.mode = IoNg::ACC_RDW, o.reuse = o.destroy = o.twice = false, o.item = item;
	h.ops.push_back(o);
}
static bool plainVector(const String& k) { return k.substr(0, 7) == "vector " && (k.substr(7) == "int" || k.substr(7) == "size" || k.substr(7) == "float" || k.substr(7) == "double" || k.substr(7) == "complex" || k.substr(7) == "complex float" || k.substr(7) == "char"); }
static History randomHistory(vh::Rng& r, size_t nops, bool allowTrunc)
{
	History h;
	std::vector<String> used;
	std::map<String, size_t> now;
	bool open = false, exists = false, had = false;
	for (size_t i = 0; i < nops; ++i) {
		if (!open) {
			put(h, Op::OPEN);
			Op& o = h.ops.back();
			o.mode = !exists ? (r.chance(0.3) ? IoNg::ACC_EXCL : IoNg::ACC_TRUNC) : (allowTrunc && r.chance(0.12)) ? IoNg::ACC_TRUNC : IoNg::ACC_RDW;
			o.reuse = had && r.chance(0.4);
			if (o.mode != IoNg::ACC_RDW) now.clear();
			exists = open = had = true;
			continue;
		}
		double x = r.unit();
		if (x < 0.45 || now.empty()) {
			// sometimes a name that an earlier file of this history had
			String name = (used.size() && r.chance(0.15)) ? r.pick(used) : randomName(r, used);
			if (now.count(name)) continue;
			h.versions.push_back(randomItem(r, name));
			now[name] = h.versions.size() - 1;
			put(h, Op::WRITE, h.versions.size() - 1);
		} else if (x < 0.55) {
			auto it = now.begin();
			std::advance(it, r.range(0, now.size() - 1));
			Item& old = h.versions[it->second];
			h.versions.push_back((old.another && r.chance(0.7)) ? old.another(r) : randomItem(r, old.name));
			put(h, Op::AGAIN, h.versions.size() - 1);
		} else if (x < 0.83) {
			auto it = now.begin();
			std::advance(it, r.range(0, now.size() - 1));
			Item& old = h.versions[it->second];
			if (!old.overwrite || !old.another) continue;
			Item b = old.another(r);
			if (plainVector(old.kind) && r.chance(0.3)) { // as another kind of vector
				for (;;) {
					b = randomItem(r, old.name);
					if (plainVector(b.kind)) break;
				}
			}
			h.versions.push_back(b);
			it->second = h.versions.size() - 1;
			put(h, Op::OVERWRITE, h.versions.size() - 1);
		} else if (x < 0.91) {
			put(h, Op::FLUSH);
		} else if (x < 0.98) {
			put(h, Op::CLOSE);
			Op& o = h.ops.back();
			o.destroy = r.chance(0.4);
			o.twice = !o.destroy && r.chance(0.2);
			open = false;
		} else
			put(h, Op::BADOPEN);
	}
	if (open) put(h, Op::CLOSE);
	std::ostringstream os;
	for (auto& o : h.ops) {
		const char* n[] = { "open", "write", "again", "overwrite", "flush", "close", "badopen" };
		os << n[o.kind];
		if (o.kind == Op::OPEN) os << o.mode << (o.reuse ? "r" : "");
		if (o.kind == Op::WRITE || o.kind == Op::AGAIN || o.kind == Op::OVERWRITE) os << "(" << h.versions[o.item].name << "," << h.versions[o.item].kind << ")";
		os << " ";
	}
	h.text = os.str();
	return h;
}
struct Player {
	History& h;
	String fn;
	std::unique_ptr<IoNg::Out> out;
	Player(History& h_, String f) : h(h_), fn(f) { }
	// returns an error, or nothing
	String step(const Op& o)
	{
		try {
			return step0(o);
		} catch (const H5::Exception& e) {
			return "operation failed: " + e.getDetailMsg();
		}
	}
	String step0(const Op& o)
	{
		switch (o.kind) {
		case Op::OPEN:
			if (o.reuse && out) out->open(fn, o.mode);
			else {
				out.reset();
				out.reset(new IoNg::Out(fn, o.mode));
			}
			break;
		case Op::WRITE: h.versions[o.item].write(*out); break;
		case Op::AGAIN: {
			try {
				h.versions[o.item].write(*out);
			} catch (...) { }
			break;
		}
		case Op::OVERWRITE: h.versions[o.item].overwrite(*out); break;
		case Op::FLUSH: out->flush(); break;
		case Op::CLOSE:
			if (o.destroy) out.reset();
			else {
				out->close();
				if (o.twice) out->flush(), out->close();
			}
			break;
		case Op::BADOPEN:
			if (!vh::throws([&]() { IoNg::Out x(fn, IoNg::ACC_EXCL); })) return "a file that exists was opened exclusively";
			if (!vh::throws([&]() { out->open(fn, IoNg::ACC_TRUNC); })) return "an open object was opened again";
			break;
		}
		return "";
	}
};
static void checkFile(Ctx& c, History& h, const State& st, String fn, const char* when)
{
	IoNg::In in(fn);
	for (auto& p : st) {
		Item& it = h.versions[p.second[0]];
		bool ok = false;
		try {
			ok = it.check(in);
		} catch (const H5::Exception& e) {
			c.fail("lost:" + it.kind, String(when) + ": cannot read " + it.name + ": " + e.getDetailMsg());
		} catch (const std::exception& e) {
			c.fail("lost:" + it.kind, String(when) + ": cannot read " + it.name + ": " + e.what());
		}
		EXPECT(ok, "value:" + it.kind, when << ": " << it.name << " is not the value last written");
		c.count("values read back");
	}
}
FAMILY(sessions, 700, 8000)
{
	IoNg::dontPrintDebug();
	History h = randomHistory(c.rng, c.rng.range(5, 60), true);
	c.desc(h.text);
	c.nontrivial(h.text);
	String fn = c.scratch() + "/s" + ttos(c.index) + ".hdf5";
	unlink(fn.c_str());
	Player p(h, fn);
	State st;
	std::vector<String> gone;
	for (size_t i = 0; i < h.ops.size(); ++i) {
		const Op& o = h.ops[i];
		String err = p.step(o);
		EXPECT(err == "", "open", err);
		c.count("operations");
		if (o.kind == Op::OPEN && o.mode != IoNg::ACC_RDW) {
			for (auto& x : st) gone.push_back(x.first);
			st.clear();
		}
		if (o.kind == Op::WRITE || o.kind == Op::OVERWRITE) st[h.versions[o.item].name] = { o.item };
		if (o.kind == Op::OVERWRITE) c.count("overwrites");
		if (o.kind == Op::AGAIN) c.count("writes of a name that exists");
		if (o.kind == Op::CLOSE) {
			if (!o.destroy || !p.out) expectNoHandles(c, h.text.c_str());
			checkFile(c, h, st, fn, "after closing");
			expectNoHandles(c, "after reading back");
			IoNg::In in(fn);
			for (auto& g : gone) {
				if (st.count(g)) continue;
				int x;
				std::vector<double> v;
				EXPECT(vh::throws([&]() { in.read(x, g); }) && vh::throws([&]() { in.read(v, g); }), "survivor", g << " survived the start of a new session");
				c.count("truncated names gone");
			}
		}
	}
}
// what the file says after its writer died
static void judge(Ctx& c, History& h, String fn, size_t done, bool inOp, long at, double tear)
{
	// done: operations completed; operation `done` was in progress
	State flushed, cur;
	State fresh; // later values, of any name
	bool any = false; // was anything flushed in this file?
	for (size_t i = 0; i < done + (inOp ? 1 : 0) && i < h.ops.size(); ++i) {
		const Op& o = h.ops[i];
		bool partial = i == done;
		if (o.kind == Op::OPEN && o.mode != IoNg::ACC_RDW) flushed.clear(), cur.clear(), fresh.clear(), any = false;
		if (o.kind == Op::WRITE || o.kind == Op::OVERWRITE) {
			String n = h.versions[o.item].name;
			cur[n] = { o.item };
			fresh[n].push_back(o.item);
		}
		if ((o.kind == Op::FLUSH || o.kind == Op::CLOSE) && !partial) {
			flushed = cur;
			fresh.clear();
			any = true;
		}
	}
	std::ostringstream os;
	os << "after dying in operation " << done << ", write " << at << " (part " << tear << "): ";
	// HDF5 itself may loop over a half-written heap: that is loud, and not ours
	fflush(0);
	pid_t p = fork();
	if (p == 0) {
		alarm(4);
		try {
			IoNg::In x(fn);
		} catch (...) {
		}
		_exit(0);
	}
	int status = 0;
	waitpid(p, &status, 0);
	if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) {
		c.count("interrupted files HDF5 does not return from");
		return;
	}
	std::unique_ptr<IoNg::In> in;
	try {
		in.reset(new IoNg::In(fn));
	} catch (...) {
	}
	if (!in) {
		c.count("interrupted files rejected");
		std::unique_ptr<IoNg::Out> o;
		try {
			o.reset(new IoNg::Out(fn, IoNg::ACC_RDW));
		} catch (...) {
		}
		EXPECT(!o, "append:rejected", os.str() << "a file rejected for reading was opened for appending");
		return;
	}
	c.count("interrupted files accepted");
	if (any) c.count("interrupted files accepted with flushed values");
	std::vector<String> names;
	for (auto& v : h.versions) names.push_back(v.name);
	for (auto& name : names) {
		std::vector<size_t> may;
		bool must = flushed.count(name);
		if (must) may = flushed[name];
		if (fresh.count(name)) may.insert(may.end(), fresh[name].begin(), fresh[name].end());
		bool read = false, good = false;
		for (size_t v : may) {
			try {
				good = good || h.versions[v].check(*in);
				read = true;
			} catch (...) {
			}
		}
		String kind = may.size() ? h.versions[may[0]].kind : String("none");
		EXPECT(!must || read, "crash:lost:" + kind, os.str() << "the flushed value of " << name << " cannot be read");
		EXPECT(!read || good, "crash:partial:" + kind, os.str() << name << " is none of the values written");
		if (must) c.count("flushed values read after a crash");
		else if (read) c.count("unflushed values complete after a crash");
	}
}
static void crashes(Ctx& c, History& h, int points, long lo)
{
	struct Shared { volatile long done, inOp, writes; };
	Shared* sh = static_cast<Shared*>(mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (sh == MAP_FAILED) throw vh::HarnessError("mmap");
	String dir = c.scratch();
	long total = 0;
	for (int k = -1; k < points; ++k) {
		long at = -1;
		double tear = 0;
		if (k >= 0) {
			if (total <= lo) break;
			at = (points >= total - lo) ? lo + k : c.rng.range(lo, total - 1);
			if (at >= total) break;
			if (c.rng.chance(0.4)) tear = c.rng.unit();
		}
		String fn = dir + "/c" + ttos(k + 1) + ".hdf5";
		sh->done = sh->inOp = sh->writes = 0;
		fflush(0);
		pid_t p = fork();
		if (p == 0) {
			int rc = 0;
			writesSeen = 0, crashAt = at, crashTear = tear;
			try {
				Player pl(h, fn);
				for (size_t i = 0; i < h.ops.size(); ++i) {
					sh->inOp = 1;
					pl.step(h.ops[i]);
					sh->inOp = 0;
					sh->done = i + 1;
					sh->writes = writesSeen;
				}
			} catch (...) {
				rc = 9;
			}
			_exit(rc);
		}
		int st = 0;
		waitpid(p, &st, 0);
		if (k < 0) {
			EXPECT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "history", "the history failed without any crash: status " << st);
			total = sh->writes;
		} else {
			bool crashed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
			if (!crashed) throw vh::HarnessError("crash point not reached, status " + std::to_string(st));
			c.count("crash points");
			judge(c, h, fn, sh->done, sh->inOp, at, tear);
		}
		unlink(fn.c_str());
	}
	munmap(sh, 4096);
}
FAMILY(crash, 110, 1200)
{
	IoNg::dontPrintDebug();
	History h = randomHistory(c.rng, c.rng.range(5, 40), false);
	// the interesting part is what follows a flush
	c.desc(h.text);
	c.nontrivial(h.text);
	crashes(c, h, c.thorough ? 60 : 30, 0);
}
// many values after a flush, so that the file's own bookkeeping does not fit in memory
FAMILY_T(crashlarge, 4, 16, 300)
{
	IoNg::dontPrintDebug();
	History h;
	std::vector<String> used;
	put(h, Op::OPEN);
	h.ops.back().mode = IoNg::ACC_TRUNC;
	for (int i = 0; i < 30; ++i) {
		h.versions.push_back(vecItem<double>(c.rng, "vector double", "f" + ttos(i)));
		put(h, Op::WRITE, h.versions.size() - 1);
	}
	put(h, Op::FLUSH);
	size_t n = c.index % 2 ? 6000 : 2500;
	for (size_t i = 0; i < n; ++i) {
		h.versions.push_back(scalarItem<double>(c.rng, "double", (c.index & 2 ? "a" : "z") + ttos(i)));
		put(h, Op::WRITE, h.versions.size() - 1);
	}
	put(h, Op::CLOSE);
	c.desc("30 vectors, flush, " + ttos(n) + " numbers");
	c.nontrivial(c.index + 1);
	crashes(c, h, 6, 90);
}
