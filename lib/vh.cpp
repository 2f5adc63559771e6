#include <cxxabi.h>
#include "vh.h"
#include <algorithm>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh {

struct Family {
	std::string name;
	FamilyFn fn;
	uint64_t q, t;
	int tmo;
};
static std::vector<Family>& families()
{
	static std::vector<Family> f;
	return f;
}
Reg::Reg(const char* name, FamilyFn f, uint64_t q, uint64_t t, int tmo)
{
	families().push_back(Family { name, f, q, t, tmo });
}

static const size_t HS = 1 << 19;
struct Counter { char name[56]; uint64_t n; };
struct Shared {
	volatile uint64_t fam, idx, started, done; // progress
	volatile double t0;
	uint64_t evals, distinct, overflow;
	uint64_t famEvals[256], famNon[256];
	char desc[4096];
	Counter counters[200];
	char samples[48][1200];
	uint32_t nsamples, famSamples[256];
	uint64_t hashes[HS];
};
static Shared* sh;
static std::string outPath, errFile, outFile, scratchRoot;
static int violFd = -1;

static double now()
{
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + 1e-9 * t.tv_nsec;
}
uint64_t hashStr(const std::string& s)
{
	uint64_t h = 1469598103934665603ULL;
	for (unsigned char ch : s) {
		h ^= ch;
		h *= 1099511628211ULL;
	}
	h ^= h >> 29;
	return h ? h : 1;
}
static std::string jesc(const std::string& s)
{
	std::string o;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') {
			o += '\\';
			o += ch;
		} else if (ch == '\n') o += "\\n";
		else if (ch < 32 || ch > 126) {
			char b[8];
			snprintf(b, 8, "\\u%04x", ch);
			o += b;
		} else o += ch;
	}
	return o;
}
static void emit(const std::string& fam, uint64_t idx, const std::string& key, const std::string& msg,
                 const std::string& err)
{
	std::string l = "{\"family\":\"" + jesc(fam) + "\",\"index\":" + std::to_string(idx)
	    + ",\"key\":\"" + jesc(key) + "\",\"msg\":\"" + jesc(msg.substr(0, 4000)) + "\",\"desc\":\""
	    + jesc(std::string(sh->desc)) + "\",\"stderr\":\"" + jesc(err) + "\"}\n";
	if (write(violFd, l.data(), l.size()) < 0) _exit(98);
}
void Ctx::desc(const std::string& s)
{
	size_t n = std::min(s.size(), sizeof(sh->desc) - 1);
	memcpy(sh->desc, s.data(), n);
	sh->desc[n] = 0;
	sample(s.substr(0, 200));
}
void Ctx::fail(const std::string& key, const std::string& msg)
{
	emit(family, index, key, msg, "");
	reported = true;
	throw CaseEnd();
}
void Ctx::nontrivial(uint64_t h)
{
	h ^= hashStr(family);
	if (!h) h = 1;
	++sh->famNon[sh->fam];
	size_t p = h % HS;
	for (size_t k = 0; k < 64; ++k) {
		if (sh->hashes[p] == h) return;
		if (!sh->hashes[p]) {
			sh->hashes[p] = h;
			++sh->distinct;
			return;
		}
		p = (p + 1) % HS;
	}
	++sh->overflow;
}
void Ctx::nontrivial(const std::string& s) { nontrivial(hashStr(s)); }
void Ctx::count(const char* what, uint64_t n)
{
	for (auto& k : sh->counters) {
		if (!k.name[0]) strncpy(k.name, what, sizeof(k.name) - 1);
		if (!strncmp(k.name, what, sizeof(k.name) - 1)) {
			k.n += n;
			return;
		}
	}
}
void Ctx::sample(const std::string& s)
{
	if (sh->famSamples[sh->fam] >= 2 || sh->nsamples >= 48) return;
	++sh->famSamples[sh->fam];
	std::string x = std::string(family) + ": " + s;
	strncpy(sh->samples[sh->nsamples++], x.c_str(), 1199);
}
std::string Ctx::scratch()
{
	mkdir(scratchRoot.c_str(), 0700);
	std::string s = scratchRoot + "/w" + std::to_string(getpid());
	mkdir(s.c_str(), 0700);
	return s;
}
static std::string slurp(const std::string& f, size_t max)
{
	std::ifstream i(f, std::ios::binary);
	std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
	if (s.size() > max) s = s.substr(0, max / 2) + "\n...\n" + s.substr(s.size() - max / 2);
	return s;
}
std::string readStdout()
{
	std::cout.flush();
	fflush(stdout);
	return slurp(outFile, 1 << 24);
}
std::string readStderr()
{
	std::cerr.flush();
	return slurp(errFile, 1 << 24);
}
static void rmTree(const std::string& d)
{
	DIR* dir = opendir(d.c_str());
	if (!dir) return;
	while (dirent* e = readdir(dir)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		std::string p = d + "/" + n;
		struct stat st;
		if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p);
		else unlink(p.c_str());
	}
	closedir(dir);
	rmdir(d.c_str());
}

static bool thoroughTier;
static uint64_t gseed;
static int nshards, shard;

static void runCase(size_t f, uint64_t idx)
{
	Family& F = families()[f];
	sh->desc[0] = 0;
	sh->fam = f;
	sh->idx = idx;
	sh->t0 = now();
	sh->started = sh->started + 1;
	fflush(stdout);
	std::cout.flush();
	if (ftruncate(1, 0) || ftruncate(2, 0)) { }
	lseek(1, 0, SEEK_SET);
	lseek(2, 0, SEEK_SET);
	uint64_t s = hashStr(F.name + "#" + std::to_string(gseed) + "#" + std::to_string(idx));
	Ctx c(s);
	c.thorough = thoroughTier;
	c.index = idx;
	c.family = F.name.c_str();
	try {
		F.fn(c);
	} catch (const CaseEnd&) {
	} catch (const HarnessError& e) {
		fprintf(stderr, "HARNESS-ERROR %s\n", e.what());
		_exit(97);
	} catch (const std::exception& e) {
		if (!c.reported) emit(F.name, idx, "exception", std::string("unexpected exception: ") + e.what(), "");
	} catch (...) {
		if (!c.reported) emit(F.name, idx, "exception", std::string("unexpected exception of type ") + abi::__cxa_current_exception_type()->name(), "");
	}
	++sh->evals;
	++sh->famEvals[f];
	sh->done = sh->done + 1;
}

static std::string signature(const std::string& err, int st)
{
	const char* pats[] = { "heap-buffer-overflow", "stack-buffer-overflow", "global-buffer-overflow",
		"heap-use-after-free", "container-overflow", "stack-use-after-return", "stack-use-after-scope",
		"attempting double-free", "attempting free", "alloc-dealloc-mismatch", "stack-overflow",
		"memcpy-param-overlap", "negative-size-param", "allocation-size-too-big", "out-of-memory",
		"data race", "lock-order-inversion", "heap-use-after-free", "destroy of a locked mutex",
		"SEGV", "ABRT" };
	if (err.find("Assertion") != std::string::npos && err.find("failed") != std::string::npos) return "assert";
	if (err.find("runtime error:") != std::string::npos) return "ubsan";
	for (const char* p : pats)
		if (err.find(p) != std::string::npos) {
			std::string s = p;
			std::replace(s.begin(), s.end(), ' ', '-');
			return s;
		}
	if (err.find("terminate called") != std::string::npos) return "terminate";
	if (WIFSIGNALED(st)) return "signal" + std::to_string(WTERMSIG(st));
	if (WIFEXITED(st)) return "exit" + std::to_string(WEXITSTATUS(st));
	return "unknown";
}

static void childSetup()
{
	int fd = open(errFile.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
	dup2(fd, 2);
	int fo = open(outFile.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
	dup2(fo, 1);
	int in = open("/dev/null", O_RDONLY);
	dup2(in, 0);
	setpgid(0, 0);
}

static long resident()
{
	long total = 0, res = 0;
	FILE* f = fopen("/proc/self/statm", "r");
	if (!f) return 0;
	if (fscanf(f, "%ld %ld", &total, &res) != 2) res = 0;
	fclose(f);
	return res * sysconf(_SC_PAGESIZE);
}

// Runs cases from (f,idx) on in a child; returns status; progress in sh
static int superviseFrom(const std::vector<std::pair<size_t, uint64_t>>& cases, size_t from, size_t to,
                         double tmoScale, bool& hung)
{
	hung = false;
	sh->done = 0;
	sh->started = 0;
	sh->t0 = now();
	pid_t pid = fork();
	if (pid == 0) {
		childSetup();
		for (size_t k = from; k < to; ++k) {
			runCase(cases[k].first, cases[k].second);
			// a sanitizer's allocator does not always give freed memory back: go on in a new process
			if ((k - from) % 64 == 63 && k + 1 < to && resident() > (1536L << 20)) _exit(96);
		}
		fflush(stdout);
		_exit(0);
	}
	int st = 0;
	useconds_t nap = 500;
	while (true) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		usleep(nap);
		if (nap < 20000) nap *= 2;
		double t0 = sh->t0;
		size_t cur = from + sh->done;
		if (cur >= cases.size()) cur = cases.size() - 1;
		double lim = families()[cases[cur].first].tmo * tmoScale;
		if (now() - t0 > lim) {
			kill(-pid, SIGKILL);
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			hung = true;
			break;
		}
	}
	kill(-pid, SIGKILL);
	rmTree(scratchRoot + "/w" + std::to_string(pid));
	return st;
}

int mainImpl(int argc, char** argv)
{
	std::string only;
	double scale = 1;
	bool list = false;
	nshards = 1;
	shard = 0;
	gseed = 1;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--tier") thoroughTier = (val() == "thorough");
		else if (a == "--seed") gseed = strtoull(val().c_str(), 0, 10);
		else if (a == "--shard") shard = atoi(val().c_str());
		else if (a == "--nshards") nshards = atoi(val().c_str());
		else if (a == "--out") outPath = val();
		else if (a == "--only") only = val();
		else if (a == "--scale") scale = atof(val().c_str());
		else if (a == "--list") list = true;
		else {
			fprintf(stderr, "bad option %s\n", a.c_str());
			return 2;
		}
	}
	std::stable_sort(families().begin(), families().end(),
	                 [](const Family& a, const Family& b) { return a.name < b.name; });
	if (families().size() > 256) return 2;
	if (list) {
		for (auto& f : families())
			printf("%s %lu %lu\n", f.name.c_str(), (unsigned long)f.q, (unsigned long)f.t);
		return 0;
	}
	if (outPath.empty()) outPath = "/tmp/vh." + std::to_string(getpid());
	errFile = outPath + ".err";
	outFile = outPath + ".stdout";
	scratchRoot = outPath + ".scratch";
	mkdir(scratchRoot.c_str(), 0700);
	violFd = open((outPath + ".viol").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
	sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<std::pair<size_t, uint64_t>> cases;
	std::string onlyFam;
	int64_t onlyIdx = -1;
	if (!only.empty()) {
		size_t p = only.find(':');
		onlyFam = only.substr(0, p);
		if (p != std::string::npos) onlyIdx = atoll(only.c_str() + p + 1);
	}
	uint64_t rot = 0;
	for (size_t f = 0; f < families().size(); ++f) {
		if (!onlyFam.empty() && families()[f].name != onlyFam) continue;
		uint64_t n = thoroughTier ? families()[f].t : families()[f].q;
		if (n > 1) n = std::max<uint64_t>(1, n * scale);
		for (uint64_t i = 0; i < n; ++i) {
			if (onlyIdx >= 0 && (int64_t)i != onlyIdx) continue;
			if (onlyIdx < 0 && (int)((i + rot) % nshards) != shard) continue;
			cases.push_back({ f, i });
		}
		rot += n;
	}
	size_t k = 0;
	int harnessErr = 0;
	int hangs = 0;
	std::vector<int> crashes(families().size(), 0);
	while (k < cases.size()) {
		// skip families with too many crashes
		if (crashes[cases[k].first] >= 3) {
			++k;
			continue;
		}
		// run to the end of all remaining cases; a child handles everything until it dies
		size_t to = k;
		while (to < cases.size() && to - k < 200000 && crashes[cases[to].first] < 3) ++to;
		bool hung;
		int st = superviseFrom(cases, k, to, 1.0, hung);
		size_t bad = k + sh->done;
		if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && bad == to) {
			k = to;
			continue;
		}
		if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 96 && bad > k && bad < to) {
			k = bad;
			continue;
		}
		if (!hung && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && bad < to) { // ended from outside, for memory: does it happen again?
			st = superviseFrom(cases, bad, bad + 1, 1.0, hung);
			if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done == 1) {
				k = bad + 1;
				continue;
			}
		}
		if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 97) {
			std::string e = slurp(errFile, 3000);
			fprintf(stderr, "%s[%lu]: %s\n", families()[cases[bad].first].name.c_str(),
			        (unsigned long)cases[bad].second, e.c_str());
			harnessErr = 1;
			k = bad + 1;
			++crashes[cases[bad].first];
			continue;
		}
		if (bad >= to) { // died between cases
			k = to;
			continue;
		}
		std::string err = slurp(errFile, 6000);
		std::string fam = families()[cases[bad].first].name;
		uint64_t idx = cases[bad].second;
		if (hung) {
			bool hung2;
			superviseFrom(cases, bad, bad + 1, 1.5, hung2);
			if (hung2) { // waiting for more of them takes too long
				emit(fam, idx, "hang", "no result in time, twice", slurp(errFile, 3000));
				crashes[cases[bad].first] = 3;
				if (++hangs >= 2) break;
			}
			++sh->evals;
		} else {
			std::string sig = signature(err, st);
			emit(fam, idx, "crash:" + sig, "process died: " + sig, err);
			++crashes[cases[bad].first];
			++sh->evals;
		}
		k = bad + 1;
	}
	// report
	std::ofstream o(outPath + ".json");
	o << "{\"evaluations\":" << sh->evals << ",\"distinct\":" << sh->distinct << ",\"overflow\":" << sh->overflow
	  << ",\"harness_error\":" << harnessErr << ",\n\"families\":{";
	bool first = true;
	for (size_t f = 0; f < families().size(); ++f) {
		if (!sh->famEvals[f]) continue;
		o << (first ? "" : ",") << "\"" << families()[f].name << "\":[" << sh->famEvals[f] << "," << sh->famNon[f]
		  << "]";
		first = false;
	}
	o << "},\n\"counters\":{";
	first = true;
	for (auto& ct : sh->counters) {
		if (!ct.name[0]) break;
		o << (first ? "" : ",") << "\"" << jesc(ct.name) << "\":" << ct.n;
		first = false;
	}
	o << "},\n\"samples\":[";
	for (uint32_t i = 0; i < sh->nsamples; ++i) o << (i ? "," : "") << "\"" << jesc(sh->samples[i]) << "\"";
	o << "]}\n";
	o.close();
	std::ofstream h(outPath + ".hash", std::ios::binary);
	for (size_t i = 0; i < HS; ++i)
		if (sh->hashes[i]) h.write((char*)&sh->hashes[i], 8);
	h.close();
	rmTree(scratchRoot);
	if (!only.empty()) {
		std::cout << slurp(outPath + ".viol", 100000);
	}
	unlink(errFile.c_str());
	unlink(outFile.c_str());
	return harnessErr ? 2 : 0;
}
} // namespace vh

int main(int argc, char** argv) { return vh::mainImpl(argc, argv); }
