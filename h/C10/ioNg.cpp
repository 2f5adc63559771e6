#include "doc.h"

FAMILY(roundtrip, 900, 12000)
{
	IoNg::dontPrintDebug();
	std::vector<String> used;
	std::vector<Item> items;
	size_t n = c.rng.dim(1, 14, 150);
	std::vector<String> groups = { "" };
	std::ostringstream d;
	std::vector<String> newGroups;
	for (size_t i = 0; i < n; ++i) {
		String g;
		if (c.rng.chance(0.15)) {
			String base = newGroups.size() && c.rng.chance(0.4) ? newGroups.back() + "/" : "";
			newGroups.push_back(base + randomName(c.rng, used));
		}
		if (newGroups.size() && c.rng.chance(0.4)) g = newGroups[c.rng.range(0, newGroups.size() - 1)] + "/";
		items.push_back(randomItem(c.rng, g + randomName(c.rng, used)));
		d << items.back().kind << ":" << items.back().name << " ";
	}
	c.desc(d.str());
	c.nontrivial(d.str());
	String fn = c.scratch() + "/f.hdf5";
	auto writeAll = [&]() {
		IoNg::Out out(fn, IoNg::ACC_TRUNC);
		for (auto& g : newGroups) out.createGroup(g);
		for (size_t i = 0; i < items.size(); ++i) {
			try {
				items[i].write(out);
			} catch (const H5::Exception& e) {
				throw std::runtime_error("writing " + items[i].kind + " " + items[i].name + ": " + e.getFuncName() + ": " + e.getDetailMsg());
			}
			if (c.rng.chance(0.1)) out.flush();
		}
		if (c.rng.chance(0.5)) out.close();
	};
	bool other = c.rng.chance(0.25);
	if (other) {
		fflush(0);
		pid_t p = fork();
		if (p == 0) {
			int rc = 0;
			try {
				writeAll();
			} catch (const std::exception& e) {
				std::cerr << e.what() << "\n";
				rc = 9;
			} catch (...) {
				rc = 8;
			}
			_exit(rc);
		}
		int st = 0;
		waitpid(p, &st, 0);
		EXPECT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "write:process", "writing process ended with status " << st);
		c.count("files written by another process");
	} else
		writeAll();
	IoNg::In in(fn);
	// in any order, some of them twice, with failing reads in between
	for (size_t k = 0; k < 2 * n; ++k) {
		Item& it = items[k >= n ? c.rng.range(0, n - 1) : n % 7 ? (k * 7 + c.index) % n : k];
		bool ok = false;
		try {
			ok = it.check(in);
		} catch (const H5::Exception& e) {
			c.fail("read:" + it.kind, "cannot read " + it.name + ": " + e.getDetailMsg());
		} catch (const std::exception& e) {
			c.fail("read:" + it.kind, "cannot read " + it.name + ": " + e.what());
		}
		EXPECT(ok, "value:" + it.kind, it.name << " came back different");
		c.count("values read back");
		if (c.rng.chance(0.3)) {
			String missing = it.name + (c.rng.chance(0.5) ? "Z" : "/Z");
			bool t = vh::throws([&]() {
				switch (c.rng.range(0, 5)) {
				case 0: { int x; in.read(x, missing); break; }
				case 1: { std::vector<double> x; in.read(x, missing); break; }
				case 2: { String x; in.read(x, missing); break; }
				case 3: { Matrix<double> x; in.read(x, missing); break; }
				case 4: { std::stack<Obj> x; in.read(x, missing); break; }
				default: { std::vector<std::vector<int>> x; in.read(x, missing); break; }
				}
			});
			EXPECT(t, "missing:accepted", "reading " << missing << " (never written) did not fail");
			c.count("missing names refused");
		}
		if (it.wrong.size() && c.rng.chance(0.5)) {
			size_t w = c.rng.range(0, it.wrong.size() - 1);
			bool t = vh::throws([&]() { it.wrong[w](in); });
			EXPECT(t, "wrongtype:accepted:" + it.kind, it.name << " read as another type (" << w << ") did not fail");
			c.count("wrong types refused");
		}
	}
}
// long and boundary lengths of boolean vectors
FAMILY(booleans, 500, 3000)
{
	IoNg::dontPrintDebug();
	size_t n = c.index < 300 ? c.index : c.rng.range(300, 70000);
	std::vector<bool> v = rvec<bool>(c.rng, n), w(c.rng.range(0, 9), true);
	c.desc("length " + std::to_string(n));
	c.nontrivial(n + 1);
	String fn = c.scratch() + "/b.hdf5";
	{
		IoNg::Out out(fn, IoNg::ACC_TRUNC);
		out.write(v, "v");
	}
	IoNg::In in(fn);
	in.read(w, "v");
	EXPECT(v == w, "booleans", "vector of " << n << " booleans came back different (size " << w.size() << ")");
	c.count("boolean vectors");
}
// files that are not ours
FAMILY(notours, 200, 1000)
{
	IoNg::dontPrintDebug();
	String fn = c.scratch() + "/x.hdf5";
	int k = c.rng.range(0, 3);
	if (k == 0) {
		FILE* f = fopen(fn.c_str(), "w");
		for (int i = c.rng.range(0, 3000); i > 0; --i) fputc(c.rng.range(0, 255), f);
		fclose(f);
	} else if (k == 1) {
		fn += ".absent";
	} else {
		// truncated: cut anywhere
		{
			IoNg::Out out(fn, IoNg::ACC_TRUNC);
			out.write(rvec<double>(c.rng, c.rng.range(1, 500)), "v");
			out.write(5, "i");
		}
		FILE* f = fopen(fn.c_str(), "r+");
		fseek(f, 0, SEEK_END);
		long sz = ftell(f);
		fclose(f);
		if (truncate(fn.c_str(), c.rng.range(0, sz - 1)) != 0) throw vh::HarnessError("truncate");
	}
	c.desc("kind " + std::to_string(k));
	c.nontrivial(c.index + 1);
	bool t = vh::throws([&]() { IoNg::In in(fn); });
	EXPECT(t, "foreign:accepted", "a file that is absent, foreign or truncated (kind " << k << ") was opened");
	c.count("foreign files refused");
}
