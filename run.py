#!/usr/bin/env python3
"""run.py <ID> [quick|thorough]  - build the harness(es) of one property from /repo's
current tree, run them, judge, write evidence/<ID>.json.  Exit 0 / 1 (+VIOLATION) / 2 error."""
import sys, os, json, subprocess, time, glob, shutil, struct, importlib, re
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
sys.path.insert(0, V)
sys.path.insert(0, V + "/lib")
BASEDEF = "-DHDF_NO_NAMESPACE -DNO_STATIC_CAST -DOLD_HEADER_FILENAME -DUSE_BOOST -DUSE_PTHREADS"
INC = f"-I{REPO}/src -I{REPO}/src/Io -I{REPO}/src/Ainur -I{REPO} -isystem /usr/include/hdf5/serial -I{V}/lib"
HD = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
LIBS = f"-Wl,-rpath,{HD} {HD}/libhdf5_cpp.so {HD}/libhdf5.so -llapack -lblas -lpthread -lm"
WARN = "-w -fmax-errors=5"
UB = "-fsanitize=undefined -fno-sanitize=null,nonnull-attribute,pointer-overflow,vptr -fno-sanitize-recover=all"
FLAV = {
    "asan": f"-O1 -g1 -fno-omit-frame-pointer -fsanitize=address {UB} -D_GLIBCXX_SANITIZE_VECTOR=1",
    "asan0": f"-O0 -g1 -fno-omit-frame-pointer -fsanitize=address {UB} -D_GLIBCXX_SANITIZE_VECTOR=1",
    "asanfull": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -D_GLIBCXX_SANITIZE_VECTOR=1",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O2 -g1",
}
SANENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:halt_on_error=1:detect_stack_use_after_return=0:"
                    "max_allocation_size_mb=6000:handle_abort=0:allocator_may_return_null=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": f"halt_on_error=1:exitcode=66:second_deadlock_stack=1:suppressions={V}/lib/tsan.supp",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "LC_ALL": "C",
}
LIBSRC = ["MersenneTwister", "Matrix", "Mpi", "Concurrency", "ProgressIndicator", "MemResolv", "PsimagLite",
          "PsiBase64", "SpecialFunctions", "Io/TypeToH5", "TridiagonalMatrix", "PredicateSimple",
          "Ainur/AinurSpirit1", "Ainur/AinurConvert1"]


class HarnessFail(Exception):
    pass


def die(msg):
    print("HARNESS-ERROR: " + str(msg), file=sys.stderr)
    sys.exit(2)


def workdir(pid):
    base = os.environ.get("VH_BUILD", V + "/.build")
    d = f"{base}/{pid}"
    os.makedirs(d, exist_ok=True)
    return d


def ninja_build(d, targets):
    """targets: list of dict(name, flavor, srcs(list of abs paths), repo(list), libs, defs)"""
    out = ["ninja_required_version = 1.5",
           "rule cxx\n command = g++ $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
           "rule link\n command = g++ $flags $in -o $out $libs"]
    done = set()
    exes = []
    for t in targets:
        objs = []
        fl = f"{FLAV[t['flavor']]} {WARN} {BASEDEF} {INC} {t.get('defs','')}"
        tag = t["flavor"] + t.get("tag", "")
        for s in t["srcs"]:
            o = f"{d}/{tag}/{os.path.basename(s)}.o"
            if o not in done:
                out.append(f"build {o}: cxx {s}\n flags = {fl}")
                done.add(o)
            objs.append(o)
        exe = f"{d}/{t['name']}"
        out.append(f"build {exe}: link {' '.join(objs)}\n flags = {FLAV[t['flavor']]}\n libs = {t.get('libs','')} {LIBS}")
        exes.append(exe)
    with open(f"{d}/build.ninja", "w") as f:
        f.write("\n".join(out) + "\n")
    r = subprocess.run(["ninja", "-f", f"{d}/build.ninja"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise HarnessFail("build failed:\n" + r.stdout[-6000:])
    return exes


def target_of(pid, run):
    srcs = []
    for s in run["srcs"]:
        g = sorted(glob.glob(f"{V}/h/{s}"))
        if not g:
            raise HarnessFail("no source " + s)
        srcs += g
    srcs.append(f"{V}/lib/vh.cpp")
    for s in run.get("repo", []):
        srcs.append(f"{REPO}/src/{s}.cpp")
    return dict(name=run["name"], flavor=run.get("flavor", "asan"), srcs=srcs, libs=run.get("libs", ""),
                defs=run.get("defs", ""), tag=run.get("tag", ""))


def run_harness(d, exe, run, tier, seed, extra=()):
    n = run.get("shards", 8)
    procs = []
    env = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
        env.pop(k, None)
    env.update(SANENV)
    for k, v in run.get("env", {}).items():
        env[k] = SANENV[k] + ":" + v if k.endswith("SAN_OPTIONS") else v
    for i in range(n):
        out = f"{d}/out.{run['name']}.{i}"
        for suf in (".json", ".viol", ".hash"):
            if os.path.exists(out + suf):
                os.unlink(out + suf)
        cmd = [exe, "--tier", tier, "--seed", str(seed), "--shard", str(i), "--nshards", str(n), "--out", out] + list(extra)
        procs.append((out, subprocess.Popen(cmd, env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=open(out + ".log", "w"))))
    res = dict(evaluations=0, families={}, counters={}, samples=[], viol=[], hashes=set(), overflow=0)
    for out, p in procs:
        rc = p.wait()
        if rc != 0 or not os.path.exists(out + ".json"):
            raise HarnessFail(f"{run['name']} rc={rc}: " + open(out + ".log", errors="replace").read()[-3000:])
        j = json.load(open(out + ".json"))
        res["evaluations"] += j["evaluations"]
        res["overflow"] += j["overflow"]
        for k, (a, b) in j["families"].items():
            x = res["families"].setdefault(k, [0, 0])
            x[0] += a
            x[1] += b
        for k, a in j["counters"].items():
            res["counters"][k] = res["counters"].get(k, 0) + a
        res["samples"] += j["samples"]
        h = open(out + ".hash", "rb").read()
        res["hashes"].update(struct.unpack(f"<{len(h)//8}Q", h))
        for l in open(out + ".viol", errors="replace"):
            v = json.loads(l)
            v["run"] = run["name"]
            v["replay"] = f"{exe} --tier {tier} --seed {seed} --only {v['family']}:{v['index']}"
            res["viol"].append(v)
    return res


def load_known(pid):
    known = []
    p = f"{V}/known_findings.json"
    if os.path.exists(p):
        for e in json.load(open(p))["findings"]:
            if e["property"] == pid:
                known.append(e)
    return known


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("bad tier")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    import checks
    C = checks.CHECKS[pid]
    d = workdir(pid)
    only_run = os.environ.get("VH_RUN")
    total = dict(evaluations=0, families={}, counters={}, samples=[], viol=[], hashes=set(), overflow=0)
    try:
        runs = [r for r in C.get("runs", []) if not only_run or r["name"] == only_run]
        exes = ninja_build(d, [target_of(pid, r) for r in runs]) if runs else []
        tb = time.time() - t0
        results = []
        for r, exe in zip(runs, exes):
            results.append(run_harness(d, exe, r, tier, seed))
        if C.get("script") and not only_run:
            m = importlib.import_module("h." + pid + "." + C["script"])
            results.append(m.run(d, tier, seed, sys.modules[__name__]))
        for x in results:
            total["evaluations"] += x["evaluations"]
            total["overflow"] += x.get("overflow", 0)
            for k, v in x["families"].items():
                y = total["families"].setdefault(k, [0, 0])
                y[0] += v[0]
                y[1] += v[1]
            for k, v in x["counters"].items():
                total["counters"][k] = total["counters"].get(k, 0) + v
            total["samples"] += x["samples"]
            total["viol"] += x["viol"]
            total["hashes"] |= x["hashes"]
    except HarnessFail as e:
        die(e)
    known = load_known(pid)
    hit = {}
    new = []
    for v in total["viol"]:
        k = next((e for e in known if e["family"] == v["family"] and v["key"] == e["key"]
                  and e.get("match", "") in v["msg"] + v["stderr"]), None)
        if k:
            hit[id(k)] = k
        else:
            new.append(v)
    for k in hit.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rdir = f"{V}/replay"
    if new:
        os.makedirs(rdir, exist_ok=True)
    nr = 0
    seen = {}
    for v in new:
        sk = (v["family"], v["key"])
        seen[sk] = seen.get(sk, 0) + 1
        if seen[sk] > 2 or nr >= 12:
            continue
        path = f"{rdir}/{pid}-{nr}.txt"
        nr += 1
        with open(path, "w") as f:
            f.write(f"property {pid}\nfamily {v['family']} case {v['index']} key {v['key']}\nseed {seed} tier {tier}\n"
                    f"replay: {v['replay']}\n\nmessage: {v['msg']}\n\ninput: {v['desc']}\n\nstderr:\n{v['stderr']}\n")
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {v['family']}:{v['index']} [{v['key']}] {v['msg'][:300]}")
    if not new and total["evaluations"] == 0:
        die("nothing was evaluated")
    if new and not only_run:
        pass
    elif not only_run:
        dead = [f for f in C.get("must_count", []) if not total["counters"].get(f)]
        if dead:
            die("monitors observed nothing for " + ",".join(dead))
    ev = dict(property=pid, tier=tier, seed=seed, level=C.get("level", "exploration"),
              coverage=dict(evaluations=total["evaluations"], distinct_nontrivial=len(total["hashes"]),
                            rule=C["rule"], samples=total["samples"][:24] or ["none"],
                            families={k: dict(cases=v[0], nontrivial=v[1]) for k, v in sorted(total["families"].items())},
                            observed=dict(sorted(total["counters"].items())), exhaustive=False,
                            build_s=round(tb, 1)),
              assumptions=C.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier}: {total['evaluations']} cases, {len(total['hashes'])} distinct non-trivial, "
          f"{len(new)} violations, {len(hit)} known, build {tb:.1f}s wall {time.time()-t0:.1f}s")
    sys.exit(1 if new else 0)


if __name__ == "__main__":
    main()
