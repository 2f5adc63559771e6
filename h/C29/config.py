"""C29: configuration files (tags) and the makefiles written from them, against a model of the documented language."""
import os, random, shutil, subprocess, json, hashlib, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
MODES = ["=", "+=", "=?", "=!", "-=", "-=!"]
WORDS = ["flavor", "basic", "dep", "x1", "a.b", "C:D", "opt,", "f'g", "\"q\"", "@m", "p/q", "[z]", "%", ";", "Z_9", "{b}", "~", "^", "|", "`"]
TEXT = ["CPPFLAGS += -DA", "CXX = g++", "LDFLAGS += -lm", "# a remark", "x = y < z", "a (b) c", "foo()", "$(call f)", "tail \\", "\\head", "(open", "<notref",
        "\tcommand", "  spaced", "}", "{", "*star", "=eq", "a.*b", "[a-z]+$", "50% \\\\", ")", "(", "+= 1", "-lz", "$x @y", "http://a.b/#c", "'q' \"r\"", "é", ".*",
        "last line -DX=(1)", "\\\\two", "end with spaces  ", "!bang", "?q", "&amp;"]


class Refused(Exception):
    pass


def dim(r, lo, hi, big):
    return r.randint(hi, big) if r.random() < 0.015 else r.randint(lo, hi)


def render_text(s, first):
    """a line that stands for the text s, whatever is special in it"""
    o = s
    if s[:1] in " \t\\" or s[:1] == "<" or (first and s[:1] == "("):
        o = "\\" + o
    if o.rstrip(" \t")[-1:] in (")", "\\"):
        r = o.rstrip(" \t")
        o = r + "\\" + o[len(r):]
    return o


class Gen:
    def __init__(self, r):
        self.r = r
        self.tags = {}  # name -> list of lines, each ("t", text, written) or ("r", tag, written)
        self.order = []
        n = r.randint(2, 7)
        self.names = []
        while len(self.names) < n:
            k = " ".join(r.choice(WORDS) + r.choice(["", str(r.randint(0, 9))]) for _ in range(r.randint(1, 3)))
            if k not in self.names and not k.startswith("}"):
                self.names.append(k)

    def sp(self, atleast=0):
        return "".join(self.r.choice(" \t ") for _ in range(self.r.choice([atleast, atleast, 1, 2, 3])))[:9].ljust(atleast)

    def name(self, k):
        return self.sp() + k.replace(" ", "\0").replace("\0", self.sp(1) or " ") + self.sp()

    def line(self, first):
        r = self.r
        if r.random() < 0.3:
            k = r.choice(self.names)
            w = "<" + self.name(k)
            return ("r", k, w)
        s = r.choice(TEXT) + (str(r.randint(0, 3)) if r.random() < 0.3 else "")
        return ("t", s, render_text(s, first))

    def add(self, tag, mode, lines):
        old = self.tags.get(tag)
        if mode == "=" or (mode == "=?" and old is None) or (mode == "=!" and old is None):
            self.tags[tag] = list(lines)
        elif mode == "=!":
            raise Refused("strict")
        elif mode == "+=":
            self.tags[tag] = (old or []) + list(lines)

    def statement(self):
        """the text of a statement; its effect on self.tags"""
        r = self.r
        tag = r.choice(self.names)
        x = r.random()
        if x < 0.07:
            self.tags.pop(tag, None)
            return self.name(tag) + "=" + self.sp() + "()" + self.sp() + "\n"
        if x < 0.14:
            return r.choice(["", " \t", "# remark = (", "#"]) + "\n"
        mode = r.choice(MODES[:4]) if r.random() < 0.9 else "="
        if mode == "=!" and tag in self.tags and r.random() < 0.85:
            mode = "+="
        if x < 0.22 and self.tags.get(tag):
            return self.delete(tag)
        if x < 0.55:  # one line
            l = self.line(True) if r.random() < 0.95 else ("t", "", "")
            sp = self.sp(1) if l[2][:1] in "=+?!-<&*" else self.sp()
            text = l[2]
            out = self.name(tag) + mode + sp
            if r.random() < 0.15 and text and text[:1] not in " \t":
                l = (l[0], l[1] + " " if l[0] == "t" and not self.escaped_end(l) else l[1], l[2] + " ")
                if l[0] == "t" and self.escaped_end((0, 0, text)):
                    l = (l[0], l[1] + " ", l[2])
                out = self.name(tag) + mode + self.sp() + "(" + self.sp() + l[2] + ")" + self.sp()
            else:
                out += text
            self.add(tag, mode, [l])
            return out + "\n"
        lines = []
        out = self.name(tag) + mode + self.sp() + "("
        if r.random() < 0.15:
            l = self.line(False)
            while l[2].startswith("("):
                l = self.line(False)
            lines.append(l)
            out += self.sp() + l[2]
        out += "\n"
        for _ in range(dim(r, 0, 5, 60)):
            if r.random() < 0.15:
                out += r.choice(["", "  ", "\t"]) + "\n"
                continue
            l = self.line(False)
            lines.append(l)
            out += self.sp() + l[2] + "\n"
        if lines and r.random() < 0.25 and out.endswith(lines[-1][2] + "\n") and not out.endswith("(\n"):
            # closed at the end of the last line of contents
            if not (len(lines) == 1 and out.count("\n") == 1):
                k, t, w = lines[-1]
                out = out[:-1] + " )" + self.sp() + "\n"
                lines[-1] = (k, t + " " if k == "t" else t, w + " ")
            else:
                out += ")\n"
        else:
            out += self.sp() + ")" + self.sp() + "\n"
        self.add(tag, mode, lines)
        return out

    @staticmethod
    def escaped_end(l):
        return l[2].rstrip(" \t").endswith("\\")

    def delete(self, tag):
        """delete whole lines that are there, or (strictly or not) one that is not"""
        r = self.r
        old = self.tags[tag]
        strict = r.random() < 0.4
        mode = "-=!" if strict else "-="
        cand = [l for l in old if l[2] and not any(o[2] != l[2] and o[2].endswith(l[2]) for o in old) and l[2][:1] not in "=+?!-<&*(" and l[2].rstrip(" \t")[-1:] != ")"]
        if cand and r.random() < 0.8:
            l = r.choice(cand)
            self.tags[tag] = [o for o in old if o[2] != l[2]]
            return self.name(tag) + mode + self.sp() + l[2] + "\n"
        if strict:
            if r.random() < 0.85:
                return ""
            raise_after = self.name(tag) + mode + " nothing like it\n"
            return ("die", raise_after)
        return self.name(tag) + mode + " nothing like it\n"

    def unwrap(self, tag, above=()):
        if tag in above:
            raise Refused("circular")
        if tag not in self.tags:
            raise Refused("absent")
        out = []
        for k, v, w in self.tags[tag]:
            out += self.unwrap(v, above + (tag,)) if k == "r" else [v]
        return out


BAD = ["hello world\n", "x == 3\n", "x =+ 3\n", "x + 3\n", "}\n", "x = y)\n", "= 3\n", "x = (\nnever closed\n", "x +=- 1\n", "<x\n"]


def nb(lines):
    return [l for l in lines if l.strip(" \t") != ""]


def make_case(seed, tier, wd):
    r = random.Random(seed)
    g = Gen(r)
    texts = []
    die = False
    bad = r.random() < 0.12
    for f in range(r.choice([1, 1, 1, 2, 3])):
        t = ""
        for _ in range(dim(r, 1, 14, 120)):
            if die:
                break
            try:
                s = g.statement()
            except Refused:
                # the statement that is refused is written again below
                k = r.choice(sorted(g.tags))
                s = ("die", k + " =! z\n")
            if isinstance(s, tuple):
                die = True
                s = s[1]
            t += s
        texts.append(t)
    if bad and not die:
        b = r.choice(BAD)
        i = r.randrange(len(texts))
        ls = texts[i].split("\n")
        texts[i] = (b + texts[i]) if r.random() < 0.5 and "closed" not in b else (texts[i] + b)
        die = b
    files = []
    for i, t in enumerate(texts):
        p = f"{wd}/{i}.psiTag"
        files.append((p, t))
    return g, files, die


def perl(R, args, **kw):
    # memory is bounded: a runaway inclusion ends instead of filling the machine
    pre = lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (2 << 30, 2 << 30))
    return subprocess.run(["perl", f"-I{R}/scripts"] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, preexec_fn=pre, **kw)


def run(d, tier, seed, M):
    R = M.REPO
    base = d + "/scratch"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    res = dict(evaluations=0, families={}, counters={}, samples=[], viol=[], hashes=set(), overflow=0)
    only = os.environ.get("C29_ONLY")
    cnt = res["counters"]

    def count(k, n=1):
        cnt[k] = cnt.get(k, 0) + n

    def done(fam, idx, desc, nontrivial=True):
        x = res["families"].setdefault(fam, [0, 0])
        x[0] += 1
        x[1] += bool(nontrivial)
        res["evaluations"] += 1
        if nontrivial:
            res["hashes"].add(int.from_bytes(hashlib.sha256(desc.encode("utf-8", "replace")).digest()[:8], "little"))
        if idx == 0:
            res["samples"].append(f"{fam}: {desc[:300]!r}")

    def fail(fam, idx, key, msg, desc, err=""):
        res["viol"].append(dict(family=fam, index=idx, key=key, msg=msg, desc=desc, stderr=err[:3000], run="config",
                                replay=f"VERIF_SEED={seed} C29_ONLY={fam}:{idx} python3 {M.V}/run.py C29 {tier}"))

    def want(fam, i):
        return not only or only == f"{fam}:{i}" or only == fam

    # ---- the tags
    n = 4000 if tier == "quick" else 40000
    shards = 8

    def shard(k):
        wd = f"{base}/t{k}"
        os.makedirs(wd)
        cases = []
        for i in range(k, n, shards):
            if not want("tags", i):
                continue
            cd = f"{wd}/{i}"
            os.makedirs(cd)
            g, files, die = make_case(f"{seed}:tags:{i}", tier, cd)
            for p, t in files:
                with open(p, "w", encoding="utf-8") as f:
                    f.write(t)
            cases.append((i, g, files, die))
        with open(f"{wd}/req", "w") as f:
            for i, g, files, die in cases:
                f.write(json.dumps(dict(files=[p for p, _ in files], unwrap=g.names,
                                        flavors=[x[7:] for x in g.names if x.startswith("flavor ")][:2])) + "\n")
        p = perl(R, [HERE + "/drive.pl", f"{wd}/req", f"{wd}/err"])
        out = []
        lines = p.stdout.decode("utf-8", "replace").splitlines()
        for j, c in enumerate(cases):
            out.append((c, json.loads(lines[j]) if j < len(lines) else None))
            if j >= len(lines):
                break
        return out, p.stderr.decode("utf-8", "replace")
    with cf.ThreadPoolExecutor(8) as ex:
        for got, perr in ex.map(shard, range(shards)):
            for (i, g, files, die), a in got:
                desc = "".join(f"--- file {j}\n{t}" for j, (_, t) in enumerate(files))
                F = lambda key, msg: fail("tags", i, key, msg, desc, perr)
                done("tags", i, desc, len(g.tags) > 0)
                if a is None:
                    F("ended", "the interpreter ended: " + perr[-300:])
                    continue
                if die:
                    if "err" not in a:
                        F("accepted", f"accepted although it has to be refused ({die if isinstance(die, str) else 'strict mode'!r})")
                    elif not (a["err"] + a["said"]).strip():
                        F("silent", "refused without a message")
                    count("files refused")
                    continue
                if "err" in a:
                    F("refused", a["err"])
                    continue
                if set(a["tags"]) != set(g.tags):
                    F("tags", f"tags {sorted(a['tags'])} but {sorted(g.tags)}")
                    continue
                ok = True
                for k, ls in g.tags.items():
                    w = [x[2] for x in ls]
                    have = [x.lstrip(" \t") for x in (a["tags"][k] or "").split("\n")]
                    count("tags compared")
                    if [x.lstrip(" \t") for x in nb(w)] != nb(have):
                        F("contents", f"tag {k!r} has {nb(have)} but {nb(w)}")
                        ok = False
                        break
                if not ok:
                    continue
                if "changed" in a:
                    F("changed", f"resolving {a['changed']!r} changed the tags")
                    continue
                un = list(a["un"].items()) + list(a["unerr"].items())
                for k in [k for k in g.tags]:
                    try:
                        w = g.unwrap(k)
                    except Refused as e:
                        count("unresolvable tags refused")
                        if k not in a["unerr"]:
                            F("resolved", f"tag {k!r} resolved although a tag is {e}: {a['un'].get(k)!r:.300}")
                            break
                        continue
                    if k in a["unerr"]:
                        F("unresolved", f"tag {k!r}: {a['unerr'][k]}")
                        break
                    have = nb(a["un"][k].split("\n"))
                    count("tags resolved")
                    if any(x[0] == "r" for x in g.tags[k]):
                        count("inclusions resolved")
                    if have != nb(w):
                        F("resolution", f"tag {k!r} resolves to {have} but {nb(w)}")
                        break
                for fl in (a.get("fl") or {}):
                    count("flavors resolved")
                    if nb(a["fl"][fl].split("\n")) != nb(g.unwrap("flavor " + fl)):
                        F("flavor", f"flavor {fl!r} gives {a['fl'][fl]!r}")
                for fl, e in (a.get("flerr") or {}).items():
                    try:
                        g.unwrap("flavor " + fl)
                        F("flavor", f"flavor {fl!r} refused: {e}")
                    except Refused:
                        pass
    # ---- the makefiles
    nm = 32 if tier == "quick" else 320
    fams = [("makefile", nm, makefile), ("command", nm, command)]
    for fam, m, fn in fams:
        idx = [i for i in range(m) if want(fam, i)]

        def one(i):
            wd = f"{base}/{fam}{i}"
            os.makedirs(wd)
            try:
                return i, fn(random.Random(f"{seed}:{fam}:{i}"), wd, R)
            finally:
                shutil.rmtree(wd, ignore_errors=True)
        with cf.ThreadPoolExecutor(8) as ex:
            for i, (desc, problem, counts) in ex.map(one, idx):
                done(fam, i, desc)
                for k, v in counts.items():
                    count(k, v)
                if problem:
                    fail(fam, i, problem[0], problem[1], desc)
    shutil.rmtree(base, ignore_errors=True)
    return res


FAKE = r"""#!/bin/sh
printf '%s\n' "$*" >> log
o=; c=; mm=
while [ $# -gt 0 ]; do
 case "$1" in
 -o) o=$2; shift;;
 -c) c=$2; shift;;
 -MM) mm=1;;
 *.cpp) [ -n "$mm" ] && echo "$(basename $1 .cpp).o: $1";;
 esac
 shift
done
[ -n "$c" ] && echo obj > $(basename $c .cpp).o
[ -n "$o" ] && { echo exe > $o; chmod +x $o; }
exit 0
"""


def makefile(r, wd, R):
    cnt = {}

    def C(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    cd = f"{wd}/x/y"
    os.makedirs(cd)
    os.makedirs(f"{wd}/PsimagLite/lib")
    open(f"{wd}/PsimagLite/lib/libpsimaglite.a", "w").close()
    with open(f"{cd}/fakecxx", "w") as f:
        f.write(FAKE)
    os.chmod(f"{cd}/fakecxx", 0o755)
    fla = r.choice(["production", "my flavor", "d2"])
    cpp = [f"-DF{k}" for k in r.sample(range(50), r.randint(1, 4))]
    ld = [f"-lf{k}" for k in r.sample(range(50), r.randint(0, 3))]
    rule = r.random() < 0.5
    base = f"base = (\nCXX = ./fakecxx\nSTRIP_COMMAND = true\n)\nextra dep = (\n" + "".join(f"CPPFLAGS += {x}\n" for x in cpp) + "".join(f"LDFLAGS += {x}\n" for x in ld) + ")\n" \
           f"flavor {fla} = (\n< base\n<extra  dep\n)\nflavor other = CXX = false\ndefault flavor = {fla}\n"
    files = [f"{cd}/base.psiTag"]
    with open(files[0], "w") as f:
        f.write(base)
    second = ""
    if r.random() < 0.5:
        k = f"-DSECOND{r.randint(0, 9)}"
        second = f"extra dep += CPPFLAGS += {k}\n"
        cpp.append(k)
    if rule:
        second += f"flavor {fla} += (\nmade:\n\\\ttouch made\n)\n"
    if second:
        files.append(f"{cd}/user.psiTag")
        with open(files[1], "w") as f:
            f.write(second)
    drivers, info = [], {}
    nd = r.randint(1, 5)
    auxs = []
    for i in range(nd):
        nm = f"drv{i}"
        kind = r.randint(0, 3)
        if kind == 0:
            drivers.append(nm)
            info[nm] = dict(aux=0, dotos=[nm + ".o"], lib="")
        else:
            h = dict(name=nm)
            e = dict(aux=0, dotos=[nm + ".o"], lib="")
            if kind == 1:
                h["aux"] = e["aux"] = 1
                auxs.append(nm)
            elif r.random() < 0.5 and auxs:
                e["dotos"] = [nm + ".o"] + [a + ".o" for a in auxs]
                h["dotos"] = " ".join(e["dotos"])
            if kind != 1 and r.random() < 0.5:
                h["libs"] = e["lib"] = r.choice(["", f"mine{i}"])
                if e["lib"]:
                    open(f"{cd}/lib{e['lib']}.a", "w").close()
            drivers.append(h)
            info[nm] = e
        with open(f"{cd}/{nm}.cpp", "w") as f:
            f.write("//\n")
    args = dict(code="test", configFiles=files, flavor=r.choice([fla, fla, "UNDEFINED"]))
    if r.random() < 0.6:
        args["path"] = r.choice(["", "./"])
    if r.random() < 0.5:
        args["CPPFLAGS"] = "-DADDED"
    if r.random() < 0.5:
        args["LDFLAGS"] = "-ladded"
    if r.random() < 0.5:
        args["additional"] = "common.h"
        open(f"{cd}/common.h", "w").close()
    if r.random() < 0.5:
        args["additional2"] = "junk1 junk2"
        for k in ("junk1", "junk2"):
            open(f"{cd}/{k}", "w").close()
    if rule:
        args[r.choice(["additional3", "additional4"])] = "made"
    needs = r.random() < 0.5
    if needs:
        args["needsPsimagLiteLib"] = 1
    prog = """use JSON::PP; use PsiTag; use NewMake; my $q = JSON::PP->new->decode($ARGV[0]);
open(my $fh, ">", "Makefile") or die; NewMake::main($fh, $q->{args}, $q->{drivers}); close($fh) or die;"""
    q = json.dumps(dict(args=args, drivers=drivers))
    desc = q + "\n" + base + second
    p = perl(R, ["-e", prog, q], cwd=cd)
    if p.returncode:
        return desc, ("refused", p.stderr.decode()[-500:]), cnt
    env = {k: v for k, v in os.environ.items() if not k.startswith("MAKE") and k != "MFLAGS"}

    def make(*t):
        if os.path.exists(cd + "/log"):
            os.unlink(cd + "/log")
        p = subprocess.run(["make", "-s"] + list(t), cwd=cd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        log = open(cd + "/log").read().splitlines() if os.path.exists(cd + "/log") else []
        return p.returncode, p.stdout.decode("utf-8", "replace"), [l.split() for l in log]
    rc, out, log = make("all")
    if rc:
        return desc, ("make", f"make all: {out[-500:]}"), cnt
    comp = {l[l.index("-c") + 1]: l for l in log if "-c" in l}
    link = {l[l.index("-o") + 1]: l for l in log if "-o" in l}
    mm = [l for l in log if "-MM" in l]
    exes = [k for k, e in info.items() if not e["aux"]]
    needed = set(o[:-2] + ".cpp" for k in exes for o in info[k]["dotos"])
    want_cpp = cpp + (["-DADDED"] if "CPPFLAGS" in args else [])
    want_ld = ld + (["-ladded"] if "LDFLAGS" in args else [])
    if set(link) != set(exes):
        return desc, ("programs", f"linked {sorted(link)} but {sorted(exes)}"), cnt
    if set(comp) != needed:
        return desc, ("objects", f"compiled {sorted(comp)} but {sorted(needed)}"), cnt
    for nm, l in list(comp.items()) + list(link.items()):
        have = [x for x in l if x.startswith("-D")]
        if have != want_cpp:
            return desc, ("flags", f"{nm}: compiled with {have} but {want_cpp}"), cnt
        for inc in ("../../PsimagLite", "../../PsimagLite/src", "Engine"):
            j = " ".join(l).replace("-I ", "-I").replace("-I./", "-I")
            if ("-I" + inc) not in j.split():
                return desc, ("include path", f"{nm}: {j}"), cnt
        C("commands judged")
    for nm, l in link.items():
        objs = [x for x in l if x.endswith(".o")]
        libs = [x for x in l if x.startswith("-l")]
        old = nm in drivers
        wl = want_ld + (["-lpsimaglite"] if old and needs else ["-l" + info[nm]["lib"]] if info[nm]["lib"] else [])
        if objs != info[nm]["dotos"]:
            return desc, ("link", f"{nm}: linked from {objs} but {info[nm]['dotos']}"), cnt
        if libs != wl:
            return desc, ("libraries", f"{nm}: linked with {libs} but {wl}"), cnt
    if not mm or [x for x in mm[0] if x.endswith(".cpp")] != [k + ".cpp" for k in info]:
        return desc, ("dependencies", f"computed for {mm}"), cnt
    if rule and not os.path.exists(cd + "/made"):
        return desc, ("rule", "the extra target was not made"), cnt
    rc, out, log = make("all")
    if rc or [l for l in log if "-MM" not in l]:
        return desc, ("again", f"nothing changed, but {log} {out[-300:]}"), cnt
    # change a source: it and the programs made of it are built again, nothing else
    nm = r.choice(sorted(info))
    st = os.stat(cd + "/Makefile")
    fut = st.st_mtime + 5
    for f in os.listdir(cd):
        if f.endswith((".o", ".a")) or f in exes or f in ("made", "Makefile.dep"):
            os.utime(f"{cd}/{f}", (fut, fut))
    os.utime(f"{cd}/{nm}.cpp", (fut + 5, fut + 5))
    if "additional" in args and r.random() < 0.4:
        os.utime(f"{cd}/common.h", (fut + 5, fut + 5))
        changed = set(info)
    else:
        changed = {nm}
    rc, out, log = make("all")
    log = [l for l in log if "-MM" not in l]
    comp = sorted(l[l.index("-c") + 1][:-4] for l in log if "-c" in l)
    link = sorted(l[l.index("-o") + 1] for l in log if "-o" in l)
    wc = sorted(k for k in changed if k + ".cpp" in needed)
    wl = sorted(k for k in exes if any(o[:-2] in wc for o in info[k]["dotos"]))
    if rc or comp != wc or link != wl:
        return desc, ("rebuild", f"after {sorted(changed)} changed: compiled {comp} linked {link}, expected {wc} and {wl} {out[-300:]}"), cnt
    C("rebuilds judged")
    rc, out, log = make("clean")
    left = set(os.listdir(cd))
    gone = set(exes) | {"Makefile.dep"} | ({"junk1", "junk2"} if "additional2" in args else set())
    if rc or left & gone - {"Makefile.dep"} or [f for f in left if f.endswith((".o", ".a"))]:
        return desc, ("clean", f"left {sorted(left)} {out[-300:]}"), cnt
    if not {k + ".cpp" for k in info} | {"Makefile"} <= left:
        return desc, ("clean", f"sources are gone: {sorted(left)}"), cnt
    C("makefiles judged")
    return desc, None, cnt


def command(r, wd, R):
    """the command that prints a tag, the list of flavors, the configuration files in force"""
    cnt = {}
    g = Gen(r)
    g.names = ["one", "flavor two", "flavor x y", "default flavor"]
    t = ""
    for _ in range(dim(r, 1, 8, 80)):
        for _ in range(20):
            try:
                s = g.statement()
            except Refused:
                return "", None, cnt
            if isinstance(s, str):
                break
        else:
            continue
        t += s
    with open(wd + "/f", "w", encoding="utf-8") as f:
        f.write(t)
    out = lambda p: p.stdout.decode("utf-8", "replace")
    for k in ("one", "flavor two", "absent"):
        p = perl(R, [R + "/scripts/psiTag.pl", wd + "/f", k])
        if k in g.tags:
            w = nb([x[2].lstrip(" \t") for x in g.tags[k]])
            h = nb([x.lstrip(" \t") for x in out(p).split("\n")])
            if p.returncode or w != h:
                return t, ("print", f"tag {k!r} printed as {h} but {w}, exit status {p.returncode}"), cnt
            cnt["tags printed"] = cnt.get("tags printed", 0) + 1
        elif p.returncode == 0 or not p.stderr:
            return t, ("print", f"absent tag {k!r}: exit status {p.returncode}"), cnt
    p = perl(R, [R + "/scripts/psiTag.pl", wd + "/f"])
    if p.returncode or out(p):
        return t, ("check", f"exit status {p.returncode} and {out(p)!r} for a good file"), cnt
    for a in ([wd + "/nofile"], []):
        p = perl(R, [R + "/scripts/psiTag.pl"] + a)
        if p.returncode == 0 or not p.stderr:
            return t, ("check", f"exit status {p.returncode} without a file"), cnt
    prog = "use PsiTag; use NewMake; NewMake::getConfigContent([$ARGV[0]], 'help'); print 'returned';"
    p = perl(R, ["-e", prog, wd + "/f"])
    s = out(p)
    fl = sorted(k[7:] for k in g.tags if k.startswith("flavor "))
    if p.returncode == 0 or "returned" in s or "flavors are:" not in s or sorted(x for x in ["two", "x y"] if f" {x} " in s.split("are:")[1]) != fl:
        return t, ("help", f"flavors {fl} shown as {s!r}"), cnt
    prog = "use NewMake; my @a = NewMake::configFilesList(@ARGV); print join('|', '', @a);"
    env = dict(os.environ)
    env.pop("PSITAG_CONFIG_USER", None)
    opt = r.random() < 0.5
    usr = r.random() < 0.5
    if usr:
        env["PSITAG_CONFIG_USER"] = "u.psiTag"
    p = perl(R, ["-e", prog, "b.psiTag"] + (["o.psiTag"] if opt else []), env=env)
    w = "|b.psiTag" + ("|o.psiTag" if opt else "|u.psiTag" if usr else "")
    if p.returncode or not out(p).endswith("\n" + w):
        return t, ("files", f"{out(p)!r} instead of {w!r}"), cnt
    cnt["commands run"] = 1
    return t, None, cnt
