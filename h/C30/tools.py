"""C30: the documentation assembler and the data and text tools, run on generated inputs against models of what they document."""
import os, random, re, shutil, subprocess, hashlib, concurrent.futures as cf


class Bad(Exception):
    def __init__(self, key, msg):
        self.key = key
        self.msg = msg


def dim(r, lo, hi, big):
    return r.randint(hi, big) if r.random() < 0.015 else r.randint(lo, hi)


def perl(R, args, inp="", cwd=None):
    pre = lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (2 << 30, 2 << 30))
    p = subprocess.run(["perl"] + args, cwd=cwd, input=inp.encode("utf-8"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, preexec_fn=pre)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def words(r, n=6):
    return " ".join(r.choice(["the", "lattice", "of", "$x_i$", "model", "\\emph{is}", "{a}", "%in", "a_b", "é", "<b>", "#3", "--", "(see)", "100\\%"]) for _ in range(r.randint(1, n)))


def nb(s):
    return [l.rstrip() for l in s.split("\n") if l.strip()]


# ------------------------------------------------------------------ the manual
def code(r, depth=1):
    b = ["\tint f%d(int x)" % r.randint(0, 99), "\t{"]
    for _ in range(dim(r, 0, 4, 120)):
        b.append("\t\t" + r.choice(["x += 1;", "if (x) { x = 2; }", "call(x, 3);", "while (x < 3) {\n\t\t\t++x;\n\t\t}", "x = 3; // what it is",
                                   "if (x) {\n\t\t\tfor (;;) {\n\t\t\t\tbreak;\n\t\t}}", "if (x) { for (;;) { break; } }", "do {{\n\t\t\t--x;\n\t\t}} while (x);", "struct S { int a[2] = {1, 2}; };"]))
    b.append("\t}")
    return "\n".join(b).split("\n")


def listing(lines):
    return "\\begin{lstlisting}\n" + "\n".join(l.replace("\t", "  ") for l in lines) + "\n\\end{lstlisting}\n"


def manual(r, wd, R, C):
    os.makedirs(wd + "/scripts")
    src = {}
    labels = {}  # label -> text before expansion, as a list of lines or ("copy", label)
    names = [f"Lab{i}" + r.choice(["", "::x", "_y", "Z.w"]) for i in range(dim(r, 1, 6, 60))]
    for nm in names:
        f = r.choice(["a.h", "b.h", "c.cpp"])
        t = src.setdefault(f, [])
        for _ in range(r.randint(0, 2)):
            t.append(r.choice(["", "int notdocumented;", "// remark", "/* plain comment */"]))
        kind = r.randint(0, 4)
        body = []
        if kind == 0:  # a block of code
            lines = code(r)
            t.append(f"/* PSIDOC_CODE_START {nm} */")
            t += lines
            t.append("/* PSIDOC_CODE_END */")
            labels[nm] = lines
            continue
        for _ in range(dim(r, 0, 4, 60)):
            body.append(words(r))
        if labels and r.random() < 0.4:
            k = r.choice(sorted(labels))
            body.insert(r.randint(0, len(body)), ("copy", k))
        if r.random() < 0.1:
            body.insert(r.randint(0, len(body)), ("copy", r.choice(names)))
        own = None
        if kind == 2:
            own = "FirstProtoBelow"
        if kind == 3:
            own = "FirstFunctionBelow"
        if own and r.random() < 0.7:
            body.append(("copy", nm + "::" + own, "$" + own))
        if kind == 3 and r.random() < 0.4:
            mark = "M%d" % r.randint(0, 9)
        else:
            mark = None
        cont = kind == 1 and r.random() < 0.5
        t.append(f"/* PSIDOC {nm}")
        half = r.randint(0, len(body)) if cont else len(body)
        for i, b in enumerate(body):
            if cont and i == half:
                between = code(r) if r.random() < 0.6 else [""]
                t += ["PSIDOC_CONTINUE", "*/"] + between + ["/* PSIDOC_RESUME"]
            t.append(b if isinstance(b, str) else "PSIDOCCOPY " + (b[2] if len(b) > 2 else b[1]))
        if cont and half == len(body):
            cont = False
        t.append("*/")
        if cont:
            body[half:half] = between
        labels[nm] = body
        if kind == 2:
            p = r.choice([["\tvoid g(int,"], []]) + ["\t       double);"]
            t += p + ["", "int other;"]
            labels[nm + "::FirstProtoBelow"] = listing(p).split("\n")
        elif kind == 3:
            cl = code(r)
            written = list(cl)
            if mark:
                a = r.randint(2, len(cl) - 1)
                b = r.randint(a, len(cl) - 1)
                written = cl[:a] + [r.choice(["\t\t", ""]) + "// PSIDOCMARK_BEGIN " + mark] + cl[a:b] + ["\t// PSIDOCMARK_END"] + cl[b:]
                labels[f"{nm}::FirstFunctionBelow::{mark}"] = listing(cl[a:b]).split("\n")
            t += written + ["", "/* the end */"]
            labels[nm + "::FirstFunctionBelow"] = listing(cl).split("\n")
        else:
            t.append("/* the end */")

    def expand(k, above=()):
        if k in above:
            raise Bad("circular", k)
        if k not in labels:
            raise Bad("absent", k)
        out = []
        for b in labels[k]:
            out += [b] if isinstance(b, str) else expand(b[1], above + (k,))
        return out
    files = {}
    for i in range(r.randint(0, 2)):
        nm = r.choice(["part", "dir/part"]) + str(i) + r.choice([".tex", ".txt"])
        files[nm] = "\n".join(words(r) for _ in range(r.randint(0, 4))) + "\n"
    if r.random() < 0.4:
        files["READ.md"] = "# One\n## Two words\nsome <b>bold</b> and <code>x</code> <code>y</code>\n\nmail\\@host\n"
    root = r.random() < 0.4  # read from, and written to, other places
    doc = f"{wd}/{'elsewhere' if root else 'doc'}"
    os.makedirs(doc, exist_ok=True)
    for d in ("doc", "out", "src"):
        os.makedirs(f"{wd}/{d}", exist_ok=True)
    for nm, t in files.items():
        os.makedirs(os.path.dirname(f"{doc}/{nm}"), exist_ok=True)
        with open(f"{doc}/{nm}", "w", encoding="utf-8") as f:
            f.write(t)
    for nm, t in src.items():
        with open(f"{wd}/src/{nm}", "w", encoding="utf-8") as f:
            f.write("\n".join(t) + "\n")
    ptex, want = [], []
    refuse = None
    try:
        for k in labels:
            expand(k)
    except Bad as e:
        refuse = e.key + " label " + e.msg
    pool = sorted(labels)
    for _ in range(dim(r, 1, 12, 100)):
        x = r.random()
        if x < 0.45 and not refuse:
            k = r.choice(pool)
            ptex.append(r.choice(["", "  "]) + "\\ptexPaste{" + k + "}")
            want += expand(k)
        elif x < 0.6 and files:
            k = r.choice(sorted(files))
            ptex.append("\\ptexReadFile{" + k + "}")
            if k.endswith(".md"):
                want += ["\\chapter{One}", "\\section{Two words}", "some {\\bf bold} and {\\tt x} {\\tt y}", "mail@host"]
            else:
                want += files[k].split("\n")
        elif x < 0.65:
            ptex.append("\\ptexPaste{NoSuchLabel}")
            want.append("{\\bf\\textcolor{red}{ERROR: Label not found}}")
        elif x < 0.75:
            ptex.append(r.choice(["% a remark", "  %\\ptexPaste{NoSuchLabel}", "\\newcommand{\\ptexPaste}[1]{\\ptexPaste{#1}}"]))
        else:
            l = words(r)
            while l.startswith("%"):
                l = words(r)
            ptex.append(l)
            want.append(l)
    if not refuse and r.random() < 0.05:
        ptex.append("\\ptexReadFile{nofile.tex}")
        refuse = "file that is absent"
    if not refuse and names and r.random() < 0.05:
        with open(f"{wd}/src/z.h", "w") as f:
            f.write(f"/* PSIDOC {names[0]}\ntwice\n*/\n")
        src["z.h"] = []
        refuse = "label given twice"
    if not refuse and r.random() < 0.05:
        with open(f"{wd}/src/z.h", "w") as f:
            f.write("/* PSIDOC_CODE_START Open */\nint x;\n")
        src["z.h"] = []
        refuse = "block of code never closed"
    body = "\n".join(ptex) + "\n"
    with open(f"{wd}/doc/manual.ptex", "w", encoding="utf-8") as f:
        f.write(body)
    desc = "\n".join(f"--- {k}\n" + "\n".join(v) for k, v in src.items()) + "\n--- manual\n" + body + "\n".join(f"--- {k}\n{v}" for k, v in files.items()) + f"\n{refuse} {root}"
    args = [R + "/scripts/doc.pl", "manual.ptex"] + ([doc, wd + "/out"] if root else [])
    if root:
        args[1] = wd + "/doc/manual.ptex"
    rc, out, err = perl(R, args, "".join(f"{wd}/src/{k}\n" for k in sorted(src)), cwd=wd + "/doc")
    if refuse:
        C("manuals refused")
        if rc == 0 or not err:
            raise Bad("accepted", f"accepted though it has a {refuse}")
        if "Out of memory" in err:
            raise Bad("endless", f"used up all its memory on a {refuse}")
        return desc
    if rc:
        raise Bad("refused", err[-600:])
    where = f"{wd}/out/manual.tex" if root else f"{wd}/doc/manual.tex"
    if not os.path.exists(where):
        raise Bad("place", f"{where} was not written; there are {sorted(os.listdir(wd + '/doc'))} {err[-200:]}")
    got = nb(open(where, encoding="utf-8").read())
    w = [l.rstrip() for l in want if l.strip()]
    if got != w:
        k = next((i for i in range(min(len(w), len(got))) if w[i] != got[i]), min(len(w), len(got)))
        raise Bad("text", f"line {k} is {got[k:k+2]} but {w[k:k+2]}")
    C("manuals compared")
    C("pieces placed", len(w))
    return desc


# the pieces marked in the sources as shipped, read with one pattern for each kind of piece
def shipped(r, wd, R, C):
    os.makedirs(wd + "/doc")
    fs = [p + "/" + x for t in ("src", "examples") for p, _, l in os.walk(R + "/" + t) for x in l if x.endswith((".h", ".cpp")) and "/_" not in p]
    r.shuffle(fs)
    lab, used = {}, []
    for f in fs:
        t = open(f, encoding="utf-8", errors="replace").read()
        if "PSIDOC" not in t:
            continue
        used.append(f)
        for m in re.finditer(r"/\* PSIDOC_CODE_START +(\S+)[^\n]*\n((?:[^\n]*\n)*?)[^\n]*/\* PSIDOC_CODE_END", t):
            lab[m[1]] = m[2]
        t = re.sub(r"[ \t]*PSIDOC_CONTINUE *\n([^\n]*\n)*?[^\n]*\*/[^\n]*\n((?:[^\n]*\n)*?)[^\n]*/\* *PSIDOC_RESUME[^\n]*\n", lambda m: m[2].replace("*/", "\0"), t)
        for m in re.finditer(r"/\* *PSIDOC +(\S+)[^\n]*\n((?:[^\n]*\n)*?)[^\n]*\*/", t):
            lab[m[1]] = m[2]
    if len(lab) < 5:
        raise Bad("few", f"only {sorted(lab)} are marked in the sources")

    def expand(k):
        return sum((expand(l.split()[1]) if "PSIDOCCOPY" in l else [l] for l in lab[k].split("\n") if "\0" not in l), [])
    ks = sorted(lab)
    r.shuffle(ks)
    with open(wd + "/doc/all.ptex", "w") as f:
        f.write("".join("\\ptexPaste{" + k + "}\n=====\n" for k in ks))
    rc, out, err = perl(R, [R + "/scripts/doc.pl", "all.ptex"], "".join(x + "\n" for x in (fs if r.random() < 0.3 else used)), cwd=wd + "/doc")
    if rc:
        raise Bad("refused", err[-500:])
    got = open(wd + "/doc/all.tex", encoding="utf-8", errors="replace").read().split("=====\n")
    for k, g in zip(ks, got):
        w = nb("\n".join(expand(k)))
        if nb(g) != w:
            raise Bad("text", f"{k}: {nb(g)[:40]} but {w[:40]}")
        C("shipped pieces compared")
    return "\n".join(ks)


# ------------------------------------------------------------------ the other documentation tool
def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


def doxygen(r, wd, R, C):
    os.makedirs(wd + "/doxygen/perlmod")
    ents = {"classes": {}, "files": {}}

    def detailed():
        items, t = [], ""
        for _ in range(r.randint(0, 4)):
            if r.random() < 0.3:
                items.append("{ type => 'parbreak' }")
                t += "\n\n"
            else:
                w = words(r) + r.choice(["", " !PTEX_THISCLASS "])
                items.append("{ type => 'text', content => " + q(w) + " }")
                t += w
        return "detailed => { doc => [" + ", ".join(items) + "] }", t
    body = []
    for kind in ents:
        es = []
        for i in range(r.randint(0, 4)):
            nm = ("Cls" if kind == "classes" else "file") + str(i) + r.choice(["", "::In", ".h"])
            if nm in ents[kind]:
                continue
            dt, t = detailed()
            ms, members = {}, []
            for j in range(r.randint(0, 4)):
                mk = r.choice(["function", "variable"])
                mn = "m" + str(r.randint(0, 3))
                if (mk, mn) in ms:
                    continue
                md, mt = detailed()
                ms[(mk, mn)] = mt
                members.append(f"{{ kind => '{mk}', name => '{mn}', {md} }}")
            es.append(f"{{ name => '{nm}', {dt}, public_methods => {{ members => [" + ", ".join(members) + "] } }")
            ents[kind][nm] = (t, ms)
        body.append(f"{kind} => [" + ",\n".join(es) + "]")
    with open(wd + "/doxygen/perlmod/DoxyDocs.pm", "w", encoding="utf-8") as f:
        f.write("$doxydocs = {\n" + ",\n".join(body) + "\n};\n1;\n")
    with open(wd + "/part.tex", "w", encoding="utf-8") as f:
        part = words(r) + "\n\\ptexPaste{untouched}\n"
        f.write(part)
    inp, want, refuse = "", "", None
    for _ in range(dim(r, 1, 8, 60)):
        x = r.random()
        kind = r.choice(["classes", "files"])
        if x < 0.5 and ents[kind]:
            nm = r.choice(sorted(ents[kind]))
            t, ms = ents[kind][nm]
            s = ("!" if kind == "files" else "") + nm
            if ms and r.random() < 0.6:
                mk, mn = r.choice(sorted(ms))
                t = ms[(mk, mn)]
                s += "," + mn + ("()" if mk == "function" else "")
            a, b = words(r, 2), words(r, 2)
            inp += a + "\\ptexPaste{" + s + "}" + b + "\n"
            want += a + t.replace("!PTEX_THISCLASS", nm) + b + "\n"
        elif x < 0.6:
            inp += "\\ptexReadFile{part.tex}\n"
            want += part
        elif x < 0.65:
            inp += "\\newcommand{\\ptexPaste}\n"
        elif x < 0.68:
            inp += "\\ptexPaste{Nobody" + r.choice(["", ",f()"]) + "}\n"
            refuse = "entry that is absent"
            break
        else:
            l = words(r)
            inp += l + "\n"
            want += l + "\n"
    desc = inp + "\n".join(body)
    # the documented use is from the directory with doxygen's output
    rc, out, err = perl(R, [R + "/PsimagDoc/psimagdoc.pl"], inp, cwd=wd)
    if refuse:
        if rc == 0:
            raise Bad("accepted", f"accepted though it has an {refuse}")
        C("documents refused")
        return desc
    if rc:
        raise Bad("refused", err[-500:])
    if out != want:
        raise Bad("text", f"printed {out!r} but {want!r}")
    C("documents compared")
    return desc


# ------------------------------------------------------------------ spectra
def lorentz(r, wd, R, C):
    n = dim(r, 1, 6, 60)
    peaks = [(round(r.uniform(-5, 5), 3), round(r.uniform(0.1, 3), 3)) for _ in range(n)]
    b, tot, st, dl = round(r.uniform(-6, 0), 2), r.randint(1, 60), round(r.uniform(0.01, 0.5), 3), round(r.uniform(0.05, 1), 3)
    norm = round(r.uniform(0.5, 5), 2) if r.random() < 0.5 else None
    t = ""
    for w, a in peaks:
        if r.random() < 0.2:
            t += "# remark\n"
        t += f"{w}{r.choice([' ', chr(9), '   '])}{a}\n"
    bad = r.random() < 0.1
    if bad:
        t += r.choice(["1\n", "1 2 3\n", "\n"])
    with open(wd + "/p", "w") as f:
        f.write(t)
    desc = f"{t} {b} {tot} {st} {dl} {norm}"
    rc, out, err = perl(R, [R + "/scripts/lorentzian.pl", "p", str(b), str(tot), str(st), str(dl)] + ([str(norm)] if norm else []), cwd=wd)
    if bad:
        if rc == 0:
            raise Bad("accepted", "a line without two values was accepted")
        C("spectra refused")
        return desc
    if rc:
        raise Bad("refused", err[-300:])
    ls = [l for l in out.split("\n") if l and not l.startswith("#")]
    v = [sum(a / ((b + i * st - w) ** 2 + dl * dl) for w, a in peaks) for i in range(tot)]
    f = norm / sum(v) if norm else 1
    if len(ls) != tot:
        raise Bad("points", f"{len(ls)} but {tot}")
    for i, l in enumerate(ls):
        x, y = map(float, l.split())
        if abs(x - (b + i * st)) > 1e-9 or abs(y - f * v[i]) > 1e-9 * abs(f * v[i]) + 1e-12:
            raise Bad("value", f"point {i}: {l} but {b + i * st} {f * v[i]}")
    C("points compared", tot)
    return desc


def inverse(r, wd, R, C):
    """peaks on the grid and far apart give back where they are, how strong and how broad"""
    n = r.randint(1, 3)
    st = 0.01
    peaks = [(round(3.0 * k + 0.01 * r.randint(-20, 20), 2), r.uniform(0.5, 2), r.uniform(0.04, 0.07)) for k in range(n)]
    lo, hi = -1.5, 3.0 * n - 1.5
    t = ""
    m = int(round((hi - lo) / st))
    for i in range(m + 1):
        x = round(lo + i * st, 2)
        t += f"{x} {sum(a / ((x - w) ** 2 + d * d) for w, a, d in peaks):.12g}\n"
        if r.random() < 0.01:
            t += "# remark\n"
    with open(wd + "/s", "w") as f:
        f.write(t)
    mid = r.choice([None, 0.5, 0.8])
    desc = f"{peaks} {mid}"
    rc, out, err = perl(R, [R + "/scripts/naiztnerol.pl", "s"] + ([str(mid)] if mid else []), cwd=wd)
    if rc:
        raise Bad("refused", err[-300:])
    ls = [l.split() for l in out.split("\n") if l and not l.startswith("#")]
    if len(ls) != n:
        raise Bad("peaks", f"found {len(ls)} of {n}: {out!r}")
    for (w, a, d), l in zip(peaks, ls):
        x, y, z = map(float, l)
        if abs(x - w) > 1e-9 or abs(y - a) > (1e-6 if n == 1 else 0.05) * a or abs(z - d) > (1e-6 if n == 1 else 0.05) * d:
            raise Bad("peak", f"{l} for {w} {a} {d}")
        C("peaks recovered")
    return desc


# ------------------------------------------------------------------ text
def tabs(r, wd, R, C):
    tl = r.choice([4, 4, 2, 8])
    lines, want, short = [], [], False
    may = r.random() < 0.15
    for _ in range(dim(r, 0, 12, 300)):
        k = r.choice([0, 0, tl, tl + 1, 2 * tl, 3 * tl, 3 * tl + tl - 1] + ([1] * 3 if may else []))
        body = r.choice(["int x;", "x  =  3;", "", "\tmixed", "a    b", "} // end   ", "\\d+ $&"])
        if k and 0 < k < tl:
            short = True
        lines.append(" " * k + body)
        want.append("\t" * (k // tl) + " " * (k % tl) + body)
    end = "\n" if lines and r.random() < 0.9 else ""
    t = "\n".join(lines) + end
    w = "\n".join(want) + end
    with open(wd + "/f.h", "w") as f:
        f.write(t)
    fix = r.random() < 0.7
    rc, out, err = perl(R, [R + "/scripts/spacesIntoTabs.pl", "-file", "f.h"] + (["-fix"] if fix else []) + (["-tl", str(tl)] if tl != 4 or r.random() < 0.3 else []), cwd=wd)
    now = open(wd + "/f.h").read()
    if short:
        if rc == 0 or now != t:
            raise Bad("accepted", f"fewer spaces than a tab: exit status {rc}, file {'changed' if now != t else 'as it was'}")
        C("texts refused")
        return t
    if rc:
        raise Bad("refused", err[-300:])
    if now != (w if fix else t):
        raise Bad("text", f"{now!r} but {(w if fix else t)!r}")
    if fix and open(wd + "/f.h.bak").read() != t:
        raise Bad("backup", "the backup differs from the file given")
    C("texts compared")
    return t + str((tl, fix))


COL = {"WaveFunctionTransf": "\x1b[33m", "Truncation": "\x1b[32m", "DmrgSolver": "\x1b[31m", "LeftRightSuper": "\x1b[35m", "Diag.": "\x1b[36m", "LanczosSolver": "\x1b[1;37m"}


def colors(r, wd, R, C):
    t = ""
    for _ in range(dim(r, 0, 12, 300)):
        t += r.choice(list(COL) + ["Other", "", "x"]) + r.choice([":", ": ", "", " : "]) + words(r) + "\n"
    rc, out, err = perl(R, [R + "/scripts/colorOutput.pl"], t)
    if rc:
        raise Bad("refused", err[-300:])
    if re.sub(r"\x1b\[[0-9;]*m", "", out) != t:
        raise Bad("text", f"{out!r} for {t!r}")
    for a, b in zip(t.split("\n")[:-1], out.split("\n")):
        c = COL.get(a.split(":")[0]) if ":" in a else None
        if (c or "") + a not in b or (not c and re.search(r"\x1b\[(?!0?m)", b)):
            raise Bad("color", f"{b!r} for {a!r}")
        C("lines coloured" if c else "lines not coloured")
    return t


def hosts(r, wd, R, C):
    h = [f"n{i}" for i in r.sample(range(20), r.randint(1, 4))]
    ls = [x for x in h for _ in range(r.randint(1, 3))]
    r.shuffle(ls)
    t = "".join((r.choice(["# remark\n", "\n"]) if r.random() < 0.2 else "") + x + "\n" for x in ls)
    with open(wd + "/n", "w") as f:
        f.write(t)
    k = r.randint(1, 4) * len(h) + (r.choice([0, 0, 1]) if len(h) > 1 else 0)
    rc, out, err = perl(R, [R + "/scripts/mpiRoundRobin.pl", "n", str(k)], cwd=wd)
    if k % len(h):
        if rc == 0:
            raise Bad("accepted", f"{k} jobs on {len(h)} nodes")
        C("node lists refused")
    elif rc or out != ",".join(sorted(h) * (k // len(h))):
        raise Bad("hosts", f"{out!r} for {k} jobs on {sorted(h)} {err[-200:]}")
    else:
        C("node lists compared")
    return t + str(k)


FAMS = dict(shipped=(shipped, 6, 40), manual=(manual, 250, 5000), doxygen=(doxygen, 120, 2000), lorentz=(lorentz, 80, 1000), inverse=(inverse, 40, 400), tabs=(tabs, 100, 1500), colors=(colors, 60, 600), hosts=(hosts, 60, 600))


def run(d, tier, seed, M):
    R = M.REPO
    base = d + "/scratch"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    res = dict(evaluations=0, families={}, counters={}, samples=[], viol=[], hashes=set(), overflow=0)
    only = os.environ.get("C30_ONLY")
    jobs = [(f, i) for f, (_, a, b) in FAMS.items() for i in range(a if tier == "quick" else b) if not only or only in (f, f"{f}:{i}")]

    def one(j):
        f, i = j
        wd = f"{base}/{f}{i}"
        os.makedirs(wd)
        cnt = {}

        def C(k, n=1):
            cnt[k] = cnt.get(k, 0) + n
        bad, desc = None, ""
        try:
            desc = FAMS[f][0](random.Random(f"{seed}:{f}:{i}"), wd, R, C)
        except Bad as e:
            bad = e
            desc = "".join(f"--- {p[len(wd):]}/{x}\n{open(p + '/' + x, encoding='utf-8', errors='replace').read()[:3000]}\n" for p, _, fs in os.walk(wd) for x in sorted(fs))
        shutil.rmtree(wd, ignore_errors=True)
        return f, i, desc, bad, cnt
    with cf.ThreadPoolExecutor(8) as ex:
        for f, i, desc, bad, cnt in ex.map(one, jobs):
            x = res["families"].setdefault(f, [0, 0])
            x[0] += 1
            x[1] += 1
            res["evaluations"] += 1
            res["hashes"].add(int.from_bytes(hashlib.sha256((f + desc).encode("utf-8", "replace")).digest()[:8], "little"))
            for k, v in cnt.items():
                res["counters"][k] = res["counters"].get(k, 0) + v
            if i == 0:
                res["samples"].append(f"{f}: {desc[:200]!r}")
            if bad:
                res["viol"].append(dict(family=f, index=i, key=bad.key, msg=bad.msg, desc=desc, stderr="", run="tools",
                                        replay=f"VERIF_SEED={seed} C30_ONLY={f}:{i} python3 {M.V}/run.py C30 {tier}"))
    shutil.rmtree(base, ignore_errors=True)
    return res
