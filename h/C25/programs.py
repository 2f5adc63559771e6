"""C25: every program the project builds, compiled from the current tree with sanitizers and run on
random command lines and input files; what each prints is compared with a reference computed here."""
import os, random, re, shutil, subprocess, math, hashlib, cmath, itertools, concurrent.futures as cf
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from num import eigh, eigs_hermitian, solve, Drand48

E = "/examples/"
GSL = " -lgsl -lgslcblas"
FLOAT = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"


class Case:
    """one command line: argv, files, valid, check(out, err, files) -> message or None"""

    def __init__(self, args=(), files=None, valid=True, check=None, nontrivial=True, note=""):
        self.args = [str(a) for a in args]
        self.files = files or {}
        self.valid = valid
        self.check = check
        self.nontrivial = nontrivial
        self.note = note


def close(a, b, scale=0.0, rel=2e-5):
    return abs(a - b) <= rel * max(abs(b), scale, 1e-3)


def nums(s):
    return [float(x) for x in re.findall(FLOAT, s)]


def need(cond, msg):
    return None if cond else msg


def g(x):
    return "%.15g" % x


# ---------------------------------------------------------------- tasks in parallel
def sum_of_tasks(want, extra=None):
    def f(out, err, d):
        m = re.search(r"Sum of all tasks= (-?\d+)\n", out)
        if not m:
            return "no sum printed"
        w = want(out) if callable(want) else want
        if int(m.group(1)) != w:
            return f"sum of all tasks is {m.group(1)}, expected {w}"
    return f


def p_threads(r, t):
    nt = r.randint(1, 8)
    n = r.choice([0, 1, 2, nt - 1, nt, nt + 1, r.randint(0, 300)])
    if r.random() < 0.06:
        return Case([0, n], valid=False, note="no threads")
    return Case([nt, n], check=sum_of_tasks(n * (n - 1) // 2), nontrivial=nt > 1 and n > 1)


def p_loadImbalance(r, t):
    nt = r.randint(1, 8)
    n = r.choice([1, 2, nt, nt + 1, r.randint(1, 200)])

    def want(out):
        w = [int(x) for x in out.split("\n")[0].split()]
        rng = Drand48(1234)
        e = [1 + int(10 * rng()) for _ in range(n)]
        if w != e:
            return -1
        return sum(wi * i + wi * (wi - 1) // 2 for i, wi in enumerate(w))
    return Case([nt, n], check=sum_of_tasks(want), nontrivial=nt > 1 and n > 1)


def p_nested(r, t):
    a, b, c, d = r.randint(1, 4), r.randint(0, 12), r.randint(1, 4), r.randint(0, 12)
    n = b * d
    return Case([a, b, c, d], check=sum_of_tasks(n * (n - 1) // 2), nontrivial=n > 1)


def p_range(r, t):
    nt = r.randint(2, 6)
    n = r.randint(1, nt)

    def f(out, err, d):
        m = re.search(r"sum=(\d+)\n(.*)", out, re.S)
        if not m or int(m.group(1)) != n * (n - 1) // 2:
            return "wrong sum"
        return need([float(x) for x in m.group(2).split()] == [n] + [i * i for i in range(n)], "wrong vector of squares")
    return Case([n, nt], check=f, nontrivial=n > 1)


def p_internode(r, t):
    n = r.randint(0, 60)
    s = "".join(map(str, range(n)))

    def f(out, err, d):
        l = out.split("\n")
        return need(len(l) > 3 and l[0] == s and l[2] == s, "does not print every index once, in order")
    return Case([n], check=f, nontrivial=n > 1)


def p_testParallelizer2(r, t):
    n, nt = r.randint(1, 500), r.randint(1, 8)
    if r.random() < 0.06:
        return Case([n, 0], valid=False, note="no threads")

    def f(out, err, d):
        return need(out.endswith(f"\n42 {n + 41}\n") and f" and {nt} threads" in out, "wrong first and last result")
    return Case([n, nt], check=f, nontrivial=nt > 1 and n > 1)


def p_isBlasThreaded(r, t):
    # every matrix is replaced by the next factor, so only square ones can be multiplied repeatedly
    return Case([r.randint(1, 12), r.randint(1, 12), r.randint(1, 12), r.randint(1, 8), r.randint(1, 4)],
                check=lambda o, e, d: None)


def p_testParallelSvd(r, t):
    return Case([r.randint(0, 1), 1], check=lambda o, e, d: None)


def p_testGemmR(r, t):
    nt, nb = r.randint(1, 4), r.randint(100, 160)
    return Case([nt, nb], check=lambda o, e, d: need("ALL PASSED" in o, "GemmR and GEMM differ"))


def p_testGemmR2(r, t):
    return Case([r.randint(1, 2), 1, r.randint(1, 4)], check=lambda o, e, d: None)


# ---------------------------------------------------------------- expressions
def expr(r, depth):
    """expression tree (code, children) and its value"""
    if depth == 0 or r.random() < 0.25:
        x = r.choice([str(r.randint(0, 20)), g(round(r.uniform(0.01, 9), 3)), "%t", "-" + str(r.randint(1, 9))])
        return (x, []), (0.25 if x == "%t" else float(x))
    op = r.choice(["+", "-", "*", "+", "-", "*", "/", "sin", "cos", "exp"])
    a, x = expr(r, depth - 1)
    if op in ("sin", "cos", "exp"):
        if op == "exp" and abs(x) > 20:
            op = "sin"
        return (op, [a]), getattr(math, op)(x)
    b, y = expr(r, depth - 1)
    if op == "/" and abs(y) < 1e-3:
        op = "+"
    v = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
    return (op, [a, b]), v


def level_order(tree):
    out, level = [], [tree]
    while level:
        out += [x[0] for x in level]
        level = [y for x in level for y in x[1]]
    return out


def p_calculator(r, t):
    e, v = expr(r, r.randint(1, 5))
    e = level_order(e)
    k = r.random()
    if k < 0.75 and abs(v) < 1e12:
        s = ":".join(e)

        def f(out, err, d):
            p = out.rstrip("\n").split("\t")
            return need(len(p) == 2 and p[0] == s and close(float(p[1]), v, 1e-2), f"printed {out!r}, expected {v!r}")
        return Case([s], check=f, nontrivial=len(e) > 2)
    if k < 0.85 and len(e) > 1:
        e = e[:-1]
    elif k < 0.93:
        e = e + [str(r.randint(0, 9))]
    else:
        e = [x if x[0] in "+-*/sce" and not x[1:].isdigit() else "zz" for x in e]
    return Case([":".join(e)], valid=False, note="malformed expression")


OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b,
       "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "%%": lambda a, b: a % b == 0}


def p_testPredicate(r, t):
    l = r.randint(0, 30)
    ors = []
    val = False
    for _ in range(r.randint(1, 3)):
        ands = []
        v = True
        for _ in range(r.randint(1, 3)):
            op = r.choice(list(OPS))
            b = r.randint(1, 12)
            bs = "c" if b == 5 else str(b)
            x, ls = (l, "l") if r.random() < 0.8 else (l + 2, "+:l:2")
            ands.append(ls + op + bs)
            v = v and OPS[op](x, b)
        ors.append("&".join(ands))
        val = val or v
    s = ",".join(ors)
    if r.random() < 0.2:
        bad = r.choice(["l", "l==", "==3", "l%%0", "ab", s + "&l", s.replace("l", "zz", 1) if val is False and len(ors) == 1 else "zz==1"])
        return Case([bad, l], valid=False, note="malformed predicate") if bad != s + "&l" else \
            Case([s + ",q", l], valid=False, note="malformed predicate")
    return Case([s, l], check=lambda o, e, d: need(o == str(int(val)), f"predicate {s} at l={l} gives {o!r}"))


def p_options(r, t):
    known = ["fast", "verbose", "hasthreads"]
    o = [r.choice(known) for _ in range(r.randint(0, 5))]
    if r.random() < 0.3:
        o.insert(r.randint(0, len(o)), r.choice(["fas", "fastt", "quick", "Fast", "x"]))
        return Case([",".join(o)], valid=False, note="unregistered option")
    return Case([",".join(o)], check=lambda out, e, d: need(out == f"fast={int('fast' in o)}\n", f"printed {out!r}"),
                nontrivial=len(o) > 0)


def p_sumDecomposition(r, t):
    n, s = r.randint(1, 5), r.randint(0, 6)
    allv = [list(v) for v in itertools.product(range(s + 1), repeat=n) if sum(v) == s]
    k = r.random()
    args = [n, s]
    if k < 0.4:
        want = allv
    elif k < 0.6:
        return Case([n, s, -1], check=lambda o, e, d: need(o == f"{len(allv)}\n", "wrong number of decompositions"))
    else:
        i = r.randint(0, len(allv))
        args.append(i)
        want = allv[i:i + 1]

    def f(out, err, d):
        x = [int(y) for y in out.split()]
        flat = [len(want)] + [y for v in want for y in [n] + v]
        return need(x == flat, f"printed {x}, expected {flat}")
    return Case(args, check=f, nontrivial=len(allv) > 1)


# ---------------------------------------------------------------- numerics
def p_integrator(r, t):
    x0, n, h = round(r.uniform(-4, 4), 2), r.randint(0, 12), round(r.uniform(0.05, 2), 2)

    def f(out, err, d):
        l = out.split("\n")[:-1]
        if len(l) != n:
            return "wrong number of lines"
        for i, s in enumerate(l):
            a, b = map(float, s.split())
            x = x0 + i * h
            if not close(a, x) or not close(b, x ** 3, 1e-2):
                return f"integral up to {x} printed as {s!r}, expected {x**3!r}"
    return Case([x0, n, h], check=f, nontrivial=n > 0)


def p_minimizer(r, t):
    def f(out, err, d):
        m = re.search(r"Minimum found after (\d+) iterations.\n2\n(\S+)\n(\S+)\n", out)
        return need(m and abs(float(m.group(2)) - 2) < 0.01 and abs(float(m.group(3)) - 3) < 0.01, "not the minimum")
    return Case([], check=f)


def symm(r, n, cplx):
    a = [[0j] * n for _ in range(n)]
    kind = r.choice(["dense", "sparse", "diag", "band", "degenerate"])
    for i in range(n):
        for j in range(i, n):
            if kind == "diag" and i != j or kind == "band" and j - i > 1 or kind == "sparse" and r.random() < 0.6:
                continue
            x = round(r.uniform(-2, 2), 3)
            y = round(r.uniform(-1, 1), 3) if cplx and i != j else 0
            if kind == "degenerate":
                x, y = (1.5, 0) if i == j else (0, 0)
            a[i][j] = complex(x, y)
            a[j][i] = complex(x, -y)
    return a


def p_testLanczosMatrixInFile(r, t):
    n = r.randint(1, 9)
    a = symm(r, n, r.random() < 0.6)
    txt = f"{n} {n}\n" + "\n".join(" ".join(f"({g(x.real)},{g(x.imag)})" for x in row) for row in a) + "\n"
    k = r.random()
    if k < 0.08:
        return Case(["m.txt"], {"m.txt": txt.replace(f"{n} {n}\n", f"{n} {n+1}\n", 1)}, valid=False, note="not square")
    if k < 0.12:
        return Case(["none.txt"], {}, valid=False, note="no such file")
    e = eigs_hermitian(a)

    def f(out, err, d):
        m = re.search(r"EXACT: (.*)\n", out)
        x = [float(y) for y in m.group(1).split()] if m else []
        if len(x) != n or not all(close(p, q, 1) for p, q in zip(x, e)):
            return f"exact eigenvalues printed {x}, expected {e}"
        l = [float(y) for y in re.findall(r"<E>_\d+ = (\S+)", out)]
        if len(l) != n:
            return "wrong number of Lanczos eigenvalues"
        # Lanczos finds eigenvalues; the lowest one is the lowest (unless the start has no overlap)
        if not close(l[0], e[0], 1, 1e-4):
            return f"lowest Lanczos energy {l[0]}, expected {e[0]}"
        distinct = all(y - x > 1e-3 for x, y in zip(e, e[1:]))
        if distinct and not all(close(p, q, 1, 1e-4) for p, q in zip(l, e)):
            return f"Lanczos energies {l}, expected {e}"
    return Case(["m.txt"], {"m.txt": txt}, check=f, nontrivial=n > 1)


def p_testExcitedLanczos(r, t):
    k = r.choice([0, 1, 4, 7])
    if k > 3:
        return Case([k], valid=False, note="too many excited states")

    def f(out, err, d):
        m = re.search(r"energy1=(\S+)\n", out)
        e = [float(x) for x in re.findall(r"eigs\[\d\]=(\S+)", err)]
        x = float(m.group(1)) if m else 9
        ok = close(x, -0.25, 1, 1e-4) or (k == 1 and close(x, 0.75, 1, 1e-4))  # -0.25 is degenerate
        return need(ok, f"energy {x}") or \
            need(len(e) == 4 and all(close(x, y, 1) for x, y in zip(e, [-0.25, -0.25, -0.25, 0.75])), f"eigenvalues {e}")
    return Case([k], check=f)


def p_testLanczos(r, t):
    def f(out, err, d):
        m = re.search(r"energy=(\S+)\n8\n(.*)", out, re.S)
        if not m or not close(float(m.group(1)), -0.5, 1, 1e-4):
            return "energy is not -0.5"
        z = [complex(float(a), float(b)) for a, b in re.findall(r"\((\S+),(\S+)\)", m.group(2))]
        w = abs(abs(z[3]) ** 2 + abs(z[5]) ** 2 - 1) < 1e-3 and abs(z[3] - z[5]) < 1e-3 if len(z) == 8 else False
        return need(w, f"not the lowest eigenvector: {z}")
    return Case([], check=f)


def random48(seed):
    r0 = Drand48(seed)
    return Drand48(int(10000.0 * r0()))


def p_sparseSolverTest(r, t):
    n = r.randint(1, 22)
    c = r.choice([0, 0, r.randint(1, n)])
    m = r.choice([0, 0, round(r.uniform(0.1, 8), 2)])
    seed = r.choice([0, r.randint(1, 10 ** 6)])
    args = ["-n", n]
    args += ["-c", c] if c else []
    args += ["-m", m] if m else []
    args += ["-r", seed] if seed else []
    if r.random() < 0.05:
        return Case(args + ["-x"], valid=False, note="removed option")
    c = c or 1 + int(0.1 * n)
    m = m or 1.0
    rng = random48(seed or 3443331)
    a = [[0.0] * n for _ in range(n)]
    for i in range(n):
        x = 1 + int(rng() * c)
        seen = set()
        for _ in range(x):
            col = int(rng() * n)
            if col in seen:
                continue
            seen.add(col)
            v = rng() * m
            a[i][col] += v
            a[col][i] += v
    e, _ = eigh(a)

    def f(out, err, d):
        k = re.search(r"\nEnergy=(\S+)\n", out)
        return need(k and close(float(k.group(1)), e[0], m, 1e-4), f"energy {k and k.group(1)}, expected {e[0]}")
    return Case(args, check=f, nontrivial=n > 1)


def take_matrix(tok):
    n, m = int(tok.pop(0)), int(tok.pop(0))
    a = [[float(tok.pop(0)) for _ in range(m)] for _ in range(n)]
    return a


def take_vec(tok):
    n = int(tok.pop(0))
    return [float(tok.pop(0)) for _ in range(n)]


def take_crs(tok):
    n, m = int(tok.pop(0)), int(tok.pop(0))
    if n == 0 or m == 0:
        return [[0.0] * m for _ in range(n)]
    ptr = [int(float(tok.pop(0))) for _ in range(n + 1)]
    nz = int(tok.pop(0))
    col = [int(float(tok.pop(0))) for _ in range(nz)]
    nz2 = int(tok.pop(0))
    val = [float(tok.pop(0)) for _ in range(nz2)]
    a = [[0.0] * m for _ in range(n)]
    for i in range(n):
        for k in range(ptr[i], ptr[i + 1]):
            a[i][col[k]] += val[k]
    return a


def same(a, b, rel=2e-5):
    return len(a) == len(b) and all(len(x) == len(y) and all(close(p, q, 1, rel) for p, q in zip(x, y)) for x, y in zip(a, b))


def p_testCRSMatrix(r, t):
    def vec(n):
        rng = Drand48(7334211)
        return [rng() * 10.0 for _ in range(n)]

    def product(tok, a):
        if " ".join(tok[:2]) != "initial vector:":
            return "no vector printed"
        del tok[:2]
        y = take_vec(tok)
        if not same([y], [vec(len(a))]):
            return "wrong initial vector"
        del tok[:2]
        x = take_vec(tok)
        z = vec(len(a))
        w = [sum(p * q for p, q in zip(row, z)) for row in a]
        return need(same([x], [w]), f"product {x}, expected {w}")
    if r.random() < 0.5:
        n = r.randint(1, 12)
        ratio = round(r.uniform(0, 1.2), 2)
        rng = Drand48(343981)
        a = [[0.0] * n for _ in range(n)]
        for _ in range(int(ratio * n * n)):
            i = int(rng() * n)
            j = int(rng() * n)
            a[i][j] += rng() * 10.0

        def f(out, err, d):
            tok = out.split()
            m = take_crs(tok)
            return need(same(m, a), f"matrix {m}, expected {a}") or product(tok, a)
        return Case([n, ratio], check=f, nontrivial=n > 1)
    n = r.randint(1, 10)
    a = [[round(r.uniform(-9, 9), 3) if r.random() < 0.5 else 0.0 for _ in range(n)] for _ in range(n)]
    txt = f"{n} {n}\n" + "\n".join(" ".join(map(g, x)) for x in a) + "\n"
    if r.random() < 0.1:
        return Case(["m.txt"], {"m.txt": r.choice([f"-{n} {n}\n1\n", "x y\n", "", f"{n} {n}\n1 " + "0 " * (n * n - 2), f"{n} {n}\n" + "z " * (n * n)] if n > 1 else ["", "0 0\n"])}, valid=False, note="not a matrix")

    def f(out, err, d):
        tok = out.split()
        m = take_matrix(tok)
        e = need(same(m, a), "dense matrix differs") or product(tok, a)
        if e:
            return e
        c = take_crs(tok)
        if not same(c, a) or not tok or tok.pop(0) != "----------":
            return f"sparse matrix differs: {c} expected {a}"
        return need(same(take_matrix(tok), a), "toDense differs")
    return Case(["m.txt"], {"m.txt": txt}, check=f, nontrivial=n > 1)


def p_linearPrediction(r, t):
    q = r.randint(2, 4)
    n = 2 * r.randint(max(q, 5), 25)
    w = [r.uniform(0.1, 1.4) for _ in range(3)]
    y = [sum(math.cos(a * i) for a in w) * math.exp(-0.02 * i) + r.uniform(-.05, .05) for i in range(n)]
    y = [float("%.12g" % v) for v in y]
    p = r.randint(1, 6)
    txt = f"Series\n{n}\n" + "\n".join("%.12g" % v for v in y) + "\n"
    k = r.random()
    if k < 0.05:
        return Case(["-f", "s.txt", "-l", "Nope", "-p", p], {"s.txt": txt}, valid=False, note="no such label")
    if k < 0.1:
        return Case(["-f", "s.txt", "-l", "Series", "-p", p], {"s.txt": f"Series\n{n-1}\n" + "1 " * (n - 1)}, valid=False,
                    note="odd number of points")
    if k < 0.15:
        return Case(["-f", "s.txt", "-l", "Series", "-p", p], {"s.txt": f"Series\n{n}\n" + "0.5 " * (n - 1)}, valid=False,
                    note="truncated series")
    # fitted twice over: the data are not refitted, only extrapolated (y never grows in the program)
    h = n // 2
    A = [[sum(y[i - l - 1] * y[i - j - 1] for i in range(h, 2 * h)) for j in range(q)] for l in range(q)]
    B = [sum(y[i - l - 1] * y[i] for i in range(h, 2 * h)) for l in range(q)]
    d = solve(A, B)
    ext = list(y)
    for _ in range((p + 1) * q):
        ext.append(sum(d[j] * ext[-j - 1] for j in range(q)))

    def f(out, err, dd):
        l = out.split("\n")[:-1]
        if l[0] != f"#Found {n} points in file s.txt":
            return f"printed {l[0]!r}"
        x = [float(v) for v in l[1:]]
        if len(x) != n + p:
            return f"{len(x)} values, expected {n + p}"
        if not all(close(a, b, 1, 1e-4) for a, b in zip(x, ext)):
            return f"prediction {x[n:]}, expected {ext[n:n+p]}"
    return Case(["-f", "s.txt", "-l", "Series", "-p", p, "-q", q], {"s.txt": txt}, check=f)


def cf_data(r):
    n = r.randint(1, 7)
    a = [round(r.uniform(-2, 2), 3) for _ in range(n)]
    b = [round(r.uniform(0.1, 1), 3) for _ in range(n)]
    w, eg, s = round(r.uniform(0.1, 2), 3), round(r.uniform(-2, 0), 3), r.choice([1, -1])
    t = [[0.0] * n for _ in range(n)]
    for i in range(n):
        t[i][i] = a[i]
        if i + 1 < n:
            t[i][i + 1] = t[i + 1][i] = b[i + 1]
    e, v = eigh(t)
    return dict(n=n, a=a, b=b, w=w, eg=eg, s=s, e=e, i=[x * x for x in v[0]])


def cf_text(c, bad=None, r=None):
    a, b = list(c["a"]), list(c["b"])
    if bad == "short b":
        b = b[:r.randint(0, len(b) - 1)]
    if bad == "short a":
        a = a[:r.randint(0, len(a) - 1)]
    if bad == "empty":
        a, b = [], []
    t = f"#Avector\n{len(a)}\n" + "".join(g(x) + "\n" for x in a) + "\n"
    t += f"#Bvector\n{len(b)}\n" + "".join(g(x) + "\n" for x in b) + "\n"
    t += f"#FreqEnum=Real\n #CFWeight=({g(c['w'])},0)\n#CFEnergy={g(c['eg'])}\n#CFIsign={c['s']}\n#CFEigs\n"
    t += f"{c['n']}\n" + "".join(g(x) + "\n" for x in c["e"]) + f"\n#CFIntensities\n{c['n']}\n" + "".join(g(x) + "\n" for x in c["i"])
    if bad == "truncated":
        t = t[:r.randint(0, t.index("#CFIntensities"))]
    if bad == "word":
        t = t.replace(g(a[0]) + "\n", "zz\n", 1)
    return t + "\n"


def cf_value(c, z):
    return c["w"] * sum(i / (z - c["s"] * (c["eg"] - e)) for i, e in zip(c["i"], c["e"]))


def grid(r):
    wb = round(r.uniform(-3, 0), 2)
    n = r.randint(1, 12)
    h = round(r.uniform(0.05, 0.5), 2)
    d = round(r.uniform(0.05, 0.5), 2)
    return wb, round(wb + n * h - h / 2, 4), h, d, n


def p_continuedFraction(r, t):
    c = cf_data(r)
    wb, we, h, dl, n = grid(r)
    args = ["-f", "cf", "-b", wb, "-e", we, "-s", h, "-d", dl]
    bad = r.choice(["short b", "short a", "empty", "truncated", "word"]) if r.random() < 0.25 else None
    if bad:
        return Case(args, {"cf": cf_text(c, bad, r)}, valid=False, note=bad)

    def f(out, err, d):
        l = [list(map(float, x.split())) for x in out.split("\n")[:-1]]
        if len(l) != n:
            return f"{len(l)} frequencies, expected {n}"
        for i, (w, re_, im) in enumerate(l):
            v = cf_value(c, complex(wb + i * h, dl))
            if not close(w, wb + i * h) or not close(re_, v.real, abs(v), 1e-4) or not close(im, v.imag, abs(v), 1e-4):
                return f"at {wb+i*h}: printed {l[i]}, expected {v}"
    return Case(args, {"cf": cf_text(c)}, check=f)


def p_combineContinuedFraction(r, t):
    cs = [cf_data(r) for _ in range(r.randint(1, 4))]
    files = {f"f{i}": cf_text(c) for i, c in enumerate(cs)}

    def f(out, err, d):
        if not out.startswith(f"#CONTINUEDFRACTIONCOLLECTION={len(cs)}\n"):
            return "wrong header"
        p = out.split("#Avector")[1:]
        for c, s in zip(cs, p):
            m = re.search(r"^(.*)#Bvector(.*)#FreqEnum=Real.*#CFWeight=\((\S+),0\)\n#CFEnergy=(\S+)\n#CFIsign=(\S+)\n#CFEigs(.*)#CFIntensities(.*)", s, re.S)
            if not m:
                return "unreadable fraction"
            a, b, e, i = (take_vec(m.group(k).split()) for k in (1, 2, 6, 7))
            ok = same([a, b, e, i], [c["a"], c["b"], c["e"], c["i"]]) and close(float(m.group(3)), c["w"]) \
                and close(float(m.group(4)), c["eg"]) and int(m.group(5)) == c["s"]
            # 12 digits are promised
            ok = ok and all(abs(x - y) <= 1e-10 * max(1, abs(y)) for x, y in zip(a + b, c["a"] + c["b"]))
            ok = ok and all(abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(e, c["e"]))
            if not ok:
                return f"fraction differs: {s!r} expected {c}"
        return need(len(p) == len(cs), "fractions missing")
    if r.random() < 0.15:
        files["f0"] = cf_text(cs[0], r.choice(["short b", "short a", "empty", "truncated", "word"]), r)
        return Case(sorted(files), files, valid=False, note="malformed fraction")
    return Case(sorted(files), files, check=f)


def p_continuedFractionCollection(r, t):
    cs = [cf_data(r) for _ in range(r.randint(1, 4))]
    k = len(cs)
    mode = r.choice(["real", "mats", "one", "count", "bad"])
    body = "".join(cf_text(c) for c in cs)
    if mode == "bad":
        cs2 = cs + [cf_data(r)]
        i = r.randrange(len(cs2))
        bad = r.choice(["short b", "short a", "word"])
        body = "".join(cf_text(c, bad if j == i else None, r) for j, c in enumerate(cs2))
        k = len(cs2)
    if mode == "count":
        k = r.choice([0, -1, k + 1])
    txt = f"#CONTINUEDFRACTIONCOLLECTION={k}\n" + body
    wb, we, h, dl, n = grid(r)
    args = ["-f", "cc", "-b", wb, "-e", we, "-s", h, "-d", dl]
    zs = [complex(wb + i * h, dl) for i in range(n)]
    xs = [z.real for z in zs]
    if mode in ("bad", "count"):
        return Case(args, {"cc": txt}, valid=False, note=mode)
    if mode == "mats":
        beta = round(r.uniform(0.5, 5), 2)
        n = r.randint(1, 10)
        args = ["-f", "cc", "-B", beta, "-m", n, "-d", dl]
        zs = [complex(dl, (2 * i + 1) * math.pi / beta) for i in range(n)]
        xs = [z.imag for z in zs]
    if mode == "one":
        args.append("-1")
    want = []
    for sel in ([[c] for c in cs] if mode == "one" else [cs]):
        for x, z in zip(xs, zs):
            v = sum(cf_value(c, z) for c in sel)
            want.append((x, v.imag, v.real, abs(v)))

    def f(out, err, d):
        l = [list(map(float, x.split())) for x in out.split("\n")[:-1]]
        if len(l) != len(want):
            return f"{len(l)} lines, expected {len(want)}"
        for p, q in zip(l, want):
            if not (close(p[0], q[0], 1, 1e-9) and close(p[1], q[1], q[3], 1e-8) and close(p[2], q[2], q[3], 1e-8)):
                return f"printed {p}, expected {q}"
    return Case(args, {"cc": txt}, check=f)


def p_kernelPolynomial(r, t):
    n = r.randint(2, 12)
    mu = [round(r.uniform(-1, 1), 4) for _ in range(n)]
    eg, oa, b = round(r.uniform(-1, 1), 3), round(r.uniform(0.1, 0.6), 3), round(r.uniform(-1, 1), 3)
    wb, we, h, _, nf = grid(r)
    txt = f"#ChebyshevSerializerMarker=0\n#ChebyshevEnergy={eg}\n#ChebyshevOneOverA={oa}\n#ChebyshevB={b}\n" \
          f"#ChebyshevMoments\n{n}\n" + "\n".join(map(str, mu)) + "\n"
    args = ["-f", "ch", "-b", wb, "-e", we, "-s", h]
    k = r.random()
    if k < 0.06:
        return Case(args, {"ch": txt.replace(f"Moments\n{n}\n", "Moments\n0\n")}, valid=False, note="no moments")
    if k < 0.12:
        return Case(args, {"ch": txt.replace("#Chebyshev", "#Ch")}, valid=False, note="no marker")
    cut = n
    if r.random() < 0.5:
        c = r.randint(1, n + 3)
        args += ["-c", c]
        cut = min(n, c)
    kind = r.choice(["jackson", "lorentz", "dirichlet"])
    zero = r.random() < 0.3
    if zero:
        args.append("-z")
    gn = [1.0] * cut
    if kind == "jackson":
        N = cut + 1
        gn = [((N - i) * math.cos(math.pi * i / N) + math.sin(math.pi * i / N) / math.tan(math.pi / N)) / N for i in range(cut)]
    if kind == "lorentz":
        lam = round(r.uniform(0.5, 4), 2)
        args += ["-l", lam]
        gn = [math.sinh(lam * (1 - i / cut)) / math.sinh(lam) for i in range(cut)]
    if kind == "dirichlet":
        args.append("-d")

    def f(out, err, d):
        l = [list(map(float, x.split())) for x in out.split("\n")[:-1]]
        if len(l) != nf:
            return f"{len(l)} lines, expected {nf}"
        for i, (w, v) in enumerate(l):
            x = (wb + i * h + eg - b) * oa
            e = 0.0
            den = math.sqrt(1 - x * x) if abs(x) <= 1 else 0
            if abs(den - 1e-6) < 1e-7:
                continue
            if den > 1e-6:
                e = 2 * (0.5 * mu[0] * gn[0] + sum(mu[j] * gn[j] * math.cos(j * math.acos(x)) for j in range(1, cut))) / den
            if zero:
                e = max(e, 0)
            if not close(w, wb + i * h) or not close(v, e, 1 / den if den > 1e-6 else 1, 1e-4):
                return f"at {wb+i*h}: printed {v}, expected {e}"
    return Case(args, {"ch": txt}, check=f)


# ---------------------------------------------------------------- run ids, base64, io, output
def p_base64test(r, t):
    def f(out, err, d):
        s = "ADP GmbH\nAnalyse Design & Programmierung\nGesellschaft mit beschränkter Haftung"
        import base64
        return need(out == f"encoded: {base64.b64encode(s.encode()).decode()}\ndecoded: {s}\n", "not a base64 round trip")
    return Case([], check=f)


def p_checkRunId(r, t):
    k = r.random()
    if k < 0.4:
        n = r.randint(1, 12)

        def f(out, err, d):
            l = out.split("\n")[:-1]
            if len(l) != n:
                return "wrong number of ids"
            for s in l:
                a, b, c = s.split()
                if bin(int(a)).count("1") != int(c) or int(b) != int(c):
                    return f"check digits do not match: {s}"
        return Case(["-g", n], check=f)
    x = r.getrandbits(r.choice([8, 31, 32, 33, 62, 63]))
    p = bin(x).count("1")
    if k < 0.7:
        return Case(["-i", f"{x}{p:02d}"], check=lambda o, e, d: need(o == f"{x} {p:02d} {p}\n", f"printed {o!r}"))
    if k < 0.75:
        return Case(["-i", r.choice(["1", "12", "x"])], valid=False, note="too short")
    q = (p + r.randint(1, 90)) % 100
    return Case(["-i", f"{x}{q:02d}"], valid=False, note="wrong check digits")


def p_testIoNg(r, t):
    return Case([], check=lambda o, e, d: need(o.split() == ["10"] + ["42"] * 10, f"read back {o!r}"))


def p_testIoNgBoolean(r, t):
    n = r.choice([1, 2, 7, 8, 63, 64, 65, r.randint(1, 700)])
    return Case([n], check=lambda o, e, d: need(e.count("OK\n") == 2 and "DIFFER" not in e, "differs when read back"),
                nontrivial=n > 1)


def p_redirect(r, t):
    if r.random() < 0.5:
        return Case([], check=lambda o, e, d: need(o == "Hello!\n", "output lost"))
    old = {"test": "old contents, longer than the new\n"} if r.random() < 0.5 else {}

    def f(out, err, d):
        return need(out == "" and open(d + "/test").read() == "Hello!\n", "output is not in the file")
    return Case(["x"], old, check=f)


def p_svd(r, t):
    def f(out, err, d):
        for part in out.split("Fallback"):
            u = part[part.index("U\n") + 2:part.index("S\n")].split()
            s = part[part.index("S\n") + 2:].split()
            u, s = take_matrix(u), take_vec(s)
            if not close(s[0], 5.46499, 1, 1e-4) or not close(s[1], 0.365966, 1, 1e-4):
                return f"singular values {s}"
            for i in range(4):
                for j in range(4):
                    if abs(sum(u[k][i] * u[k][j] for k in range(4)) - (i == j)) > 1e-4:
                        return "U is not orthogonal"
            # U^T A A^T U = S^2
            a = [[2, 4], [1, 3], [0, 0], [0, 0]]
            for i in range(2):
                x = [sum(u[k][i] * a[k][j] for k in range(4)) for j in range(2)]
                if abs(math.hypot(*x) - s[i]) > 1e-3:
                    return "U does not belong to S"
    return Case([], check=f)


def p_randomTest(r, t):
    s = r.randint(0, 2 ** 31 - 1)
    w = Drand48(s)()
    return Case([s], check=lambda o, e, d: need(o.startswith("x=") and close(float(o[2:]), w), f"printed {o!r}, expected {w}"))


def p_exact(text):
    def f(r, t):
        return Case([], check=lambda o, e, d: need(o == text, f"printed {o[:200]!r}"))
    return f


def p_closures(r, t):
    return Case([], check=lambda o, e, d: need(o.count("CHECK PASSES=1") == 4 and "1.32\n" in o, "closures do not agree"))


def p_silent(r, t):
    return Case([], check=lambda o, e, d: None)


# ---------------------------------------------------------------- inputs
def p_ainurTest(r, t):
    n = r.randint(1, 9999)
    model = "".join(r.choice("ABCabc019") for _ in range(r.randint(1, 12)))
    pre = open(REPO + "/src/Ainur/prelude.ain").read()
    inp = open(REPO + "/src/Ainur/input0.ain").read()
    inp = inp.replace("TotalNumberOfSites=16", f"TotalNumberOfSites={n}").replace('"HubbardOneBand"', f'"{model}"')
    fn = open(REPO + "/src/Ainur/function.txt").read()
    files = {"a.ain": pre, "b.ain": inp, "function.txt": fn}
    k = r.random()
    if k < 0.15:
        bad = r.choice([("=%d;" % n, "=%d" % n), (f"={n};", "=zz;"), (f"={n};", "=1.5;"), ("TotalNumberOfSites", "NotDeclared"),
                        (f'"{model}";', ";")])
        files["b.ain"] = inp.replace(bad[0], bad[1], 1)
        return Case(["a.ain", "b.ain"], files, valid=False, note="malformed input")
    if k < 0.2:
        del files["function.txt"]
        return Case(["a.ain", "b.ain"], files, valid=False, note="function file missing")

    def f(out, err, d):
        return need(out.startswith(f"Read: TotalNumberOfSites={n}\n{model}\n"), f"printed {out[:120]!r}")
    return Case(["a.ain", "b.ain"], files, check=f)


def p_ainurReal(r, t):
    n, k = r.randint(1, 999), r.randint(1, 30)
    v = round(r.uniform(-9, 9), 3)
    rows, cols = r.randint(1, 4), r.randint(1, 4)
    m = [[r.randint(-9, 99) for _ in range(cols)] for _ in range(rows)]
    txt = f"##Ainur1.0\nint TotalNumberOfSites={n};\nvector myv2;\nmyv2=[{v},...x{k}];\n" \
          f"string Model=\"x\";\nModel=\"m{n}\";\nmatrix mymatrix=[\n" + ",\n".join(str(x) for x in m) + "];\n"
    if r.random() < 0.2:
        bad = r.choice([("];\n", "]\n"), ("=[\n", "=[\n[1,2,3,4,5],"), (f"x{k}]", "xx]"), (f"={n};", "=\"a\";")])
        return Case(["a.ain"], {"a.ain": txt.replace(bad[0], bad[1], 1)}, valid=False, note="malformed input")

    def f(out, err, d):
        tok = out.split()
        if tok[1] != f"TotalNumberOfSites={n}" or tok[2] != f"m{n}":
            return f"printed {out[:120]!r}"
        tok = tok[3:]
        return need(same([take_vec(tok)], [[v] * k]) and same(take_matrix(tok), m), f"vector or matrix differ: {out!r}")
    return Case(["a.ain"], {"a.ain": txt}, check=f)


def p_testInputNg(r, t):
    n = r.randint(-99, 99999)
    ain = r.random() < 0.5
    v = [r.randint(-9, 9) for _ in range(r.randint(1, 6))]
    if ain:
        txt = f"##Ainur1.0\nmyscalar={n};\nmyvector={v};\nmystring=\"Hello\";\n"
    else:
        txt = f"myscalar={n}\nmyvector {len(v)} " + " ".join(map(str, v)) + "\nmystring=Hello\n"
    if r.random() < 0.2:
        if ain:
            bad = r.choice([("myscalar", "other"), ("];", ";"), (f"={n};", "=zz;"), ("myvector", "myvect")])
        else:
            bad = r.choice([("myscalar", "other"), (f"myvector {len(v)} ", f"myvector {len(v)+50} "), ("myvector", "yvector")])
        return Case(["in.txt"], {"in.txt": txt.replace(bad[0], bad[1], 1)}, valid=False, note="malformed input")
    return Case(["in.txt"], {"in.txt": txt},
                check=lambda o, e, d: need(o == f"I've read label myscalar with value {n} from in.txt\n", f"printed {o!r}"))


def mutate(r, s):
    """damage a text in a few places (no digits are added, so that sizes stay reasonable)"""
    for _ in range(r.randint(1, 3)):
        if not s:
            break
        i = r.randrange(len(s))
        k = r.randrange(6)
        if k == 0:
            s = s[:i]
        elif k == 1:
            s = s[:i] + s[i + 1:]
        elif k == 2:
            s = s[:i] + r.choice("#;[]{}()\"'\\=,.:- \n\t\0\x80xe+*") + s[i + 1:]
        elif k == 3:
            s = s[:i] + r.choice("#;[]{}()\"'\\=,.:- \n\t\0\x80xe+*") + s[i:]
        else:
            l = s.split("\n")
            a, b = r.randrange(len(l)), r.randrange(len(l))
            if k == 4:
                l[a], l[b] = l[b], l[a]
            else:
                l[a] = l[b]
            s = "\n".join(l)
    return s


def damaged(gen):
    """the same runs with damaged files: whatever they do, they must not crash or hang"""
    def f(r, t):
        while True:
            c = gen(r, t)
            if c.files and c.valid:
                break
        k = r.choice(sorted(c.files))
        c.files[k] = mutate(r, c.files[k])
        c.valid = None
        c.note = "damaged file"
        return c
    return f


X = "/examples/"
# name: (source, generator, quick cases, thorough cases, flavours)
PROGRAMS = {
    "threads": (X, p_threads, 60, 600, "at"), "affinityTest": (X, p_threads, 30, 300, "at"),
    "loadImbalance": (X, p_loadImbalance, 40, 400, "at"), "nested": (X, p_nested, 40, 400, "at"),
    "range": (X, p_range, 4, 16, "at"), "internode": (X, p_internode, 15, 100, "at"),
    "testParallelizer2": (X, p_testParallelizer2, 60, 600, "at"), "isBlasThreaded": (X, p_isBlasThreaded, 20, 200, "at"),
    "testParallelSvd": (X, p_testParallelSvd, 2, 6, "a"), "testGemmR": (X, p_testGemmR, 2, 8, "at"),
    "testGemmR2": (X, p_testGemmR2, 3, 12, "at"), "calculator": (X, p_calculator, 200, 4000, "a"),
    "testPredicate": (X, p_testPredicate, 200, 4000, "a"), "options": (X, p_options, 40, 300, "a"),
    "sumDecomposition": (X, p_sumDecomposition, 60, 400, "a"), "integrator": (X, p_integrator, 30, 400, "a"),
    "minimizer": (X, p_minimizer, 1, 1, "a"), "testLanczosMatrixInFile": (X, p_testLanczosMatrixInFile, 80, 1200, "a"),
    "testExcitedLanczos": (X, p_testExcitedLanczos, 6, 12, "a"), "testLanczos": (X, p_testLanczos, 2, 4, "a"),
    "sparseSolverTest": (X, p_sparseSolverTest, 60, 800, "a"), "testCRSMatrix": (X, p_testCRSMatrix, 120, 1500, "a"),
    "linearPrediction": (X, p_linearPrediction, 60, 800, "a"), "continuedFraction": (X, p_continuedFraction, 80, 1200, "a"),
    "combineContinuedFraction": (X, p_combineContinuedFraction, 50, 600, "a"),
    "continuedFractionCollection": (X, p_continuedFractionCollection, 80, 1200, "a"),
    "kernelPolynomial": (X, p_kernelPolynomial, 80, 1200, "a"), "base64test": (X, p_base64test, 1, 1, "a"),
    "checkRunId": (X, p_checkRunId, 50, 400, "a"), "testIoNg": (X, p_testIoNg, 1, 2, "a"),
    "testIoNgBoolean": (X, p_testIoNgBoolean, 20, 200, "a"), "test_redirect_output": (X, p_redirect, 6, 20, "a"),
    "svd": (X, p_svd, 1, 1, "a"), "randomTest": (X, p_randomTest, 20, 200, "a"),
    "testIsClass": (X, p_exact("1\n0\n0\n1\n0\n"), 1, 1, "a"), "closuresTest": (X, p_closures, 1, 1, "a"),
    "testLapack": (X, p_silent, 1, 1, "a"), "myApp01": (X, p_silent, 1, 1, "a"),
    "ainurTest": ("/src/Ainur/test.cpp", p_ainurTest, 40, 400, "a"),
    "ainurTestReal": ("/src/Ainur/testReal.cpp", p_ainurReal, 60, 600, "a"),
    "testInputNg": (X, p_testInputNg, 60, 800, "a"),
}
DAMAGED = ("testLanczosMatrixInFile", "testCRSMatrix", "linearPrediction", "continuedFraction", "combineContinuedFraction",
           "continuedFractionCollection", "kernelPolynomial", "ainurTest", "ainurTestReal", "testInputNg")
REPO = "/repo"
CRASH = re.compile(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer|runtime error:|AddressSanitizer:DEADLYSIGNAL|Assertion `|"
                   r"Segmentation fault|stack smashing|double free|free\(\): invalid|pure virtual)")


def build(d, M):
    out = ["ninja_required_version = 1.5",
           "rule cxx\n command = g++ $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
           "rule link\n command = g++ $flags $in -o $out $libs", "rule ar\n command = rm -f $out; ar cr $out $in"]
    R = M.REPO
    for fl in ("asan", "tsan"):
        flags = f"{M.FLAV[fl]} {M.WARN} {M.BASEDEF} {M.INC} -DUSE_GSL"
        lib = []
        for s in M.LIBSRC:
            if fl == "tsan" and "Ainur" in s:
                continue
            o = f"{d}/{fl}/lib/{s.replace('/', '_')}.o"
            out.append(f"build {o}: cxx {R}/src/{s}.cpp\n flags = {flags}")
            lib.append(o)
        out.append(f"build {d}/{fl}/lib.a: ar {' '.join(lib)}")
        for p, (src, _, _, _, fls) in PROGRAMS.items():
            if fl[0] not in fls:
                continue
            src = R + (src if src.endswith(".cpp") else src + p + ".cpp")
            out.append(f"build {d}/{fl}/{p}.o: cxx {src}\n flags = {flags}")
            out.append(f"build {d}/{fl}/{p}: link {d}/{fl}/{p}.o {d}/{fl}/lib.a\n flags = {M.FLAV[fl]}\n libs = {M.LIBS}{GSL}")
    with open(d + "/build.ninja", "w") as f:
        f.write("\n".join(out) + "\n")
    r = subprocess.run(["ninja", "-f", d + "/build.ninja"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise M.HarnessFail("build failed:\n" + r.stdout[-6000:])


def execute(exe, case, wd, env, limit):
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    for k, v in case.files.items():
        with open(f"{wd}/{k}", "w", encoding="latin-1") as f:
            f.write(v)
    try:
        p = subprocess.run([exe] + case.args, cwd=wd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=limit)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return None, "", ""


def judge(case, rc, out, err, wd):
    m = CRASH.search(err)
    if m:
        return "crash", m.group(1) + ": " + err[max(0, m.start() - 100):m.start() + 400]
    if rc is None:
        return "hang", "did not end"
    if rc < 0 and not (rc == -6 and "terminate called after throwing" in err and "what():" in err):
        return "crash", f"ended by signal {-rc}: {err[:300]}"
    if case.valid is None:
        return None
    if case.valid:
        if rc != 0:
            return "refused", f"exit status {rc}: {err[:400]}"
        try:
            e = case.check(out, err, wd)
        except Exception as x:
            e = f"unreadable output ({type(x).__name__} {x}): {out[:300]!r}"
        return ("result", e) if e else None
    if rc == 0:
        return "accepted", f"{case.note}: exit status 0, printed {out[:200]!r}"
    if not err and not out:
        return "accepted", f"{case.note}: no message"
    return None


def run(d, tier, seed, M):
    global REPO
    REPO = M.REPO
    build(d, M)
    env = {k: v for k, v in os.environ.items() if not k.endswith("SAN_OPTIONS")}
    env.update(M.SANENV)
    res = dict(evaluations=0, families={}, counters={}, samples=[], viol=[], hashes=set(), overflow=0)
    only = os.environ.get("C25_ONLY")
    base = d + "/scratch"
    jobs = []
    for p, (_, gen, nq, nth, fls) in PROGRAMS.items():
        for fl in ("asan", "tsan"):
            if fl[0] not in fls:
                continue
            n = nq if tier == "quick" else nth
            if fl == "tsan":
                n = (n + 1) // 2
            for i in range(n):
                if only and only != f"{p}.{fl}:{i}" and only != p:
                    continue
                jobs.append((p, fl, i, gen(random.Random(f"{seed}:{p}:{fl}:{i}"), tier)))
            if p in DAMAGED:
                for i in range(10 ** 6, 10 ** 6 + n):
                    if only and only != f"{p}.{fl}:{i}":
                        continue
                    jobs.append((p, fl, i, damaged(gen)(random.Random(f"{seed}:{p}:{fl}:{i}"), tier)))

    def one(j):
        p, fl, i, c = j
        wd = f"{base}/{p}.{fl}.{i}"
        exe = f"{d}/{fl}/{p}"
        r = execute(exe, c, wd, env, 120)
        if r[0] is None:
            r = execute(exe, c, wd, env, 240)
        v = judge(c, *r, wd)
        shutil.rmtree(wd, ignore_errors=True)
        return j, r, v
    jobs.sort(key=lambda j: j[0] not in ("testGemmR", "testGemmR2", "testParallelSvd", "range"))
    with cf.ThreadPoolExecutor(8) as ex:
        for (p, fl, i, c), (rc, out, err), v in ex.map(one, jobs):
            fam = f"{p}.{fl}"
            x = res["families"].setdefault(fam, [0, 0])
            x[0] += 1
            x[1] += bool(c.nontrivial)
            res["evaluations"] += 1
            cnt = res["counters"]
            for k in ("runs." + fl, "valid command lines" if c.valid else "damaged files" if c.valid is None else "malformed inputs refused" if not v else "malformed inputs",
                      "lines printed"):
                cnt[k] = cnt.get(k, 0) + (out.count("\n") if k == "lines printed" else 1)
            if c.nontrivial:
                h = hashlib.sha256(repr((p, c.args, sorted(c.files.items()))).encode()).digest()
                res["hashes"].add(int.from_bytes(h[:8], "little"))
            if i == 0:
                res["samples"].append(f"{fam}: {p} {' '.join(c.args)} -> {rc} {out.strip()[-60:]!r}")
            if v:
                files = "".join(f"\n--- file {k}\n{t}" for k, t in c.files.items())
                res["viol"].append(dict(family=fam, index=i, key=v[0], msg=v[1] or "", desc=f"{p} {' '.join(map(repr, c.args))}{files}",
                                        stderr=err[:4000], run="programs",
                                        replay=f"VERIF_SEED={seed} C25_ONLY={fam}:{i} python3 {M.V}/run.py C25 {tier}"))
    shutil.rmtree(base, ignore_errors=True)
    return res
