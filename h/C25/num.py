"""Small exact-enough numerics used as the reference for the printed results."""
import math


def eigh(a):
    """eigenvalues (ascending) and vectors (columns) of a real symmetric matrix: cyclic Jacobi"""
    n = len(a)
    a = [list(map(float, r)) for r in a]
    v = [[float(i == j) for j in range(n)] for i in range(n)]
    for _ in range(60):
        off = sum(a[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        if off <= 1e-26 * max(1e-300, sum(a[i][i] ** 2 for i in range(n)) + off):
            break
        for p in range(n - 1):
            for q in range(p + 1, n):
                if a[p][q] == 0:
                    continue
                th = (a[q][q] - a[p][p]) / (2 * a[p][q])
                t = (1 if th >= 0 else -1) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    x, y = a[k][p], a[k][q]
                    a[k][p], a[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = a[p][k], a[q][k]
                    a[p][k], a[q][k] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = v[k][p], v[k][q]
                    v[k][p], v[k][q] = c * x - s * y, s * x + c * y
    o = sorted(range(n), key=lambda i: a[i][i])
    return [a[i][i] for i in o], [[v[k][i] for i in o] for k in range(n)]


def eigs_hermitian(a):
    n = len(a)
    b = [[0.0] * (2 * n) for _ in range(2 * n)]
    for i in range(n):
        for j in range(n):
            x = complex(a[i][j])
            b[i][j] = b[n + i][n + j] = x.real
            b[n + i][j] = x.imag
            b[i][n + j] = -x.imag
    e, _ = eigh(b)
    return e[::2]


def solve(a, b):
    n = len(b)
    m = [list(a[i]) + [b[i]] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if abs(m[p][c]) < 1e-300:
            return None
        m[c], m[p] = m[p], m[c]
        for r in range(c + 1, n):
            f = m[r][c] / m[c][c]
            for k in range(c, n + 1):
                m[r][k] -= f * m[c][k]
    x = [0.0] * n
    for c in range(n - 1, -1, -1):
        x[c] = (m[c][n] - sum(m[c][k] * x[k] for k in range(c + 1, n))) / m[c][c]
    return x


class Drand48:
    def __init__(self, seed):
        self.x = ((seed & 0xFFFFFFFF) << 16) + 0x330E

    def __call__(self):
        self.x = (0x5DEECE66D * self.x + 0xB) & ((1 << 48) - 1)
        return self.x / float(1 << 48)
