"""Exact reference models: rational linear programs, simplex, brute-force integer search."""
import itertools
from fractions import Fraction as Fr


def fr(x):
    return Fr(x)


class Model:
    """Reference linear program: exact data plus the documented effect of each in-place edit."""

    def __init__(self, A, b, c, z=0, obj="max", ineq=None, free=(), neg=()):
        self.A = [[fr(v) for v in r] for r in A]
        self.b = [fr(v) for v in b]
        self.c = [fr(v) for v in c]
        self.z = fr(z)
        self.obj = obj
        self.ineq = list(ineq) if ineq is not None else ["="] * len(self.b)
        self.free = sorted(free)      # 1-based
        self.neg = sorted(neg)

    @staticmethod
    def of(spec):
        return Model(spec["A"], spec["b"], spec["c"], spec["z"], spec["obj"], spec["ineq"], spec["free"], spec["neg"])

    def copy(self):
        return Model(self.A, self.b, self.c, self.z, self.obj, self.ineq, self.free, self.neg)

    @property
    def m(self):
        return len(self.b)

    @property
    def n(self):
        return len(self.c)

    def is_sef(self):
        return self.obj == "max" and not self.free and not self.neg and all(i == "=" for i in self.ineq)

    def add_constraint(self, coef, ineq, value):
        self.A.append([fr(v) for v in coef])
        self.b.append(fr(value))
        self.ineq.append(ineq)

    def add_variable(self, coef, column, free, neg):
        self.c.append(fr(coef))
        col = column if column is not None else [0] * self.m
        for r, v in zip(self.A, col):
            r.append(fr(v))
        if free:
            self.free.append(self.n)
        elif neg:
            self.neg.append(self.n)

    def to_sef(self):
        if self.is_sef():
            return
        if self.obj == "min":
            self.c = [-v for v in self.c]
            self.obj = "max"
        negs, frees = set(self.neg), set(self.free)
        cols = list(zip(*self.A)) if self.A else []
        nc, ncols = [], []
        for j in range(self.n):
            col, cj = list(cols[j]), self.c[j]
            if j + 1 in negs:
                col, cj = [-v for v in col], -cj
            nc.append(cj)
            ncols.append(col)
            if j + 1 in frees:
                nc.append(-cj)
                ncols.append([-v for v in col])
        for i, rel in enumerate(self.ineq):
            if rel != "=":
                nc.append(fr(0))
                ncols.append([fr((1 if rel == "<=" else -1) if r == i else 0) for r in range(self.m)])
        self.c = nc
        self.A = [list(r) for r in zip(*ncols)]
        self.ineq = ["="] * self.m
        self.free, self.neg = [], []

    def basis_ok(self, basis):
        """basis: 1-based list."""
        if len(basis) != self.m or len(set(basis)) != len(basis):
            return False
        if min(basis) < 1 or max(basis) > self.n:
            return False
        return inverse([[self.A[i][j - 1] for j in sorted(basis)] for i in range(self.m)]) is not None

    def canonical(self, basis):
        B = [j - 1 for j in basis]
        inv = inverse([[self.A[i][j] for j in B] for i in range(self.m)])
        cb = [self.c[j] for j in B]
        y = [sum(cb[k] * inv[k][i] for k in range(self.m)) for i in range(self.m)]
        z = sum(y[i] * self.b[i] for i in range(self.m)) + self.z
        c = [self.c[j] - sum(y[i] * self.A[i][j] for i in range(self.m)) for j in range(self.n)]
        A = [[sum(inv[i][k] * self.A[k][j] for k in range(self.m)) for j in range(self.n)] for i in range(self.m)]
        b = [sum(inv[i][k] * self.b[k] for k in range(self.m)) for i in range(self.m)]
        self.A, self.b, self.c, self.z = A, b, c, z

    def feasible(self, x, tol=Fr(0)):
        for j, v in enumerate(x):
            if j + 1 in self.free:
                continue
            if j + 1 in self.neg:
                if v > tol:
                    return False
            elif v < -tol:
                return False
        for r, rhs, rel in zip(self.A, self.b, self.ineq):
            s = sum(a * v for a, v in zip(r, x)) - rhs
            if rel == "=" and abs(s) > tol or rel == "<=" and s > tol or rel == ">=" and s < -tol:
                return False
        return True

    def value(self, x):
        return sum(a * v for a, v in zip(self.c, x)) + self.z


def inverse(M):
    n = len(M)
    M = [list(r) + [Fr(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for k in range(n):
        p = next((i for i in range(k, n) if M[i][k] != 0), None)
        if p is None:
            return None
        M[k], M[p] = M[p], M[k]
        d = M[k][k]
        M[k] = [v / d for v in M[k]]
        for i in range(n):
            if i != k and M[i][k] != 0:
                f = M[i][k]
                M[i] = [a - f * b for a, b in zip(M[i], M[k])]
    return [r[n:] for r in M]


def rank(M):
    M = [list(map(Fr, r)) for r in M]
    r = 0
    if not M:
        return 0
    for k in range(len(M[0])):
        p = next((i for i in range(r, len(M)) if M[i][k] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(r + 1, len(M)):
            if M[i][k] != 0:
                f = M[i][k] / M[r][k]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        r += 1
        if r == len(M):
            break
    return r


def solve_exact(model):
    """('optimal', value) | ('infeasible', None) | ('unbounded', None), for the model's own sense."""
    s = model.copy()
    sense = 1 if model.obj == "max" else -1
    s.to_sef()
    v = simplex_exact(s.A, s.b, s.c)
    if v[0] != "optimal":
        return v[0], None
    return "optimal", sense * v[1] + model.z


def simplex_exact(A, b, c):
    """max cx, Ax=b, x>=0, rational tableau, Bland's rule, artificial start; tolerates redundancy."""
    m, n = len(A), len(c)
    T = []
    for i in range(m):
        s = -1 if b[i] < 0 else 1
        T.append([s * v for v in A[i]] + [Fr(int(k == i)) for k in range(m)] + [s * b[i]])
    basis = [n + i for i in range(m)]

    def pivot(r, k):
        d = T[r][k]
        T[r] = [v / d for v in T[r]]
        for i in range(len(T)):
            if i != r and T[i][k] != 0:
                f = T[i][k]
                T[i] = [a - f * q for a, q in zip(T[i], T[r])]
        basis[r] = k

    def run(cost, allowed):
        while True:
            red = None
            for j in allowed:
                if j in basis:
                    continue
                d = cost[j] - sum(cost[basis[i]] * T[i][j] for i in range(len(T)))
                if d > 0:
                    red = j
                    break
            if red is None:
                return True
            best = None
            for i in range(len(T)):
                if T[i][red] > 0:
                    q = (T[i][-1] / T[i][red], basis[i])
                    if best is None or q < best[0]:
                        best = (q, i)
            if best is None:
                return False
            pivot(best[1], red)

    cost1 = [Fr(0)] * n + [Fr(-1)] * m
    run(cost1, range(n + m))
    if sum(T[i][-1] for i in range(m) if basis[i] >= n) != 0:
        return "infeasible", None
    for i in range(m - 1, -1, -1):
        if basis[i] >= n:
            k = next((j for j in range(n) if T[i][j] != 0), None)
            if k is None:
                del T[i]
                del basis[i]
            else:
                pivot(i, k)
    cost2 = list(c) + [Fr(0)] * m
    if not run(cost2, range(n)):
        return "unbounded", None
    return "optimal", sum(cost2[basis[i]] * T[i][-1] for i in range(len(T)))


def integer_exact(model, box):
    """Best integral point of the model within the box (list of (lo, hi)); None if there is none."""
    best = None
    for x in itertools.product(*[range(lo, hi + 1) for lo, hi in box]):
        if model.feasible(x):
            v = model.value(x)
            if best is None or (v > best if model.obj == "max" else v < best):
                best = v
    return best


def mixed_exact(model, box, integral):
    """Best value of a point integral at the positions `integral`, which lie within the box; None if there is none."""
    rest = [j for j in range(model.n) if j not in integral]
    if not rest:
        return integer_exact(model, box)
    best = None
    for x in itertools.product(*[range(box[j][0], box[j][1] + 1) for j in integral]):
        m = model.copy()
        m.b = [v - sum(row[j] * w for j, w in zip(integral, x)) for row, v in zip(model.A, model.b)]
        m.z = model.z + sum(model.c[j] * w for j, w in zip(integral, x))
        m.A = [[row[j] for j in rest] for row in model.A]
        m.c = [model.c[j] for j in rest]
        m.free = type(model.free)(rest.index(j - 1) + 1 for j in model.free if j - 1 in rest)
        m.neg = type(model.neg)(rest.index(j - 1) + 1 for j in model.neg if j - 1 in rest)
        if any((j + 1 in model.neg and w > 0) or (j + 1 not in model.neg and j + 1 not in model.free and w < 0) for j, w in zip(integral, x)):
            continue
        verdict, v = solve_exact(m)
        if verdict == "optimal" and (best is None or (v > best if model.obj == "max" else v < best)):
            best = v
    return best
