"""Reference Clifford algebra, written from the textbook definition and sharing
no code with galgebra.

A multivector is a dict {bitmask: coefficient}; bit k stands for basis vector
k, and the bitmask for the wedge (outer) product of the named vectors in
increasing order.  The only ingredient is Chevalley's formula
    v M = v ^ M + v _| M
so the algebra works for every symmetric bilinear form, orthogonal or not,
degenerate or not.  Coefficients may be any exact number type (Fraction).
"""
from fractions import Fraction as F


def popcount(m):
    return bin(m).count('1')


def bits(m):
    out, k = [], 0
    while m:
        if m & 1:
            out.append(k)
        m >>= 1
        k += 1
    return out


def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return clean(r)


def clean(a):
    return {k: v for k, v in a.items() if v != 0}


def smul(s, a):
    return clean({k: s * v for k, v in a.items()})


def wedge_sign(A, B):
    """sign of reordering blade A followed by blade B (disjoint masks)"""
    sw = 0
    A >>= 1
    while A:
        sw += popcount(A & B)
        A >>= 1
    return -1 if sw & 1 else 1


class RefGA:
    def __init__(self, g):
        self.g = g
        self.n = len(g)
        self._bb = {}
        self.dim = 1 << self.n

    # ---- products -------------------------------------------------------
    def vec_lc_blade(self, i, B):
        """e_i _| B for basis blade B"""
        r = {}
        s = 1
        for k in bits(B):
            c = self.g[i][k]
            if c != 0:
                m = B & ~(1 << k)
                r[m] = r.get(m, 0) + s * c
            s = -s
        return clean(r)

    def vec_lc(self, i, M):
        r = {}
        for B, c in M.items():
            r = add(r, self.vec_lc_blade(i, B), c)
        return r

    def vec_wedge(self, i, M):
        r = {}
        for B, c in M.items():
            if not (B >> i) & 1:
                m = B | (1 << i)
                r[m] = r.get(m, 0) + wedge_sign(1 << i, B) * c
        return clean(r)

    def vec_mul(self, i, M):
        return add(self.vec_wedge(i, M), self.vec_lc(i, M))

    def bb(self, A, B):
        """geometric product of two basis blades"""
        key = (A, B)
        if key not in self._bb:
            if A == 0:
                r = {B: 1}
            else:
                i = (A & -A).bit_length() - 1
                A1 = A & ~(1 << i)
                r = self.vec_mul(i, self.bb(A1, B))
                for C, c in self.vec_lc_blade(i, A1).items():
                    r = add(r, self.bb(C, B), -c)
            self._bb[key] = r
        return self._bb[key]

    def _bilin(self, a, b, f):
        r = {}
        for A, x in a.items():
            for B, y in b.items():
                c = x * y
                for C, z in f(A, B).items():
                    r[C] = r.get(C, 0) + c * z
        return clean(r)

    def mul(self, a, *bs):
        for b in bs:
            a = self._bilin(a, b, self.bb)
        return a

    def _sel(self, rule):
        def f(A, B):
            k = rule(popcount(A), popcount(B))
            if k is None or k < 0:
                return {}
            return {C: z for C, z in self.bb(A, B).items() if popcount(C) == k}
        return f

    def wedge(self, a, *bs):
        def f(A, B):
            if A & B:
                return {}
            return {A | B: wedge_sign(A, B)}
        for b in bs:
            a = self._bilin(a, b, f)
        return a

    def wedge_sel(self, a, b):
        return self._bilin(a, b, self._sel(lambda r, s: r + s))

    def lc(self, a, b):
        return self._bilin(a, b, self._sel(lambda r, s: s - r))

    def rc(self, a, b):
        return self._bilin(a, b, self._sel(lambda r, s: r - s))

    def dot(self, a, b):
        """Hestenes inner product (zero when either factor is a scalar)"""
        return self._bilin(a, b, self._sel(lambda r, s: abs(r - s) if r and s else None))

    def sprod(self, a, b):
        return self._bilin(a, b, self._sel(lambda r, s: 0))

    def com(self, a, b):
        return smul(F(1, 2), add(self.mul(a, b), self.mul(b, a), -1))

    def acom(self, a, b):
        return smul(F(1, 2), add(self.mul(a, b), self.mul(b, a)))

    # ---- linear ---------------------------------------------------------
    @staticmethod
    def grade(a, k):
        return {m: c for m, c in a.items() if popcount(m) == k}

    @staticmethod
    def grades(a):
        return sorted({popcount(m) for m in a})

    @staticmethod
    def _signed(a, f):
        return {m: c * f(popcount(m)) for m, c in a.items()}

    def rev(self, a):
        return self._signed(a, lambda k: -1 if (k * (k - 1) // 2) & 1 else 1)

    def invol(self, a):
        return self._signed(a, lambda k: -1 if k & 1 else 1)

    def conj(self, a):
        return self.rev(self.invol(a))

    def even(self, a):
        return {m: c for m, c in a.items() if popcount(m) % 2 == 0}

    def odd(self, a):
        return {m: c for m, c in a.items() if popcount(m) % 2 == 1}

    def sp(self, a, b):
        return self.mul(a, b).get(0, 0)

    def E(self):
        return {self.dim - 1: F(1)}

    def e_sq(self):
        return self.mul(self.E(), self.E()).get(0, 0)

    def pow(self, a, k):
        r = {0: F(1)}
        for _ in range(k):
            r = self.mul(r, a)
        return r

    # left multiplication matrix, for deciding invertibility
    def left_matrix(self, a):
        cols = []
        for B in range(self.dim):
            p = self.mul(a, {B: F(1)})
            cols.append([p.get(C, F(0)) for C in range(self.dim)])
        return [list(r) for r in zip(*cols)]

    def inverse(self, a):
        """exact inverse, or None when `a` is not invertible"""
        M = self.left_matrix(a)
        rhs = [F(1) if i == 0 else F(0) for i in range(self.dim)]
        x = solve(M, rhs)
        if x is None:
            return None
        return clean({i: c for i, c in enumerate(x)})

    # ---- basis change ---------------------------------------------------
    def outermorphism(self, cols, a):
        """extend the vector map e_i -> cols[i] (vector dicts) to a"""
        r = {}
        for A, c in a.items():
            img = {0: F(1)}
            for i in bits(A):
                img = self.wedge(img, cols[i])
            r = add(r, img, c)
        return r


def solve(M, rhs):
    """Gauss-Jordan over Fractions; None when singular"""
    n = len(M)
    A = [list(map(F, row)) + [F(b)] for row, b in zip(M, rhs)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] != 0), None)
        if p is None:
            return None
        A[c], A[p] = A[p], A[c]
        pv = A[c][c]
        A[c] = [x / pv for x in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [A[i][n] for i in range(n)]


def mat_inv(M):
    n = len(M)
    cols = []
    for j in range(n):
        x = solve(M, [F(1) if i == j else F(0) for i in range(n)])
        if x is None:
            return None
        cols.append(x)
    return [[cols[j][i] for j in range(n)] for i in range(n)]


def mat_mul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(len(B))), F(0)) for j in range(len(B[0]))] for i in range(len(A))]


def mat_det(M):
    n = len(M)
    A = [list(map(F, r)) for r in M]
    d = F(1)
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] != 0), None)
        if p is None:
            return F(0)
        if p != c:
            A[c], A[p] = A[p], A[c]
            d = -d
        d *= A[c][c]
        for r in range(c + 1, n):
            f = A[r][c] / A[c][c]
            A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return d


def selftest():
    import random
    rnd = random.Random(7)
    for n in (1, 2, 3, 4):
        for t in range(6):
            g = [[F(0)] * n for _ in range(n)]
            for i in range(n):
                for j in range(i, n):
                    g[i][j] = g[j][i] = F(rnd.randint(-2, 2))
            R = RefGA(g)
            def rmv():
                return clean({m: F(rnd.randint(-3, 3)) for m in range(1 << n)})
            a, b, c = rmv(), rmv(), rmv()
            assert R.mul(R.mul(a, b), c) == R.mul(a, R.mul(b, c))
            assert R.rev(R.mul(a, b)) == R.mul(R.rev(b), R.rev(a))
            assert R.wedge(a, b) == R.wedge_sel(a, b)
            for i in range(n):
                for j in range(n):
                    p = R.acom({1 << i: F(1)}, {1 << j: F(1)})
                    assert p == clean({0: g[i][j]})
            # A _| (B _| C) == (A ^ B) _| C
            assert R.lc(a, R.lc(b, c)) == R.lc(R.wedge(a, b), c)
    return True


if __name__ == '__main__':
    print(selftest())
