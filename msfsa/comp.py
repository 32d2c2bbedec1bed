"""Matrix expressions evaluated component by component: every entry is a
polynomial over the scalars the expression is made of (quotients and functions
are atoms), with w^2 = 1 - x^2 - y^2 - z^2 for quaternions known to be unit."""
from fractions import Fraction
import math
import re
from .q import num, short, subterms, f32

LIM = 60000


class Unknown(Exception):
    pass


class Mx:
    __slots__ = ("r", "c", "e")

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, e

    def __getitem__(self, ij):
        return self.e[ij[0] * self.c + ij[1]]

    def map(self, f):
        return Mx(self.r, self.c, [f(x) for x in self.e])

    @property
    def T(self):
        return Mx(self.c, self.r, [self[i, j] for j in range(self.c) for i in range(self.r)])

    def sub(self, i, j, r, c):
        return Mx(r, c, [self[i + a, j + b] for a in range(r) for b in range(c)])


class Poly(dict):
    """{sorted tuple of atom numbers: coefficient}"""
    __slots__ = ()


def padd(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        x = out.get(k, 0) + s * v
        if x == 0:
            out.pop(k, None)
        else:
            out[k] = x
    return out


class Comp:
    """shapes: function term -> (rows, cols), "q" (quaternion), "uq" (unit quaternion), "s" or None"""

    def __init__(self, shapes=lambda t: None, scalars=()):
        self.shapes = shapes
        self.scalars = scalars
        self.atoms = {}
        self.names = []
        self.unit = {}          # atom of w -> polynomial of w^2
        self.memo = {}
        self.subst = {}         # term -> Mx / quaternion value
        self.funcs = {}         # function name -> [(argument, exact value)]
        self.nil = set()        # infinitesimal atoms: products of two of them vanish

    # ------------------------------------------------------------- scalars
    def atom(self, t):
        i = self.atoms.get(t)
        if i is None:
            i = self.atoms[t] = len(self.names)
            self.names.append(t)
        return i

    def var(self, t):
        return {(self.atom(t),): Fraction(1)}

    def const_(self, x):
        return {(): x} if x else {}

    def const(self, x):
        if isinstance(x, float):    # 1.0 / 3.0 means a third
            f = Fraction(x).limit_denominator(10000)
            x = f if float(f) == x else Fraction(x)
        return {(): Fraction(x)} if x else {}

    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) * len(b) > LIM:
            raise Unknown("polynomial too large")
        out = {}
        nil = self.nil
        if nil:
            na, nb = {k for k in a if not nil.isdisjoint(k)}, {k for k in b if not nil.isdisjoint(k)}
        for k, v in a.items():
            ka = nil and k in na
            for k2, v2 in b.items():
                if ka and k2 in nb:
                    continue
                kk = tuple(sorted(k + k2)) if k and k2 else k + k2
                x = out.get(kk, 0) + v * v2
                if x == 0:
                    out.pop(kk, None)
                else:
                    out[kk] = x
        return self.red(out)

    def red(self, p):
        if not self.unit:
            return p
        again = True
        while again:
            again = False
            for k in list(p):
                w = next((i for i, j in zip(k, k[1:]) if i == j and i in self.unit), None)
                if w is None:
                    continue
                if k not in p:
                    continue
                v = p.pop(k)
                i = k.index(w)
                rest = k[:i] + k[i + 2:]
                for k2, v2 in self.unit[w].items():
                    kk = tuple(sorted(rest + k2))
                    x = p.get(kk, 0) + v * v2
                    if x == 0:
                        p.pop(kk, None)
                    else:
                        p[kk] = x
                again = True
        return p

    def recip(self, p):
        if not p:
            raise Unknown("division by zero")
        if len(p) == 1:
            (k, v), = p.items()
            if not k:
                return {(): 1 / v}
        if self.nil:
            e = {k: v for k, v in p.items() if not self.nil.isdisjoint(k)}
            if e:
                i = self.recip({k: v for k, v in p.items() if k not in e})
                return padd(i, self.pmul(self.pmul(i, i), e), -1)
        key = ("inv", frozenset(p.items()))
        self.inv = getattr(self, "inv", {})
        self.inv[self.atom(key)] = p
        return self.var(key)

    # ------------------------------------------------------------- values
    def shape(self, t):
        return self.shapes(t)

    def leaf(self, t, sh):
        if sh in ("q", "uq"):
            q = Mx(4, 1, [self.var(("of", t, n)) for n in "xyzw"])
            if sh == "uq":
                w = q.e[3]
                (k, _), = w.items()
                if k[0] not in self.unit:
                    p = {(): Fraction(1)}
                    for x in q.e[:3]:
                        p = padd(p, {tuple(next(iter(x))) * 2: Fraction(1)}, -1)
                    self.unit[k[0]] = p
            return ("q", q)
        r, c = sh
        return Mx(r, c, [self.var(("of", t, i, j)) for i in range(r) for j in range(c)])

    def ev(self, t):
        if t in self.subst:
            return self.subst[t]
        m = self.memo.get(t)
        if m is None:
            m = self.memo[t] = self.ev_(t)
        return m

    def mat(self, t, r=None, c=None):
        x = self.fit(self.tryev(t), None if r is None else (r, c))
        if r is not None and (x.r, x.c) != (r, c):
            if x.r * x.c == r * c and 1 in (x.r, x.c) and 1 in (r, c):
                return Mx(r, c, x.e)
            raise Unknown("size mismatch %dx%d instead of %dx%d" % (x.r, x.c, r, c))
        return x

    def sc(self, t):
        x = self.ev(t)
        if type(x) is dict:
            return x
        if isinstance(x, Mx) and x.r == x.c == 1:
            return x.e[0]
        if type(x) is tuple and x[0] == "list" and len(x[1]) == 1:
            return x[1][0]
        if x == "zero":
            return {}
        raise Unknown("not a scalar: %s" % str(t)[:80])

    def quat(self, t):
        x = self.ev(t)
        if type(x) is tuple and x[0] == "q":
            return x[1]
        raise Unknown("not a quaternion: %s" % str(t)[:80])

    def ev_(self, t):
        if num(t):
            return self.const(t[1])
        if type(t) is not tuple or not t:
            raise Unknown(str(t))
        sh = self.shape(t)
        if sh == "s":
            return self.var(t)
        if sh is not None:
            return self.leaf(t, sh)
        k = t[0]
        if k == "phi" and len(t[1]) == 1:
            return self.ev(next(iter(t[1])))
        if k in ("phi", "condv"):
            alts = list(t[1]) if k == "phi" else [t[2], t[3]]
            raise Unknown("value depends on a condition")
        if k == "cast":
            v = self.ev(t[2])
            return self.rounded(v) if t[1] == "f32" else v
        if k in ("default", "uninit"):
            m = re.search(r"Eigen::Matrix<double, (\d+), (\d+)", str(t[1]))
            if m:
                return self.leaf(t, (int(m.group(1)), int(m.group(2))))
            m = re.search(r"Eigen::Quaternion<", str(t[1]))
            if m:
                return self.leaf(t, "q")
            raise Unknown("unknown " + str(t)[:60])
        if k == "comma":
            if len(t) == 2:
                x = self.ev(t[1])
                if type(x) is tuple and x[0] == "list":
                    return x
            return ("list", [self.sc(x) for x in t[1:]])
        if k == "op":
            if t[1] in ("+", "-") and len(t) == 4:
                return self.lin(t[2], t[3], 1 if t[1] == "+" else -1)
            if t[1] == "*" and len(t) == 4:
                return self.prod(t[2], t[3])
            if t[1] == "/" and len(t) == 4:
                return self.scale(t[2], self.recip(self.sc(t[3])))
            if t[1] == "neg":
                return self.neg(self.ev(t[2]))
        if k == "upd":
            b = self.mat_any(t[1])
            acc, diag = t[2], False
            if acc[-1:] == (("acc", "diagonal"),) and acc[0] == "path":
                acc, diag = acc[:-1], True
            elif acc == ("acc", "diagonal"):
                acc, diag = ("path",), True
            i, j, r, c, q = self.region(acc, b) if acc != ("path",) else (0, 0, b.r, b.c, True)
            if i < 0 or j < 0 or i + r > b.r or j + c > b.c:
                raise Unknown("rows %d to %d, columns %d to %d are outside a %dx%d matrix" % (i, i + r - 1, j, j + c - 1, b.r, b.c))
            if diag:
                e = list(b.e)
                d = self.mat(t[3], min(r, c), 1)
                for a in range(min(r, c)):
                    e[(i + a) * b.c + j + a] = d.e[a]
                return Mx(b.r, b.c, e)
            if r == c == 1 and not q:
                v = Mx(1, 1, [self.sc(t[3])])
            else:
                v = self.mat(t[3], r, c)
            e = list(b.e)
            for a in range(r):
                for d in range(c):
                    e[(i + a) * b.c + j + d] = v[a, d]
            out = Mx(b.r, b.c, e)
            return ("q", out) if self.isq(t[1]) else out
        if k == "elem":
            b = self.tryev(t[1])
            if b == "zero":
                return {}
            if type(b) is tuple and b[0] == "const":
                return b[1]
            b = self.fit(b, None)
            if t[2] == ("acc", "diagonal") or t[2][0] == "path" and t[2][-1] == ("acc", "diagonal"):
                i, j, r, c, q = self.region(t[2][:-1], b) if t[2][0] == "path" and len(t[2]) > 2 else (0, 0, b.r, b.c, True)
                return Mx(min(r, c), 1, [b[i + a, j + a] for a in range(min(r, c))])
            i, j, r, c, q = self.region(t[2], b)
            if i < 0 or j < 0 or i + r > b.r or j + c > b.c:
                raise Unknown("rows %d to %d, columns %d to %d are outside a %dx%d matrix" % (i, i + r - 1, j, j + c - 1, b.r, b.c))
            x = b.sub(i, j, r, c)
            return x.e[0] if r == c == 1 and not q else x
        if k == "mut" and t[1] in ("setZero", "setOnes"):
            try:
                b = self.mat_any(t[2])
            except Unknown:
                return "zero" if t[1] == "setZero" else ("const", self.const(1))
            return b.map(lambda x: {} if t[1] == "setZero" else self.const(1))
        if k == "mut" and t[1] == "setIdentity":
            if self.isq(t[2]):
                return ("q", Mx(4, 1, [{}, {}, {}, self.const(1)]))
            b = self.mat_any(t[2])
            return self.ident(b.r, b.c)
        if k == "mut" and t[1] == "normalize":
            return self.unitlen(self.ev(t[2]))
        if k == "call":
            return self.call(t)
        if t in self.scalars:
            return self.var(t)
        if k in ("fld", "root", "deref") or k == "elem":
            return self.var(t)
        raise Unknown("cannot evaluate %s" % str(t)[:100])

    def norm(self, x):
        """the length of a vector of known numbers, when it is rational"""
        s = Fraction(0)
        for p in x.e:
            if any(k != () for k in p):
                raise Unknown("length of a vector that is not a number")
            s += p.get((), 0) ** 2
        r = [math.isqrt(v) for v in (s.numerator, s.denominator)]
        if r[0] ** 2 != s.numerator or r[1] ** 2 != s.denominator:
            f = Fraction(math.sqrt(s)).limit_denominator(100000)
            if abs(float(f * f - s)) > 1e-12 * float(s):
                raise Unknown("length is not rational")
            return f
        return Fraction(r[0], r[1])

    def func(self, n, x):
        """a function at a known number: exact where a value was given for it"""
        if n == "sqrt" and n in self.funcs and set(x) <= {()}:
            f = x.get((), Fraction(0))
            r = [math.isqrt(v) for v in (f.numerator, f.denominator)] if f >= 0 else None
            return self.const_(Fraction(*r)) if r and r[0] ** 2 == f.numerator and r[1] ** 2 == f.denominator else None
        if n in self.funcs and set(x) <= {()}:
            f = float(x.get((), 0))
            for at, v in self.funcs[n]:
                if abs(f - at) < 1e-9:
                    return self.const_(v)
            return self.const_(Fraction(getattr(math, n)(f)))
        return None

    def rounded(self, x):
        """what is left of a number in single precision"""
        if type(x) is not dict:
            return x
        if set(x) <= {()}:
            return self.const_(Fraction(f32(float(x.get((), 0)))))
        return self.var(("f32", frozenset(x.items())))

    def unitlen(self, x):
        q = type(x) is tuple and x[0] == "q"
        m = x[1] if q else self.fit(x, None)
        n = self.norm(m)
        if n == 0:
            raise Unknown("zero vector normalised")
        m = m.map(lambda p: self.pmul(p, {(): 1 / n}))
        return ("q", m) if q else m

    def ident(self, r, c):
        return Mx(r, c, [self.const(1 if i == j else 0) for i in range(r) for j in range(c)])

    def isq(self, t):
        try:
            x = self.ev(t)
        except Unknown:
            return False
        return type(x) is tuple and x[0] == "q"

    def mat_any(self, t):
        return self.mat(t)

    def neg(self, x):
        m = lambda p: {k: -v for k, v in p.items()}
        if x == "zero":
            return x
        if x == "id":
            raise Unknown("negative of an identity of unknown size")
        if type(x) is dict:
            return m(x)
        if type(x) is tuple:
            return ("list", [m(p) for p in x[1]]) if x[0] == "list" else ("const", m(x[1]))
        return x.map(m)

    def sized(self, x):
        return isinstance(x, Mx)

    def lin(self, a, b, s):
        A, B = self.tryev(a), self.tryev(b)
        if type(A) is dict and type(B) is dict:
            return padd(A, B, s)
        if A == "zero":
            return B if s > 0 else self.neg(B)
        if B == "zero":
            return A
        kind = lambda x: x[0] if type(x) is tuple else x
        if {kind(A), kind(B)} <= {"id", "scaled"} or kind(A) == kind(B) == "const":
            A, B = (("scaled", self.const(1)) if x == "id" else x for x in (A, B))
            return (A[0], padd(A[1], B[1], s))
        if not any(self.sized(x) for x in (A, B)):
            A, B = (self.fit(x, None) if kind(x) in ("list", "q") else x for x in (A, B))
        sh = next(((x.r, x.c) for x in (A, B) if self.sized(x)), None)
        A, B = self.fit(A, sh), self.fit(B, sh)
        if (A.r, A.c) != (B.r, B.c):
            raise Unknown("sum of matrices of different size")
        return Mx(A.r, A.c, [padd(x, y, s) for x, y in zip(A.e, B.e)])

    def tryev(self, t):
        # -Identity() and the like have no size of their own
        if type(t) is tuple and t[0] == "call" and short(t[1]) == "operator-" and len(t) == 3:
            x = self.tryev(t[2])
            return ("scaled", {(): Fraction(-1)}) if x == "id" else self.neg(x) if not (type(x) is tuple and x[0] == "scaled") else ("scaled", {k: -v for k, v in x[1].items()})
        if type(t) is tuple and (t[0] == "call" and short(t[1]) in ("operator*", "operator/") or t[0] == "op" and t[1] in ("*", "/")) and len(t) == 4:
            ab = [self.idlike(x) for x in t[-2:]]
            if ab[0] is not None:
                y = self.ev(t[-1])
                if type(y) is dict:
                    d = short(t[1]).endswith("/")
                    return ("scaled", self.pmul(ab[0], self.recip(y) if d else y))
            if ab[1] is not None:
                y = self.ev(t[-2])
                if type(y) is dict:
                    return ("scaled", self.pmul(ab[1], y))
        return self.ev(t)

    def idlike(self, t):
        try:
            x = self.tryev(t)
        except Unknown:
            return None
        if x == "id":
            return {(): Fraction(1)}
        if type(x) is tuple and x[0] == "scaled":
            return x[1]
        return None

    def fit(self, x, sh):
        if self.sized(x):
            return x
        if sh is None:
            if type(x) is dict:
                return Mx(1, 1, [x])
            if type(x) is tuple and x[0] == "list":
                n = len(x[1])
                r, c = {9: (3, 3), 16: (4, 4), 36: (6, 6)}.get(n, (n, 1))
                return Mx(r, c, list(x[1]))
            if type(x) is tuple and x[0] == "q":
                return x[1]
            raise Unknown("size")
        r, c = sh
        if x == "zero":
            return Mx(r, c, [{}] * (r * c))
        if x == "id":
            return self.ident(r, c)
        if type(x) is tuple and x[0] == "scaled":
            return Mx(r, c, [x[1] if i == j else {} for i in range(r) for j in range(c)])
        if type(x) is tuple and x[0] == "const":
            return Mx(r, c, [x[1]] * (r * c))
        if type(x) is tuple and x[0] == "list" and len(x[1]) == r * c:
            return Mx(r, c, list(x[1]))
        if type(x) is tuple and x[0] == "q":
            return x[1]
        if type(x) is dict and r == c == 1:
            return Mx(1, 1, [x])
        raise Unknown("size")

    def scale(self, t, s):
        x = self.ev(t)
        if type(x) is dict:
            return self.pmul(x, s)
        if x == "zero":
            return x
        if x == "id":
            return ("scaled", s)
        if type(x) is tuple and x[0] in ("list",):
            return ("list", [self.pmul(p, s) for p in x[1]])
        if type(x) is tuple and x[0] in ("const", "scaled"):
            return (x[0], self.pmul(x[1], s))
        if type(x) is tuple and x[0] == "q":
            return ("q", x[1].map(lambda p: self.pmul(p, s)))
        return x.map(lambda p: self.pmul(p, s))

    def prod(self, a, b):
        A, B = self.tryev(a), self.tryev(b)
        if type(A) is dict and type(B) is dict:
            return self.pmul(A, B)
        if type(A) is tuple and A[0] == "q" and type(B) is tuple and B[0] == "q":
            return ("q", self.qmul(A[1], B[1]))
        if type(A) is dict:
            return self.scale(b, A) if not (type(B) is tuple and B[0] == "scaled") else ("scaled", self.pmul(A, B[1]))
        if type(B) is dict:
            return self.scale(a, B) if not (type(A) is tuple and A[0] == "scaled") else ("scaled", self.pmul(A[1], B))
        if type(A) is tuple and A[0] == "q":
            return self.mmul(self.rot(A[1]), self.fit(B, (3, 1)))
        if "zero" in (A if type(A) is str else "", B if type(B) is str else ""):
            return "zero"
        if A == "id":
            return B
        if B == "id":
            return A
        for X, Y in ((A, B), (B, A)):
            if type(X) is tuple and X[0] == "scaled" and self.sized(Y):
                return Y.map(lambda p: self.pmul(p, X[1]))
        A = self.fit(A, None)
        if not self.sized(B):
            B = self.fit(B, (A.c, len(B[1]) // A.c) if type(B) is tuple and B[0] == "list" and len(B[1]) % A.c == 0 else None)
        if A.c != B.r:
            if (A.r, A.c) == (1, 1):
                return B.map(lambda p: self.pmul(p, A.e[0]))
            if (B.r, B.c) == (1, 1):
                return A.map(lambda p: self.pmul(p, B.e[0]))
            raise Unknown("product of %dx%d and %dx%d" % (A.r, A.c, B.r, B.c))
        return self.mmul(A, B)

    def mmul(self, A, B):
        if A.c != B.r:
            raise Unknown("product of %dx%d and %dx%d" % (A.r, A.c, B.r, B.c))
        e = []
        for i in range(A.r):
            for j in range(B.c):
                s = {}
                for k in range(A.c):
                    if A[i, k] and B[k, j]:
                        s = padd(s, self.pmul(A[i, k], B[k, j]))
                e.append(self.red(s))
        return Mx(A.r, B.c, e)

    def qmul(self, a, b):
        """Hamilton product, components x y z w"""
        ax, ay, az, aw = a.e
        bx, by, bz, bw = b.e
        m, p = self.pmul, padd
        w = p(p(p(m(aw, bw), m(ax, bx), -1), m(ay, by), -1), m(az, bz), -1)
        x = p(p(p(m(aw, bx), m(ax, bw)), m(ay, bz)), m(az, by), -1)
        y = p(p(p(m(aw, by), m(ay, bw)), m(az, bx)), m(ax, bz), -1)
        z = p(p(p(m(aw, bz), m(az, bw)), m(ax, by)), m(ay, bx), -1)
        return Mx(4, 1, [self.red(v) for v in (x, y, z, w)])

    def rot(self, q):
        """rotation matrix as Eigen computes it"""
        x, y, z, w = q.e
        m = lambda a, b: self.pmul(a, b)
        two = self.const(2)
        d = lambda a, b, s: m(two, padd(a, b, s))
        one = self.const(1)
        e = [padd(one, d(m(y, y), m(z, z), 1), -1), d(m(x, y), m(z, w), -1), d(m(x, z), m(y, w), 1),
             d(m(x, y), m(z, w), 1), padd(one, d(m(x, x), m(z, z), 1), -1), d(m(y, z), m(x, w), -1),
             d(m(x, z), m(y, w), -1), d(m(y, z), m(x, w), 1), padd(one, d(m(x, x), m(y, y), 1), -1)]
        return Mx(3, 3, e)

    def call(self, t):
        n = short(t[1])
        a = t[2:]
        ei = "Eigen" in t[1]
        if ei and n in ("operator+", "operator-") and len(a) == 2:
            return self.lin(a[0], a[1], 1 if n[-1] == "+" else -1)
        if ei and n == "operator*" and len(a) == 2:
            return self.prod(a[0], a[1])
        if ei and n == "operator/" and len(a) == 2:
            return self.scale(a[0], self.recip(self.sc(a[1])))
        if ei and n == "operator-" and len(a) == 1:
            x = self.tryev(t)
            return x
        if ei and n in ("eval", "noalias", "matrix", "array", "derived", "cast", "normalized", "coeffs", "operator()") and len(a) == 1:
            x = self.ev(a[0])
            if n == "normalized" and not self.isunit(a[0]):
                try:
                    return self.unitlen(x)
                except Unknown:
                    pass
                return self.leaf(t, "uq" if type(x) is tuple and x[0] == "q" else (x.r, x.c))
            return x[1] if n == "coeffs" and type(x) is tuple and x[0] == "q" else x
        if ei and n in ("transpose", "adjoint"):
            x = self.ev(a[0])
            return self.fit(x, None).T if not isinstance(x, (str, dict)) else x
        if ei and n == "Zero":
            return self.ident(int(a[0][1]), int(a[1][1])).map(lambda p: {}) if len(a) == 2 and num(a[0]) and num(a[1]) else "zero"
        if ei and n == "Identity":
            return self.ident(int(a[0][1]), int(a[1][1])) if len(a) == 2 and num(a[0]) and num(a[1]) else "id"
        if ei and n in ("UnitX", "UnitY", "UnitZ") and not a:
            return Mx(3, 1, [self.const(1 if n[-1] == c else 0) for c in "XYZ"])
        if ei and n == "Ones":
            return ("const", self.const(1))
        if ei and n == "Constant" and len(a) == 1:
            return ("const", self.sc(a[0]))
        if ei and n in ("conjugate", "inverse") and len(a) == 1 and self.isq(a[0]) and (n == "conjugate" or self.isunit(a[0])):
            q = self.quat(a[0])
            return ("q", Mx(4, 1, [{k: -v for k, v in p.items()} for p in q.e[:3]] + [q.e[3]]))
        if ei and n == "inverse" and len(a) == 1 and self.isq(a[0]):
            q = self.quat(a[0])
            nn = {}
            for x in q.e:
                nn = padd(nn, self.pmul(x, x))
            r = self.recip(nn)
            return ("q", Mx(4, 1, [self.pmul(r, {k: -v for k, v in x.items()} if i < 3 else x) for i, x in enumerate(q.e)]))
        if ei and n in ("toRotationMatrix", "matrix") and self.isq(a[0]):
            return self.rot(self.quat(a[0]))
        if ei and n in ("Quaternion", "Quaterniond") and len(a) == 1:
            if type(a[0]) is tuple and a[0][:1] == ("call",) and short(a[0][1]) == "AngleAxis" and len(a[0]) == 4:
                h = self.pmul(self.sc(a[0][2]), self.const(0.5))
                sn, cs, ax = self.func("sin", h), self.func("cos", h), self.mat(a[0][3], 3, 1)
                if sn is None or cs is None:
                    raise Unknown("rotation by an angle")
                return ("q", Mx(4, 1, [self.pmul(sn, c) for c in ax.e] + [cs]))
            x = self.ev(a[0])
            if type(x) is tuple and x[0] == "q":
                return x
            x = self.fit(x, (4, 1))
            if (x.r, x.c) == (4, 1):
                return ("q", x)
            raise Unknown("quaternion of a matrix")
        if ei and n in ("Quaternion", "Quaterniond") and len(a) == 4:
            w, x, y, z = (self.sc(x) for x in a)
            return ("q", Mx(4, 1, [x, y, z, w]))
        if ei and n == "asDiagonal":
            x = self.tryev(a[0])
            if x == "zero" or type(x) is tuple and x[0] == "const":
                return x if x == "zero" else ("scaled", x[1])
            x = self.fit(self.ev(a[0]), None)
            k = max(x.r, x.c)
            return Mx(k, k, [x.e[i] if i == j else {} for i in range(k) for j in range(k)])
        if ei and n == "diagonal" and len(a) == 1:
            x = self.mat(a[0])
            return Mx(min(x.r, x.c), 1, [x[i, i] for i in range(min(x.r, x.c))])
        if ei and n in ("cwiseProduct",):
            x, y = self.tryev(a[0]), self.tryev(a[1])
            if all(type(z) is tuple and z[0] == "const" for z in (x, y)):
                return ("const", self.pmul(x[1], y[1]))
            sh = next(((z.r, z.c) for z in (x, y) if self.sized(z)), None)
            x, y = self.fit(x, sh), self.fit(y, sh)
            return Mx(x.r, x.c, [self.pmul(p, q) for p, q in zip(x.e, y.e)])
        if ei and n in ("dot",):
            x, y = self.mat(a[0]), self.mat(a[1])
            s = {}
            for p, q in zip(x.e, y.e):
                s = padd(s, self.pmul(p, q))
            return s
        if ei and n in ("squaredNorm",):
            x = self.mat(a[0])
            s = {}
            for p in x.e:
                s = padd(s, self.pmul(p, p))
            return s
        if ei and n == "cross":
            x, y = self.mat(a[0]), self.mat(a[1])
            k = self.skew(x)
            return self.mmul(k, y)
        if ei and n in ("Matrix", "Vector3", "Map") and len(a) == 1:
            return self.ev(a[0])
        if ei and n in ("Matrix", "Vector3") and len(a) in (2, 3, 4) :
            return Mx(len(a), 1, [self.sc(x) for x in a])
        if ei and n == "norm" and len(a) == 1:
            try:
                return self.const_(self.norm(self.fit(self.ev(a[0]), None)))
            except Unknown:
                pass
        # any other function of scalars
        if n in self.funcs and len(a) == 1:
            x = self.func(n, self.sc(a[0]))
            if x is not None:
                return x
        return self.var((t[1],) + tuple(self.key(x) for x in a))

    def key(self, t):
        x = self.ev(t)
        if type(x) is dict:
            return frozenset(x.items())
        if isinstance(x, Mx):
            return (x.r, x.c) + tuple(frozenset(p.items()) for p in x.e)
        return t

    def skew(self, x):
        a, b, c = x.e
        n = lambda p: {k: -v for k, v in p.items()}
        return Mx(3, 3, [{}, n(c), b, c, {}, n(a), n(b), a, {}])

    def isunit(self, t):
        if type(t) is not tuple:
            return False
        if self.shape(t) == "uq":
            return True
        n = short(t[1]) if t[0] == "call" else ""
        if n in ("conjugate", "inverse", "normalized") and len(t) == 3:
            return n == "normalized" or self.isunit(t[2])
        if n == "operator*" and len(t) == 4:
            return self.isunit(t[2]) and self.isunit(t[3])
        return t[0] == "mut" and t[1] == "normalize"

    def region(self, acc, b):
        """(row, column, rows, columns, is a matrix even if 1x1) that an accessor means"""
        if acc[0] == "path":
            i = j = 0
            cur = b
            for x in acc[1:]:
                a, d, r, c, q = self.region(x, cur)
                i, j = i + a, j + d
                cur = Mx(r, c, cur.sub(a, d, r, c).e)
            return i, j, r, c, q
        if acc[0] != "acc":
            raise Unknown("accessor " + str(acc)[:60])
        n = acc[1]
        a = []
        for x in acc[2:]:
            if not num(x):
                raise Unknown("accessor with unknown position " + str(acc)[:60])
            a.append(int(x[1]))
        ta = []
        if "<" in n:
            s = n[n.index("<") + 1:-1]
            n = n[:n.index("<")]
            ta = [int(x) for x in s.split(",")] if re.fullmatch(r"[\d, ]+", s) else []
        R, Cc = b.r, b.c
        if n == "at" or n == "coeff" or n == "coeffRef":
            if len(a) == 1:
                i, j = (a[0], 0) if Cc == 1 else (0, a[0]) if R == 1 else (a[0] % R, a[0] // R)
                return i, j, 1, 1, False
            return a[0], a[1], 1, 1, False
        if n in ("x", "y", "z", "w") and not a:
            k = "xyzw".index(n)
            return (k, 0, 1, 1, False) if Cc == 1 else (0, k, 1, 1, False)
        if n == "vec":
            return 0, 0, 3, 1, True
        if n in ("coeffs",):
            return 0, 0, 4, 1, True
        if n == "block":
            if len(ta) == 2 and len(a) >= 2:
                return a[0], a[1], ta[0], ta[1], True
            if len(a) == 4:
                return a[0], a[1], a[2], a[3], True
        k = ta + a
        if n in ("segment", "middleRows", "middleCols") and (ta and a or len(a) == 2):
            i, m = (a[0], ta[0]) if ta else (a[0], a[1])
            if n == "middleCols":
                return 0, i, R, m, True
            if n == "middleRows" or Cc == 1:
                return i, 0, m, Cc, True
            return 0, i, 1, m, True
        if n in ("head", "tail") and k:
            m = k[0]
            o = 0 if n == "head" else max(R, Cc) - m
            return (o, 0, m, 1, True) if Cc == 1 else (0, o, 1, m, True)
        if n in ("topRows", "bottomRows", "leftCols", "rightCols") and k:
            m = k[0]
            return {"topRows": (0, 0, m, Cc, True), "bottomRows": (R - m, 0, m, Cc, True), "leftCols": (0, 0, R, m, True), "rightCols": (0, Cc - m, R, m, True)}[n]
        if n == "row" and len(a) == 1:
            return a[0], 0, 1, Cc, True
        if n == "col" and len(a) == 1:
            return 0, a[0], R, 1, True
        if n in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner") and len(k) >= 2:
            r, c = k[:2]
            return (0 if n.startswith("top") else R - r), (0 if "Left" in n else Cc - c), r, c, True
        raise Unknown("accessor " + str(acc)[:60])

    # ------------------------------------------------------------- calculus
    def infinitesimal(self, name):
        i = self.atom(("eps", name))
        self.nil.add(i)
        return {(i,): Fraction(1)}

    def split(self, p):
        """(part without infinitesimals, {infinitesimal atom: coefficient})"""
        p0, d = {}, {}
        for k, v in p.items():
            n = [i for i in k if i in self.nil]
            if not n:
                p0[k] = v
            else:
                r = list(k)
                r.remove(n[0])
                d.setdefault(n[0], {})[tuple(r)] = v
        return p0, d


def statevars(L, states, extra=None, unit=True):
    """shapes of the variables of the given state objects (and of further leaves)"""
    from .rules.layout import var, qblock
    m = {}
    for s in states:
        for v in L:
            m[var(s, v)] = ("uq" if unit else "q") if v.quat else (v.n, 1)
            m[qblock(s, v)] = (v.nc, v.nc)
        m[("fld", s, "P")] = (L.nc, L.nc)
        for x in ("Fd", "Qd"):
            m[("fld", s, x)] = (L.nc, L.nc)
        for x in ("w_m", "a_m"):
            m[("fld", s, x)] = (3, 1)
    m.update(extra or {})
    return lambda t: m.get(t)
