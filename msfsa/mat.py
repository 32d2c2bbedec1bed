"""Matrix expressions as non-commutative polynomials, so that algebraically equal
ways of writing one formula compare equal.

A normal form is a dict {(scalar monomial, matrix monomial): coefficient}; the scalar
monomial is a sorted tuple of scalar atoms, the matrix monomial a tuple of matrix
factors in order."""
from .q import short, poly, num, canon_atom, alts

ONE = "<I>"
MATACC = ("block", "segment", "head", "tail", "row", "col", "vec", "topRows", "middleRows", "bottomRows")
DECOMP = ("ldlt", "llt", "lu", "partialPivLu", "fullPivLu", "householderQr", "colPivHouseholderQr", "fullPivHouseholderQr", "jacobiSvd", "completeOrthogonalDecomposition")


def add(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
        if abs(out[k]) < 1e-15:
            del out[k]
    return out


class Mat:
    def __init__(self, scalars=(), atom=None, symmetric=lambda t: False, limit=400, rewrite=None):
        self.scalars = scalars
        self.atomf = atom
        self.symmetric = symmetric
        self.limit = limit

    def isscalar(self, t):
        if num(t):
            return True
        if type(t) is not tuple or not t:
            return False
        if t in self.scalars:
            return True
        if t[0] == "op" and t[1] in ("+", "-", "*", "/", "neg"):
            return not any(self.mentions_matrix(x) for x in t[2:])
        if t[0] == "cast":
            return True
        if t[0] == "call" and short(t[1]) in ("norm", "squaredNorm", "dot", "sqrt", "fabs", "pow", "sum", "trace", "determinant", "minCoeff", "maxCoeff"):
            return True
        if t[0] == "fld" and t[2] in ("time",):
            return True
        return False

    def mentions_matrix(self, t):
        """operands of a scalar-looking operator that are Eigen expressions (compound assignment)"""
        if type(t) is tuple and len(t) == 3 and t[0] == "elem" and t[2][0] == "acc" and t[2][1].split("<")[0] in MATACC:
            return True
        return type(t) is tuple and t and (t[0] == "call" and t[1].startswith("Eigen::") and not self.isscalar(t) or
                                           t[0] in ("upd", "mut", "out") or t[0] == "op" and len(t) > 2 and any(self.mentions_matrix(x) for x in t[2:]))

    def scal(self, t):
        """scalar term -> normal form"""
        return {(k, ()): v for k, v in poly(t).items()}

    def mul(self, a, b):
        out = {}
        for (s1, m1), v1 in a.items():
            for (s2, m2), v2 in b.items():
                m = tuple(x for x in m1 + m2 if x != ONE)
                if not m and (ONE in m1 or ONE in m2):
                    m = (ONE,)
                k = (self.cancel(s1 + s2), m)
                out[k] = out.get(k, 0) + v1 * v2
                if abs(out[k]) < 1e-15:
                    del out[k]
        return out

    def cancel(self, s):
        s = list(s)
        for x in list(s):
            if type(x) is tuple and x and x[0] == "inv" and x in s:
                for y in list(s):
                    if y is not x and x[1] == y:
                        s.remove(x)
                        s.remove(y)
                        break
        return tuple(sorted(s, key=repr))

    def transpose(self, a):
        out = {}
        for (s, m), v in a.items():
            out[(s, tuple(self.tr(x) for x in reversed(m)))] = v
        return out

    def tr(self, x):
        if x == ONE or self.symmetric(x):
            return x
        if type(x) is tuple and x and x[0] == "'":
            return x[1]
        return ("'", x)

    def nf(self, t):
        if self.isscalar(t):
            return self.scal(t)
        if self.atomf is not None:
            r = self.atomf(t)
            if r is not None:
                return self.nf(r) if type(r) is tuple and r != t else {((), (t,)): 1}
        if type(t) is tuple and t:
            op = None
            if t[0] == "call" and t[1].startswith("Eigen::") and short(t[1]).startswith("operator"):
                op, args = short(t[1])[8:], t[2:]
            elif t[0] == "op" and t[1] in ("+", "-", "*", "/", "neg"):
                op, args = t[1], t[2:]
            if op in ("+", "-") and len(args) == 2:
                return add(self.nf(args[0]), self.nf(args[1]), 1 if op == "+" else -1)
            if op in ("-", "neg") and len(args) == 1:
                return {k: -v for k, v in self.nf(args[0]).items()}
            if op == "*" and len(args) == 2:
                a, b = self.nf(args[0]), self.nf(args[1])
                if len(a) * len(b) <= self.limit:
                    return self.mul(a, b)
            if op == "/" and len(args) == 2:
                if num(args[1]) and args[1][1]:
                    return {k: v / args[1][1] for k, v in self.nf(args[0]).items()}
                inv = poly(("op", "/", ("c", 1), args[1]))
                return self.mul(self.nf(args[0]), {(k, ()): v for k, v in inv.items()})
            if t[0] == "call" and t[1].startswith("Eigen::"):
                n = short(t[1])
                if n in ("transpose", "adjoint") and len(t) == 3:
                    return self.transpose(self.nf(t[2]))
                if n == "Identity":
                    return {((), (ONE,)): 1}
                if n == "Zero":
                    return {}
                if n in ("eval", "matrix", "noalias", "derived", "array") and len(t) == 3:
                    return self.nf(t[2])
                if n == "inverse" and len(t) == 3:
                    return {((), (("inv", self.freeze(self.nf(t[2]))),)): 1}
                if n == "solve" and len(t) == 4 and type(t[2]) is tuple and t[2][:1] == ("call",) and len(t[2]) == 3 and short(t[2][1]) in DECOMP:
                    return self.mul({((), (("inv", self.freeze(self.nf(t[2][2]))),)): 1}, self.nf(t[3]))
                if n == "Matrix" or n == "(ctor)":
                    if len(t) == 3:
                        return self.nf(t[2])
            if t[0] == "mut" and t[1] == "setIdentity":
                return {((), (ONE,)): 1}
            if t[0] == "mut" and t[1] == "setZero":
                return {}
            if t[0] == "phi" and len({self.freeze(self.nf(a)) for a in t[1]}) == 1:
                return self.nf(next(iter(t[1])))
        return {((), (t,)): 1}

    @staticmethod
    def freeze(n):
        return frozenset((k, round(v, 12)) for k, v in n.items())

    def same(self, a, b):
        return self.freeze(self.nf(a)) == self.freeze(self.nf(b))


def mm(op, *a):
    """build a matrix term:  mm('*', A, B)"""
    return ("call", "Eigen::operator" + op) + a


def T(a):
    return ("call", "Eigen::transpose", a)


class Grid:
    """matrices put together from blocks, evaluated block by block.  A value is
    (row offsets, column offsets, {(row offset, column offset): normal form})"""

    def __init__(self, M, rows=None):
        self.M = M

    def one(self, nf):
        return ((0,), (0,), {(0, 0): nf})

    def ev(self, t):
        M = self.M
        if type(t) is tuple and t:
            if t[0] == "phi" and len(t[1]) == 1:
                return self.ev(next(iter(t[1])))
            if t[0] == "upd":
                b = blockacc(t[2], True)
                if b is None:
                    return None
                chain, x = [], t
                while type(x) is tuple and x and x[0] == "upd":
                    bb = blockacc(x[2], True)
                    if bb is None:
                        return None
                    chain.append((bb, x[3]))
                    x = x[1]
                out = {}
                for (i, j, r, c), v in reversed(chain):
                    g = self.ev(v)
                    if g is None or g[:2] != ((0,), (0,)):
                        return None
                    out[(i, j)] = g[2][(0, 0)]
                base = x[0] if type(x) is tuple and x else None
                ri, ci = tuple(sorted({i for i, _ in out})), tuple(sorted({j for _, j in out}))
                if len(out) != len(ri) * len(ci):
                    if base == "mut" and x[1] == "setZero" or base == "call" and short(x[1]) == "Zero":
                        for i in ri:
                            for j in ci:
                                out.setdefault((i, j), {})
                    else:
                        return None
                # blocks must tile: sizes equal offset steps
                for (i, j, r, c), _ in chain:
                    if not (i == ri[-1] or r and i + r in ri) or not (j == ci[-1] or c and j + c in ci):
                        return None
                return (ri, ci, out)
            if t[0] == "comma" and len(t) in (3, 5):        # [a b] or [a b; c d]
                v = [self.ev(x) for x in t[1:]]
                if any(g is None or len(g[2]) != 1 for g in v):
                    return None
                ri = (0,) if len(v) == 2 else (0, HALF)
                return (ri, (0, HALF), {(i, j): next(iter(v[2 * a + b][2].values())) for a, i in enumerate(ri) for b, j in enumerate((0, HALF))})
            if t[0] == "elem":
                b = blockacc(t[2], True)
                if b is not None:
                    g = self.ev(t[1])
                    if g is not None and (b[2] is None and len(g[0]) > 1 or b[3] is None and len(g[1]) > 1):
                        return None
                    if g is not None and (b[0], b[1]) in g[2] and g[0] + g[1] != (0, 0):
                        return self.one(g[2][(b[0], b[1])])
                    return None if g is not None and len(g[2]) > 1 else self.one(M.nf(t))
            if t[0] == "call" and t[1].startswith("Eigen::") or t[0] == "op" and t[1] in ("+", "-", "*", "neg"):
                n = short(t[1])
                if t[0] == "op":
                    n = "operator" + {"neg": "-"}.get(t[1], t[1])
                if n in ("operator+", "operator-", "operator*") and len(t) == 4:
                    if n == "operator*" and (M.isscalar(t[2]) or M.isscalar(t[3])):
                        s, m = (t[2], t[3]) if M.isscalar(t[2]) else (t[3], t[2])
                        g = self.ev(m)
                        return None if g is None else (g[0], g[1], {k: M.mul(M.scal(s), v) for k, v in g[2].items()})
                    a, b = self.ev(t[2]), self.ev(t[3])
                    if a is None or b is None:
                        return None
                    a, b = halved(a, b[0] if n == "operator*" else b[0] + b[1]), halved(b, a[1] if n == "operator*" else a[0] + a[1])
                    if n == "operator*":
                        if a[1] != b[0]:
                            return None
                        out = {}
                        for i in a[0]:
                            for j in b[1]:
                                s = {}
                                for k in a[1]:
                                    s = add(s, M.mul(a[2][(i, k)], b[2][(k, j)]))
                                out[(i, j)] = s
                        return (a[0], b[1], out)
                    if a[:2] != b[:2]:
                        return None
                    return (a[0], a[1], {k: add(a[2][k], b[2][k], 1 if n == "operator+" else -1) for k in a[2]})
                if n == "operator-" and len(t) == 3:
                    g = self.ev(t[2])
                    return None if g is None else (g[0], g[1], {k: {m: -x for m, x in v.items()} for k, v in g[2].items()})
                if n in ("transpose", "adjoint") and len(t) == 3:
                    g = self.ev(t[2])
                    return None if g is None else (g[1], g[0], {(j, i): M.transpose(v) for (i, j), v in g[2].items()})
                if n in ("eval", "noalias") and len(t) == 3:
                    return self.ev(t[2])
                if n == "inverse" and len(t) == 3:
                    g = self.ev(t[2])
                    if g is None or len(g[2]) != 1:
                        return None
                    return self.one({((), (("inv", M.freeze(g[2][(0, 0)])),)): 1})
                if n == "solve" and len(t) == 4 and type(t[2]) is tuple and len(t[2]) == 3 and short(t[2][1]) in DECOMP:
                    return self.ev(mm("*", ("call", "Eigen::inverse", t[2][2]), t[3]))
        return self.one(M.nf(t))

    def nf(self, t):
        g = self.ev(t)
        return None if g is None or len(g[2]) != 1 else g[2][(0, 0)]


HALF = "half"       # where the second half of a comma-initialised matrix starts


def halved(g, offsets):
    """the grid with the halves starting where the other operand's do"""
    o = [x for x in offsets if x not in (0, HALF)]
    if HALF not in g[0] + g[1] or len(set(o)) != 1:
        return g
    f = lambda x: o[0] if x == HALF else x
    return (tuple(map(f, g[0])), tuple(map(f, g[1])), {(f(i), f(j)): v for (i, j), v in g[2].items()})


def blockacc(acc, halves=False):
    """(row, column, rows, columns) of a block accessor with constant position and size"""
    if acc[0] != "acc":
        return None
    n = acc[1]
    a = [x[1] if num(x) else None for x in acc[2:]]
    ta = []
    if "<" in n:
        ta = [int(x) for x in n[n.index("<") + 1:-1].split(",")]
        n = n[:n.index("<")]
    if n == "block" and len(ta) == 2 and len(a) == 2 and None not in a:
        return (a[0], a[1], ta[0], ta[1])
    if n == "block" and len(a) == 4 and None not in a:
        return tuple(a)
    if n == "topLeftCorner" and len(ta) == 2:
        return (0, 0) + tuple(ta)
    if n == "topLeftCorner" and len(a) == 2 and None not in a:
        return (0, 0) + tuple(a)
    if halves:
        # a corner, or rows or columns at one side, of a matrix of two equal halves; blocks that do not
        # fit this together are told by their sizes
        k = ta or a
        if None in k or not k:
            return None
        if n in ("topRightCorner", "bottomLeftCorner", "bottomRightCorner") and len(k) == 2:
            return (k[0] if n.startswith("bottom") else 0, k[1] if "Right" in n else 0) + tuple(k)
        if n in ("topRows", "bottomRows") and len(k) == 1:
            return (k[0] if n == "bottomRows" else 0, 0, k[0], None)
        if n in ("leftCols", "rightCols") and len(k) == 1:
            return (0, k[0] if n == "rightCols" else 0, None, k[0])
    return None
