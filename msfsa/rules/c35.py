"""C35 - a measurement is what its message says: value, frame convention and covariance."""
from .intake import *
from ..comp import padd

QS = ((2, 4, 5, 6, 9), (4, 10, 1, 2, 11))


def check(cx):
    cx.rule("Z1", "the measured value holds the fields of the message in their order")
    cx.rule("Z2", "with a sensor that reports the world in its own frame the inverse of the reported pose is taken")
    cx.rule("Z3", "the covariance is the configured noise squared on the diagonal when fixed, the message's otherwise, with positive entries only added where the message has none")
    cx.rule("Z4", "the value kept for the initialisation is that of the measurement, and is what the handler reports")
    for h in intake(cx):
        for n, tp, f in callbacks(h):
            for fx in (True, False) if tp.cov else (True,):
                for w in (True, False) if h.spec.world else (None,):
                    for k in (0, 1):
                        one(cx, h, n, tp, f, fx, w, k)
                if tp.fix and not fx:       # every way a fix can say its covariance is known
                    for ct in (1, 3):
                        one(cx, h, n, tp, f, fx, None, 0, ct)
            kept(cx, h, n, tp, f)
        getters(cx, h)
    cx.floor("Z1", 10)
    cx.floor("Z3", 10)
    cx.floor("Z4", 10)


def F(a, b=1):
    return {(): Fraction(a, b)} if a else {}


def point(h, r, tp, k):
    """exact values for what the message and the handler hold"""
    K = Comp(lambda t: None, r.e.scalars)
    m = r.m
    X = NS(K=K, q=None, cov=None)
    xs = [F(3 + 5 * k, 2), F(-7 + k, 3), F(11 - 3 * k, 5)]
    base = path(m, *tp.p)
    if tp.fix:
        X.p = Mx(3, 1, xs)
    else:
        for c, x in zip("xyz", xs):
            K.subst[("fld", base, c)] = x
        X.p = Mx(3, 1, xs)
        X.by = dict(zip("xyz", xs))
    if getattr(tp, "q", None):
        *a, d = QS[k]
        X.q = Mx(4, 1, [F(x, d) for x in a])
        for c, x in zip("xyzw", X.q.e):
            K.subst[("fld", path(m, *tp.q), c)] = x
    if tp.cov:
        n = 3 if tp.fix else 6
        arr = path(m, *tp.cov)
        ent = lambda i, j: F(7 * min(i, j) + 3 * max(i, j) + (20 if i == j else 0) + k, 4)
        X.cov = Mx(n, n, [ent(i, j) for i in range(n) for j in range(n)])
        for s in range(n * n):      # a matrix read from the array at some entry (past its end: unknown)
            K.subst[("addr", ("elem", arr, ("acc", "at", ("c", s))))] = Mx(n, n, [X.cov.e[i + s] if i + s < n * n else K.var(("past", i)) for i in range(n * n)])
        K.subst[("call", "boost::array::data", arr)] = X.cov
        K.subst[arr] = Mx(n * n, 1, list(X.cov.e))
        for i in range(n * n):
            K.subst[("elem", arr, ("acc", "at", ("c", i)))] = X.cov.e[i]
    X.noise = [F(3 + k, 7), F(5 + k, 8)]
    for l, x in zip(h.setter("SetNoises"), X.noise):
        if l is not None:
            K.subst[l] = x
    X.nset = h.setter("SetNoises")
    return X


def enu(cx, h, r, v, X, z, inst, key):
    """a fix is converted to the local frame from its own coordinates"""
    m = r.m
    seen = {t for t in subterms(z) if t and t[0] == "call" and t[1] == TOENU}
    good = True
    for t in seen:
        inner = [x for x in subterms(t) if x and x[0] == "call" and x[1] == TOECEF]
        if not inner or any(x[-3:] != tuple(path(m, c) for c in ("latitude", "longitude", "altitude")) for x in inner):
            good = False
        X.K.subst[t] = X.p
    for t in subterms(z):
        if t and t[0] == "call" and t[1] == TOECEF:
            X.K.subst[t] = Mx(3, 1, [F(1009), F(1013), F(1019)])
    cx.expect(bool(seen) and good, "Z1", inst + " converted", v.where(), "the value is not the local position of the fix: %s" % show(z)[:120], key="Z1 %s enu" % key)
    return bool(seen) and good


def one(cx, h, n, tp, f, fx, w, k, ct=2):
    inst = "%s %s %s%s%s point %d" % (h.u, h.name, n, " fixed" if fx else " sensor covariance", "" if w is None else " world" if w else " sensor frame", k)
    key = "%s %s" % (h.cls, n)
    r = h.case(f, fixed=fx, world=w, cov0=2.0, nodist=True, covtype=ct)
    for v in r.add:
        X = point(h, r, tp, k)
        K = X.K
        rule = "Z1" if w in (None, True) else "Z2"
        p, q = X.p, X.q
        C = None
        if w is False:
            C = K.rot(q)
            p = K.mmul(C.T, p).map(lambda a: {i: -x for i, x in a.items()})
            q = Mx(4, 1, [{i: -x for i, x in a.items()} for a in X.q.e[:3]] + [X.q.e[3]])
        for zn, kind in h.spec.z.items():
            t = value(r, v, zn)
            try:
                if tp.fix and not enu(cx, h, r, v, X, t, inst, key):
                    continue
                got = K.ev(t)
                if kind == "q":
                    if not (type(got) is tuple and got[0] == "q"):
                        raise Unknown("not a quaternion")
                    got, want = got[1], q
                    if [a for a in got.e] == [{i: -x for i, x in a.items()} for a in want.e]:
                        got = want      # the same attitude
                else:
                    want = p if kind == 3 else Mx(len(kind), 1, [X.by[c] for c in kind])
                    got = K.fit(got, (want.r, 1))
            except Unknown as x:
                cx.undecided(rule, inst + " " + zn, v.where(), str(x)[:120])
                continue
            cx.expect(got.e == want.e, rule, inst + " " + zn, v.where(), "%s is %s where %s was expected" % (zn, nums(got), nums(want)), key="%s %s %s%s" % (rule, key, zn, "" if fx else " cov"))
        noise(cx, h, n, tp, r, v, X, fx, C, inst, key)


def noise(cx, h, n, tp, r, v, X, fx, C, inst, key):
    K = X.K
    t = value(r, v, "R_")
    sizes = h.spec.kinds
    N = sum(sizes)
    filled(h, tp, X, t, path(r.m, *tp.cov) if tp.cov else None)
    try:
        R = K.ev(t)
        R = K.fit(R, (N, N)) if not isinstance(R, Mx) else R
    except Unknown as x:
        cx.undecided("Z3", inst, v.where(), str(x)[:120])
        return
    if not cx.expect(R.r == R.c >= N, "Z3", inst + " size", v.where(), "the covariance is %d by %d" % (R.r, R.c), key="Z3 %s size" % key):
        return
    cx.expect(None not in X.nset, "Z3", inst + " noise", f_where(h), "SetNoises does not set a member per value", key="Z3 %s SetNoises" % h.cls)
    want = {}
    if fx:
        o = 0
        for s, x in zip(sizes, X.noise):
            for i in range(s):
                want[o + i, o + i] = K.pmul(x, x)
            o += s
    else:
        o = 0
        blocks = [X.cov.sub(a, a, s, s) for a, s in zip((0, 3), sizes)]
        if C is not None:
            blocks[0] = K.mmul(K.mmul(C.T, blocks[0]), C)
            blocks[1] = None
        for s, b in zip(sizes, blocks):
            for i in range(s):
                for j in range(s):
                    want[o + i, o + j] = b[i, j] if b is not None else None
            o += s
    bad = []
    for i in range(N):
        for j in range(N):
            x = want.get((i, j), {})
            if x is not None and R[i, j] != x:
                bad.append("(%d,%d) is %s, not %s" % (i, j, pn(R[i, j]), pn(x)))
    for i in range(N, R.r):         # rows the message says nothing about
        for j in range(R.c):
            for a, b in {(i, j), (j, i)}:
                y = R[a, b]
                if a == b and not (set(y) == {()} and y[()] > 0) or a != b and y:
                    bad.append("(%d,%d) is %s" % (a, b, pn(y)))
    cx.expect(not bad, "Z3", inst, v.where(), "; ".join(bad[:3]), key="Z3 %s %s" % (key, "fixed" if fx else "cov"))


def filled(h, tp, X, t, arr):
    """arrays filled entry by entry: what a matrix read from them holds"""
    n = 3 if tp.fix else 6
    for a in [x for x in subterms(t) if x and x[0] == "addr" and len(x) == 2 and x[1][:1] == ("elem",) and x[1][1][:1] == ("upd",)]:
        u, acc = a[1][1], a[1][2]
        over = {}
        while u[:1] == ("upd",):
            if not (u[2][:2] == ("acc", "at") and num(u[2][2])):
                break
            over.setdefault(int(u[2][2][1]), u[3])
            u = u[1]
        if u == arr and X.cov is not None:
            base = list(X.cov.e)
        elif h.covarr(u) and rootof(u)[:1] == ("new",):
            base = [{}] * (n * n)       # a new message is zero
        else:
            continue
        if not num(acc[2]):
            continue
        for i, val in over.items():
            try:
                if i < len(base):
                    base[i] = X.K.sc(val)
            except Unknown:
                base[i:i + 1] = [X.K.var(("entry", i))]
        s = int(acc[2][1])
        X.K.subst[a] = Mx(n, n, [base[i + s] if i + s < n * n else X.K.var(("past", i)) for i in range(n * n)])


def f_where(h):
    return h.ctor.where()


def pn(x):
    return "?" if any(k for k in x) else str(x.get((), 0))


def nums(m):
    return "(" + ", ".join(pn(x) for x in m.e) + ")"


def kept(cx, h, n, tp, f):
    """what the initialisation will read"""
    r = h.case(f, fixed=True, world=True, cov0=2.0, nodist=True)
    e, g = r.e, r.g
    inst = "%s %s %s" % (h.u, h.name, n)
    for v in r.add:
        for zn in h.spec.z:
            x = exitval(e, fld(zn))
            st = NS(env=v.pre)
            want = e.load(st, path(v.args[0], zn))
            cx.expect(x == want, "Z4", inst + " " + zn, f.where(), "%s kept for the initialisation is %s" % (zn, show(x)[:100]), key="Z4 %s %s %s" % (h.cls, n, zn))


GET = {PS: {"GetPositionMeasurement": "z_p_", "GetAttitudeMeasurement": "z_q_"}, OS: {"GetPositionMeasurement": "z_p_"}, RS: {"GetPressureMeasurement": "z_p_", "GetAveragedPressureMeasurement": None},
       AS: {"GetAngleMeasurement": "z_a_"}, DS: {"GetDistanceMeasurement": "z_d_"}}


def getters(cx, h):
    for n, z in GET[h.cls].items():
        for f in h.p.repo_fns():
            if f.n == h.cls + "::" + n and f.blocks and z:
                e, g = cx.run(h.p, f)
                cx.expect(e.ret == fld(z), "Z4", "%s %s" % (h.u, n), f.where(), "%s gives %s" % (n, show(e.ret)[:60]), key="Z4 %s %s" % (h.cls, n))
