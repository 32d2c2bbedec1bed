"""C33 - strap-down propagation of the state and the transition matrix that goes with it."""
from .kin import *
from .handlers import ctors

GRAV = "msf_core::constants::GRAVITY"


def check(cx):
    cx.rule("P1", "attitude: the solution of dq/dt = q*(0,w)/2 for rates changing linearly over the step, through second order (fourth for equal rates), normalised")
    cx.rule("P2", "velocity: v + ((C(q')a' + C(q)a)/2 - g) dt with bias-corrected accelerations")
    cx.rule("P3", "position: p + (v' + v)/2 dt")
    cx.rule("P4", "biases and auxiliary states keep their values")
    cx.rule("P5", "Fd is the series of exp(Fc dt) of the error dynamics through the second order after the leading one, and identity elsewhere")
    cx.rule("P6", "Fd of a new state is the identity")
    for u in units33(cx):
        p = cx.unit(u)
        L = layout(cx, p)
        cx.need(all(n in L for n in CORE), "the core states of unit " + u)
        if p.by_name.get(C + "PropagateState"):
            motion(cx, p, L, u)
        if p.by_name.get(C + "PredictProcessCovariance"):
            matrix(cx, p, L, u)
        ctor(cx, p, L, u)
    g = [x for x in p.globals if x["n"] == GRAV]
    if g and g[0].get("nums"):
        n = g[0]["nums"]
        cx.expect(len(n) == 3 and n[0] == n[1] == 0 and 9.7 < n[2] < 9.9, "P2", "gravity", p.files[g[0]["f"]] + ":%d" % g[0]["l"], "gravity is %s" % n, key="P2 g")
    cx.floor("P1", 2)
    cx.floor("P5", 2)
    cx.floor("P6", 2)


def direction(t):
    """the quaternion before normalisation, or None"""
    if type(t) is tuple and t and t[0] == "mut" and t[1] == "normalize":
        return t[2]
    if type(t) is tuple and t and t[0] == "call" and short(t[1]) == "normalized":
        return t[2]
    if type(t) is tuple and t and t[0] == "phi" and len(t[1]) == 1:
        return direction(next(iter(t[1])))
    return None


def picard(q0, w0, w1, terms):
    """[coefficient of dt^k of the attitude after the step] for rates going linearly from w0 to w1"""
    def half(q, w):     # q * (w, 0) / 2, components x y z w
        x, y, z, s = q
        a, b, c = w
        return [(s * a + y * c - z * b) / 2, (s * b + z * a - x * c) / 2, (s * c + x * b - y * a) / 2, -(x * a + y * b + z * c) / 2]
    dw = [b - a for a, b in zip(w0, w1)]
    cur = [list(q0)]        # polynomial in s in [0, 1]
    out = [list(q0)]
    for _ in range(terms):
        nxt = [[Fraction(0)] * 4 for _ in range(len(cur) + 2)]
        for k, q in enumerate(cur):
            for s, w in ((1, w0), (2, dw)):
                h = half(q, w)
                for i in range(4):
                    nxt[k + s][i] += h[i] / (k + s)
        cur = nxt
        out.append([sum(c[i] for c in cur) for i in range(4)])
    return out


def motion(cx, p, L, u):
    fn = corefn(p, "PropagateState")
    a, b = (("root", q["n"]) for q in fn.params[:2])
    e, g = cx.run(p, fn, maxsize=400000, unroll=True)
    env = e.final.env
    cur = {v.name: e.load(e.final, var(b, v)) for v in L}
    old = {v.name: var(a, v) for v in L}
    where = fn.where()
    for v in L:
        if v.name in ("p", "v", "q"):
            continue
        got = cur[v.name]
        K = fresh(L, e, [a, b], a, b)
        try:
            x, y = K.ev(got), K.ev(old[v.name])
            same = got == old[v.name] or (x[1].e if type(x) is tuple else K.fit(x, (v.n, 1)).e) == (y[1] if type(y) is tuple else y).e
        except Unknown as ex:
            cx.undecided("P4", "%s %s" % (u, v.name), where, str(ex))
            continue
        cx.expect(same, "P4", "%s %s" % (u, v.name), where, "propagation changes %s to %s" % (v.name, show(got)[:60]), key="P4 " + v.name)
    # attitude
    d = direction(cur["q"])
    if cx.expect(d is not None, "P1", u + " normalised", where, "the propagated attitude is not normalised: %s" % show(cur["q"])[:60], key="P1 norm"):
        for turn, imu, most in ((0, (0, 1), 2), (1, (1, 0), 2), (0, (0, 0), 4), (2, (1, 1), 4)):
            K = fresh(L, e, [a, b], a, b, turn, imu)
            if imu[0] == imu[1]:
                K.subst[var(b, L["b_w"])] = K.subst[var(a, L["b_w"])]
            try:
                X = K.ev(d)
                X = X[1] if type(X) is tuple else K.fit(X, (4, 1))
            except Unknown as ex:
                cx.undecided("P1", u, where, str(ex))
                break
            c = lambda m: [q.get((), Fraction(0)) for q in m.e]
            bw = c(K.mat(var(a, L["b_w"])))      # both rates are corrected with the bias the new state takes over
            w = [[x - y for x, y in zip(c(K.mat(("fld", s, "w_m"))), bw)] for s in (a, b)]
            T = picard(c(K.quat(var(a, L["q"]))), w[0], w[1], most)
            dt = K.atom("dt")
            TX = [{(dt,) * k: T[k][i] for k in range(most + 1) if T[k][i]} for i in range(4)]
            cut = lambda q: {k: v for k, v in q.items() if k.count(dt) <= most}
            bad = [(i, j) for i in range(4) for j in range(i) if cut(padd(K.pmul(X.e[i], TX[j]), K.pmul(X.e[j], TX[i]), -1))]
            low = min((order(K, padd(K.pmul(X.e[i], TX[j]), K.pmul(X.e[j], TX[i]), -1)) for i, j in bad), default=None)
            cx.expect(not bad, "P1", "%s point %d%d" % (u, turn, imu[0]), where, "the attitude after a step%s is wrong in order %s of the step length" % ("" if imu[0] != imu[1] else " with constant rate", low), key="P1 order %s" % (imu[0] == imu[1]))
    # velocity and position, with the new attitude (and velocity) as such
    for turn in (0, 1):
        K = fresh(L, e, [a, b], a, b, turn)
        dt = K.var("dt")
        qn = point(L, [b], 17)[var(b, L["q"])]
        K.subst[cur["q"]] = qn
        ba = K.mat(var(a, L["b_a"]))
        acc = [lin(K, K.mat(("fld", s, "a_m")), ba, -1) for s in (a, b)]
        G = ("glob", GRAV)
        K.subst[G] = Mx(3, 1, [{}, {}, K.var("g")])
        dv = lin(K, K.mmul(K.rot(qn[1]), acc[1]), K.mmul(K.rot(K.quat(old["q"])), acc[0]))
        dv = lin(K, dv.map(lambda q: K.pmul(q, K.const(Fraction(1, 2)))), K.subst[G], -1)
        vn = lin(K, K.mat(old["v"]), dv.map(lambda q: K.pmul(q, dt)))
        for rule, n in (("P2", "v"), ("P3", "p")):
            if n == "p":
                pn = lin(K, vn, K.mat(old["v"])).map(lambda q: K.pmul(q, {k: x / 2 for k, x in dt.items()}))
                vn = lin(K, K.mat(old["p"]), pn)
            try:
                got = K.mat(cur[n], 3, 1)
            except Unknown as ex:
                cx.undecided(rule, u, where, str(ex))
                continue
            bad = [i for i in range(3) if padd(got.e[i], vn.e[i], -1)]
            cx.expect(not bad, rule, "%s point %d" % (u, turn), where, "%s after a step is wrong in components %s" % (n, bad), key="%s %s" % (rule, n))


def matrix(cx, p, L, u):
    for k, dt in enumerate((0.001, 0.01, 0.7)):
        fn, a, b, e = predicted(cx, p, dt)
        K = fresh(L, e, [a, b], a, b, k, (k % 2, 1 - k % 2))
        blank(L, K, a)
        try:
            F = K.mat(exitval(e, ("fld", a, "Fd")))
        except Unknown as ex:
            cx.undecided("P5", u, fn.where(), str(ex))
            continue
        E, _ = transition(L, K, b)
        for r in L:
            for c in L:
                inst = "%s step %g (%s, %s)" % (u, dt, r.name, c.name)
                bad = []
                for i in range(r.nc):
                    for j in range(c.nc):
                        got = F[r.offc + i, c.offc + j]
                        if r.name in CORE and c.name in CORE:
                            want = E[r.offc + i, c.offc + j]
                        else:
                            want = K.const(1 if r is c and i == j else 0)
                        d = padd(got, want, -1)
                        if d and order(K, d) < lead(r.name, c.name) + 3:
                            bad.append((i, j, order(K, d)))
                cx.expect(not bad, "P5", inst, fn.where(), "Fd is wrong at (row, column, order of the step) %s of block (%s, %s)" % (bad[:3], r.name, c.name), key="P5 %s %s" % (r.name, c.name))


# first order of the step length that appears in a block of exp(Fc dt)
LEAD = {("p", "v"): 1, ("p", "q"): 2, ("p", "b_w"): 3, ("p", "b_a"): 2, ("v", "q"): 1, ("v", "b_w"): 2, ("v", "b_a"): 1, ("q", "q"): 0, ("q", "b_w"): 1}


def lead(r, c):
    return LEAD.get((r, c), 9)


def ctor(cx, p, L, u):
    fs = [f for f in ctors(p, "msf_core::GenericState_T") if not f.params]
    for fn in fs:
        e, g = cx.run(p, fn)
        for m, want in (("Fd", "setIdentity"), ("Qd", "setZero"), ("P", "setZero")):
            t = exitval(e, fld(m))
            ok = type(t) is tuple and (t[:2] == ("mut", want) or t[0] == "call" and short(t[1]) == {"setIdentity": "Identity", "setZero": "Zero"}[want])
            cx.expect(ok, "P6", "%s %s" % (u, m), fn.where(), "%s of a new state is %s" % (m, show(t)[:60]), key="P6 " + m)
