"""Kinematics shared by the rules on propagation: exact points, series in the step length."""
from fractions import Fraction
from .core import *
from .layout import *
from .flow import settle
from .c34 import point, lin
from ..comp import Comp, Mx, Unknown, statevars, padd

CORE = ("p", "v", "q", "b_w", "b_a")
TM = lambda s: ("fld", s, "time")
IMU = [((7, -11, Fraction(5, 3)), (Fraction(2, 7), -1, 13)), ((Fraction(-3, 2), 4, 9), (5, Fraction(1, 9), -8))]


def units33(cx):
    return fetch(cx, ("pose", "pose_pressure", "position", "position_pose", "spherical"))


def fresh(L, e, states, old, new, turn=0, imu=(0, 1)):
    """evaluator with the states at exact points and the step length as the only unknown"""
    K = Comp(statevars(L, states), e.scalars)
    for n, s in enumerate(states):
        K.subst.update(point(L, [s], 3 * turn + 4 * n))
    K.subst[TM(old)] = {}
    K.subst[TM(new)] = K.var("dt")
    for s, k in ((old, imu[0]), (new, imu[1])):
        w, a = IMU[k]
        K.subst[("fld", s, "w_m")] = Mx(3, 1, [K.const(x) for x in w])
        K.subst[("fld", s, "a_m")] = Mx(3, 1, [K.const(x) for x in a])
    return K


def blank(L, K, s):
    K.subst[("fld", s, "Fd")] = K.ident(L.nc, L.nc)
    K.subst[("fld", s, "Qd")] = K.ident(L.nc, L.nc).map(lambda q: {})


def order(K, p):
    """lowest power of the step length in a polynomial"""
    d = K.atom("dt")
    return min((k.count(d) for k in p), default=None)


def put(M, r, c, B):
    for i in range(B.r):
        for j in range(B.c):
            M.e[(r + i) * M.c + c + j] = B[i, j]


def neg(A):
    return A.map(lambda q: {k: -v for k, v in q.items()})


def transition(L, K, new, terms=7):
    """exp(Fc dt) of the core errors as a series; Fc from the newer state's readings and attitude"""
    X = {v.name: K.ev(var(new, v)) for v in L}
    rot = K.rot(X["q"][1])
    ew = lin(K, K.mat(("fld", new, "w_m")), X["b_w"], -1)
    ea = lin(K, K.mat(("fld", new, "a_m")), X["b_a"], -1)
    o = {v.name: v.offc for v in L}
    n = 15
    I = K.ident(3, 3)
    Fc = Mx(n, n, [{} for _ in range(n * n)])
    put(Fc, o["p"], o["v"], I)
    put(Fc, o["v"], o["q"], neg(K.mmul(rot, K.skew(ea))))
    put(Fc, o["v"], o["b_a"], neg(rot))
    put(Fc, o["q"], o["q"], neg(K.skew(ew)))
    put(Fc, o["q"], o["b_w"], neg(I))
    T = K.ident(n, n)
    E = T
    for k in range(1, terms):
        T = K.mmul(T, Fc).map(lambda q: K.pmul(q, {(K.atom("dt"),): Fraction(1, k)}))
        E = lin(K, E, T)
    return E, rot


def predicted(cx, p, dt):
    """run of the covariance prediction over a step of dt seconds"""
    fn = corefn(p, "PredictProcessCovariance")
    a, b = (("root", q["n"]) for q in fn.params[:2])
    leaf = lambda t: (100.0 if t == TM(a) else 100.0 + dt if t == TM(b) else None)
    e, g, _ = settle(lambda facts: cx.run(p, fn, facts=facts, maxsize=400000, unroll=True), leaf)
    return fn, a, b, e
