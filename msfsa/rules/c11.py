"""C11 - every attitude of the filter state is a unit quaternion, however long the filter runs."""
from .layout import *
from .flow import *
from .c16 import managers, INIT, path
from .intake import resolve
from types import SimpleNamespace as NS
import math

G = "msf_core::GenericState_T::"
SMALL = "QuaternionFromSmallAngle"
QASSIGN = ("operator=", "operator*=", "normalize", "setIdentity", "setFromTwoVectors", "coeffs", "w", "x", "y", "z", "vec")


def check(cx):
    cx.rule("U1", "a state that is reset has identity attitudes")
    cx.rule("U2", "a correction turns attitudes by a unit rotation and normalises them")
    cx.rule("U3", "propagation normalises the attitude and copies the other ones")
    cx.rule("U4", "the attitudes a filter is initialised with are normalised, whatever was measured or configured")
    cx.rule("U5", "an attitude propagated by someone else is normalised before it is taken over")
    cx.rule("U6", "the quaternion of a rotation vector is unit, turns about that vector and by that angle to first order")
    cx.rule("U7", "nothing else writes attitudes of a state")
    us = fetch(cx, ("pose", "pose_pressure", "position_pose", "position", "spherical"))
    for u in us:
        p = cx.unit(u)
        L = layout(cx, p)
        qs = [v for v in L if v.quat]
        cx.need(qs, "an attitude in the state of " + u)
        seen = set()
        small(cx, p, u)
        reset(cx, p, u, qs, seen)
        correct(cx, p, u, qs, seen)
        propagate(cx, p, u, qs, seen)
        rollback(cx, p, u, qs, seen)
        inits(cx, p, u, qs, seen)
        if u != "spherical":
            external(cx, p, u, qs, seen)
        others(cx, p, u, seen)
    cx.floor("U1", 7)
    cx.floor("U2", 7)
    cx.floor("U4", 6)


def isprod(t):
    return t[0] in ("call", "op") and short(t[1]) in ("operator*", "*") and len(t) == 4


def unit(t, known=lambda t: False):
    """the value is a unit quaternion; None = cannot be said"""
    if type(t) is not tuple or not t:
        return None
    if known(t):
        return True
    k = t[0]
    if k in ("phi", "loop"):
        r = [unit(a, known) for a in alts(t) if a != t]
        return None if not r else False if False in r else None if None in r else True
    if k == "mut":
        n = short(t[1])
        if n in ("normalize", "setIdentity"):
            return True
        return unit(t[2], known) if n in ("conjugate",) else False
    if k == "L":
        return unit(t[1], known)
    if k == "call":
        n = short(t[1])
        if n in ("normalized", "Identity", "UnitRandom", "FromTwoVectors", SMALL):
            return True
        if isprod(t):
            r = [unit(a, known) for a in t[2:]]
            return True if r == [True, True] else False if False in r else None
        if n in ("conjugate", "inverse") and len(t) == 3:
            return unit(t[2], known)
        if n in ("Quaternion", "(ctor)", "cast", "operator=") and len(t) == 3:
            return unit(t[2], known)
        if n in ("Quaternion", "Quaterniond", "(ctor)") and len(t) == 6:
            return four(t[2:])
        if n == "quatFromMatrix":
            return rotation(t[2], known)
        if n == "slerp":
            r = [unit(a, known) for a in (t[2], t[-1])]
            return True if r == [True, True] else False if False in r else None
        return None
    if k == "ctor" and "Quaternion" in str(t[1]):
        a = t[2:]
        if len(a) == 4:
            return four(a)
        if len(a) == 1:
            return unit(a[0], known) if unit(a[0], known) is not None else rotation(a[0], known)
        return False
    if k == "upd":
        if any(x and x[0] == "call" and short(x[1]) in ("norm", "squaredNorm", "normalized", "stableNorm", "stableNormalized") for x in subterms(t[3])):
            return None
        return False            # parts of it are set
    if k == "op" and isprod(t):
        r = [unit(a, known) for a in t[2:]]
        return True if r == [True, True] else False if False in r else None
    if k in ("root", "fld", "elem", "deref", "default"):
        return False
    return None


def four(a):
    """w, x, y, z: numbers of unit norm, or cosine and sine of the same angle along an axis"""
    if all(num(x) for x in a):
        return abs(sum(x[1] ** 2 for x in a) - 1) < 1e-12
    rest = [x for x in a if not (num(x) and x[1] == 0)]
    if len(rest) == 2:
        f = sorted(short(x[1]) if type(x) is tuple and x[:1] == ("call",) else "" for x in rest)
        if f == ["cos", "sin"] and rest[0][2:] == rest[1][2:]:
            return True
    return False


def rotation(t, known):
    """a rotation matrix, or angle and axis"""
    if type(t) is not tuple:
        return None
    if t[0] == "call" and short(t[1]) in ("toRotationMatrix", "matrix"):
        return unit(t[2], known)
    if t[0] in ("call", "ctor") and "AngleAxis" in str(t[1]):
        a = t[-1]
        if type(a) is tuple and a[:1] == ("call",) and short(a[1]) in ("UnitX", "UnitY", "UnitZ", "normalized"):
            return True
    return None


def judge(cx, rule, inst, where, t, known, what, key):
    r = {unit(a, known) for a in alts(t)}
    if r == {True}:
        cx.ok(rule, inst)
    elif False in r:
        cx.bad(rule, inst, where, "%s: %s" % (what, show(t)[:80]), key=key)
    else:
        cx.undecided(rule, inst, where, "is %s unit" % show(t)[:60])


def note(e, seen):
    for v in e.events.values():
        if v.kind in ("write", "mut", "call") and v.fn is not None:
            seen.add((v.fn.id if hasattr(v.fn, "id") else id(v.fn), v.nid))


def small(cx, p, u):
    fs = [f for f in p.repo_fns() if f.n == SMALL and f.blocks]
    if not fs:
        return
    for f in fs:
        th = ("root", f.params[0]["n"])
        for vec in ((0.3, -0.2, 0.5), (-1.0, 0.5, 1.5), (2.0, 0.0, 0.0), (0.0, -2.0, 0.0), (1.9, 0.5, 0.2), (3.0, -1.0, 2.0), (0.0, 0.0, 0.0), (1e-3, 2e-3, -1e-3), (40.0, 3.0, -9.0)):
            sq = sum(x * x for x in vec)

            def leaf(t):
                if type(t) is not tuple:
                    return None
                if t[:1] == ("call",) and len(t) >= 3 and type(t[2]) is tuple and (t[2] == th or t[2] == ("deref", th) or t[2][:1] in (("call",), ("cast",), ("L",)) and rootof(t[2]) == th):
                    n = short(t[1])
                    if n == "squaredNorm" or n == "dot":
                        return sq
                    if n == "norm":
                        return math.sqrt(sq)
                if t[:1] == ("elem",) and t[1] in (th, ("deref", th)):
                    i = t[2][-1]
                    if num(i):
                        return vec[int(i[1])]
                    return vec["xyz".index(t[2][1])] if t[2][1] in ("x", "y", "z") else None
                if t[:1] in (("call",), ("op",)) and short(t[1]) in ("x", "y", "z") and t[2] in (th, ("deref", th)):
                    return vec["xyz".index(short(t[1]))]
                if t[:1] == ("call",) and short(t[1]) in ("sqrt", "sin", "cos", "abs", "fabs") and len(t) == 3:
                    a = evalnum(t[2], leaf)
                    return None if a is None or a < 0 and short(t[1]) == "sqrt" else getattr(math, {"abs": "fabs"}.get(short(t[1]), short(t[1])))(a)
                return None
            e, g, facts = settle(lambda fa: cx.run(p, f, facts=fa), leaf)
            inst = "%s quaternion of the rotation vector (%g %g %g)" % ((u,) + vec)
            got = None
            for r in alts(e.ret):
                norm = False
                while type(r) is tuple and (r[:2] == ("mut", "normalize") or r[:1] == ("call",) and short(r[1]) == "normalized"):
                    r, norm = r[2], True
                a = r[2:] if type(r) is tuple and r[0] in ("ctor", "call") else ()
                if len(a) == 4:
                    got = [evalnum(x, leaf) for x in a]
                    if None not in got and norm:
                        n = math.sqrt(sum(x * x for x in got))
                        got = [x / n for x in got]
                if got is None or None in got:
                    cx.undecided("U6", inst, f.where(), show(r)[:80])
                    continue
                n2 = sum(x * x for x in got)
                cx.expect(abs(n2 - 1) < 1e-9, "U6", inst + " unit", f.where(), "its norm is %.9g" % math.sqrt(n2), key="U6 unit")
                par = all(abs(got[1 + i] * vec[j] - got[1 + j] * vec[i]) < 1e-9 for i in range(3) for j in range(3)) and all(got[1 + i] * vec[i] >= 0 for i in range(3)) and got[0] >= -1e-12
                cx.expect(par, "U6", inst + " axis", f.where(), "it turns about (%.3g %.3g %.3g), w %.3g" % tuple(got[1:] + got[:1]), key="U6 axis")
                if sq < 1e-4:
                    cx.expect(all(abs(got[1 + i] - vec[i] / 2) <= 1e-5 * max(1e-9, abs(vec[i])) for i in range(3)), "U6", inst + " angle", f.where(), "it turns by %.6g instead of %.6g" % (2 * math.sqrt(sum(x * x for x in got[1:])), math.sqrt(sq)), key="U6 angle")


def reset(cx, p, u, qs, seen):
    f = [x for x in p.named(G + "Reset") if x.blocks]
    cx.need(f, "GenericState_T::Reset of " + u)
    e, g = cx.run(p, f[0], maxsize=60000)
    note(e, seen)
    for v in qs:
        t = e.load(e.final, var(THIS, v))
        judge(cx, "U1", "%s %s" % (u, v.name), f[0].where(), t, lambda t: False, "%s is not a unit attitude after a reset" % v.name, "U1 " + v.name)


def correct(cx, p, u, qs, seen):
    f = [x for x in p.named(G + "Correct") if x.blocks]
    cx.need(f, "GenericState_T::Correct of " + u)
    e, g = cx.run(p, f[0], pure={SMALL: ()}, maxsize=60000)
    note(e, seen)
    for v in qs:
        t = e.load(e.final, var(THIS, v))
        # unit before, but rounding must not accumulate: normalised again by every correction
        ok = lambda t: False
        judge(cx, "U2", "%s %s" % (u, v.name), f[0].where(), t, ok, "%s is not normalised by a correction" % v.name, "U2 " + v.name)


def propagate(cx, p, u, qs, seen):
    f = corefn(p, "PropagateState")
    e, g = cx.run(p, f, maxsize=60000)
    note(e, seen)
    a, b = (("root", q["n"]) for q in f.params[:2])
    for v in qs:
        t = e.load(e.final, var(b, v))
        olds = {var(x, v) for x in (a, ("deref", a))}
        if v.name == "q":
            judge(cx, "U3", "%s %s" % (u, v.name), f.where(), t, lambda t: False, "the propagated attitude is not normalised", "U3 q")
        else:
            judge(cx, "U3", "%s %s" % (u, v.name), f.where(), t, lambda t: t in olds or t in {var(x, v) for x in (b, ("deref", b))}, "%s changes in propagation" % v.name, "U3 " + v.name)


def rollback(cx, p, u, qs, seen):
    for f in p.named("msf_core::CheckFuzzyTracking::Check"):
        e, g = cx.run(p, f, pure={"msf_core::GetMedian": ()}, maxsize=100000)
        note(e, seen)
        roots = {q["n"] for q in f.params[:2]}
        known = lambda t: type(t) is tuple and t[:1] == ("elem",) and "statevars" in str(t[1]) and t[2][:2] == ("acc", "state") and rootof(t)[-1] in roots
        n = 0
        for w in e.events.values():
            if w.kind == "write" and type(w.loc) is tuple and "statevars" in str(w.loc) and isq(w.loc, qs):
                n += 1
                judge(cx, "U3", "%s rollback %d" % (u, n), w.where(), w.val, known, "an attitude is rolled back to", "U3 fuzzy")


def inits(cx, p, u, qs, seen):
    for m in managers(cx, p, u):
        f = [x for x in p.repo_fns() if x.n == m.cls + "::Init" and x.blocks]
        cx.need(f, m.cls + "::Init")
        for f in f:
            e, g = cx.run(p, f, pure={INIT: ()}, maxsize=400000, unroll=True)
            note(e, seen)
            ev = [v for v in e.events.values() if v.kind == "call" and v.name == INIT]
            cx.need(ev, "MSF_Core::Init in %s::Init" % m.cls)
            for v in ev:
                st = NS(env=v.pre)
                base = path(v.args[0], "InitState")
                for x in qs:
                    flag = resolve(e, st, e.load(st, ("fld", ("elem", ("fld", base, "statevars"), ("acc", "state", ("c", x.slot))), "hasResetValue")))
                    if flag != TRUE:
                        continue
                    t = resolve(e, st, e.load(st, var(base, x)))
                    judge(cx, "U4", "%s %s" % (m.name, x.name), v.where(), t, lambda t: False, "%s is initialised with a value that need not be unit" % x.name, "U4 %s %s" % (m.cls, x.name))
    for f in p.named("msf_core::MSF_InitMeasurement::Apply"):
        e, g = cx.run(p, f)
        note(e, seen)
    for f in p.named("msf_core::MSF_InitMeasurement::SetStateInitValue"):
        e, g = cx.run(p, f)
        note(e, seen)


def external(cx, p, u, qs, seen):
    EXT = C + "ProcessExternallyPropagatedState"
    # the attitude handed over by the handler
    for f in [x for x in p.repo_fns() if short(x.n) == "StateCallback" and x.blocks]:
        e, g = cx.run(p, f, pure={EXT: ()}, maxsize=100000)
        note(e, seen)
        for v in [v for v in e.events.values() if v.kind == "call" and v.name == EXT]:
            qa = [a for a, q in zip(v.args, corefn(p, "ProcessExternallyPropagatedState").params) if "Quaternion" in p.type(q["t"])]
            cx.need(len(qa) == 1, "the attitude handed to ProcessExternallyPropagatedState")
            judge(cx, "U5", "%s handed over" % u, v.where(), qa[0], lambda t: False, "the attitude of the external state is handed over unnormalised", "U5 handed")
    f = corefn(p, "ProcessExternallyPropagatedState")
    PR = [C + "PredictProcessCovariance", C + "HandlePendingMeasurements", C + "PropagatePOneStep"]
    e, g = cx.run(p, f, noinline=tuple(PR))
    note(e, seen)
    q = [("root", x["n"]) for x in f.params if "Quaternion" in p.type(x["t"])]
    known = lambda t: t in q or t in [("deref", x) for x in q] or type(t) is tuple and t[:1] == ("elem",) and "statevars" in str(t)
    n = 0
    for w in e.events.values():
        if w.kind == "write" and type(w.loc) is tuple and any(w.loc == var(rootof(w.loc), v) or "statevars" in str(w.loc) and type(w.loc) is tuple and w.loc[:1] == ("fld",) and w.loc[2] == "state_" and isq(w.loc, qs) for v in qs):
            n += 1
            judge(cx, "U5", "%s taken over (%d)" % (u, n), w.where(), w.val, known, "an attitude of the new state is", "U5 write")


def isq(l, qs):
    l = l[1] if l[0] == "fld" else l
    return type(l) is tuple and l[:1] == ("elem",) and l[2][:2] == ("acc", "state") and num(l[2][2]) and int(l[2][2][1]) in [v.slot for v in qs]


def others(cx, p, u, seen):
    """assignments to attitudes of a state outside the functions analysed"""
    n = 0
    for f in p.repo_fns():
        if not f.blocks:
            continue
        for i, nd in enumerate(f.nodes):
            if not nd or nd.get("k") != "Call" or not nd.get("c"):
                continue
            nm = nd.get("n") or ""
            if "Eigen::Quaternion" not in nm or short(nm) not in ("operator=", "operator*=", "normalize", "setIdentity", "setFromTwoVectors"):
                continue
            base = f.nodes[nd["c"][0]]
            k = 0
            while base and k < 8 and not ((base.get("k") == "Mem" and base.get("f") == "state_") or base.get("k") == "Call" and short(base.get("n") or "") in ("Get", "GetStateVariable") and (base.get("n") or "").startswith(G)):
                base = f.nodes[base["c"][0]] if base.get("c") else None
                k += 1
            if not base:
                continue
            n += 1
            key = (f.id if hasattr(f, "id") else id(f), i)
            cx.expect(key in seen, "U7", "%s %s line %s" % (u, f.n, nd.get("l")), f.where(i), "an attitude of a state is written here, outside reset, correction, propagation and initialisation", key="U7 " + f.n)
    cx.need(n > 0, "assignments to attitudes in " + u)
