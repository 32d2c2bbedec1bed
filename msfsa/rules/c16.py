"""C16 - (re)initialisation: the starting state explains the latest measurements, on command only, with the settings in force."""
import math
from .intake import *
from .layout import *
from . import c34
from .. import build
from ..engine import State
from ..comp import padd

UNITS = {"quick": ("pose", "pose_pressure", "position", "position_pose", "spherical"), "thorough": ("pose", "pose_dyn", "pose_pressure", "position", "position_pose", "spherical")}
INIT = C + "Init"
NOISE = {PS: ("pose_noise_meas_p", "pose_noise_meas_q"), OS: ("position_noise_meas",), RS: ("press_noise_meas_p",), AS: ("angle_noise_meas",), DS: ("distance_noise_meas",)}
DELAY = {PS: "pose_delay", OS: "position_delay", AS: "angle_delay", DS: "distance_delay"}
YAW = ("position_yaw_init", "yaw_init")


F = lambda a, b=1: {(): Fraction(a, b)} if a else {}


def check(cx):
    cx.rule("B1", "the initial state predicts the measurements it is made from")
    cx.rule("B2", "it is at rest, unbiased and upright to gravity, with the commanded scale, the configured yaw and the configured calibration, unit attitudes and default covariance")
    cx.rule("B3", "every setting reaches the handler or member it is for, on every path of the reconfigure callback and before an initialisation it asks for")
    cx.rule("B4", "the filter is initialised once when and only when it is asked for, with the scale asked for, and the request is taken back")
    cx.rule("B5", "the callbacks and services are connected")
    n = 0
    for u in fetch(cx, UNITS["thorough" if cx.tier == "thorough" else "quick"]):
        p = cx.unit(u)
        for m in managers(cx, p, u):
            n += 1
            wiring(cx, m)
            settings(cx, m)
            config(cx, m)
            services(cx, m)
    cx.need(n, "a sensor manager")
    cx.floor("B1", 5)
    cx.floor("B2", 10)
    cx.floor("B3", 8)
    cx.floor("B4", 8)


def managers(cx, p, u):
    """the classes that own sensor handlers and a configuration"""
    _, cfgs = build.gen_ros()
    for r in p.records:
        fs = {f["n"]: p.types[f["t"]] for f in r["fields"]}
        hs = {n: k for n, t in fs.items() for k in HANDLERS if re.search(r"\b%s\b" % short(k), t)}
        if not hs or "config_" not in fs:
            continue
        c = [c for c in cfgs if c["name"] + "Config" == short(fs["config_"])]
        f = [f for f in p.repo_fns() if f.n == r["n"] + "::Config" and f.blocks]
        cx.need(len(c) == 1 and len(f) == 1, "configuration of " + r["n"])
        hp = {k: Handler(cx, p, u, k) for k in set(hs.values())}
        yield NS(cx=cx, p=p, u=u, cls=r["n"], hs=hs, cfg={q["name"]: q for q in c[0]["params"]}, config=f[0], h=hp, L=layout(cx, p), name="%s %s" % (u, short(r["n"])))


def z(m, cls, n):
    """where the handler of this kind keeps its latest measurement"""
    mem = next((k for k, v in m.hs.items() if v == cls), None)
    return None if mem is None else ("fld", fld(mem), n)


def run(m, f, cfgroot=None, level=None, vals={}, norm=1.0, args=None, heights={}):
    """entry point f with its request settled"""
    cx, p = m.cx, m.p
    env = {}
    env.update(vals)
    if args is None:
        args = [("root", q["n"]) for q in f.params]
    zp = z(m, PS, "z_p_")
    got = {("fld", fld(k), "received_first_measurement_") for k in m.hs}

    S = {t: v for t, v in scalars(m).items() if t[2] in ("core_height", "pose_initial_scale")}

    def leaf(t):
        if t in heights:
            return heights[t]
        if t in S:
            return S[t]
        if type(t) is tuple and t and t[0] == "call" and short(t[1]) in ("norm", "squaredNorm") and t[2:] == (zp,):
            return norm
        return None
    e, g, facts = settle(lambda fa: cx.run(p, f, pure={INIT: ()}, facts=fa, env=env, args=args, maxsize=400000, unroll=True), leaf,
                         {(x, True) for x in got})
    return e, g


def plain(t):
    """without the dereferences of references"""
    if type(t) is not tuple:
        return t
    if t[:1] == ("deref",) and type(t[1]) is tuple and t[1][:1] == ("root",):
        return t[1]
    return tuple(plain(x) for x in t)


def scalars(m):
    """valuation of the settings"""
    out = {}
    k = 0
    r = ("root", m.config.params[0]["n"])
    for base in (r, ("deref", r), fld("config_")):
        for i, (n, q) in enumerate(sorted(m.cfg.items())):
            if q["type"] == "double":
                out[("fld", base, n)] = VAL(n, i)
    return out


def VAL(n, i=0):
    return {"core_height": Fraction(7, 4), "pose_initial_scale": Fraction(5, 3)}.get(n, Fraction(36 if n in YAW else 3 + i, 1 if n in YAW else 7))


YQ = (F(0), F(0), F(5, 13), F(12, 13))      # stands for half of the 36 degrees of yaw; sine and cosine are exact
QS = {"q_ic": (1, 2, 4, 10, 11), "z_q_": (2, 4, 5, 6, 9)}
VS = {"p_ic": (F(2, 3), F(-5, 7), F(4, 5)), "p_ip": (F(-1, 3), F(7, 5), F(9, 4)), "z_p_": (F(11, 2), F(-13, 3), F(17, 5)), PS: (F(3, 2), F(19, 3), F(-23, 5))}


def point(m, e, terms, nolever=False):
    """exact values of parameters, settings and measurements"""
    K = Comp(lambda t: None, e.scalars)
    for t, v in scalars(m).items():
        K.subst[t] = {(): v}
    K.subst.update(getattr(m, "extra", {}))
    zs = {}
    for cls, n in ((PS, "z_p_"), (OS, "z_p_")):
        if z(m, cls, n):
            zs[cls, n] = K.subst[z(m, cls, n)] = Mx(3, 1, list(VS[PS] if cls == PS else VS["z_p_"]))
    if z(m, PS, "z_q_"):
        *a, d = QS["z_q_"]
        zs[PS, "z_q_"] = Mx(4, 1, [F(x, d) for x in a])
        K.subst[z(m, PS, "z_q_")] = ("q", zs[PS, "z_q_"])
    if z(m, RS, "z_p_"):
        zs[RS, "z_p_"] = K.subst[z(m, RS, "z_p_")] = Mx(1, 1, [F(29, 6)])
    if z(m, AS, "z_a_"):
        K.subst[z(m, AS, "z_a_")] = Mx(2, 1, [F(7, 10), F(11, 10)])
        K.subst[z(m, DS, "z_d_")] = Mx(1, 1, [F(31, 3)])
    yaw = 36.0 / 180 * math.pi / 2
    K.funcs = {"sin": [(.7, Fraction(3, 5)), (1.1, Fraction(15, 17)), (yaw, YQ[2][()])], "cos": [(.7, Fraction(4, 5)), (1.1, Fraction(8, 17)), (yaw, YQ[3][()])]}
    K.zs = zs
    K.par = {}
    for t in terms:
        for x in subterms(t):
            if x and x[0] in ("out", "call") and x[1].startswith("ros::NodeHandle::") and len(x) > 3:
                s = next((strval(y) for y in x[2:] if type(y) is tuple and y and "/" in strval(y)), None)
                if s is None:
                    continue
                mm = re.match(r"(?:.*/)?(p_ic|p_ip|q_ic)/([wxyz])$", s)
                if not mm:
                    raise Unknown("parameter " + s)
                n, c = mm.groups()
                if n == "q_ic":     # parameters need not be of unit length
                    v = F(3 * QS[n]["xyzw".index(c)], 2)
                else:
                    v = F(0) if nolever and n == "p_ic" else VS[n]["xyz".index(c)]
                K.subst[x] = v
                K.par[n, c] = s
    return K


def initial(m, e, v, scale, inst, nolever=False):
    """{name: value} of the state handed to the filter"""
    st = NS(env=v.pre)
    meas = v.args[0]
    base = path(meas, "InitState")
    get = lambda l: resolve(e, st, e.load(st, l))
    vals = {}
    for x in m.L:
        w = get(var(base, x))
        flag = get(("fld", ("elem", ("fld", base, "statevars"), ("acc", "state", ("c", x.slot))), "hasResetValue"))
        vals[x.name] = w if flag == TRUE else None if flag == FALSE or flag[:1] in (("default",), ("fld",)) else "open"
    extra = {"a_m": get(path(base, "a_m")), "w_m": get(path(base, "w_m"))}
    K = point(m, e, [t for t in list(vals.values()) + list(extra.values()) + [scale] if t is not None], nolever)
    X = {}
    for x in m.L:
        t = vals[x.name]
        if t is None:
            X[x.name] = Mx(4, 1, [{}, {}, {}, F(1)]) if x.quat else Mx(x.n, 1, [F(1) if x.name == "L" else {}] * x.n)
        elif x.quat:
            X[x.name] = K.quat(t)
        else:
            X[x.name] = K.mat(t, x.n, 1)
    return K, X, {k: K.mat(t, 3, 1) for k, t in extra.items()}, get(path(meas, "ContainsInitialSensorReadings_")), get(path(base, "P"))


def reason(a, b):
    return " / ".join("%s: %s" % ("xyzw"[i] if i < 4 else i, num_(x)) for i, x in enumerate(a.e) if x != b.e[i])


def num_(p):
    return "%.4g" % float(p.get((), 0)) if set(p) <= {()} else "?"


def inits(m, e, g, f, inst, expected, where):
    """the initialisations a run makes are the expected ones: [(name, scale polynomial)]"""
    cx = m.cx
    ev = [v for v in e.events.values() if v.kind == "call" and v.name == INIT]
    key = "B4 %s %s" % (m.cls, inst.split(" : ")[-1])
    if not expected:
        cx.expect(not ev, "B4", inst, where, "the filter is initialised although nothing asks for it", key=key)
        return
    if not cx.expect(bool(ev), "B4", inst, where, "the filter is not initialised although it is asked for", key=key):
        return
    isev = lambda x: x in ev
    miss = g.path(g.entry, "exit", avoid=isev, include_start=True)
    cx.expect(miss is None, "B4", inst + " always", where, "a path leaves the initialisation out", key=key + " path")
    twice = [v for v in ev if g.reaches(v, isev)]
    cx.expect(not twice, "B4", inst + " once", where, "the filter is initialised again on the same request", key=key + " twice")
    for v in ev:
        try:
            start(m, e, v, expected[0], inst, v.where())
        except Unknown as x:
            cx.undecided("B1", inst, v.where(), str(x))


def start(m, e, v, scale, inst, where):
    cx = m.cx
    L = m.L
    K, X, S, flag, P = initial(m, e, v, scale, inst)
    ek = lambda r, n: "%s %s %s" % (r, m.cls, n)
    eq = lambda r, n, a, b, what: cx.expect(a.e == b.e, r, "%s %s" % (inst, n), where, "%s (%s)" % (what, reason(a, b)), key=ek(r, n))
    sc = K.sc(scale)
    zero = lambda n: Mx(n, 1, [{}] * n)
    for n in ("v", "b_w", "b_a"):
        eq("B2", n, X[n], zero(3), "the initial %s is not zero" % n)
    eq("B2", "w_m", S["w_m"], zero(3), "the initial angular rate is not zero")
    eq("B2", "a_m", K.mmul(K.rot(X["q"]), S["a_m"]), Mx(3, 1, [{}, {}, K.const(9.81)]), "the initial acceleration is not gravity seen from the initial attitude")
    cx.expect(flag not in (FALSE, None) and (flag == TRUE or num(flag)), "B2", inst + " readings", where, "the initial acceleration and rate are not used", key=ek("B2", "readings"))
    try:
        p0 = K.ev(P)
        good = p0 == "zero" or isinstance(p0, Mx) and not any(p0.e)
        cx.expect(good, "B2", inst + " P", where, "the initial covariance is neither the default nor given", key=ek("B2", "P"))
    except Unknown as x:
        cx.undecided("B2", inst + " P", where, str(x))
    for x in L:
        if x.quat:
            s = {}
            for c in X[x.name].e:
                s = padd(s, K.pmul(c, c))
            cx.expect(s == F(1), "B2", "%s %s unit" % (inst, x.name), where, "the initial %s is not of unit length" % x.name, key=ek("B2", x.name + " unit"))
    if "L" in L:
        eq("B2", "L", X["L"], Mx(1, 1, [sc]), "the initial scale is not the one asked for")
    if "q_ic" in L:
        *a, d = QS["q_ic"]
        eq("B2", "q_ic", X["q_ic"], Mx(4, 1, [F(x, d) for x in a]), "the camera attitude is not the configured one")
    for n in ("p_ic", "p_ip"):
        if n in L:
            eq("B2", n, X[n], Mx(3, 1, list(VS[n])), "%s is not the configured one" % n)
    if any(y in m.cfg for y in YAW):
        eq("B2", "yaw", X["q"], Mx(4, 1, list(YQ)), "the initial attitude is not the configured yaw")
    zs = K.zs
    kinds = set(m.hs.values())
    if PS in kinds:
        pr = c34.pose(K, X, None)
        eq("B1", "pose position", pr["z_p_"], zs[PS, "z_p_"], "the pose predicted from the initial state is not at the measured position")
        neg = Mx(4, 1, [{k: -c for k, c in x.items()} for x in zs[PS, "z_q_"].e])
        eq("B1", "pose attitude", pr["z_q_"], neg if pr["z_q_"].e == neg.e else zs[PS, "z_q_"], "the attitude predicted from the initial state is not the measured one")
    if OS in kinds:
        eq("B1", "position", c34.position(K, X, None)["z_p_"], zs[OS, "z_p_"], "the position predicted from the initial state is not the measured one")
    if RS in kinds:
        K2, X2, _, _, _ = initial(m, e, v, scale, inst, nolever=True)
        eq("B1", "pressure", c34.pressure(K2, X2, None)["z_p_"], K2.zs[RS, "z_p_"], "the height predicted from the initial state is not the measured one (camera at the IMU)")
    if AS in kinds:
        d, s1, c1, s2, c2 = (Fraction(31, 3), Fraction(3, 5), Fraction(4, 5), Fraction(15, 17), Fraction(8, 17))
        w = Mx(3, 1, [{(): d * s1 * c2}, {(): d * s1 * s2}, {(): d * c1}])
        eq("B1", "spherical", c34.position(K, X, None)["z_p_"], w, "the sensor is not where the measured angles and distance put it")


# ------------------------------------------------------------- settings
def settings(cx, m):
    """B3: each setting of a handler arrives, on every path"""
    f = m.config
    prm = ("root", f.params[0]["n"])
    for init in (False, True):
        for height in (False, True):
            for level in ((1, 2, 7) if init or height else (7,)):
                vals = flagvals(m, prm, init, height)
                for norm in (0.0, 2.0) if height else (2.0,):
                    e, g = run(m, f, vals=vals, norm=norm, args=[prm, ("c", level)])
                    inst = "%s : init %d height %d level %d %s" % (m.name, init, height, level, "" if norm else "no measurement")
                    for mem, cls in m.hs.items():
                        h = m.h[cls]
                        want = [(l, n) for l, n in zip(h.setter("SetNoises"), NOISE[cls])]
                        if cls in DELAY:
                            want.append((h.delay, DELAY[cls]))
                        for l, n in want:
                            if l is None and n == DELAY.get(cls):
                                cx.bad("B3", "%s %s" % (inst, n), f.where(), "the setting %s never reaches a %s handler" % (n, short(cls)), key="B3 %s %s" % (m.cls, n))
                                continue
                            if l is None:
                                cx.undecided("B3", "%s %s" % (inst, n), f.where(), "the setter of %s keeps its value in no single member" % n)
                                continue
                            got = plain(e.load(e.final, ("fld", fld(mem), l[2])))
                            src = {("fld", prm, n), ("fld", fld("config_"), n)}
                            cx.expect(got in src, "B3", "%s %s" % (inst, n), f.where(), "the setting %s does not reach the %s handler: it has %s" % (n, short(cls), show(got)[:70]), key="B3 %s %s" % (m.cls, n))
                    for n, q in m.cfg.items():
                        if n in ("core_init_filter", "core_set_height"):
                            continue
                        got = plain(e.load(e.final, ("fld", fld("config_"), n)))
                        if not cx.expect(got == ("fld", prm, n), "B3", "%s keep %s" % (inst, n), f.where(), "the setting %s is not kept for the filter: %s" % (n, show(got)[:70]), key="B3 %s keep %s" % (m.cls, n)):
                            break
                    for v in e.events.values():
                        if v.kind == "call" and v.name == INIT:
                            st = NS(env=v.pre)
                            late = [n for n, q in m.cfg.items() if q["type"] == "double" and plain(e.load(st, ("fld", fld("config_"), n))) != ("fld", prm, n)]
                            cx.expect(not late, "B3", inst + " before", v.where(), "the filter is initialised before the settings are in force: %s" % late[:3], key="B3 %s late" % m.cls)


def flagvals(m, prm, init, height):
    out = {("fld", prm, "core_init_filter"): TRUE if init else FALSE}
    if "core_set_height" in m.cfg:
        out[("fld", prm, "core_set_height")] = TRUE if height else FALSE
    return out


def config(cx, m):
    """B4: the two checkboxes"""
    f = m.config
    prm = ("root", f.params[0]["n"])
    li = m.cfg["core_init_filter"]["level"]
    lh = m.cfg.get("core_set_height", {}).get("level")
    scale = ("fld", prm, "pose_initial_scale") if "pose_initial_scale" in m.cfg else ("c", 1)
    zp = z(m, PS, "z_p_")
    hs = ("op", "/", ("elem", zp, ("acc", "at", ("c", 2))), ("fld", prm, "core_height"))
    cases = [(True, False, li, 2.0, [scale]), (True, False, 7, 2.0, [scale]), (False, False, 7, 2.0, []), (True, False, 7 & ~li, 2.0, []), (True, False, li, 0.0, [scale])]
    if lh:
        cases += [(False, True, lh, 2.0, [hs]), (False, True, lh, 0.0, []), (False, True, 7 & ~lh, 2.0, []), (False, True, 7, 2.0, [hs])]
    for init, height, level, norm, want in cases:
        inst = "%s : %s%s%s" % (m.name, "init" if init else "height" if height else "none", " level %d" % level, "" if norm else " no measurement")
        e, g = run(m, f, vals=flagvals(m, prm, init, height), norm=norm, args=[prm, ("c", level)])
        inits(m, e, g, f, inst, want, f.where())
        if want:
            n = "core_init_filter" if init else "core_set_height"
            got = e.load(e.final, ("fld", prm, n))
            cx.expect(got == FALSE, "B4", inst + " taken back", f.where(), "the request %s stays set after it was served" % n, key="B4 %s %s back" % (m.cls, n))


def services(cx, m):
    """initialisation by service call"""
    p = m.p
    for n, fn in m.srv.items():
        f = fn
        req = ("root", f.params[0]["n"])
        res = ("root", f.params[1]["n"])
        if n == "initialize_msf_scale":
            cases = [("scale", {}, 2.0, [("fld", req, "scale")])]
        elif n == "initialize_msf_height":
            zp = z(m, PS, "z_p_")
            hs = ("op", "/", ("elem", zp, ("acc", "at", ("c", 2))), ("fld", req, "height"))
            H = ("fld", req, "height")
            cases = [("height", {H: 1.5}, 2.0, [hs]), ("negative height", {H: -1.5}, 2.0, [hs]), ("no measurement", {H: 1.5}, 0.0, []),
                     ("no height", {H: 0.0}, 2.0, []), ("small negative height", {H: -0.001}, 2.0, []), ("small height", {H: 0.001}, 2.0, [])]
        else:
            continue
        for what, heights, norm, want in cases:
            inst = "%s %s : %s" % (m.name, n, what)
            e, g = run(m, f, norm=norm, heights=heights)
            m.extra = {("fld", req, "scale"): F(5, 3), ("fld", req, "height"): F(3, 2)}
            inits(m, e, g, f, inst, want, f.where())
            if n == "initialize_msf_height":
                r = getattr(e, "ret", None)
                if not want:
                    cx.expect(e.load(e.final, ("fld", res, "result")) is not None and isfalse(r), "B4", inst + " answer", f.where(), "the caller is told the filter was initialised", key="B4 %s %s answer" % (m.cls, what))
            if want:
                cx.expect(istrue(getattr(e, "ret", None)), "B4", inst + " answer", f.where(), "the caller is not told the filter was initialised", key="B4 %s %s answer" % (m.cls, what))


def isfalse(r):
    return all(a == FALSE or num(a) and a[1] == 0 for a in alts(r)) if r is not None else False


def istrue(r):
    return all(a == TRUE or num(a) and a[1] == 1 for a in alts(r)) if r is not None else False


# ------------------------------------------------------------- wiring
def wiring(cx, m):
    """B5: handlers created and registered, the reconfigure callback and the services bound to their functions"""
    p = m.p
    m.srv = {}
    cs = ctors(p, m.cls)
    cx.need(len(cs) == 1, "constructor of " + m.cls)
    e, g = cx.run(p, cs[0])
    w = cs[0].where()
    fnrefs = lambda v: [p.fns.get(x[2]) for a in v.args for x in subterms(a) if x and x[0] == "fnref"]
    set_ = [v for v in e.events.values() if v.kind == "call" and short(v.name) == "setCallback"]
    good = any(m.config in fnrefs(v) for v in set_)
    binds = [v for v in e.events.values() if v.kind == "call" and any(r is m.config for r in fnrefs(v))]
    cx.expect(bool(set_) and bool(binds), "B5", m.name + " reconfigure", w, "changed settings are not delivered", key="B5 %s config" % m.cls)
    for mem, cls in m.hs.items():
        ev = [v for v in e.events.values() if v.kind == "call" and short(v.name) in ("reset", "operator=", "make_shared") or v.kind == "write" and v.loc == fld(mem)]
        val = e.load(e.final, fld(mem))
        cx.expect(type(val) is tuple and val[:1] not in (("fld",), ("default",)), "B5", "%s %s" % (m.name, mem), w, "the handler %s is never created" % mem, key="B5 %s %s" % (m.cls, mem))
    for v in e.events.values():
        if v.kind == "call" and short(v.name) == "advertiseService" and v.args:
            fr = [x for x in fnrefs(v) if x is not None]
            m.srv[strval(v.args[0])] = fr[0] if fr else None
    has = [f for f in p.repo_fns() if f.n.startswith(m.cls + "::") and f.blocks and len(f.params) == 2 and "Request" in p.type(f.params[0]["t"])]
    for f in has:
        cx.expect(f in m.srv.values(), "B5", "%s %s" % (m.name, short(f.n)), w, "the service %s is not offered" % short(f.n), key="B5 %s %s" % (m.cls, short(f.n)))
    want = {"InitScale": "initialize_msf_scale", "InitHeight": "initialize_msf_height"}
    for n, f in m.srv.items():
        t = p.type(f.params[0]["t"]) if f is not None else ""
        k = next((k for k in want if k in t), None)
        if k:
            cx.expect(n == want[k], "B5", "%s service %s" % (m.name, k), w, "the service for %s is offered as %s" % (k, n), key="B5 %s name %s" % (m.cls, k))
