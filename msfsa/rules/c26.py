"""C26 - simulated distortion: the relay passes on or withholds, the distorter is the configured random walk."""
from .intake import *
from .c15 import PUB, ADV
from .c16 import plain
from ..comp import padd

RELAY = "CallbackHandler"
DIST = "msf_updates::PoseDistorter"
GATE = {"PoseWithCovarianceStamped": ("pose_with_covariance", "publish_pose"), "TransformStamped": ("transform", "publish_pose"), "PoseStamped": ("pose", "publish_pose"),
        "NavSatFix": ("navsatfix", "publish_position"), "PointStamped": ("point", "publish_position")}
F = lambda a, b=1: {(): Fraction(a, b)} if a else {}
DT = Fraction(3, 2)
DRAW = {"d_pos_": [F(3, 4), F(-5, 2), F(7, 3)], "d_att_": [{(): Fraction(n, 11) / DT} for n in (8, 4, 2)], "d_scale": [F(-2, 9)]}


def check(cx):
    cx.rule("D1", "the relay passes every message on unchanged, once, while its kind is enabled, and none while it is not")
    cx.rule("D2", "each input of the relay leads to the output of the same kind, and its settings arrive")
    cx.rule("D3", "a distorted value is the value moved by drift and scale that grow by each draw times the time passed, each axis by its own draw")
    cx.rule("D4", "the drift starts neutral and its draws have the mean and deviation configured for them")
    cx.rule("D5", "the pose sensor distorts each measurement by the time since the one before, and only if told to")
    relay(cx, cx.unit("distort"))
    walk(cx, cx.unit("posedistorter"))
    sensor(cx, cx.unit("pose"))
    cx.floor("D1", 10)
    cx.floor("D3", 2)


# ---------------------------------------------------------------- relay
def relay(cx, p):
    cbs = {}
    for f in p.repo_fns():
        if f.n.startswith(RELAY + "::") and f.blocks and len(f.params) == 1:
            k = next((k for k in GATE if re.search(r"\b%s\b" % k, p.type(f.params[0]["t"]))), None)
            if k:
                cbs.setdefault(k, []).append(f)
    cx.need(cbs, "callbacks of the relay")
    ct = ctors(p, RELAY)
    cx.need(len(ct) == 1, "constructor of the relay")
    e, g = cx.run(p, ct[0], pure={ADV: ()})
    outs = {}
    for k, v in e.final.env.items():
        if k[0] == "fld" and type(v) is tuple and v[:2] == ("call", ADV):
            outs[k[2]] = strval(v[3])
    mains = [f for f in p.repo_fns() if f.n == "main" and f.blocks]
    cx.need(mains, "main of the relay")
    em, gm = cx.run(p, mains[0])
    subs = {}
    for v in em.events.values():
        if v.kind == "call" and short(v.name) == "subscribe" and v.args:
            fr = [x for a in v.args for x in subterms(a) if x and x[0] == "fnref"]
            subs.setdefault(strval(v.args[0]), []).append((v, p.fns.get(fr[0][2]) if fr else None))
    for k, (topic_, flag) in GATE.items():
        s = subs.get(topic_ + "_input", [])
        where = mains[0].where()
        if not cx.expect(len(s) == 1 and s[0][1] is not None, "D2", topic_ + " input", where, "%s_input is subscribed %d times" % (topic_, len(s)), key="D2 %s input" % topic_):
            continue
        f = s[0][1]
        cx.expect(f in cbs.get(k, []), "D2", topic_ + " callback", s[0][0].where(), "%s_input is served by %s" % (topic_, f.n), key="D2 %s callback" % topic_)
        msg = ("root", f.params[0]["n"])
        same = {msg, ("box", msg), ("deref", msg), ("deref", ("box", msg))}
        for on in (True, False):
            other = [x for x in ("publish_pose", "publish_position") if x != flag]
            for o in (True, False):
                env = {("fld", fld("config_"), flag): TRUE if on else FALSE, ("fld", fld("config_"), other[0]): TRUE if o else FALSE}
                e, g = cx.run(p, f, env=env, pure={PUB: ()})
                ps = [v for v in e.events.values() if v.kind == "call" and v.name == PUB]
                inst = "%s %s" % (topic_, "on" if on else "off")
                if not on:
                    cx.expect(not ps, "D1", inst, f.where(), "a message of %s_input is passed on although %s is off" % (topic_, flag), key="D1 %s off" % topic_)
                    continue
                isp = lambda x: x in ps
                cx.nopath("D1", inst, g, g.entry, "exit", f.where(), "a message of %s_input is not passed on although %s is on" % (topic_, flag), avoid=isp, key="D1 %s lost" % topic_) if False else \
                    cx.expect(bool(ps) and g.path(g.entry, "exit", avoid=isp, include_start=True) is None, "D1", inst, f.where(), "a message of %s_input is not always passed on although %s is on" % (topic_, flag), key="D1 %s lost" % topic_)
                cx.expect(not any(g.reaches(v, isp) for v in ps), "D1", inst + " once", f.where(), "a message of %s_input is passed on twice" % topic_, key="D1 %s twice" % topic_)
                for v in ps:
                    o_ = outs.get(v.obj[2]) if type(v.obj) is tuple and v.obj[:1] == ("fld",) else None
                    cx.expect(o_ == topic_ + "_output", "D2", inst + " output", v.where(), "%s_input leads to %s" % (topic_, o_), key="D2 %s output" % topic_)
                    got = resolve(e, NS(env=v.pre), v.args[0]) if v.args else None
                    if type(got) is tuple and got[:1] == ("new",):
                        cx.undecided("D1", inst + " unchanged", v.where(), "the message is copied first")
                        continue
                    cx.expect(got in same or plain(got) in same, "D1", inst + " unchanged", v.where(), "what is passed on is %s" % show(got)[:60], key="D1 %s changed" % topic_)
    cf = [f for f in p.repo_fns() if f.n == RELAY + "::config" and f.blocks]
    for f in cf:
        e, g = cx.run(p, f)
        for n in ("publish_pose", "publish_position"):
            got = plain(e.load(e.final, ("fld", fld("config_"), n)))
            cx.expect(got == ("fld", ("root", f.params[0]["n"]), n), "D2", "setting " + n, f.where(), "the setting %s does not arrive: %s" % (n, show(got)[:50]), key="D2 setting " + n)
        bound = [v for v in em.events.values() if v.kind == "call" and any(x and x[0] == "fnref" and p.fns.get(x[2]) is f for a in v.args for x in subterms(a))]
        cx.expect(bool(bound) and any(v.kind == "call" and short(v.name) == "setCallback" for v in em.events.values()), "D2", "settings", mains[0].where(), "changed settings are not delivered", key="D2 settings")


# ---------------------------------------------------------------- random walk
def draws(K, terms):
    """every draw from a distribution gets its value"""
    for t in terms:
        for x in subterms(t):
            b = None
            if x and x[0] == "elem" and x[2][:2] == ("acc", "at") and len(x[2]) == 3 and not num(x[2][2]):
                b = x[1]
            elif x and x[0] == "call" and "normal_distribution" in x[1] and short(x[1]) == "operator()":
                b = x[2]
            if b is None:
                continue
            i = 0
            if b[:1] == ("elem",) and num(b[2][-1]):
                i, b = int(b[2][-1][1]), b[1]
            n = b[2] if b[:1] == ("fld",) else None
            if n in DRAW and i < len(DRAW[n]):
                K.subst[x] = DRAW[n][i]


def walk(cx, p):
    ds = [f for f in p.repo_fns() if f.n == DIST + "::Distort" and f.blocks]
    cx.need(len(ds) >= 3, "the three functions of the distorter")
    d0 = Mx(3, 1, [F(1, 3), F(2, 5), F(-1, 7)])
    s0 = F(9, 8)
    x0 = Mx(3, 1, [F(5), F(-3, 2), F(7, 4)])
    qd = Mx(4, 1, [F(2, 9), F(4, 9), F(5, 9), F(6, 9)])
    qx = Mx(4, 1, [F(4, 15), F(10, 15), F(1, 15), F(2, 15)])        # not unit: left as it is by a product
    qx = Mx(4, 1, [F(12, 15), F(8, 15), F(1, 15), F(4, 15)])
    for f in ds:
        ps = f.params
        dt = ("root", ps[-1]["n"])
        isq = [("Quaternion" in p.type(q["t"])) for q in ps[:-1]]
        run = lambda fa: cx.run(p, f, facts=fa, unroll=True, maxsize=400000)
        sq = lambda t: t[:1] == ("call",) and short(t[1]) == "squaredNorm"
        leaf = lambda t: 84 / 121. if type(t) is tuple and t and sq(t) else None
        e, g, _ = settle(run, leaf)
        inst = "Distort(%s)" % ", ".join("attitude" if x else "position" for x in isq)
        ends = {("deref", ("root", q["n"])): x for q, x in zip(ps, isq)}
        out = {l: e.load(e.final, l) for l in ends}
        mem = {n: e.load(e.final, fld(n)) for n in ("posdrift_", "scaledrift_", "attdrift_")}
        K = Comp(lambda t: None, e.scalars)
        K.funcs = {"sqrt": []}
        K.subst.update({dt: {(): DT}, fld("posdrift_"): d0, fld("scaledrift_"): s0, fld("attdrift_"): ("q", qd)})
        for l, q in ends.items():
            K.subst[l] = ("q", qx) if q else x0
        draws(K, list(out.values()) + list(mem.values()))
        try:
            hasp, hasq = not all(isq), any(isq)
            d1 = Mx(3, 1, [padd(a, K.pmul(b, {(): DT})) for a, b in zip(d0.e, DRAW["d_pos_"])]) if hasp else d0
            s1 = padd(s0, K.pmul(DRAW["d_scale"][0], {(): DT})) if hasp else s0
            dq = Mx(4, 1, [F(4, 11), F(2, 11), F(1, 11), F(10, 11)])
            q1 = K.qmul(qd, dq) if hasq else qd
            ex = lambda n, a, b, what: cx.expect(a.e == b.e, "D3", "%s %s" % (inst, n), f.where(), what, key="D3 %s %s" % (inst, n))
            ex("position drift", K.mat(mem["posdrift_"], 3, 1), d1, "the position drift does not grow by the draws times the time")
            ex("scale drift", Mx(1, 1, [K.sc(mem["scaledrift_"])]), Mx(1, 1, [s1]), "the scale drift does not grow by its draw times the time")
            ex("attitude drift", K.quat(mem["attdrift_"]), q1, "the attitude drift does not turn by the draws times the time")
            for l, q in ends.items():
                if q:
                    ex("attitude", K.quat(out[l]), K.qmul(qx, q1), "the attitude is not turned by the drift")
                else:
                    w = Mx(3, 1, [K.pmul(padd(a, b), s1) for a, b in zip(x0.e, d1.e)])
                    ex("position", K.mat(out[l], 3, 1), w, "the position is not moved by the drift and scaled by the scale drift")
        except Unknown as x:
            cx.undecided("D3", inst, f.where(), str(x))
    cs = ctors(p, DIST)
    cx.need(len(cs) == 1 and len(cs[0].params) == 6, "constructor of the distorter")
    e, g = cx.run(p, cs[0], unroll=True, maxsize=400000)
    K = Comp(lambda t: None, e.scalars)
    try:
        w = cs[0].where()
        cx.expect(not any(K.mat(e.load(e.final, fld("posdrift_")), 3, 1).e), "D4", "position", w, "the position drift does not start at zero", key="D4 position")
        cx.expect(K.sc(e.load(e.final, fld("scaledrift_"))) == F(1), "D4", "scale", w, "the scale drift does not start at one", key="D4 scale")
        cx.expect(K.quat(e.load(e.final, fld("attdrift_"))).e == [{}, {}, {}, F(1)], "D4", "attitude", w, "the attitude drift does not start at identity", key="D4 attitude")
    except Unknown as x:
        cx.undecided("D4", "start", cs[0].where(), str(x))
    n = [q["n"] for q in cs[0].params]
    want = [(("elem", fld(m), ("acc", "at", ("c", i))), n[a], n[a + 1], i) for m, a in (("d_pos_", 0), ("d_att_", 2)) for i in range(3)] + [(fld("d_scale"), n[4], n[5], None)]
    for l, mean, sd, i in want:
        v = e.load(e.final, l)
        a = [x for x in v[2:]] if type(v) is tuple and v[:1] in (("call",), ("ctor",)) else None
        if a is None or len(a) != 2:
            cx.undecided("D4", show(l), cs[0].where(), "distribution %s" % show(v)[:60])
            continue
        src = lambda x: plain(x) in ((("root", x_),) if i is None else (("elem", ("root", x_), ("acc", "at", ("c", i))), ("fld", ("root", x_), "xyz"[i]), ("elem", ("root", x_), ("acc", "xyz"[i]))))
        okk = True
        for t, x_ in ((a[0], mean), (a[1], sd)):
            okk = okk and src(t)
        cx.expect(okk, "D4", show(l), cs[0].where(), "drawn with mean %s and deviation %s" % (show(a[0]), show(a[1])), key="D4 %s" % show(l))


# ---------------------------------------------------------------- the pose sensor
def sensor(cx, p):
    PMs = [f for f in p.repo_fns() if f.n.endswith("PoseMeasurement::MakeFromSensorReadingImpl") and f.blocks]
    cx.need(PMs, "MakeFromSensorReadingImpl of the pose measurement")
    f = PMs[0]
    D = DIST + "::Distort"
    have = fld("distorter_")
    tm = fld("time")
    for fact, last, want in ((True, 5.0, True), (True, 0.0, False), (False, 5.0, False)):
        st = {}

        def leaf(t):
            if type(t) is tuple and t[:1] in (("glob",), ("static",)) and "tlast" in str(t):
                return last
            return None
        e0, _ = cx.run(p, f, pure={D: ()}, maxsize=400000, unroll=True)
        kept = {v.loc for v in e0.events.values() if v.kind == "write" and v.val == tm}
        leaf2 = lambda t: last if t in kept else 7.0 if t == tm else None
        e, g, _ = settle(lambda fa: cx.run(p, f, pure={D: ()}, facts=fa, maxsize=400000, unroll=True), leaf2, {(have, fact), (("deref", have), fact)})
        ev = [v for v in e.events.values() if v.kind == "call" and v.name == D]
        inst = "distorter %s, %s" % ("given" if fact else "not given", "first" if not last else "later")
        if not want:
            cx.expect(not ev, "D5", inst, f.where(), "the measurement is distorted", key="D5 %s" % inst)
        else:
            isv = lambda x: x in ev
            cx.expect(bool(ev) and g.path(g.entry, "exit", avoid=isv, include_start=True) is None and not any(g.reaches(v, isv) for v in ev), "D5", inst, f.where(), "the measurement is not distorted exactly once", key="D5 %s" % inst)
            for v in ev:
                ok = len(v.args) == 3 and v.args[2][:2] == ("op", "-") and v.args[2][2] == tm and v.args[2][3] in kept
                cx.expect(ok, "D5", inst + " time", v.where(), "distorted for %s instead of the time since the last measurement" % show(v.args[-1])[:60], key="D5 time")
        if fact:
            cx.expect(any(e.load(e.final, l) == tm for l in kept), "D5", inst + " kept", f.where(), "the time of the measurement is not kept for the next one", key="D5 kept")
    h = Handler(cx, p, "pose", PS)
    names = ["distortpos_mean", "distortpos_stddev", "distortatt_mean", "distortatt_stddev", "distortscale_mean", "distortscale_stddev"]
    dm = h.ctor.params[-1]["n"]
    cs = ctors(p, DIST)
    for on in (True, False):
        e, g = cx.run(p, h.ctor, facts=frozenset({(("root", dm), on)}), unroll=True, maxsize=400000)
        ev = [v for v in e.events.values() if v.kind == "call" and v.name == DIST + "::(ctor)"]
        if not on:
            cx.expect(not ev, "D5", "off", h.ctor.where(), "a distorter is created although distortion is off", key="D5 off")
            continue
        if not cx.expect(bool(ev), "D5", "on", h.ctor.where(), "no distorter is created although distortion is on", key="D5 on"):
            continue
        for v in ev:
            for a, n in zip(v.args, names):
                src = {strval(y) for x in subterms(a) if x and x[0] == "out" and "NodeHandle" in x[1] for y in x[2:] if type(y) is tuple and "distort" in strval(y)}
                cx.expect(src == {n}, "D4", "parameter " + n, v.where(), "%s is taken from %s" % (n, sorted(src)), key="D4 par " + n)
