"""C15 - every published message says what the filter state says."""
import re
from fractions import Fraction
from .kin import *
from .handlers import ctors, params, strval
from ..engine import State
from .. import build

M = "msf_core::MSF_SensorManagerROS"
PUB, TF, ADV = "ros::Publisher::publish", "tf::TransformBroadcaster::sendTransform", "ros::NodeHandle::advertise"
SUBS = "ros::Publisher::getNumSubscribers"
CHK = "msf_core::GenericState_T::CheckStateForNumeric"
U = ("pose", "pose_pressure", "position", "position_pose")
AFTER = {"PublishStateAfterPropagation": ("pose", "odometry", "ext_state"),
         "PublishStateAfterUpdate": ("correction", "state_out", "pose_after_update", "cov_core", "cov_aux", "cov_core_aux"),
         "PublishStateInitial": ("correction",)}
FRAMES = {"pose": 1, "odometry": 1, "ext_state": 1, "pose_after_update": 1}


def check(cx):
    cx.rule("M1", "a subscriber of a topic gets one message per call, and none on the other topics is lost over it")
    cx.rule("M2", "a message is stamped with the time of the state and carries the configured frames")
    cx.rule("M3", "positions, attitudes, velocities and rates in a message are those of the state in the frame the message type asks for")
    cx.rule("M4", "covariances in a message are the blocks of P they claim to be; the twist covariance is that of the velocity in the body frame and of the bias-corrected rate")
    cx.rule("M5", "state and covariance arrays hold the entries of the state in the documented order and size")
    cx.rule("M6", "the correction is the state relative to the latest state of the external propagation, or neutral during playback, and is withheld when the state is not finite")
    cx.rule("M7", "the broadcast transform is the pose of the state between the configured frames")
    for u in fetch(cx, U):
        p = cx.unit(u)
        L = layout(cx, p)
        one(cx, p, L, u)
    cx.floor("M1", 10)
    cx.floor("M3", 10)


class Out:
    """the outlets of a manager: topics, frames, the buffered external state"""

    def __init__(self, cx, p):
        cs = ctors(p, M)
        cx.need(len(cs) == 1, "the constructor of " + M)
        e, g = cx.run(p, cs[0], pure={ADV: ()})
        self.topic = {}
        for k, v in e.final.env.items():
            if k[0] == "fld" and type(v) is tuple and v[:2] == ("call", ADV):
                self.topic[k] = strval(v[3])
        self.where = cs[0].where()
        _, _, ps = params(cx, p, cs[0])
        self.par = {n: next((l for _, l in x if l), None) for n, x in ps.items()}
        f = p.by_name.get(M + "::SetHLControllerStateBuffer")
        cx.need(f, "SetHLControllerStateBuffer")
        e, g = cx.run(p, f[0])
        w = [v for v in e.events.values() if v.kind == "write" and v.loc[0] == "fld" and rootof(v.loc) == ("root", "this")]
        self.hl = w[0].loc if len(w) == 1 else None
        cx.need(self.hl is not None, "the buffer of the external state")
        self.flags = {}
        txt = open(build.REPO + "/sensor_fusion_comm/msg/ExtEkf.msg").read()
        for m in re.finditer(r"(?m)^\s*u?int\d+\s+(\w+)\s*=\s*(\d+)", txt):
            self.flags[m.group(1)] = int(m.group(2))


def entries(K, v, n):
    """the numbers of an array value, None where unknown"""
    if type(v) is tuple and v and v[0] == "upd":
        es = entries(K, v[1], n)
        put_(K, es, v[2], v[3])
        return es
    if type(v) is tuple and v and v[0] == "mut" and short(v[1]) in ("resize", "fill", "assign"):
        if short(v[1]) == "fill" and len(v) == 4:
            return [K.sc(v[3]) for _ in range(n)]
        if num(v[3]) and v[3][1] != n:
            raise Unknown("%d entries, %d expected" % (v[3][1], n))
        if len(v) == 5 and num(v[4]) and v[4][1] != 0:
            return [K.sc(v[4]) for _ in range(n)]
        return [{} for _ in range(n)] if not (type(v[2]) is tuple and v[2] and v[2][0] == "upd") else entries(K, v[2], n)
    if type(v) is tuple and v and (v[0] in ("fld", "default", "ctor")):
        return [{} for _ in range(n)]       # messages start out zero
    raise Unknown("array from %s" % show(v)[:60])


def put_(K, es, acc, val):
    n = len(es)
    if acc[0] == "acc" and acc[1].startswith("map<"):
        r, c, rm = (int(x) for x in acc[1][4:-1].split(","))
        return place(es, r, c, rm, 0, 0, K.mat(val, r, c))
    if acc[0] == "acc" and len(acc) == 3 and num(acc[2]):
        i = int(acc[2][1])
        if not 0 <= i < n:
            raise Unknown("entry %d of %d written" % (i, n))
        es[i] = K.sc(val)
        return
    if acc[0] == "path" and len(acc) == 3 and acc[1][1].startswith("map<"):
        r, c, rm = (int(x) for x in acc[1][1][4:-1].split(","))
        a = acc[2]
        m = re.match(r"(?:block|topLeftCorner|bottomRightCorner|topRightCorner|bottomLeftCorner)<(\d+),(\d+)>$", a[1])
        x = [int(y[1]) if num(y) else None for y in a[2:]]
        if m:
            h, w = int(m.group(1)), int(m.group(2))
            if a[1].startswith("block"):
                i, j = x
            else:
                i = 0 if a[1].startswith("top") else r - h
                j = 0 if "Left" in a[1] else c - w
        elif a[1] == "block" and len(x) == 4:
            i, j, h, w = x
        elif a[1] in ("at", "call", "coeffRef") and len(x) == 2:
            (i, j), h, w = x, 1, 1
        else:
            raise Unknown("accessor " + a[1])
        if None in (i, j, h, w):
            raise Unknown("accessor " + a[1])
        B = Mx(1, 1, [K.sc(val)]) if h * w == 1 else K.mat(val, h, w)
        return place(es, r, c, rm, i, j, B)
    raise Unknown("accessor %s" % (acc,))


def place(es, r, c, rm, i, j, B):
    for a in range(B.r):
        for b in range(B.c):
            y, x = i + a, j + b
            es[y * c + x if rm else x * r + y] = B[a, b]


class Msg:
    """a message at the point it is published"""

    def __init__(self, e, v):
        self.e, self.v = e, v
        self.st = State(v.pre)
        loc = v.val[0] if v.val and v.val[0] else None
        x = e.load(self.st, loc) if loc else v.args[0]
        self.obj = x if type(x) is tuple and x and x[0] in ("new", "box") else loc

    def get(self, path):
        loc = self.obj
        for f in path.split("."):
            loc = ("fld", loc, f)
        return self.e.load(self.st, loc)


def run(cx, p, fn, out, subs, playback=None, finite=None):
    """run with subscribers on the topics `subs` only"""
    env = {}
    if playback is not None:
        env[out.par["data_playback"]] = TRUE if playback else FALSE
    base = set()
    vals = {}
    for loc, t in out.topic.items():
        c = ("call", SUBS, loc)
        vals[c] = 1.0 if t in subs else 0.0
        base |= implied(c, t in subs)
    pure = {PUB: (), TF: (), SUBS: ()}
    if finite is not None:
        pure[CHK] = ()
        base |= implied(("call", CHK, state(fn)), finite)
        vals[("call", CHK, state(fn))] = 1.0 if finite else 0.0
    e, g, _ = settle(lambda facts: cx.run(p, fn, pure=pure, env=env, facts=facts, unroll=True, maxsize=400000), lambda t: vals.get(t), base)
    return e, g


def state(fn):
    return ("root", fn.params[0]["n"])


def implied(t, pol):
    from ..engine import implied as f
    return set(f(t, pol))


def sent(e, out, topic):
    return [v for v in e.events.values() if v.kind == "call" and v.name == PUB and out.topic.get(v.obj) == topic]


def stamped(t, s):
    return type(t) is tuple and len(t) >= 3 and t[0] in ("call", "mut") and ("ros::Time" in t[1]) and t[-1] == TM(s)


def evaluator(L, e, s, turn, out):
    K = Comp(statevars(L, [s]), e.scalars)
    K.subst.update(point(L, [s], 3 * turn))
    n = L.nc
    A = [[Fraction((i * 7 + j * 11 + i * j + turn * 5) % 23 - 9, 1 + (i + j) % 3) for j in range(n)] for i in range(n)]
    K.subst[("fld", s, "P")] = Mx(n, n, [K.const(A[min(i, j)][max(i, j)]) for i in range(n) for j in range(n)])
    K.subst[("fld", s, "w_m")] = Mx(3, 1, [K.const(x) for x in IMU[turn % 2][0]])
    K.subst[("fld", s, "a_m")] = Mx(3, 1, [K.const(x) for x in IMU[turn % 2][1]])
    K.subst[("fld", s, "noise_gyr")] = Mx(3, 1, [K.const(x) for x in (Fraction(1, 2), 3, Fraction(-5, 3))])
    hq = [Fraction(1, 3), Fraction(-2, 3), Fraction(2, 3), 0] if turn % 2 else [Fraction(2, 7), Fraction(3, 7), 0, Fraction(-6, 7)]
    hl = [Fraction(3 * i - 20, 1 + i % 4) for i in range(16)]
    hl[6:10] = hq
    for i, x in enumerate(hl):
        for a in ("at", "operator[]"):
            K.subst[("elem", ("fld", out.hl, "state"), ("acc", a, ("c", i)))] = K.const(x)
    return K, hl


def one(cx, p, L, u):
    out = Out(cx, p)
    for name, topics in AFTER.items():
        fn = p.one(M + "::" + name)
        s = state(fn)
        for t in topics:
            known = [k for k, x in out.topic.items() if x == t]
            inst = "%s %s %s" % (u, name, t)
            if not cx.expect(len(known) == 1, "M1", inst + " topic", out.where, "no outlet for topic " + t, key="M1 topic " + t):
                continue
            cases = [(False, True), (True, True)] if name == "PublishStateAfterUpdate" and t == "correction" else [(None, None)]
            for playback, finite in cases:
                e, g = run(cx, p, fn, out, (t,), playback, finite)
                ms = sent(e, out, t)
                got = {v.id for v in ms}
                k = "M1 %s %s" % (name, t)
                if not cx.expect(bool(ms), "M1", inst, fn.where(), "nothing is published on %s although it has a subscriber" % t, key=k):
                    continue
                cx.nopath(g.path(g.entry, "exit", avoid=lambda v: v.id in got, include_start=True), "M1", inst + " always", fn.where(),
                          "a call can leave a subscriber of %s without a message" % t, key=k + " skipped")
                cx.expect(len(ms) == 1, "M1", inst + " once", fn.where(), "%d messages on %s per call" % (len(ms), t), key=k + " twice")
                for v in ms:
                    content(cx, p, L, u, out, name, t, e, v, s, playback)
            if cases[0][0] is False:
                for playback in (False, True):
                    e, g = run(cx, p, fn, out, (t,), playback, False)
                    cx.expect(not sent(e, out, t), "M6", inst + " not finite", fn.where(), "a correction is sent although the state is not finite", key="M6 nan")
        if name == "PublishStateAfterUpdate":
            broadcast(cx, p, L, u, out, fn, s)


def content(cx, p, L, u, out, name, t, e, v, s, playback):
    m = Msg(e, v)
    inst = "%s %s %s" % (u, name, t)
    key = "%s %s" % (name, t)
    if not cx.expect(m.obj is not None, "M3", inst, v.where(), "the message on %s is not an object of this function" % t, key="M3 obj " + key):
        return
    st = m.get("header.stamp")
    cx.expect(stamped(st, s), "M2", inst + " stamp", v.where(), "the message on %s is stamped %s" % (t, show(st)[:60]), key="M2 stamp " + key)
    if t in FRAMES:
        f = m.get("header.frame_id")
        cx.expect(f == out.par.get("msf_output_frame"), "M2", inst + " frame", v.where(), "the frame on %s is %s" % (t, show(f)[:60]), key="M2 frame " + key)
    if t == "odometry":
        f = m.get("child_frame_id")
        cx.expect(f == out.par.get("odometry_child_frame"), "M2", inst + " child frame", v.where(), "the child frame is %s" % show(f)[:60], key="M2 child " + key)
    for turn in (0, 1):
        K, hl = evaluator(L, e, s, turn, out)
        if t == "correction":       # its state is an array of floats
            K.rounded = lambda x: x
        X = {x.name: K.ev(var(s, x)) for x in L}
        c = lambda n: X[n].e if type(X[n]) is not tuple else X[n][1].e
        q = c("q")          # x y z w
        R = K.rot(X["q"][1])
        o = {x.name: x.offc for x in L}
        P = K.mat(("fld", s, "P"))

        def same(rule, what, paths, want):
            bad = []
            for a, w in zip(paths, want):
                try:
                    g_ = K.sc(m.get(a))
                except Unknown as ex:
                    if isinstance(m.get(a), tuple) and m.get(a)[0] == "fld" and rootof(m.get(a)) == rootof(m.obj) or m.get(a)[0] == "default":
                        bad.append(a + " (never set)")
                        continue
                    cx.undecided(rule, inst + " " + what, v.where(), str(ex))
                    return
                if padd(g_, w, -1):
                    bad.append(a)
            cx.expect(not bad, rule, "%s %s point %d" % (inst, what, turn), v.where(), "%s on %s: %s is not the %s of the state" % (what, t, ", ".join(bad), what), key="%s %s %s" % (rule, key, what))

        def arr(rule, what, path, n, want):
            try:
                es = entries(K, m.get(path), n)
            except Unknown as ex:
                if "expected" in str(ex) or "written" in str(ex):
                    cx.bad(rule, "%s %s" % (inst, what), v.where(), "%s on %s: %s" % (what, t, ex), key="%s %s %s" % (rule, key, what))
                else:
                    cx.undecided(rule, inst + " " + what, v.where(), str(ex))
                return
            bad = [i for i, w in enumerate(want) if w is not None and padd(es[i], w, -1)]
            cx.expect(not bad, rule, "%s %s point %d" % (inst, what, turn), v.where(), "%s on %s: entries %s are wrong" % (what, t, bad[:6]), key="%s %s %s" % (rule, key, what))
        xyz = lambda a: [a + "." + b for b in "xyz"]
        if t in ("pose", "odometry", "pose_after_update", "ext_state"):
            b = "pose" if t == "ext_state" else "pose.pose"
            same("M3", "position", xyz(b + ".position"), c("p"))
            same("M3", "attitude", [b + ".orientation." + x for x in "xyzw"], q)
        if t in ("pose", "odometry", "pose_after_update"):
            idx = [o["p"] + i for i in range(3)] + [o["q"] + i for i in range(3)]
            arr("M4", "pose covariance", "pose.covariance", 36, [P[i, j] for i in idx for j in idx])
        if t == "ext_state":
            same("M3", "velocity", xyz("velocity"), c("v"))
        if t == "odometry":
            RT = R.T
            vb = K.mmul(RT, X["v"])
            same("M3", "body velocity", xyz("twist.twist.linear"), vb.e)
            same("M3", "body rate", xyz("twist.twist.angular"), lin(K, K.mat(("fld", s, "w_m")), X["b_w"], -1).e)
            idx = [o["v"] + i for i in range(3)] + [o["q"] + i for i in range(3)]
            S = Mx(6, 6, [P[i, j] for i in idx for j in idx])
            J = Mx(3, 6, [{} for _ in range(18)])
            put(J, 0, 0, RT)
            put(J, 0, 3, K.skew(vb))
            Cv = K.mmul(K.mmul(J, S), J.T)
            ng = K.mat(("fld", s, "noise_gyr"))
            want = [None] * 36
            for i in range(3):
                for j in range(3):
                    want[i * 6 + j] = Cv[i, j]
                    w = P[o["b_w"] + i, o["b_w"] + j]
                    want[(i + 3) * 6 + j + 3] = padd(w, K.pmul(ng.e[i], ng.e[i])) if i == j else w
            arr("M4", "twist covariance", "twist.covariance", 36, want)
        if t == "state_out":
            arr("M5", "state", "data", L.n, flat(L, c, lambda x: True))
        if t.startswith("cov_"):
            k = sum(x.nc for x in L if x.core)
            rows = range(0, k) if t != "cov_aux" else range(k, L.nc)
            cols = range(0, k) if t == "cov_core" else range(k, L.nc)
            same("M5", "shape", ["rows", "cols"], [K.const(len(rows)), K.const(len(cols))])
            arr("M5", "covariance", "data", len(rows) * len(cols), [P[i, j] for i in rows for j in cols])
        if t == "correction":
            fl = m.get("flag")
            if name == "PublishStateInitial":
                arr("M6", "initial state", "state", 16, flat(L, c, lambda x: x.core))
                want = "initialization"
            elif playback:
                arr("M6", "neutral correction", "state", 16, [K.const(1 if i == 6 else 0) for i in range(16)])
                want = "initialization"
            else:
                d = [K.const(x) for x in hl]
                hq = Mx(4, 1, [d[7], d[8], d[9], d[6]])
                dq = K.qmul(Mx(4, 1, [neg1(hq.e[0]), neg1(hq.e[1]), neg1(hq.e[2]), hq.e[3]]), X["q"][1])
                dq = (dq[1] if type(dq) is tuple else dq).e
                w = []
                for n, off in (("p", 0), ("v", 3), ("q", 6), ("b_w", 10), ("b_a", 13)):
                    w += [dq[3], dq[0], dq[1], dq[2]] if n == "q" else [padd(x, d[off + i], -1) for i, x in enumerate(c(n))]
                arr("M6", "correction", "state", 16, w)
                want = "state_correction"
            cx.expect(num(fl) and fl[1] == out.flags.get(want), "M6", "%s flag %s" % (inst, playback), v.where(), "the flag of the message is %s, not %s" % (show(fl), want), key="M6 flag %s %s" % (name, playback))
            if playback is not True:
                same("M6", "zero rates", xyz("angular_velocity") + xyz("linear_acceleration"), [{}] * 6)


def neg1(q):
    return {k: -v for k, v in q.items()}


def flat(L, c, pred):
    w = []
    for x in L:
        if pred(x):
            e = c(x.name)
            w += [e[3], e[0], e[1], e[2]] if x.quat else e
    return w


def broadcast(cx, p, L, u, out, fn, s):
    e, g = run(cx, p, fn, out, (), False, None)
    ts = [v for v in e.events.values() if v.kind == "call" and v.name == TF]
    ids = {v.id for v in ts}
    if not cx.expect(bool(ts), "M7", u, fn.where(), "no transform is broadcast", key="M7 none"):
        return
    cx.nopath(g.path(g.entry, "exit", avoid=lambda v: v.id in ids, include_start=True), "M7", u + " always", fn.where(), "an update can pass without a transform being broadcast", key="M7 skipped")
    for v in ts:
        t = v.args[0]
        stt = next((x for x in subterms(t) if x and x[0] == "call" and x[1] == "ctor tf::StampedTransform"), None)
        q = [x for x in subterms(t) if x and x[0] == "call" and x[1] == "ctor tf::Quaternion" and len(x) == 6]
        o = [x for x in subterms(t) if x and x[0] == "call" and x[1] == "ctor tf::Vector3" and len(x) == 5]
        if not (stt and len(stt) == 6 and len(set(q)) == 1 and len(set(o)) == 1):
            cx.undecided("M7", u, v.where(), "transform %s" % show(t)[:60])
            continue
        cx.expect(stt[4] == out.par.get("msf_output_frame") and stt[5] == out.par.get("tf_target_frame"), "M7", u + " frames", v.where(),
                  "the transform goes from %s to %s" % (show(stt[4])[:40], show(stt[5])[:40]), key="M7 frames")
        K, _ = evaluator(L, e, s, 0, out)
        try:
            a = [K.sc(x) for x in q[0][2:]] + [K.sc(x) for x in o[0][2:]]
        except Unknown as ex:
            cx.undecided("M7", u, v.where(), str(ex))
            continue
        b = K.ev(var(s, L["q"]))[1].e + K.ev(var(s, L["p"])).e
        cx.expect(not any(padd(x, y, -1) for x, y in zip(a, b)), "M7", u + " pose", v.where(), "the broadcast transform is not the pose of the state", key="M7 pose")
