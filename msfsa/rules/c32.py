"""C32 - IMU input: every IMU message reaches the filter with its own values, an external state only when it can be used."""
from .core import *
from .flow import *
from .intake import *
from .c02 import conditions
from .. import build

H = "msf_core::IMUHandler_ROS"
M = "msf_core::MSF_SensorManagerROS"
IMU, EXT = C + "ProcessIMU", C + "ProcessExternallyPropagatedState"


def check(cx):
    cx.rule("J1", "every message of an IMU input reaches the filter exactly once")
    cx.rule("J2", "with its accelerations, rates and time stamp")
    cx.rule("J3", "an external state is used exactly if the message is flagged as the current state, playback is off, and its first ten entries are finite numbers")
    cx.rule("J4", "the external state is position, velocity and the attitude (w first) of the message, the attitude normalised")
    cx.rule("J5", "of an external state shorter than the protocol's no entry is read or kept; any other is kept for the correction")
    cx.rule("J6", "the inputs are subscribed once, playback is taken from its own parameter")
    us = fetch(cx, ("pose", "pose_pressure", "position", "position_pose"))
    for u in us:
        p = cx.unit(u)
        inputs(cx, p, u)
    cx.floor("J2", 3)
    cx.floor("J3", 20)


def inputs(cx, p, u):
    cs = ctors(p, H)
    cx.need(cs, "constructor of the IMU handler")
    e, g = cx.run(p, cs[0])
    subs = {}
    for v in e.events.values():
        if v.kind == "call" and short(v.name) == "subscribe":
            tn = [strval(a) for a in v.args if strval(a) is not None]
            cb = [p.fns[x[2]] for a in v.args for x in subterms(a) if x and x[0] == "fnref" and x[2] in p.fns]
            for t in tn:
                subs.setdefault(t, []).append((v, cb[0] if cb else None))
    for t, want in (("imu_state_input", IMU), ("hl_state_input", EXT)):
        l = subs.get(t, [])
        cx.expect(len(l) == 1, "J6", "%s %s" % (u, t), cs[0].where(), "%s is subscribed %d times" % (t, len(l)), key="J6 " + t)
        for v, n in l:
            cx.need(n is not None and n.blocks and n.params, "callback of " + t)
            callback(cx, p, u, t, n, want)
    par(cx, p, u)


def idx(t):
    """entry of the external state a condition looks at"""
    for x in subterms(t):
        if x and x[0] == "acc" and len(x) > 2 and all(num(a) for a in x[2:]):
            return int(sum(a[1] for a in x[2:]))
    return None


def callback(cx, p, u, t, f, want):
    m = None
    run = lambda fa, **k: cx.run(p, f, pure={IMU: (), EXT: ()}, facts=fa, unroll=True, maxsize=400000, **k)
    e, g = run(frozenset())
    par = ("root", f.params[0]["n"])
    isc = lambda v: v.kind == "call" and v.name in (IMU, EXT)
    wrong = [v for v in e.events.values() if isc(v) and v.name != want]
    cx.expect(not wrong, "J1", "%s %s to the right place" % (u, t), f.where(), "messages of %s go to %s" % (t, wrong and short(wrong[0].name)), key="J1 wrong " + t)
    r = g.path(g.entry, "exit", avoid=isc, include_start=True)
    cx.nopath(r, "J1", "%s %s always" % (u, t), f.where(), "a message of %s can be dropped" % t, key="J1 drop " + t)
    ev = [v for v in e.events.values() if isc(v)]
    for v in ev:
        r = g.reaches(v, isc)
        cx.nopath(r, "J1", "%s %s once" % (u, t), v.where(), "a message of %s can reach the filter twice" % t, key="J1 twice " + t)
        msg = msgof(v, par)
        K = Comp(lambda t: None, e.scalars)
        want_ = {}
        for n, off in (("linear_acceleration", 0), ("angular_velocity", 3)):
            for i, c in enumerate("xyz"):
                want_[("fld", path(msg, n), c)] = {(): Fraction(7 + off + i, 3)}
        K.subst.update(want_)
        for k, n in ((0, "linear_acceleration"), (1, "angular_velocity")):
            try:
                got = K.mat(resolve(e, NS(env=v.pre), e.load(NS(env=v.pre), v.args[k]) if v.args[k][:1] in (("var",), ("L",)) else v.args[k]), 3, 1)
            except Unknown as x:
                cx.undecided("J2", "%s %s %s" % (u, t, n), v.where(), str(x))
                continue
            w = [want_[("fld", path(msg, n), c)] for c in "xyz"]
            cx.expect(got.e == w, "J2", "%s %s %s" % (u, t, n), v.where(), "the filter does not get the %s of the message but %s" % (n, show(v.args[k])[:80]), key="J2 %s %s" % (t, n))
        ts = v.args[-2]
        st = path(msg, "header", "stamp")
        ok = type(ts) is tuple and ts[:1] == ("call",) and short(ts[1]) == "toSec" and ts[2] == st
        cx.expect(ok, "J2", "%s %s time" % (u, t), v.where(), "the filter gets the time %s" % show(ts)[:60], key="J2 %s time" % t)
    if want == EXT:
        external(cx, p, u, t, f, run, par, isc)


def msgof(v, par):
    """what the fields of the message are read from"""
    for a in v.args:
        for x in subterms(a):
            if x and x[0] == "fld" and x[2] == "header":
                return x[1]
    return par


def external(cx, p, u, t, f, run, par, isc):
    e, g = run(frozenset())
    ev = [v for v in e.events.values() if isc(v)]
    msg = msgof(ev[0], par)
    arr = path(msg, "state")
    flags = {m.group(1): int(m.group(2)) for m in re.finditer(r"(?m)^\s*u?int\d+\s+(\w+)\s*=\s*(\d+)", open(build.REPO + "/sensor_fusion_comm/msg/ExtEkf.msg").read())}
    cur = flags.get("current_state")
    cx.need(cur is not None, "the flag current_state")
    fl = path(msg, "flag")
    play = {x for c, _ in conditions(e) for x in subterms(c) if x and x[0] == "fld" and x[2] == "data_playback_"}
    if not play:
        play = {x for c, _ in conditions(e) for x in subterms(c) if x and x[0] == "call" and "Playback" in short(x[1])}
    cx.expect(bool(play), "J3", u + " playback", f.where(), "data playback is not looked at", key="J3 playback")

    def case(size, flag, playback, bad=None):
        def leaf(x):
            if x == fl:
                return flag
            if type(x) is tuple and x[:1] == ("call",) and short(x[1]) == "size" and x[2] == arr:
                return size
            return None
        base = {(x, playback) for x in play}
        r = run(frozenset(base))
        for _ in range(4):
            e0, g0, fa = settle(run, leaf, frozenset(base))
            add = set()
            for c, _2 in conditions(e0):
                for x in subterms(c):
                    if x and x[0] == "call" and short(x[1]) in ("isnan", "isinf"):
                        add.add((x, bad is not None and idx(x) == bad[0] and short(x[1]) == bad[1]))
                    if x and x[0] == "call" and short(x[1]) in ("isfinite", "isnormal"):
                        add.add((x, not (bad is not None and idx(x) == bad[0])))
            if add <= base:
                break
            base |= add
        case.leaf = leaf
        e0, g0, fa = settle(run, leaf, frozenset(base))
        e0.known = fa
        return e0, g0, fa

    def used(e):
        out = set()
        for v in e.events.values():
            if isc(v):
                a = v.args[5]
                for x in alts(a):
                    out.add(truth(x, case.leaf, e.known))
        return out
    where = ev[0].where()
    for size in (16, 40):
        e1, g1, _ = case(size, cur, False)
        cx.expect(used(e1) == {True}, "J3", "%s usable, %d entries" % (u, size), where, "a usable external state is not used: %s" % used(e1), key="J3 usable")
        for b in range(10):
            for kind in ("isnan", "isinf"):
                e2, _, _ = case(size, cur, False, (b, kind))
                cx.expect(used(e2) == {False}, "J3", "%s entry %d %s (%d)" % (u, b, kind, size), where, "an external state whose entry %d %s is used" % (b, "is not a number" if kind == "isnan" else "is infinite"), key="J3 finite %d" % b)
        for pb, fl_ in ((False, flags.get("ignore_state", 0)), (True, cur), (True, flags.get("ignore_state", 0))):
            e0, g0, _ = case(size, fl_, pb)
            r = g0.path(g0.entry, "exit", avoid=lambda v: v.kind == "write" and v.loc[:1] == ("fld",) and "hl_state" in str(v.loc[2]) or v.kind == "call" and "SetHLController" in v.name, include_start=True)
            cx.nopath(r, "J5", "%s kept %s, %d entries" % (u, "during playback" if pb else "if to be ignored", size), f.where(), "an external state is not kept for the correction", key="J5 kept")
        # the values handed over
        kept = [v for v in e1.events.values() if v.kind == "write" and v.loc[:1] == ("fld",) and "hl_state" in str(v.loc[2]) or v.kind == "call" and "SetHLController" in v.name]
        isk = lambda v: v in kept
        r = g1.path(g1.entry, "exit", avoid=isk, include_start=True)
        cx.nopath(r, "J5", "%s kept, %d entries" % (u, size), f.where(), "an external state is not kept for the correction", key="J5 kept")
        for v in kept:
            src = v.val if v.kind == "write" else v.args[0]
            cx.expect(src in (msg, ("deref", par), par, ("L", msg)), "J5", "%s kept as it is, %d entries" % (u, size), v.where(), "what is kept for the correction is %s" % show(src)[:60], key="J5 what")
        for v in [x for x in e1.events.values() if isc(x)]:
            K = Comp(lambda t: None, e1.scalars)
            qn = [Fraction(8, 9), Fraction(1, 9), Fraction(4, 9), Fraction(0)]
            xs = [Fraction(3 + 2 * i, 5) for i in range(6)] + [Fraction(5) * q for q in qn]
            for i, x in enumerate(xs):
                K.subst[("elem", arr, ("acc", "at", ("c", i)))] = {(): x} if x else {}
            try:
                pv = [K.mat(v.args[k], 3, 1).e for k in (2, 3)]
                q = K.quat(v.args[4]).e
            except Unknown as x:
                cx.undecided("J4", u, v.where(), str(x))
                continue
            cst = lambda x: {(): x} if x else {}
            for n, got, w in (("position", pv[0], xs[:3]), ("velocity", pv[1], xs[3:6]), ("attitude", q, [qn[1], qn[2], qn[3], qn[0]])):
                cx.expect(got == [cst(x) for x in w], "J4", "%s %s, %d entries" % (u, n, size), v.where(), "the %s handed over is not the message's" % n, key="J4 " + n)
    for n, k in sorted(flags.items()):
        if k != cur:
            e1, _, _ = case(16, k, False)
            cx.expect(used(e1) == {False}, "J3", "%s flag %s" % (u, n), where, "an external state flagged %s is used" % n, key="J3 flag")
    e1, _, _ = case(16, cur, True)
    cx.expect(used(e1) == {False}, "J3", "%s during playback" % u, where, "an external state is used during playback", key="J3 during playback")
    for size in (0, 1, 9, 15):
        for flag in (cur, flags.get("ignore_state", 0)):
            e1, g1, fa = case(size, flag, False)
            inst = "%s %d entries, flag %d" % (u, size, flag)
            cx.expect(used(e1) == {False}, "J3", inst, where, "an external state of %d entries is used" % size, key="J3 short")
            rd = [v for v in e1.events.values() for a in list(v.args or []) + [v.val] if a is not None and any(x and x[0] == "elem" and x[1] == arr and num(x[2][-1]) and x[2][-1][1] >= size for x in subterms(a))]
            rd += [v for v in e1.events.values() if v.kind == "call" and any("Map" in str(x[1]) and arr in set(subterms(x)) for a in list(v.args or []) for x in subterms(a) if x and x[0] == "call")]
            rd = [v for v in rd if g1.path(g1.entry, lambda x: x is v, include_start=True) is not None]
            cx.expect(not rd, "J5", inst + " read", rd[0].where() if rd else f.where(), "entries the message does not have are read", key="J5 read")
            kept = [v for v in e1.events.values() if v.kind == "write" and v.loc[:1] == ("fld",) and "hl_state" in str(v.loc[2])]
            cx.expect(not kept, "J5", inst + " kept", kept[0].where() if kept else f.where(), "a state of %d entries is kept for the correction, which reads sixteen" % size, key="J5 short kept")


def par(cx, p, u):
    from .c16 import plain
    cs = ctors(p, M)
    e, g = cx.run(p, cs[0])
    got = e.load(e.final, fld("data_playback_"))
    src = {strval(y) for x in subterms(got) if x and x[0] == "out" and "NodeHandle" in x[1] for y in x[2:] if type(y) is tuple and "playback" in str(strval(y))}
    cx.expect(src == {"data_playback"}, "J6", u + " parameter", cs[0].where(), "data playback is taken from %s" % sorted(src), key="J6 par")
    ws = [(f, i) for f in p.repo_fns() for i, nd in enumerate(f.nodes) if nd and nd["k"] in ("Asg", "CAsg") and f.nodes[nd["c"][0]] and f.nodes[nd["c"][0]].get("k") == "Mem" and str(f.nodes[nd["c"][0]].get("n")).endswith("::data_playback_")]
    for f, i in ws:
        cx.expect("(ctor)" in f.n or f.n.endswith("MSF_SensorManager::MSF_SensorManager"), "J6", "%s set in %s" % (u, f.n), f.where(i), "data playback is changed in %s" % f.n, key="J6 set " + f.n)
