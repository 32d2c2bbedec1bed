"""C10 - states configured as fixed are never corrected, and nothing else is fixed."""
import re
from .core import *
from .flow import *
from .layout import *
from .handlers import *
from ..comp import Comp, Unknown, statevars
from .. import build

FLAG = re.compile(r"(?:^|_)fixed_(\w+)$")
ALIAS = {"scale": "L"}


def flags(cx, p, L):
    """{configuration flag: state variable it fixes} of a unit, from its .cfg file"""
    _, cfgs = build.gen_ros()
    tys = {short(p.types[f["t"]]) for r in p.records for f in r["fields"] if f["n"] == "config_"}
    out = {}
    for c in cfgs:
        if c["name"] + "Config" in tys and c["pkg"] != "msf_core":
            for q in c["params"]:
                m = FLAG.search(q["name"])
                if m and q["type"] == "bool":
                    n = ALIAS.get(m.group(1), m.group(1))
                    if n in L:
                        out[q["name"]] = n
    return out


MGR = ("addr", ("fld", THIS, "manager_"))
HAVEMGR = frozenset({(MGR, True)} | set(implied(("op", "!=", MGR, ("c", 0)), True)) | set(implied(("op", "!=", ("c", 0), MGR), True)))


def cfgfield(name):
    return ("fld", ("fld", ("fld", THIS, "manager_"), "config_"), name)


def calch(cx, p, cls, mask, L):
    """(Jacobian, covariance after, evaluator, function) of a measurement with the given fixed-state bits"""
    fs = [f for f in p.repo_fns() if f.n == cls + "::CalculateH" and f.blocks]
    if not fs:
        return None
    f = fs[0]
    e, g = cx.run(p, f, env={fld("fixedstates_"): ("c", mask)}, maxsize=200000)
    s = ("root", f.params[0]["n"])
    H = ("deref", ("root", f.params[1]["n"]))
    r, c = map(int, re.search(r"Matrix<double, (\d+), (\d+)", p.type(f.params[1]["t"])).groups())
    K = Comp(statevars(L, [s], {H: (r, c)}), e.scalars)
    cx.need(e.final is not None, f.n + " returns")
    return K.mat(exitval(e, H)), K.mat(exitval(e, ("fld", s, "P"))), K.mat(("fld", s, "P")), K, f


def check(cx):
    cx.rule("F1", "a fixed variable has no columns in the Jacobian of any measurement of the sensor it is fixed for")
    cx.rule("F2", "its cross-covariances are cleared before the update, and nothing else of the covariance is touched")
    cx.rule("F3", "a flag fixes its own variable only")
    cx.rule("F4", "the update uses the Jacobian taken after the clearing, for the same state")
    cx.rule("F5", "with fixed biases a correction leaves both biases as they are and keeps the rest")
    for u in hunits(cx):
        p = cx.unit(u)
        L = layout(cx, p)
        sensors(cx, p, L, u)
    for u in U10:
        biases(cx, cx.unit(u), u)
    cx.floor("F1", 10)
    cx.floor("F5", 2)


U10 = ("pose", "pose_pressure", "position", "position_pose")


def sensors(cx, p, L, u):
    fl = flags(cx, p, L)
    cx.need(fl, "configuration flags of fixed states in unit " + u)
    seen = set()
    for f in funnels(p):
        base = {cfgfield(k): FALSE for k in fl}

        def masks(on):
            env = dict(base)
            env.update({cfgfield(k): TRUE for k in on})
            e, g = runfunnel(cx, p, f, facts=HAVEMGR, env=env)
            r = {}
            for v in added(e):
                o = v.args[0]
                m = (v.pre or {}).get(("fld", o, "fixedstates_"))
                r.setdefault(o, set()).add(m)
            return e, r

        e0, r0 = masks(())
        mcls = mclass(p, f)
        if mcls is None or not any(h.n == mcls + "::CalculateH" for h in p.repo_fns()):
            continue
        try:
            h0 = calch(cx, p, mcls, 0, L)
        except Unknown as x:
            cx.undecided("F1", "%s %s" % (u, mcls), f.where(), str(x))
            seen |= set(fl)
            continue
        for o, ms in r0.items():
            cx.expect(ms == {("c", 0)}, "F3", "%s %s: nothing fixed" % (u, f.n), f.where(), "without any flag the measurement has the fixed-state bits %s" % [show(m) if m else m for m in ms], key="F3 %s none" % f.n)
        if not cx.expect(bool(r0), "F1", "%s %s" % (u, f.n), f.where(), "no measurement is made", key="F1 %s none" % f.n):
            continue
        H0 = h0[0]
        mine = {k: n for k, n in fl.items() if any(H0[i, L[n].offc + j] for i in range(H0.r) for j in range(L[n].nc))}
        seen |= set(mine)
        same_P(cx, u, mcls, h0, (), L, p)
        import itertools
        ks = sorted(mine)
        sets = [(k,) for k in ks] + ([tuple(ks)] if len(ks) > 1 else [])
        if cx.tier == "thorough":
            sets = [c for n in range(1, len(ks) + 1) for c in itertools.combinations(ks, n)]
        for on in sets:
            e, r = masks(on)
            inst = "%s %s %s" % (u, short(f.n), "+".join(on))
            ms = {m for x in r.values() for m in x}
            if not cx.expect(len(ms) == 1 and all(m and num(m) for m in ms), "F1", inst + " bits", f.where(), "the fixed-state bits for %s are %s" % (on, [show(m) if m else m for m in ms]), key="F1 %s bits" % f.n):
                continue
            try:
                h = calch(cx, p, mcls, int(ms.pop()[1]), L)
            except Unknown as x:
                cx.undecided("F1", inst, f.where(), str(x))
                continue
            fixed = {c for k in on for c in range(L[mine[k]].offc, L[mine[k]].offc + L[mine[k]].nc)}
            H, fn = h[0], h[4]
            for k in on:
                v = L[mine[k]]
                bad = [(i, j) for i in range(H.r) for j in range(v.offc, v.offc + v.nc) if H[i, j]]
                cx.expect(not bad, "F1", inst + " " + v.name, fn.where(), "with %s the Jacobian still has entries %s for %s" % (k, bad[:3], v.name), key="F1 %s %s" % (mcls, v.name))
            # everything else as without flags (evaluated by the same names)
            diff = [(i, j) for i in range(H.r) for j in range(H.c) if j not in fixed and key_(h[3], H[i, j]) != key_(h0[3], H0[i, j])]
            cx.expect(not diff, "F3", inst, fn.where(), "with %s the Jacobian also changes at %s" % (on, diff[:4]), key="F3 %s %s" % (mcls, on if len(on) == 1 else "all"))
            same_P(cx, u, mcls, h, [L[mine[k]] for k in on], L, p, inst)
        order(cx, p, u, mcls)
    miss = {k for k, n in fl.items() if k not in seen}
    cx.expect(not miss, "F1", u + " every flag is used", "-", "no sensor observes the variables of the flags %s" % sorted(miss), key="F1 %s unused" % u)


def key_(K, p):
    return frozenset((tuple(sorted(repr(K.names[i]) for i in k)), v) for k, v in p.items())


def mclass(p, f):
    """measurement class a handler function makes"""
    for nd in f.nodes:
        if nd and nd["k"] == "New":
            t = p.types[nd["at"]] if "at" in nd else nd.get("cls")
            if t:
                return re.sub(r"<.*", "", t).strip()
    return None


def same_P(cx, u, mcls, h, vs, L, p, inst=None):
    H, P1, P0, K, fn = h
    name = {}
    for v in vs:
        for c in range(v.offc, v.offc + v.nc):
            name[c] = v.name
    badz, bado = [], []
    for i in range(P1.r):
        for j in range(P1.c):
            a, b = name.get(i), name.get(j)
            if a != b:
                if P1[i, j]:
                    badz.append((i, j))
            elif P1[i, j] != P0[i, j]:
                bado.append((i, j))
    inst = inst or "%s %s nothing fixed" % (u, mcls)
    cx.expect(not badz, "F2", inst + " cleared", fn.where(), "cross-covariances of a fixed variable stay at %s" % badz[:3], key="F2 %s clear" % mcls)
    cx.expect(not bado, "F2", inst + " kept", fn.where(), "the covariance is changed at %s, outside the cross-covariances of fixed variables" % bado[:3], key="F2 %s keep" % mcls)


def order(cx, p, u, mcls):
    from .c08 import CAA, REL
    CLOSEST, PREV = C + "GetClosestState", C + "GetPreviousMeasurement"
    for fn in [f for f in p.repo_fns() if f.n == mcls + "::Apply" and f.blocks]:
        H = mcls + "::CalculateH"
        e, g = cx.run(p, fn, pure={CLOSEST: (), PREV: (), REL: (), CAA: (), H: (("arg", 1),)})
        hs = [v for v in e.events.values() if v.kind == "call" and v.name == H]
        ups = [v for v in e.events.values() if v.kind == "call" and v.name in (CAA, REL)]
        for v in ups:
            for st, Hm in ((v.args[0], v.args[2]),) if v.name == CAA else ((v.args[0], v.args[3]), (v.args[1], v.args[4])):
                ts = [t for t in subterms(Hm) if t and t[:2] == ("out", H)]
                ok = bool(ts) and all(t[2] == st for t in ts)
                cx.expect(ok, "F4", "%s %s %s" % (u, fn.n, show(st)[:40]), v.where(), "the update's Jacobian is not the one CalculateH made for the state that is corrected", key="F4 %s" % fn.n)


def biases(cx, p, u):
    L = layout(cx, p)
    fn = corefn(p, "ApplyCorrection")
    cor = [f for f in p.repo_fns() if short(f.n) == "Correct" and "GenericState" in f.n and f.blocks]
    cx.need(cor, "Correct of the state")
    cor = cor[0].n
    flag = ("fld", ("fld", fld("usercalc_"), "config_"), "core_fixed_bias")
    corr = ("deref", ("root", fn.params[1]["n"]))
    n = L.nc
    for on in (True, False):
        e, g = cx.run(p, fn, pure={cor: (), "msf_core::CheckFuzzyTracking::Check": ()}, env={flag: TRUE if on else FALSE})
        uses = [v for v in e.events.values() if v.kind == "call" and v.name == cor]
        cx.need(uses, "call of " + cor)
        inst = "%s biases %s" % (u, "fixed" if on else "free")
        want = {c for v in (L["b_w"], L["b_a"]) for c in range(v.offc, v.offc + v.nc)} if on else set()
        for v in uses:
            t = v.args[0]
            roots = {rootof_(a) for a in alts(t)}
            if not cx.expect(all(r == corr for r in roots), "F5", inst + " vector", v.where(), "the state is corrected with %s" % show(t)[:80], key="F5 vector"):
                continue
            # what was changed in the vector on the way
            zero, other = set(), None
            ws = [w for w in e.events.values() if w.kind == "write" and (w.loc == corr or rootof_(w.loc) == corr) and g.reaches(w, lambda x: x is v)]
            for w in ws:
                cells, why = cellsof(e, g, w, corr, n)
                if cells is None or not iszero(w.val):
                    other = (w, why or "is set to %s" % show(w.val)[:60])
                    break
                if g.path(g.entry, lambda x: x is v, avoid=lambda x: x is w or x.kind == "decl" and any(isvar(s) and s[2] == x.loc for s in subterms(w.loc)), include_start=True) is not None:
                    other = (w, "is set to zero on some paths only")
                    break
                zero |= cells
            if not cx.expect(other is None, "F5", inst + " changes", other[0].where() if other else v.where(), "the correction %s" % (other and other[1]), key="F5 change"):
                continue
            cx.expect(want <= zero, "F5", inst + " left", v.where(), "entries %s of the biases are still corrected" % sorted(want - zero), key="F5 left")
            cx.expect(zero <= want, "F5", inst + " kept", v.where(), "entries %s of the correction are dropped though they are no fixed bias" % sorted(zero - want), key="F5 kept")


def iszero(t):
    if num(t):
        return t[1] == 0
    if type(t) is tuple and t and t[0] == "mut":
        return t[1] == "setZero"
    return type(t) is tuple and t[:1] == ("call",) and short(t[1]) == "Zero"


def rootof_(t):
    while True:
        if type(t) is tuple and t and t[0] in ("elem", "upd"):
            t = t[1]
        elif type(t) is tuple and t and t[0] == "loop":
            t = t[2]
        elif type(t) is tuple and t and t[0] == "mut":
            t = t[2]
        else:
            return t


def cellsof(e, g, w, corr, n):
    """rows of the column vector a write sets"""
    loc = w.loc
    if loc == corr:
        return set(range(n)), None
    s = slice_of(loc)
    if s is not None:
        return set(range(s[1], s[1] + s[2])), None
    acc = loc[2] if loc[0] == "elem" and loc[1] == corr else None
    if acc is None or acc[1] != "at" or len(acc) < 3:
        return None, "is changed at %s" % show(loc)[:60]
    t = acc[2]
    if num(t):
        return {int(t[1])}, None
    # base + counter
    base = 0
    a = t
    while type(a) is tuple and a[0] == "op" and a[1] == "+" and len(a) == 4:
        if num(a[2]):
            base, a = base + a[2][1], a[3]
        elif num(a[3]):
            base, a = base + a[3][1], a[2]
        else:
            break
    lo, hi, why = looprange(e, g, w, a)
    if lo is None:
        return None, "is changed at %s (%s)" % (show(loc)[:60], why)
    return set(range(int(base) + lo, int(base) + hi)), None
