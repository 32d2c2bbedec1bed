"""C09 - the outlier gate decides before anything is changed, and is wired to its parameters."""
from .core import *
from .flow import *
from .c08 import Corr, CAA, APPLY, units8, gate, BASE
from .handlers import *

#           distance, threshold, accepted
CASES = [(6.0, 5.0, False), (5.000001, 5.0, False), (5.0, 5.0, True), (4.0, 5.0, True), (0.7, 0.5, False), (0.4, 0.5, True),
         (2.0, 3.0, True), (8.0, 3.0, False), (0.0, 1.0, True), (30.0, 20.0, False), (30.0, 50.0, True)]


def check(cx):
    cx.rule("B1", "a measurement farther than the threshold is rejected: state and covariance stay as they are")
    cx.rule("B2", "a measurement within the threshold is applied")
    cx.rule("B3", "without the gate every measurement is applied")
    cx.rule("B4", "each handler gives its measurements its own gate settings")
    cx.rule("B5", "the gate settings of a handler come from its parameters and never change")
    for u in units8(cx):
        p = cx.unit(u)
        fs = [f for f in p.repo_fns() if f.n == CAA and f.blocks]
        cx.need(fs, "CalculateAndApplyCorrection in unit " + u)
        for f in fs:
            decide_(cx, p, u, f, "fixed size" if f.info.get("ta") else "dynamic size")
    for u in hunits(cx):
        wiring(cx, cx.unit(u), u)
    cx.floor("B1", 8)
    cx.floor("B4", 4)


def decide_(cx, p, u, fn, what):
    K = Corr(cx, p, fn)
    cx.need(K.en is not None and K.thr is not None, "the members holding the outlier gate of a measurement")
    e0, _ = K.runs(())
    isap = lambda x: x.kind == "call" and x.name == APPLY
    eff = lambda x: isap(x) or iseffect(x)
    for dist, thr, acc in CASES:
        inst = "%s %s: distance %g, threshold %g" % (u, what, dist, thr)
        e, g, _ = settle(K.runs, K.leaf(e0, dist, thr), {(K.en, True)})
        if acc:
            w = g.path(g.entry, "exit", avoid=isap, include_start=True)
            cx.nopath(w, "B2", inst, fn.where(), "a measurement at distance %g with threshold %g is not applied" % (dist, thr), key="B2 " + what)
        else:
            w = g.path(g.entry, eff, include_start=True)
            cx.nopath(w, "B1", inst, w[-1].where() if w else fn.where(), "a measurement at distance %g with threshold %g still has an effect" % (dist, thr), key="B1 " + what)
    for dist in (0.3, 6.0, 80.0):
        e, g, _ = settle(K.runs, K.leaf(e0, dist, 5.0), {(K.en, False)})
        w = g.path(g.entry, "exit", avoid=isap, include_start=True)
        cx.nopath(w, "B3", "%s %s: distance %g" % (u, what, dist), fn.where(), "with the gate switched off a measurement at distance %g is not applied" % dist, key="B3 " + what)


def wiring(cx, p, u):
    en, thr = gate(cx, p)
    cx.need(en and thr, "the members holding the outlier gate of a measurement")
    for f in funnels(p):
        e, g = runfunnel(cx, p, f)
        cls = f.info.get("cls")
        for v in added(e):
            o = v.args[0]
            src = {}
            for m, ty, nm in ((en, "bool", "switch"), (thr, "double", "threshold")):
                got = (v.pre or {}).get(("fld", o, m[2]))
                src[nm] = got
                ok = type(got) is tuple and got[:2] == ("fld", THIS)
                cx.expect(ok, "B4", "%s %s %s" % (u, f.n, nm), v.where(), "the gate's %s of a measurement is %s, not a setting of the handler" % (nm, show(got)[:60] if got else None), key="B4 %s %s" % (f.n, nm))
            for c in ctors(p, cls):
                ce, cg, pa = params(cx, p, c)
                for nm, pn, dflt in (("switch", "enable_mah_outlier_rejection", FALSE), ("threshold", "mah_threshold", None)):
                    rd = pa.get(pn, [])
                    inst = "%s %s %s" % (u, cls, pn)
                    if not cx.expect(bool(rd), "B5", inst, c.where(), "the parameter %s is not read" % pn, key="B5 %s %s" % (cls, pn)):
                        continue
                    ok = all(l == src[nm] for _, l in rd)
                    cx.expect(ok, "B5", inst + " goes to the gate", rd[0][0].where(), "the parameter %s is stored in %s, the gate uses %s" % (pn, show(rd[0][1]), show(src[nm]) if src[nm] else None), key="B5 %s %s place" % (cls, pn))
                    dv = rd[0][0].args[2] if len(rd[0][0].args) > 2 else None
                    if dflt is not None:
                        cx.expect(dv is not None and num(dv) and dv[1] == 0, "B5", inst + " default", rd[0][0].where(), "the gate is on by default", key="B5 %s default" % cls)
                    rest = [x for x in ce.events.values() if x.kind == "write" and x.loc == src[nm] and x.op != "out"]
                    late = [x for x in rest if cg.reaches(rd[0][0], lambda y: y is x)]
                    cx.expect(not late, "B5", inst + " kept", late[0].where() if late else c.where(), "%s is overwritten after it was read" % pn, key="B5 %s %s over" % (cls, pn))
            # nobody else changes the settings
            for nm in ("switch", "threshold"):
                t = src[nm]
                if type(t) is not tuple or t[:2] != ("fld", THIS):
                    continue
                ws = [(h, nd) for h in p.repo_fns() if h.info.get("cls") in (cls, "msf_core::SensorHandler") and h.info.get("k") != "ctor"
                      for nd in h.nodes if nd and nd["k"] in ("Asg", "CAsg") and assigns(h, nd, t[2])]
                cx.expect(not ws, "B5", "%s %s %s constant" % (u, cls, nm), ws[0][0].where() if ws else "-", "the gate's %s is changed outside the constructor" % nm, key="B5 %s %s const" % (cls, nm))


def assigns(f, nd, name):
    x = nd["c"][0]
    while x is not None and x >= 0 and f.nodes[x]["k"] in ("ICast", "Paren", "Cast"):
        x = f.nodes[x]["c"][0]
    return f.nodes[x]["k"] == "Mem" and (f.nodes[x].get("f") or f.nodes[x].get("n")) == name
