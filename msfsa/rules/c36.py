"""C36 - the process noise that enters the covariance."""
import hashlib
from .. import build
from .kin import *

GAINS = (("core_noise_acc", "v"), ("core_noise_accbias", "b_a"), ("core_noise_gyr", "q"), ("core_noise_gyrbias", "b_w"))
ALIAS = {"scale": "L", "bias_p": "b_p"}
TOP = 3     # order of the step length up to which the core block is compared


def check(cx):
    cx.rule("N1", "core block: the integral of exp(Fc s) G diag(n^2) G' exp(Fc s)' over the step, through third order")
    cx.rule("N2", "auxiliary state with a configured noise: n^2 dt on the diagonal of its own block")
    cx.rule("N3", "no other entry of Qd is ever set")
    for u in units33(cx):
        p = cx.unit(u)
        if p.by_name.get(C + "PredictProcessCovariance"):
            noise(cx, p, layout(cx, p), u)
    cx.floor("N1", 2)
    cx.floor("N2", 2)


def params(K):
    """configured noises the evaluated matrix depends on: {name: term}"""
    out = {}
    for t in K.names:
        if type(t) is tuple and t and t[0] == "fld" and type(t[2]) is str and "noise" in t[2] and contains(t, fld("usercalc_")):
            out[t[2]] = t
    return out


def variable(L, name):
    """state variable whose noise the configuration entry `name` sets"""
    if "noise_" not in name or "meas" in name:
        return None
    v = name.split("noise_", 1)[1]
    return L[ALIAS.get(v, v)]


def configured(p, L):
    """{variable name: configuration entry} from the .cfg file of the node"""
    tys = {short(p.types[f["t"]]) for r in p.records for f in r["fields"] if f["n"] == "config_"}
    out = {}
    for c in build.gen_ros()[1]:
        if c["name"] + "Config" in tys and c["pkg"] != "msf_core":
            for q in c["params"]:
                v = variable(L, q["name"])
                if v is not None and q["type"] == "double":
                    out[v.name] = q["name"]
    return out


def noise(cx, p, L, u):
    conf = configured(p, L)
    pinned = {}
    for k, dt in enumerate((0.01, 0.7)):
        fn, a, b, e = predicted(cx, p, dt)
        K = fresh(L, e, [a, b], a, b, k, (k, 1 - k))
        blank(L, K, a)
        try:
            Q = K.mat(exitval(e, ("fld", a, "Qd")))
        except Unknown as ex:
            cx.undecided("N1", u, fn.where(), str(ex))
            continue
        E, rot = transition(L, K, b, 4)
        have = params(K)
        o = {v.name: v.offc for v in L}
        A = K.mmul(E, E.T)
        d = K.atom("dt")
        W = Mx(15, 15, [{} for _ in range(225)])
        for par, v in GAINS:
            if not cx.expect(par in have, "N1", "%s %s" % (u, par), fn.where(), "the process noise does not depend on %s" % par, key="N1 " + par):
                return
            G = E.sub(0, o[v], 15, 3)       # isotropic noise: its rotation into the world does not matter
            n = K.var(have[par])
            GG = K.mmul(G, G.T).map(lambda q: K.pmul(q, K.pmul(n, n)))
            W = lin(K, W, GG)
        W = W.map(lambda q: {tuple(sorted(m + (d,))): c / (m.count(d) + 1) for m, c in q.items()})
        cut = lambda q: {m: c for m, c in q.items() if m.count(d) <= TOP}
        for r in L:
            for c in L:
                core = r.name in CORE and c.name in CORE
                rule = "N1" if core else "N2" if r is c else "N3"
                bad = []
                for i in range(r.nc):
                    for j in range(c.nc):
                        got = Q[r.offc + i, c.offc + j]
                        if core:
                            diff = cut(padd(got, W[r.offc + i, c.offc + j], -1))
                        elif r is c and i == j and r.name in conf:
                            diff = padd(got, K.pmul(K.var("dt"), K.pmul(K.var(term(have, e, conf[r.name])), K.var(term(have, e, conf[r.name])))), -1)
                        else:
                            diff = got
                        if diff:
                            bad.append((i, j))
                            pinned.setdefault((r.name, c.name, i, j), []).append(pin(K, got))
                if core and bad:
                    continue        # reported below, entry by entry
                cx.expect(not bad, rule, "%s step %g (%s, %s)" % (u, dt, r.name, c.name), fn.where(), "the process noise is wrong at %s of block (%s, %s)" % (bad[:3], r.name, c.name), key="%s %s %s" % (rule, r.name, c.name))
    for r, c in sorted({k[:2] for k in pinned}):
        if r in CORE and c in CORE:
            at = {k[2:]: v for k, v in sorted(pinned.items()) if k[:2] == (r, c)}
            h = hashlib.sha256(repr(at).encode()).hexdigest()[:12]
            cx.bad("N1", "%s (%s, %s)" % (u, r, c), fn.where(), "block (%s, %s) of the process noise differs from the integral of the noise over the step at %s" % (r, c, " ".join("%d,%d" % x for x in at)), key="N1 %s %s %s" % (r, c, h))


def term(have, e, name):
    return have.get(name, ("missing", name))


def pin(K, q):
    """fingerprint of an entry's value at the point"""
    s = repr(sorted((tuple(sorted(str(K.names[a]) for a in m)), str(c)) for m, c in q.items()))
    return hashlib.sha256(s.encode()).hexdigest()[:8]
