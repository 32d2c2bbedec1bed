"""C22 - C24: the timing module (unit `timer`, Timer.cc)."""
import math
import re
from ..q import *
from ..q import _num
from ..build import AnalysisBroken
from .flow import settle, evalnum

NS = "msf_timing::"


def run(cx, p, fn, **k):
    return cx.run(p, fn, **k)


def ret(e):
    return e.ret if e.ret is not None else ("none",)


ADD = callp("Accumulator::Add")


def timing_flag(cx, p):
    e, g = run(cx, p, NS + "Timer::IsTiming")
    r = ret(e)
    cx.need(type(r) is tuple and r[0] == "fld" and r[1] == THIS, "IsTiming does not return a member of the timer")
    return r


def isnow(t):
    return type(t) is tuple and t[:2] == ("call", "std::chrono::system_clock::now") or \
        type(t) is tuple and len(t) > 1 and t[0] == "call" and isinstance(t[1], str) and t[1].endswith("_clock::now")


def started(e, T):
    """exit state: running, and some other member holds the current time"""
    if e.final is None:
        return False
    return flag(exitval(e, T)) is True and any(isnow(v) for k, v in e.final.env.items() if k[0] == "fld" and k[1] == THIS)


def flag(t):
    v = simp(t, frozenset())
    if type(v) is tuple and v[:2] == ("op", "!"):
        x = flag(v[2])
        return None if x is None else not x
    return bool(v[1]) if type(v) is tuple and v[:1] == ("c",) else None


def check_intervals(cx):
    p = cx.unit("timer")
    T = timing_flag(cx, p)
    YES, NO = ("c", 1, "b"), ("c", 0, "b")
    cx.rule("T1", "starting marks the timer as running and stores the current time, on every path")
    sf = p.one(NS + "Timer::Start")
    e, g = run(cx, p, sf, env={T: NO})
    cx.expect(started(e, T), "T1", "Timer::Start", sf.where(), "after Start the timer is not running from the current time", key="T1 Start")
    tl = [k for k, v in e.final.env.items() if k[0] == "fld" and k[1] == THIS and isnow(v)]
    start_loc = tl[0] if tl else None
    e, g = run(cx, p, sf, env={T: YES})
    cx.expect(flag(exitval(e, T)) is True, "T1", "Timer::Start while running", sf.where(), "after Start the timer is not running", key="T1 Start")
    cx.rule("T2", "constructing starts the timer exactly when it is not asked to be constructed stopped")
    ctors = [f for f in p.named(NS + "Timer::(ctor)") if not f.imp and len(f.params) == 2]
    cx.need(len(ctors) >= 2, "Timer constructors")
    NOIN = (NS + "Timing::GetHandle",)
    for f in ctors:
        stopped, a0 = ("root", f.params[1]["n"]), ("root", f.params[0]["n"])
        e, g = run(cx, p, f, args=[a0, NO], noinline=NOIN)
        cx.expect(started(e, T), "T2", f.full + " running", f.where(), "a timer constructed running is not running", key="T2 %s running" % f.full)
        e, g = run(cx, p, f, args=[a0, YES], noinline=NOIN)
        cx.expect(flag(exitval(e, T)) is False, "T2", f.full + " stopped", f.where(), "a timer constructed stopped is running", key="T2 %s stopped" % f.full)
    cx.rule("T3", "stopping a running timer records exactly one sample, under the timer's own handle, and leaves it stopped")
    stop = p.one(NS + "Timer::Stop")
    dtor = p.one(NS + "Timer::(dtor)")
    kept = []
    for f in ctors:
        e, g = run(cx, p, f, noinline=NOIN)
        a0 = ("root", f.params[0]["n"])
        want = [a0] + [("call", NOIN[0], y) for x in (a0, ("deref", a0), ("copy", a0)) for y in (x,)]
        kept.append((f, {k for k, v in e.final.env.items() if k[0] == "fld" and k[1] == THIS and v in want}))
    own = set.intersection(*[k for _, k in kept])
    for f in (stop, dtor):
        e, g = run(cx, p, f, env={T: YES})
        adds = [v for v in e.events.values() if ADD(v)]
        cx.expect(bool(adds), "T3", f.n + " records", f.where(), "no sample is recorded", key="T3 %s records" % f.n)
        if not adds:
            continue
        cx.nopath(g.path(g.entry, "exit", avoid=ADD, include_start=True), "T3", f.n + " on every path", f.where(), "a path through %s with the timer running records no sample" % f.n, key="T3 %s path" % f.n)
        for a in adds:
            cx.nopath(g.reaches(a, ADD), "T3", f.n + " once", a.where(), "the same interval can be recorded twice", key="T3 %s once" % f.n)
            clock = Clock(e, start_loc)
            for dt in (0, 250, 1500000000, 3725250000001):
                got = clock.number(a.args[0], dt)
                if got is None:
                    cx.undecided("T3", "%s value" % f.n, a.where(), show(a.args[0])[:120])
                    break
                cx.expect(abs(got - dt * 1e-9) <= 1e-12 + 1e-12 * dt, "T3", "%s value after %d ns" % (f.n, dt), a.where(), "the recorded sample is %.9g s after %.9g s" % (got, dt * 1e-9), key="T3 %s value" % f.n)
            h = index_of(a.obj)
            cx.expect(h is not None and h in own, "T3", f.n + " handle", a.where(), "the sample is not recorded under the timer's handle: %s" % show(a.obj)[:160], key="T3 %s handle" % f.n)
        if f is stop:
            cx.expect(flag(exitval(e, T)) is False, "T3", f.n + " stops", f.where(), "the timer still counts as running after Stop", key="T3 stops")
    cx.rule("T4", "a timer that is not running records nothing when stopped or destroyed")
    for f in (stop, dtor):
        e, g = run(cx, p, f, env={T: NO})
        r = g.path(g.entry, ADD, include_start=True)
        cx.nopath(r, "T4", f.n, f.where(), "a sample is recorded although no interval is running", key="T4 %s" % f.n)
        if f is stop:
            cx.expect(flag(exitval(e, T)) is False, "T4", f.n + " stays stopped", f.where(), "a timer that is not running is running after Stop", key="T4 stays")
    cx.rule("T5", "the handle of a timer comes from its constructor argument and is never changed")
    for f, k in kept:
        cx.expect(bool(k & own), "T5", f.full, f.where(), "the timer does not keep the handle of its tag", key="T5 %s" % f.full)
    for f in (sf, stop):
        for x in (YES, NO):
            e, g = run(cx, p, f, env={T: x})
            for h in own:
                cx.expect(exitval(e, h) == h, "T5", "%s keeps the handle" % f.n, f.where(), "the handle becomes %s" % show(exitval(e, h))[:60], key="T5 %s" % f.n)


class Clock:
    """times and durations as nanoseconds: now is `dt` after the start"""

    def __init__(self, e, start):
        self.e, self.start = e, start
        self.decl = {v.loc: v.val for v in e.events.values() if v.kind == "decl" and v.loc is not None and v.val is not None}
        self.count = {}
        for v in e.events.values():
            if v.kind == "call" and short(v.name) == "count" and v.obj is not None:
                self.count[v.obj] = self.unit(v)

    def unit(self, v):
        todo = list(v.node.get("c") or [])
        while todo:
            n = v.fn.nodes[todo.pop(0)]
            u = period(v.fn.p.type(n["t"])) if n and n.get("t") is not None else None
            if u:
                return u
            todo = list(n.get("c") or []) + todo if n else todo
        return None

    def number(self, t, dt):
        from .flow import evalnum

        def leaf(x):
            if type(x) is tuple and x[:1] == ("call",) and short(x[1]) == "count" and len(x) >= 3:
                u, n = self.count.get(x[2]), self.ns(x[2], dt)
                return None if u is None or n is None else n / u[0] if u[1] else math.trunc(n / u[0])
            return None
        return evalnum(t, leaf)

    def ns(self, t, dt):
        if t == self.start:
            return 10 ** 18
        if isnow(t):
            return 10 ** 18 + dt
        if t in self.decl and self.decl[t] != t:
            return self.ns(self.decl[t], dt)
        if type(t) is not tuple or t[:1] != ("call",):
            return None
        n = short(t[1])
        if n == "operator-" and len(t) == 4:
            a, b = self.ns(t[2], dt), self.ns(t[3], dt)
            return None if a is None or b is None else a - b
        if n in ("duration_cast", "floor", "ceil", "round", "time_point_cast") and len(t) >= 3:
            a = self.ns(t[2], dt)
            u = period(t[3][1]) if len(t) > 3 and type(t[3]) is tuple and t[3][:1] == ("targs",) else None
            if a is None or u is None:
                return None
            return a if u[1] else math.trunc(a / u[0]) * u[0]
        if n in ("time_since_epoch", "duration", "(ctor)") or t[1].startswith("ctor std::chrono::"):
            return self.ns(t[2], dt) if len(t) == 3 else None
        return None


def period(t):
    """(nanoseconds per tick, counted in floating point) of a duration type"""
    m = re.search(r"duration<([a-z ]+)(?:, std::ratio<(\d+)(?:, (\d+))?>)?", t)
    if not m:
        return None
    n, d = int(m.group(2) or 1), int(m.group(3) or 1)
    return (10 ** 9 * n / d if 10 ** 9 * n % d else 10 ** 9 * n // d), m.group(1) in ("double", "float", "long double")


def index_of(obj):
    for s in subterms(obj):
        if s[0] == "acc" and s[1] == "at" and len(s) == 3:
            return s[2]
    return None


# ------------------------------------------------------------------ C23
def roles(cx, p):
    r = {}
    for role, g in (("sum", "Sum"), ("total", "TotalSamples"), ("max", "Max"), ("min", "Min")):
        e, _ = run(cx, p, NS + "Accumulator::" + g)
        t = ret(e)
        cx.need(type(t) is tuple and t[0] == "fld" and t[1] == THIS, "Accumulator::%s does not return a member" % g)
        r[role] = t
    return r


def inbounds(i, facts, n):
    """is 0 <= i < n known"""
    if _num(i):
        return 0 <= i[1] < n
    i = simp(i, facts)
    if type(i) is tuple and len(i) == 4 and i[0] == "op" and i[1] == "%" and i[3] == ("c", n):
        return True
    if decide(("op", "<", i, ("c", n)), facts):
        return True
    for f, pol in facts:
        if pol and type(f) is tuple and len(f) == 4 and f[:2] == ("op", "<") and f[2] == i:
            m = f[3]
            if type(m) is tuple and m[:2] == ("call", "std::min") and any(_num(x) and x[1] <= n for x in m[2:]):
                return True
    return False


class Maybe:
    """an argument for every sample at once: what it cannot show is left to the sequences"""

    def __init__(self, cx):
        self._cx = cx

    def __getattr__(self, n):
        return getattr(self._cx, n)

    def rule(self, r, text):
        self._cx.rule("I" + r, "for every sample: " + text)

    def ok(self, rule, inst):
        self._cx.ok("I" + rule, inst)

    def bad(self, rule, inst, where, msg, key=None, path=None):
        self._cx.undecided("I" + rule, inst, where, "not shown for every sample: " + msg)

    def expect(self, cond, rule, inst, where, msg, key=None, path=None):
        self.ok(rule, inst) if cond else self.bad(rule, inst, where, msg)
        return bool(cond)

    def need(self, cond, what):
        if not cond:
            raise LookupError(what)


def check_stats(cx):
    from .stats import simulate
    p = cx.unit("timer")
    simulate(cx, p)
    m = Maybe(cx)
    try:
        inductive(m, p)
    except (LookupError, AnalysisBroken, TypeError, AttributeError) as x:
        cx.undecided("IS1", "for every sample", "", str(x))


def inductive(cx, p):
    R = roles(cx, p)
    add = p.one(NS + "Accumulator::Add")
    s = ("root", add.params[0]["n"])
    rec = [r for r in p.records if r["n"] == NS + "Accumulator"]
    cx.need(rec, "Accumulator record")
    arr = [f for f in rec[0]["fields"] if "[" in p.type(f["t"])]
    cx.need(len(arr) == 1, "sample window array")
    N = int(p.type(arr[0]["t"]).split("[")[1].rstrip("]"))
    A = fld(arr[0]["n"])
    cx.rule("S1", "every added sample enters the total and is counted exactly once")
    e, g = run(cx, p, add)
    W = add.where()
    cx.expect(allalts(exitval(e, R["sum"]), lambda v: same(v, ("op", "+", R["sum"], s))), "S1", "sum", W, "the sum after Add is %s" % show(exitval(e, R["sum"])))
    cx.expect(allalts(exitval(e, R["total"]), lambda v: same(v, ("op", "+", R["total"], ("c", 1)))), "S1", "count", W, "the count after Add is %s" % show(exitval(e, R["total"])))
    cx.rule("S2", "the maximum (minimum) follows a larger (smaller) sample and otherwise stays")
    ctor = p.one(NS + "Accumulator::(ctor)")
    ec, _ = run(cx, p, ctor)
    init = {f: exitval(ec, R[f]) for f in ("max", "min", "sum", "total")}
    for role, less in (("max", lambda a, b: ("op", "<", a, b)), ("min", lambda a, b: ("op", "<", b, a))):
        M = R[role]
        base = frozenset([(("op", "<", ("c", 0), R["total"]), True)])
        e, g = run(cx, p, add, facts=base | {(less(M, s), True)})
        cx.expect(simp(exitval(e, M), base | {(less(M, s), True)}) == s, "S2", role + " new extreme", W, "a sample beyond the %s leaves it at %s" % (role, show(exitval(e, M))))
        e, g = run(cx, p, add, facts=base | {(less(s, M), True)})
        cx.expect(simp(exitval(e, M), base | {(less(s, M), True)}) == M, "S2", role + " inner sample", W, "a sample inside the range moves the %s to %s" % (role, show(exitval(e, M))))
    cx.rule("S3", "the first sample becomes both minimum and maximum")
    env = {R[k]: v for k, v in init.items()}
    facts = frozenset(x for x in [(("op", "<", init["max"], s), True), (("op", "<", s, init["min"]), True)] if not (_num(x[0][2]) or _num(x[0][3])))
    e, g = run(cx, p, add, env=env, facts=facts)
    EXT = {"max": ("lowest", "-infinity"), "min": ("max", "infinity")}
    for role in ("max", "min"):
        v = exitval(e, R[role])
        t = init[role]
        if type(t) is tuple and t[0] == "op" and t[1] == "neg":
            nm = "-" + short(t[2][1]) if t[2][0] == "call" else "?"
            extreme = nm in ("-max", "-infinity") and role == "max"
        else:
            extreme = type(t) is tuple and t[0] == "call" and short(t[1]) in EXT[role]
        first = [a for a in alts(v)] == [s]
        # either the initial value lies beyond every sample, or Add treats the first sample specially
        if not extreme:
            e2, _ = run(cx, p, add, env=env)
            first = allalts(simp(exitval(e2, R[role]), frozenset()), lambda a: a == s)
        cx.expect(first, "S3", role, ctor.where(), "the %s starts at %s, which a first sample need not exceed" % (role, show(t)))
    cx.expect(init["sum"] == ("c", 0) and init["total"] == ("c", 0), "S3", "empty", ctor.where(), "an empty accumulator does not start at zero")
    # window
    cx.rule("S4", "a full window replaces its oldest sample, and the rolling sum equals the sum of the window")
    er, _ = run(cx, p, NS + "Accumulator::RollingMean")
    r = ret(er)
    WR = p.one(NS + "Accumulator::RollingMean").where()
    cx.need(type(r) is tuple and r[:2] == ("op", "/"), "RollingMean is not a quotient")
    wsum, cnt = r[2], r[3]
    wn = [f for f in subterms(cnt) if f[0] == "fld" and f[1] == THIS]
    cx.need(wsum[0] == "fld" and len(set(wn)) == 1, "rolling sum / window counter of the accumulator")
    wn = wn[0]
    cx.expect(cnt == ("call", "std::min", wn, ("c", N)) or cnt == ("call", "std::min", ("c", N), wn) or
              simp(cnt, frozenset([(("op", "<", wn, ("c", N)), True)])) == wn and simp(cnt, frozenset([(("op", "<", wn, ("c", N)), False)])) == ("c", N),
              "S4", "window length", WR, "the rolling mean divides by %s" % show(cnt))
    fr = ("op", "<", wn, ("c", N))
    base = frozenset([(("op", "<", wn, ("c", 0)), False)])
    e, g = run(cx, p, add, facts=base | {(fr, True)})
    cx.expect(same(exitval(e, wsum), ("op", "+", wsum, s)), "S4", "filling: rolling sum", W, "while the window fills the rolling sum becomes %s" % show(exitval(e, wsum)))
    slot = e.final.env.get(A)
    cx.expect(slot is not None and slot[0] == "upd" and slot[1] == A and slot[3] == s and slot[2][2] in (wn, ("op", "%", wn, ("c", N))), "S4", "filling: slot", W,
              "while the window fills the sample is stored as %s" % show(slot))
    e, g = run(cx, p, add, facts=base | {(fr, False)})
    idx = ("op", "%", wn, ("c", N))
    old = ("elem", A, ("acc", "at", idx))
    cx.expect(same(exitval(e, wsum), ("op", "-", ("op", "+", wsum, s), old)), "S4", "full: rolling sum", W, "with a full window the rolling sum becomes %s" % show(exitval(e, wsum)))
    slot = e.final.env.get(A)
    cx.expect(slot is not None and slot[0] == "upd" and slot[1] == A and slot[3] == s and slot[2][2] == idx, "S4", "full: slot", W, "with a full window the sample is stored as %s" % show(slot))
    e, g = run(cx, p, add)
    cx.expect(allalts(exitval(e, wn), lambda v: same(v, ("op", "+", wn, ("c", 1)))), "S4", "window counter", W, "the window counter becomes %s" % show(exitval(e, wn)))
    cx.expect(exitval(ec, wn) == ("c", 0) and exitval(ec, wsum) == ("c", 0), "S4", "empty window", ctor.where(), "the window does not start empty")
    cx.rule("S5", "every access to the sample window stays inside it")
    n = 0
    for f in [x for x in p.repo_fns() if x.n.startswith(NS + "Accumulator::")]:
        fact = base
        e, g = run(cx, p, f, facts=base)
        for i, ev in accesses(e, A):
            n += 1
            cx.expect(inbounds(i, ev.facts, N), "S5", "%s[%s] in %s" % (arr[0]["n"], show(i)[:40], short(f.n)), ev.where(), "index %s is not known to lie in [0,%d)" % (show(i), N))
    cx.need(n >= 3, "accesses of the sample window")
    cx.rule("S6", "mean = sum / count; variance is that of the window, zero when empty")
    e, _ = run(cx, p, NS + "Accumulator::Mean")
    cx.expect(same(ret(e), ("op", "/", R["sum"], R["total"])), "S6", "mean", p.one(NS + "Accumulator::Mean").where(), "the mean is %s" % show(ret(e)))
    vf = p.one(NS + "Accumulator::LazyVariance")
    e, g = run(cx, p, vf, facts=frozenset([(("op", "==") + tuple(sorted((wn, ("c", 0)), key=repr)), True)]))
    cx.expect(ret(e) == ("c", 0), "S6", "variance of nothing", vf.where(), "the variance of an empty window is %s" % show(ret(e)))
    e, g = run(cx, p, vf, facts=frozenset([(("op", "==") + tuple(sorted((wn, ("c", 0)), key=repr)), False), (("op", "<", wn, ("c", 0)), False)]))
    mean = ret(er)
    sq = [w for w in e.events.values() if w.kind == "write" and any(contains(w.val, ("elem", A, ("acc", "at", i))) for i, _ in accesses(e, A))]
    good = False
    for w in sq:
        for i, _ in accesses(e, A):
            d = ("op", "-", ("elem", A, ("acc", "at", i)), mean)
            if same(w.val, ("op", "+", w.old, ("op", "*", d, d))):
                good = True
    cx.expect(good, "S6", "squared deviations", vf.where(), "the variance does not accumulate squared deviations from the rolling mean")
    fin = [a for a in alts(ret(e))]
    cx.expect(all(type(a) is tuple and a[:2] == ("op", "/") and a[3] == cnt for a in fin), "S6", "divisor", vf.where(), "the variance is %s" % show(ret(e)))


def accesses(e, A):
    out = []
    seen = set()
    for ev in e.events.values():
        ts = []
        if ev.kind == "write":
            ts = [ev.loc, ev.val]
        elif ev.kind == "call":
            ts = list(ev.args or [])
        elif ev.kind == "ret":
            ts = [ev.val]
        for t in ts:
            if t is None:
                continue
            for s in subterms(t):
                if s[0] == "elem" and len(s) == 3 and s[1] == A or s[0] == "elem" and len(s) == 3 and type(s[1]) is tuple and s[1] and s[1][0] == "upd" and s[1][1] == A:
                    if type(s[2]) is tuple and s[2][:2] == ("acc", "at"):
                        k = (s[2][2], ev.id)
                        if k not in seen:
                            seen.add(k)
                            out.append((s[2][2], ev))
    return out


# ------------------------------------------------------------------ C24
def check_registry(cx):
    p = cx.unit("timer")
    GH = NS + "Timing::GetHandle"
    gh = p.one(GH)
    tag = ("root", gh.params[0]["n"])
    W = gh.where()
    vecs = {f["n"] for r in p.records if r["n"] == NS + "Timing" for f in r["fields"] if "vector<" in p.type(f["t"]) or "deque<" in p.type(f["t"])}
    maps = {f["n"] for r in p.records if r["n"] == NS + "Timing" for f in r["fields"] if "map<" in p.type(f["t"])}
    cx.need(len(vecs) == 1 and len(maps) == 1, "the accumulators and the map of tags in Timing")
    vec, mp = vecs.pop(), maps.pop()
    isv = lambda t: type(t) is tuple and t[:1] == ("fld",) and t[2] == vec and t[1][:1] == ("glob",)
    ism = lambda t: type(t) is tuple and t[:1] == ("fld",) and t[2] == mp and t[1][:1] == ("glob",)
    istag = lambda t: t in (tag, ("deref", tag))
    lookup = lambda t: type(t) is tuple and t[:1] == ("call",) and short(t[1]) == "find" and ism(t[2]) and istag(t[3])
    cx.rule("G1", "a known tag keeps its handle and adds nothing")
    cx.rule("G2", "a new tag gets exactly one fresh accumulator and maps to its position")
    for n, m, h in ((7, 2, 3), (1, 1, 0), (400, 390, 399), (0, 0, None)):
        tags(cx, p, gh, tag, W, isv, ism, istag, lookup, n, m, h)
    cx.rule("G7", "no accumulator that was handed out is removed or moved, whatever is called")
    k = 0
    for f in [f for f in p.repo_fns() if f.n.startswith(NS) and f.blocks and f is not gh]:
        e, g = run(cx, p, f, noinline=(GH,))
        for v in e.events.values():
            if v.kind in ("mut", "write") and v.loc is not None and isv(v.loc) and not v.ctx:
                k += 1
                cx.bad("G7", f.n, v.where(), "the accumulators are changed by %s" % (short(v.name) if v.name else "an assignment"), key="G7 " + f.n)
        cx.ok("G7", f.full)
    cx.rule("G3", "each query returns the statistic it names, of the accumulator with that handle")
    getters = {"GetTotalSeconds": "Sum", "GetMeanSeconds": "Mean", "GetNumSamples": "TotalSamples", "GetVarianceSeconds": "LazyVariance",
               "GetMinSeconds": "Min", "GetMaxSeconds": "Max"}
    bodies = {}
    for q, a in list(getters.items()) + [("GetHz", None)]:
        fs = p.named(NS + "Timing::" + q)
        cx.need(len(fs) == 2, "overloads of " + q)
        byh = [f for f in fs if "string" not in p.type(f.params[0]["t"])][0]
        byt = [f for f in fs if f is not byh][0]
        e, g = run(cx, p, byh, noinline=(NS + "Accumulator::LazyVariance",))
        h = ("root", byh.params[0]["n"])
        accs = {v.obj for v in e.events.values() if v.kind == "call" and "Accumulator::" in v.name}
        cx.expect(len(accs) == 1 and index_of(next(iter(accs))) == h, "G3", q + " accumulator", byh.where(), "%s does not read the accumulator of its handle" % q)
        if len(accs) == 1:
            base = next(iter(accs))
            if a == "LazyVariance":
                okv = ret(e) == ("call", NS + "Accumulator::LazyVariance", base) or (ret(e)[0] == "call" and ret(e)[1].endswith("LazyVariance"))
            elif a:
                ea, _ = run(cx, p, NS + "Accumulator::" + a)
                okv = same(norm(ret(e)), subst(ret(ea), {THIS: base}))
            else:
                ea, _ = run(cx, p, NS + "Accumulator::RollingMean")
                okv = same(ret(e), ("op", "/", ("c", 1), subst(ret(ea), {THIS: base})))
            cx.expect(okv, "G3", q, byh.where(), "%s returns %s" % (q, show(ret(e))[:200]))
        et, _ = run(cx, p, byt, noinline=(GH, NS + "Accumulator::LazyVariance"))
        t = ("root", byt.params[0]["n"])
        hh = [("call", GH, x) for x in (t, ("deref", t))]
        okt = any(same(ret(et), subst(ret(e), {h: x})) for x in hh)
        cx.expect(okt, "G3", q + " by tag", byt.where(), "%s of a tag is not %s of the tag's handle: %s" % (q, q, show(ret(et))[:200]))
    cx.rule("G4", "samples are added to the accumulator of the given handle, unchanged")
    at = p.one(NS + "Timing::AddTime")
    e, g = run(cx, p, at)
    adds = [v for v in e.events.values() if ADD(v)]
    cx.expect(len(adds) == 1 and index_of(adds[0].obj) == ("root", at.params[0]["n"]) and adds[0].args[0] == ("root", at.params[1]["n"]), "G4", "AddTime", at.where(),
              "AddTime does not add the given duration to the accumulator of the given handle")
    if adds:
        cx.nopath(g.path(g.entry, "exit", avoid=ADD, include_start=True), "G4", "AddTime every path", at.where(), "AddTime may drop the duration")
    cx.rule("G5", "a handle's tag is the tag mapped to exactly that handle, or empty")
    gt = p.one(NS + "Timing::GetTag")
    e, g = run(cx, p, gt)
    h = ("root", gt.params[0]["n"])
    n = 0
    for v in e.events.values():
        if v.kind == "ret" and not v.ctx:
            n += 1
            t = v.val
            if t[0] == "fld" and t[2] == "first":
                eq = any(pol and f[0] == "op" and f[1] == "==" and ("fld", t[1], "second") in f[2:] and h in f[2:] for f, pol in v.facts)
                cx.expect(eq, "G5", "matched tag", v.where(), "GetTag returns a tag whose handle was not compared equal")
            else:
                cx.expect(t[0] == "default" or t[0] == "ctor" and len(t) == 2 or t == ("str", "") or t[0] == "uninit" or (t[0] == "phi"), "G5", "no tag", v.where(), "GetTag returns %s for an unknown handle" % show(t))
    cx.need(n >= 1, "returns of GetTag")
    cx.rule("G6", "a formatted duration never exceeds its buffer")
    st = p.one(NS + "Timing::SecondsToTimeString")
    e, g = run(cx, p, st)
    w = [v for v in e.events.values() if v.kind == "call" and short(v.name) in ("snprintf", "sprintf", "strcpy", "strcat", "vsprintf")]
    for v in w:
        if short(v.name) != "snprintf":
            cx.bad("G6", short(v.name), v.where(), "unbounded write into a fixed buffer")
            continue
        buf = v.node["c"][0]
        bt = ""
        for i in range(4):
            nd = v.fn.nodes[buf]
            bt = p.type(nd.get("t"))
            if "[" in bt:
                break
            buf = nd["c"][0] if nd.get("c") else buf
        sz = int(bt.split("[")[1].rstrip("]")) if "[" in bt else None
        cx.expect(sz is not None and _num(v.args[1]) and v.args[1][1] <= sz, "G6", "snprintf", v.where(), "size argument %s, buffer %s" % (show(v.args[1]), bt))


def tags(cx, p, gh, tag, W, isv, ism, istag, lookup, n, m, h):
    """GetHandle with n accumulators, m tags in the map, and the tag asked for mapped to h or to none"""
    def leaf(known, after):
        def l(t):
            if type(t) is not tuple or not t:
                return None
            if t[0] == "op" and t[1] in ("==", "!=") and any(lookup(x) for x in t[2:]) and any(type(x) is tuple and x[:1] == ("call",) and short(x[1]) in ("end", "cend") for x in t[2:]):
                return (not known) == (t[1] == "==")
            if t[0] == "call" and short(t[1]) in ("count", "contains") and len(t) > 3 and ism(t[2]) and istag(t[3]):
                return bool(known)
            if t[0] == "call" and short(t[1]) in ("size", "length") and len(t) == 3:
                return n + after if isv(t[2]) else m if ism(t[2]) else None
            if known and (t[0] == "fld" and t[2] == "second" and lookup(t[1]) or t[0] == "elem" and ism(t[1]) and t[2][:2] == ("acc", "at") and istag(t[2][2]) or t[0] == "call" and short(t[1]) == "at" and ism(t[2]) and istag(t[3])):
                return h
            return None
        return l

    def case(known):
        return settle(lambda fa: run(cx, p, gh, facts=fa), leaf(known, 0), rounds=5)
    inreg = lambda v: v.loc is not None and any(isv(s) or ism(s) for s in subterms(v.loc))
    if h is not None:
        e, g, fa = case(True)
        mut = lambda v: v.kind in ("mut", "write") and inreg(v) and not (v.kind == "mut" and short(v.name) == "operator[]" and v.args and istag(v.args[-1]))
        cx.nopath(g.path(g.entry, mut, include_start=True), "G1", "known tag", W, "looking up a known tag changes the registry", key="G1 changes")
        x = evalnum(ret(e), leaf(True, 0))
        if x is None and not open_(ret(e), isv, ism):
            cx.undecided("G1", "handle of a known tag", W, show(ret(e))[:100])
        else:
            cx.expect(x == h, "G1", "handle of a known tag", W, "a known tag yields %s" % show(ret(e))[:100], key="G1 handle")
    e, g, fa = case(False)
    grow = [v for v in e.events.values() if v.kind == "mut" and v.loc is not None and isv(v.loc) and short(v.name) not in ("reserve", "shrink_to_fit")]
    isgrow = lambda v: v in grow
    cx.expect(bool(grow), "G2", "one accumulator", W, "a new tag adds no accumulator", key="G2 none")
    for v in grow:
        nm, arg = short(v.name), list(v.args or ())
        one = nm in ("push_back", "emplace_back") or nm == "resize" and evalnum(arg[0], leaf(False, 0)) == n + 1 or \
            nm in ("insert", "emplace") and type(arg[0]) is tuple and arg[0][:1] == ("call",) and short(arg[0][1]) in ("end", "cend") and isv(arg[0][2])
        cx.expect(one, "G2", "appended", v.where(), "the accumulators are changed by %s" % nm, key="G2 appended")
        cx.expect(not any(isv(s) for a in arg[0 if "back" in nm else 1:] for s in subterms(a)), "G2", "fresh", v.where(), "the new accumulator is a copy of another", key="G2 fresh")
        cx.nopath(g.path(g.point(v), isgrow), "G2", "once", v.where(), "a new tag may get several accumulators", key="G2 once")
    if grow:
        cx.nopath(g.path(g.entry, "exit", avoid=isgrow, include_start=True), "G2", "on every path", W, "a new tag may get no accumulator", key="G2 path")
        sz = [v for v in e.events.values() if v.kind == "call" and short(v.name) == "size" and v.obj is not None and isv(v.obj)]
        late = [v for v in sz if any(g.path(g.point(w), lambda x, v=v: x is v) is not None for w in grow)]
        if late and len(late) != len(sz):
            cx.undecided("G2", "position", W, "the number of accumulators is read before and after one is added")
            return
        l = leaf(False, 1 if late else 0)
        reg = [(v, v.val) for v in e.events.values() if v.kind == "write" and v.loc is not None and v.loc[:1] == ("elem",) and ism(v.loc[1])]
        reg += [(v, a) for v in e.events.values() if v.kind == "mut" and v.loc is not None and ism(v.loc) and short(v.name) in ("insert", "emplace", "insert_or_assign", "try_emplace") for a in [last(v.args)]]
        cx.expect(bool(reg), "G2", "mapped", W, "a new tag is not mapped to a handle", key="G2 mapped")
        if reg:
            cx.nopath(g.path(g.entry, "exit", avoid=lambda v: any(v is w for w, _ in reg), include_start=True), "G2", "mapped on every path", W, "a new tag may get no handle", key="G2 mapped")
        for v, val in reg + [(None, ret(e))]:
            x = evalnum(val, l)
            what = "position" if v is not None else "handle of a new tag"
            if x is None:
                cx.undecided("G2", what, W, show(val)[:100])
            else:
                cx.expect(x == n, "G2", what, v.where() if v is not None else W, "a new tag is mapped to %s of %d accumulators so far" % (show(val)[:60], n) if v is not None else "a new tag yields %s" % show(val)[:100], key="G2 " + what)
            if v is not None and v.loc[:1] == ("elem",):
                cx.expect(istag(v.loc[2][2]), "G2", "mapped tag", v.where(), "another tag is mapped", key="G2 tag")
        other = [v for v in e.events.values() if v.kind in ("mut", "write") and inreg(v) and not isgrow(v) and not any(v is w for w, _ in reg)]
        cx.expect(not [v for v in other if short(v.name or "") not in ("reserve",)], "G2", "others untouched", other[0].where() if other else W, "a new tag changes other entries of the registry", key="G2 others")


def norm(t):
    return t


def last(args):
    """the mapped value of what is inserted into a map"""
    t = list(args or [None])[-1]
    while type(t) is tuple and t[:1] == ("call",) and (short(t[1]) in ("make_pair", "pair") or "pair" in t[1]) and len(t) >= 4:
        t = t[3]
    return t


def open_(t, isv, ism):
    """does the term only speak of the registry and constants"""
    return any(isv(s) or ism(s) for s in subterms(t)) or _num(t)
