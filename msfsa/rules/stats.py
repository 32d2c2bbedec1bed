"""C23 - what an accumulator reports, followed from construction through sequences of samples.

Each call is one run of the analysis with the members' values settled; the values it leaves are carried to the next."""
import math
import re
from ..q import *
from ..q import _num
from .flow import settle, evalnum, numcase, f32

NS = "msf_timing::"
LIM = {"max": 1.7976931348623157e308, "lowest": -1.7976931348623157e308, "min": 2.2250738585072014e-308, "infinity": math.inf, "epsilon": 2.220446049250313e-16}
GET = ("TotalSamples", "Sum", "Mean", "RollingMean", "Max", "Min", "LazyVariance")


class Cannot(Exception):
    pass


class Acc:
    """an accumulator whose members have known values"""

    def __init__(self, cx, p, fns, rec):
        self.cx, self.p, self.fns = cx, p, fns
        self.scal, self.arrs = {}, {}
        self.types = {f["n"]: p.type(f["t"]) for f in rec["fields"]}
        for n, t in self.types.items():
            m = re.search(r"\[(\d+)\]$", t) or re.search(r"array<[^,]*, (\d+)", t)
            if m:
                self.arrs[n] = [int(m.group(1)), {}]
        self.outside = self.empty = None

    def value(self, t):
        """its number; reading a slot nothing was stored in counts as reading outside"""
        self.empty = None
        x = evalnum(t, self.leaf)
        if x is None and self.empty:
            self.outside = self.empty
        return x

    def leaf(self, t):
        if type(t) is not tuple or not t:
            return None
        if t[0] == "c" and t[1] in ("inf", "-inf"):
            return float(t[1])
        if t[0] == "fld" and t[1] == THIS and len(t) == 3:
            return self.scal.get(t[2])
        if t[0] == "call" and len(t) == 2 and "numeric_limits" in t[1] and short(t[1]) in LIM:
            return LIM[short(t[1])]
        if t[0] == "elem" and len(t) == 3 and type(t[2]) is tuple and t[2][0] == "acc" and len(t[2]) == 3:
            i = evalnum(t[2][2], self.leaf)
            if i is None:
                return None
            return self.slot(t[1], i)
        return None

    def slot(self, base, i):
        while type(base) is tuple and base[:1] == ("upd",):
            j = evalnum(base[2][2], self.leaf)
            if j is None:
                return None
            if j == i:
                return evalnum(base[3], self.leaf)
            base = base[1]
        if base[:2] == ("fld", THIS) and base[2] in self.arrs:
            n, vals = self.arrs[base[2]]
            if not 0 <= i < n:
                self.outside = (base[2], i)
                return None
            if i not in vals:
                self.empty = (base[2], i)
            return vals.get(i)
        return None

    def run(self, name, args=()):
        fn = self.fns[name]
        env = {fld(k): ("c", v) for k, v in self.scal.items()}
        e, g, fa = settle(lambda fa: self.cx.run(self.p, fn, facts=fa, env=env, args=[("c", a) for a in args] or None, unroll=True, maxsize=100000), self.leaf, rounds=6)
        self.outside = None
        where = fn.where()
        # every access to an array, with the numbers known
        for v in e.events.values():
            for t in [v.loc, v.val] + list(v.args or ()):
                if t is None or type(t) is not tuple:
                    continue
                for s in subterms(t):
                    if s[:1] == ("elem",) and len(s) == 3:
                        self.leaf(s)
                        if self.outside:
                            return e, v.where()
        if e.ret is not None and type(e.ret) is tuple:
            for s in subterms(e.ret):
                if s[:1] == ("elem",) and len(s) == 3:
                    self.leaf(s)
                    if self.outside:
                        return e, where
        return e, None

    def call(self, name, args=()):
        """run it, carry over what it leaves; where an array is left, or None"""
        e, out = self.run(name, args)
        if out:
            return e, out
        if e.final is None:
            raise Cannot("%s does not return" % name)
        new = {}
        for n, t in self.types.items():
            if n in self.arrs:
                continue
            v = exitval(e, fld(n))
            if v == fld(n) and n not in self.scal:
                continue
            x = self.value(v)
            if x is None and self.outside:
                return e, self.fns[name].where()
            if x is None:
                raise Cannot("%s becomes %s" % (n, show(v)[:60]))
            if t == "float":
                x = f32(x)
            elif re.fullmatch(r"(unsigned )?(int|long|short)|std::size_t|size_t", t):
                x = int(x)
            new[n] = x
        arr = {}
        for n, (size, vals) in self.arrs.items():
            v = e.final.env.get(fld(n), fld(n))
            ups = []
            while type(v) is tuple and v[:1] == ("upd",):
                ups.append(v)
                v = v[1]
            if v != fld(n):
                if v is not None and type(v) is tuple and v[:1] in (("c",), ("default",)) or name == "(ctor)":
                    arr[n] = {} if not (type(v) is tuple and v[:1] == ("default",)) else {i: 0 for i in range(size)}
                else:
                    raise Cannot("%s becomes %s" % (n, show(v)[:60]))
            else:
                arr[n] = dict(vals)
            for u in reversed(ups):
                i, x = evalnum(u[2][2], self.leaf), evalnum(u[3], self.leaf)
                if i is None or x is None:
                    raise Cannot("%s becomes %s" % (n, show(u)[:60]))
                if not 0 <= i < size:
                    self.outside = (n, i)
                    return e, self.fns[name].where()
                arr[n][int(i)] = x
        self.scal.update(new)
        for n, a in arr.items():
            self.arrs[n][1] = a
        return e, None

    def get(self, name):
        e, out = self.run(name)
        if out:
            return None, out
        x = self.value(e.ret) if e.ret is not None else None
        if x is None and self.outside:
            return None, self.fns[name].where()
        if x is None:
            raise Cannot("%s is %s" % (name, show(e.ret)[:80]))
        return x, None


def want(seq, N):
    w = seq[-N:]
    n = len(seq)
    m = math.fsum(w) / len(w) if w else None
    out = {"TotalSamples": n, "Sum": math.fsum(seq)}
    if n:
        out.update({"Mean": math.fsum(seq) / n, "Max": max(seq), "Min": min(seq), "RollingMean": m})
    out["LazyVariance"] = math.fsum((x - m) ** 2 for x in w) / len(w) if w else 0.0
    return out


def sequences(N, thorough):
    a = [((i * 37) % 101 - 50) * 0.125 for i in range(2 * N + 7 if not thorough else 5 * N + 3)]
    return [("mixed samples", a, {0, 1, 2, 3, N - 1, N, N + 1, N + 2, 2 * N - 1, 2 * N, 2 * N + 1, len(a)}),
            ("growing samples", [0.5 + 0.25 * i for i in range(N + 4)], {1, 2, N, N + 1, N + 4}),
            ("falling samples", [-1.0 - 0.25 * i for i in range(N + 4)], {1, 2, N, N + 1, N + 4}),
            ("large samples", [1e9, 3e9, 2e9], {1, 2, 3}), ("very negative samples", [-2e9, -3e9, -1e9], {1, 2, 3}),
            ("tiny samples", [-1e-9, -3e-9, 2e-9], {1, 2, 3}), ("equal samples", [0.1, 0.1, 0.1], {1, 2, 3}), ("zeros", [0.0, 0.0], {1, 2}), ("zero after a larger one", [4.0, 0.0, -4.0], {1, 2, 3})]


def instances(cx, p):
    out = {}
    for f in p.repo_fns():
        if f.n.startswith(NS + "Accumulator::") and f.blocks and not (f.imp and short(f.n) == "(ctor)" and f.params):
            out.setdefault(f.full.rsplit("::", 1)[0], {})[short(f.n)] = f
    cx.need(out, "the accumulator")
    return out


def simulate(cx, p):
    cx.rule("S1", "after any of the sequences of samples the accumulator reports their count, sum, mean, least and largest, and the mean and variance of the last ones")
    cx.rule("S5", "every access to the sample window stays inside it and reads samples that were stored")
    rec = [r for r in p.records if r["n"] == NS + "Accumulator"]
    cx.need(rec, "Accumulator record")
    n = 0
    for inst, fns in sorted(instances(cx, p).items()):
        m = re.search(r"(\d+)>$", inst)
        cx.need(m and "(ctor)" in fns and "Add" in fns and all(x in fns for x in GET), "the members of " + inst)
        N = int(m.group(1))
        for nm, seq, at in sequences(N, cx.tier == "thorough"):
            try:
                follow(cx, p, fns, rec[0], N, nm, seq, at)
            except Cannot as x:
                cx.undecided("S1", nm, fns["Add"].where(), str(x))
            n += 1
    cx.need(n >= 9, "sequences of samples")


def follow(cx, p, fns, rec, N, nm, seq, at):
    a = Acc(cx, p, fns, rec)
    e, out = a.call("(ctor)")
    scale = max(map(abs, seq))
    for k in range(len(seq) + 1):
        if k:
            e, out = a.call("Add", (seq[k - 1],))
            if not cx.expect(out is None, "S5", "%s, sample %d" % (nm, k), out or "", "%s[%s] of %s is touched where no sample is" % ((a.outside or ("", ""))[0], (a.outside or ("", ""))[1], k), key="S5 Add"):
                return
        if k not in at:
            continue
        for q, w in want(seq[:k], N).items():
            x, out = a.get(q)
            inst = "%s, %s after %d" % (nm, q, k)
            if not cx.expect(out is None, "S5", inst, out or "", "%s[%s] is read where no sample is" % (a.outside or ("", "")), key="S5 " + q):
                continue
            tol = 1e-11 * max(1, k) * (scale * scale if q == "LazyVariance" else scale) + (1e-300 if scale else 0)
            cx.expect(abs(x - w) <= tol, "S1", inst, fns[q].where(), "%s is %.12g where %.12g was expected" % (q, x, w), key="S1 " + q)
