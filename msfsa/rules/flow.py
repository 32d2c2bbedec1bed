"""Loops seen through reaching definitions: where an iterator starts, how it steps,
and on which conditions a loop is left."""
import math
from ..q import *


def defs(e, g, use, loc):
    """definitions of the variable that reach the event with no other definition between"""
    ws = [v for v in e.events.values() if v.kind in ("write", "decl") and v.loc == loc]
    isw = lambda x: x in ws
    return [w for w in ws if g.path(g.point(w), lambda x: x is use, avoid=lambda x: x is not w and isw(x)) is not None
            or w is use]


def loopvars(t):
    """loop-carried variables a term depends on"""
    return {x[2] for x in subterms(t) if x and x[0] == "loop" and len(x) == 3}


def posof(t):
    """(base, offset) of an iterator term"""
    off = 0
    while type(t) is tuple and len(t) == 4 and t[0] == "op" and t[1] in ("+", "-") and num(t[3]):
        off += t[3][1] if t[1] == "+" else -t[3][1]
        t = t[2]
    return t, off


def step(w):
    """+1 / -1 if the write steps its variable by one, else None"""
    if w.kind != "write":
        return None
    if w.op in ("++", "post++"):
        return 1
    if w.op in ("--", "post--"):
        return -1
    if w.val is not None and w.old is not None:
        (a, i), (b, j) = posof(w.val), posof(w.old)
        if a == b and abs(i - j) == 1:
            return i - j
    return None


def isvar(t):
    return type(t) is tuple and t and t[0] == "loop"


class Induction:
    """start values and steps of the iterator behind a term at an event"""

    def __init__(self, e, g, use, term, cyc=False):
        self.e, self.g, self.use, self.term = e, g, use, term
        self.base, self.off = posof(term)
        self.loc = self.base[2] if isvar(self.base) else None
        self.starts, self.steps, self.copies = [], [], []
        if self.loc is not None:
            seen, todo = set(), [use]
            while todo:
                u = todo.pop()
                for w in defs(e, g, u, self.loc):
                    if w.id in seen:
                        continue
                    seen.add(w.id)
                    s = step(w)
                    if s is not None and any(isvar(posof(b)[0]) and posof(b)[0][2] == self.loc for b in alts(w.val)) and (g.reaches(use, lambda x: x is w) or cyc and g.reaches(w, lambda x: x is w)):
                        self.steps.append(w)
                        todo.append(w)
                    else:
                        self.starts.append(w)

    def startvals(self):
        if self.loc is None:
            return [self.term]
        return [a for w in self.starts for a in alts(w.val)]


def adjacent(e, g, use, a, b):
    """is iterator term b always the position right after a at the event? (None or the reason why not)"""
    (ba, oa), (bb, ob) = posof(a), posof(b)
    if ba == bb:
        return None if ob - oa == 1 else "the second position is %+d of the first" % (ob - oa)
    A, B = Induction(e, g, use, a), Induction(e, g, use, b)
    if A.loc is None or B.loc is None:
        return "the positions %s and %s are not related" % (show(a)[:60], show(b)[:60])
    # a follows b by assignment (prev = it), b steps
    sa, sb = A.starts, B.starts
    foll = [w for w in sa if posof(w.val)[0] == bb or isvar(posof(w.val)[0]) and posof(w.val)[0][2] == B.loc]
    if foll and not A.steps:
        for w in foll:
            if posof(w.val)[1] + oa - ob + 1 != 0 and g.path(g.point(w), lambda x: x is use, avoid=lambda x: x in B.steps) is not None:
                return "the first position is not re-set to the one before the second"
        sa = [w for w in sa if w not in foll]
    else:
        for w in A.steps + B.steps:
            if step(w) != 1:
                return "a position is stepped backwards at %s" % w.where()
        for X, Y in ((A, B), (B, A)):
            inX, inY = (lambda x, X=X: x in X.steps), (lambda x, Y=Y: x in Y.steps)
            for w in X.steps:
                p = g.path(g.point(w), inX, avoid=lambda x: inY(x) or x in X.starts or x in Y.starts)
                if p is not None:
                    return "one position is stepped twice while the other is not"
            # between the start of both and the use, both have stepped equally often
        for w in A.steps:
            p = g.path(g.point(w), lambda x: x is use, avoid=lambda x: x in B.steps or x in A.starts)
            q = [v for v in B.steps if g.path(g.point(v), lambda x: x is w, avoid=lambda x: x is use or x in B.starts)]
            if p is not None and not q:
                return "the first position is stepped without the second"
        for w in B.steps:
            p = g.path(g.point(w), lambda x: x is use, avoid=lambda x: x in A.steps or x in B.starts)
            q = [v for v in A.steps if g.path(g.point(v), lambda x: x is w, avoid=lambda x: x is use or x in A.starts)]
            if p is not None and not q:
                return "the second position is stepped without the first"
    va = {posof(x) for w in sa for x in alts(w.val)}
    vb = {posof(x) for w in sb for x in alts(w.val)}
    for x, i in va:
        if not any(x == y and j + ob - (i + oa) == 1 for y, j in vb):
            return "the second position does not start right after the first (%s / %s)" % (show(x)[:50], [show(y)[:50] + "%+d" % j for y, j in vb])
    for y, j in vb:
        if not any(x == y and j + ob - (i + oa) == 1 for x, i in va):
            return "the second position does not start right after the first (%s / %s)" % ([show(y)[:50] + "%+d" % j for y, j in va], show(y)[:50])
    return None


def eqfact(f, a, b):
    return type(f) is tuple and len(f) == 4 and f[0] == "op" and f[1] == "==" and (f[2:] == (a, b) or f[2:] == (b, a))


def atoms(facts):
    """atomic conditions with polarity known on an edge"""
    return facts


ROUNDINGS = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round, "nearbyint": round, "lrint": round, "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1),
             "lround": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)}


def evalnum(t, leaf):
    """numeric value of a scalar term, or None; leaf(term) -> number or None"""
    v = leaf(t)
    if v is not None:
        return v
    if num(t):
        return t[1]
    if type(t) is not tuple or not t:
        return None
    if t[0] == "cast" and len(t) == 3 and t[1] == "f32":
        a = evalnum(t[2], leaf)
        return None if a is None else f32(a)
    if t[0] == "cast" and len(t) == 3 and t[1] != "f2i":
        return evalnum(t[2], leaf)
    if t[0] == "op" and t[1] in ("+", "-", "*", "/") and len(t) == 4:
        a, b = evalnum(t[2], leaf), evalnum(t[3], leaf)
        if a is None or b is None or t[1] == "/" and b == 0:
            return None
        return a + b if t[1] == "+" else a - b if t[1] == "-" else a * b if t[1] == "*" else a / b
    if t[0] == "op" and t[1] == "neg":
        a = evalnum(t[2], leaf)
        return None if a is None else -a
    if t[0] == "op" and t[1] == "%" and len(t) == 4:
        a, b = evalnum(t[2], leaf), evalnum(t[3], leaf)
        return None if a is None or not b or a < 0 or b < 0 else a % b
    if t[0] == "op" and t[1] in ("&", "|") and len(t) == 4:
        a, b = evalnum(t[2], leaf), evalnum(t[3], leaf)
        if a is None or b is None or a != int(a) or b != int(b):
            return None
        return int(a) & int(b) if t[1] == "&" else int(a) | int(b)
    if t[0] == "call" and short(t[1]) in ("fabs", "abs") and len(t) == 3:
        a = evalnum(t[2], leaf)
        return None if a is None else abs(a)
    if t[0] == "call" and short(t[1]) in ROUNDINGS and len(t) == 3 and isinstance(t[1], str):
        a = evalnum(t[2], leaf)
        return None if a is None or a != a or abs(a) == float("inf") else float(ROUNDINGS[short(t[1])](a))
    if t[0] == "call" and short(t[1]) in ("sqrt", "sqrtf") and len(t) == 3:
        a = evalnum(t[2], leaf)
        return None if a is None or a < 0 else math.sqrt(a)
    if t[0] == "call" and short(t[1]) in ("pow", "hypot") and len(t) == 4:
        a, b = evalnum(t[2], leaf), evalnum(t[3], leaf)
        return None if a is None or b is None or a < 0 else (a ** b if short(t[1]) == "pow" else math.hypot(a, b))
    if t[0] == "call" and short(t[1]) in ("min", "max", "fmin", "fmax") and len(t) == 4:
        a, b = evalnum(t[2], leaf), evalnum(t[3], leaf)
        if a is None or b is None:
            return None
        return min(a, b) if "min" in short(t[1]) else max(a, b)
    if t[0] == "phi":
        vs = {evalnum(x, leaf) for x in t[1]}
        return vs.pop() if len(vs) == 1 else None
    return None


CMP = {"<": lambda a, b: a < b, "==": lambda a, b: a == b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "!=": lambda a, b: a != b}


def truth(t, leaf, facts=frozenset()):
    """truth value of a condition under a valuation of its leaves and known facts, or None"""
    if (t, True) in facts or (t, False) in facts:
        return (t, True) in facts
    if type(t) is tuple and t[:1] == ("op",) and len(t) == 4 and t[1] in ("||", "&&"):
        a, b = truth(t[2], leaf, facts), truth(t[3], leaf, facts)
        stop = t[1] == "||"
        return stop if stop in (a, b) else None if None in (a, b) else not stop
    if type(t) is tuple and t[:1] == ("op",) and len(t) == 4 and t[1] in CMP:
        a, b = evalnum(t[2], leaf), evalnum(t[3], leaf)
        return None if a is None or b is None else CMP[t[1]](a, b)
    if type(t) is tuple and t[:1] == ("phi",):
        vs = {truth(x, leaf, facts) for x in t[1]}
        return vs.pop() if len(vs) == 1 else None
    if type(t) is tuple and t[:2] in (("op", "!"), ("op", "not")):
        a = truth(t[2], leaf, facts)
        return None if a is None else not a
    a = evalnum(t, leaf)
    return None if a is None else bool(a)


def numcase(e, leaf):
    """facts giving every comparison the run branches on its truth value under a valuation of the
    leaves (comparisons of anything else stay open)"""
    from .c02 import conditions
    out = set()
    for c, _ in conditions(e):
        b = leaf(c)
        if isinstance(b, bool):     # a predicate the valuation knows
            out.add((c, b))
            continue
        if isinstance(b, (int, float)) and not num(c):      # a number tested for zero
            out |= implied(c, b != 0)
        if type(c) is tuple and c[:1] == ("op",) and c[1] in ("%", "&"):       # a remainder or a bit tested for zero
            a = evalnum(c, leaf)
            if a is not None:
                out |= implied(c, a != 0)
        for t in subterms(c):
            if t and t[0] == "op" and len(t) == 4 and t[1] in CMP:
                a, b = evalnum(t[2], leaf), evalnum(t[3], leaf)
                if a is not None and b is not None and not (num(t[2]) and num(t[3])):
                    out |= implied(t, CMP[t[1]](a, b))
    return frozenset(out)


def settle(run, leaf, base=frozenset(), rounds=4):
    """re-run with the facts of a valuation until no new comparison appears"""
    facts = frozenset(base)
    e, g = run(facts)
    for _ in range(rounds):
        new = facts | numcase(e, leaf)
        if new == facts:
            break
        facts = new
        e, g = run(facts)
    return e, g, facts


def looprange(e, g, w, term, bound=None):
    """[lo, hi) of an integer counter at an event inside its loop: it starts at a constant, goes up by
    one, every value takes the event (no step without it), and the loop is left by its guard only.
    (lo, hi, None) or (None, None, reason)"""
    I = Induction(e, g, w, term, cyc=True)
    if I.loc is None:
        return None, None, "not a counter"
    st = {a for a in I.startvals()}
    d = {step(x) for x in I.steps}
    if d != {1} or len(st) != 1 or not num(next(iter(st))):
        return None, None, "the counter starts at %s and steps by %s" % ([show(x) for x in st], d)
    lo = int(next(iter(st))[1])
    hi = None
    for f, pol in w.facts:
        if type(f) is tuple and len(f) == 4 and f[0] == "op" and f[1] in ("<", "==") and term_counter(f, I) is not None:
            k, n = term_counter(f, I), f
            if f[1] == "<" and pol and k[0] == "l":
                hi = int(k[1]) - k[2]
            elif f[1] == "<" and not pol and k[0] == "r":       # !(n < i)
                hi = int(k[1]) + 1 - k[2]
            elif f[1] == "==" and not pol:
                hi = int(k[1]) - k[2]
            else:
                continue
            grd = (f, pol)
            break
    if hi is None:
        return None, None, "no bound of the counter is known"
    isw = lambda x: x is w
    for s in I.steps:
        if g.path(g.point(s), lambda x: x in I.steps, avoid=isw) is not None:
            return None, None, "values of the counter are skipped"
    for s in I.starts:
        if g.path(g.point(s), lambda x: x in I.steps, avoid=isw) is not None:
            return None, None, "the first value of the counter is skipped"
    leave = lambda fs: (grd[0], not grd[1]) in fs
    if g.path(g.point(w), "exit", avoid_edge=leave) is not None:
        return None, None, "the loop can be left early"
    for s in I.starts:
        if g.path(g.point(s), "exit", avoid=isw, avoid_edge=leave) is not None:
            return None, None, "the loop can be left before it starts"
    o = I.off
    return lo + o, hi + o, None


def term_counter(f, I):
    """('l' | 'r', constant, offset) when one side of the comparison is the counter and the other a constant"""
    for s, a, b in (("l", f[2], f[3]), ("r", f[3], f[2])):
        base, o = posof(a)
        if base == I.base and num(b):
            return s, b[1], o
    return None
