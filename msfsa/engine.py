"""Abstract interpretation of one entry point over the resolved program.

Domain: symbolic value numbers (terms) for locals, members and matrix/array
elements; branch facts (condition terms known to hold).  Calls to functions of
the repository are analysed in the caller's context (virtual calls: every
override; functors handed to boost::fusion::for_each: every instance), loops
are iterated to a fixpoint with loop-varying values widened to opaque terms.
No path is enumerated and no constraint is solved: at a join unequal values
become a set of alternatives and only common facts survive.

The result is a list of events (calls, writes, returns, branches), each with
the terms involved and the facts holding there, and a graph of their order."""
import re
import struct
from .ir import Fn

MAXPHI = 6
MAXSIZE = 900

TRANSPARENT_PTR = ("shared_ptr", "scoped_ptr", "unique_ptr", "__shared_ptr_access", "__shared_ptr", "intrusive_ptr", "weak_ptr")
REFACC = {"topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "topRows", "bottomRows", "middleRows", "leftCols", "rightCols", "middleCols", "block", "row", "col", "head", "tail", "segment", "operator()", "operator[]", "at", "diagonal",
          "topLeftCorner", "topRightCorner", "bottomRightCorner", "bottomLeftCorner", "x", "y", "z", "w", "coeffRef",
          "coeff", "vec", "coeffs", "topRows", "bottomRows", "leftCols", "rightCols", "front", "back", "data"}
IDENT = {"noalias", "array", "matrix", "eval", "derived", "const_cast_derived", "move", "forward", "get", "c_str_", "selfadjointView_", "nestedExpression"}
MATPROJ = {"topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "topRows", "bottomRows", "middleRows", "leftCols", "rightCols", "middleCols", "block", "row", "col", "diagonal", "head", "tail", "segment"}


_size = {}      # id(term) -> (term, number of nodes); the term is kept so that its id stays its own


def size(t, lim=MAXSIZE):
    if type(t) is not tuple and type(t) is not frozenset:
        return 1
    if len(_size) > 1000000:
        _size.clear()
    st = [t]
    while st:
        x = st[-1]
        if id(x) in _size:
            st.pop()
            continue
        n, todo = 1, []
        for y in x:
            if type(y) is tuple or type(y) is frozenset:
                k = _size.get(id(y))
                if k is None:
                    todo.append(y)
                else:
                    n += k[1]
            else:
                n += 1
        if todo:
            st.extend(todo)
        else:
            _size[id(x)] = (x, n)
            st.pop()
    return _size[id(t)][1]


_contains = {}      # sub -> {id(term): (term, answer)}


def contains(t, sub):
    if t is sub:
        return True
    if type(t) is not tuple and type(t) is not frozenset:
        return t == sub
    m = _contains.get(sub)
    if m is None:
        if len(_contains) > 20000:
            _contains.clear()
        m = _contains[sub] = {}
    elif len(m) > 200000:
        m.clear()
    return _within(t, sub, m)


def _within(t, sub, m):
    k = m.get(id(t))
    if k is not None:
        return k[1]
    r = t == sub
    if not r:
        for x in t:
            if type(x) is tuple or type(x) is frozenset:
                if _within(x, sub, m):
                    r = True
                    break
    m[id(t)] = (t, r)
    return r


_queried = {}       # id(term) -> (term, objects its calls are made on)


def queried(t):
    k = _queried.get(id(t))
    if k is None:
        if len(_queried) > 200000:
            _queried.clear()
        k = _queried[id(t)] = (t, frozenset(x[2] for x in subterms(t) if x[0] == "call" and len(x) > 2))
    return k[1]


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if type(x) is tuple:
            if x:
                yield x
            st.extend(x)
        elif type(x) is frozenset:
            st.extend(x)


def phi(ts):
    out = set()
    for t in ts:
        if type(t) is tuple and t and t[0] == "phi":
            out |= t[1]
        else:
            out.add(t)
    if len(out) == 1:
        return next(iter(out))
    if len(out) > MAXPHI:
        return ("mix", hash(frozenset(out)) & 0xffffffff)
    return ("phi", frozenset(out))


def alts(t):
    if type(t) is tuple and t:
        if t[0] == "phi":
            if any(type(x) is tuple and x and x[0] in ("condv", "phi") for x in t[1]):
                return frozenset().union(*[alts(x) for x in t[1]])
            return t[1]
        if t[0] == "condv" and len(t) == 4:
            return alts(t[2]) | alts(t[3])
    return frozenset([t])


def show(t, d=0):
    if type(t) is not tuple:
        return str(t) if not isinstance(t, frozenset) else "{" + ", ".join(sorted(show(x) for x in t)) + "}"
    if not t:
        return "()"
    k = t[0]
    if d > 12:
        return "..."
    s = lambda x: show(x, d + 1)
    if k == "c":
        return repr(t[1]) if not isinstance(t[1], float) or t[1] != int(t[1]) else str(int(t[1]))
    if k == "fld":
        return "%s.%s" % (s(t[1]), t[2])
    if k == "var":
        return t[2]
    if k == "root":
        return t[1]
    if k == "glob":
        return t[1]
    if k == "elem":
        return "%s%s" % (s(t[1]), s(t[2]))
    if k == "acc":
        return ".%s(%s)" % (t[1], ",".join(s(x) for x in t[2:]))
    if k == "call":
        return "%s(%s)" % (t[1].split("::")[-1], ", ".join(s(x) for x in t[2:]))
    if k == "op":
        if len(t) == 4:
            return "(%s %s %s)" % (s(t[2]), t[1], s(t[3]))
        return "%s%s" % (t[1], s(t[2]))
    if k == "addr":
        return "&" + s(t[1])
    if k == "deref":
        return "*" + s(t[1])
    if k == "phi":
        return "{" + " | ".join(sorted(s(x) for x in t[1])) + "}"
    if k == "new":
        return "new<%s@%s>" % (t[1].split("<")[0].split("::")[-1], t[2])
    if k == "upd":
        return "%s[%s:=%s]" % (s(t[1]), s(t[2]), s(t[3]))
    return "%s(%s)" % (k, ",".join(s(x) for x in t[1:]))


SCALARS = {"double", "float", "int", "const double", "const float", "const int", "long", "unsigned int", "unsigned long"}


FORWARDS = ("make_pair", "make_tuple", "make_shared", "make_unique", "forward", "emplace", "emplace_back", "emplace_front", "emplace_hint", "try_emplace", "insert_or_assign", "push", "push_back", "begin", "end", "cbegin", "cend",
            "size", "min", "max", "get")


class Ev:
    __slots__ = ("id", "kind", "name", "obj", "args", "val", "loc", "facts", "ctx", "fn", "nid", "inl", "info", "ret", "op", "node", "pre", "old", "alias")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, None)
        for a, b in k.items():
            setattr(self, a, b)

    def where(self):
        return self.fn.where(self.nid)

    def __repr__(self):
        return "<%s %s %s @%s>" % (self.kind, self.name or (self.loc and show(self.loc)), [show(a) for a in self.args or []] if self.args else (show(self.val) if self.val is not None else ""), self.where())


class State:
    __slots__ = ("env", "facts")

    def __init__(self, env=None, facts=frozenset()):
        self.env = env if env is not None else {}
        self.facts = facts

    def copy(self):
        return State(dict(self.env), self.facts)


def implied(t, pol=True):
    """atoms implied by `t` having truth value pol"""
    out = set()
    st = [(t, pol)]
    while st:
        t, p = st.pop()
        if type(t) is tuple and t:
            if t[0] == "op" and t[1] == "!" and len(t) == 3:
                st.append((t[2], not p))
                continue
            if t[0] == "op" and t[1] == "&&" and p:
                st.append((t[2], True))
                st.append((t[3], True))
                continue
            if t[0] == "op" and t[1] == "||" and not p:
                st.append((t[2], False))
                st.append((t[3], False))
                continue
            if t[0] == "cast" and len(t) == 3:
                st.append((t[2], p))
                continue
            if t[0] == "op" and t[1] in ("!=",) and len(t) == 4:
                st.append((("op", "==", t[2], t[3]), not p))
                continue
            if t[0] == "op" and t[1] == "==" and len(t) == 4:
                # x == true / x == false
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if b == ("c", 1, "b") or b == ("c", 0, "b"):
                        st.append((a, p == (b[1] == 1)))
                a, b = sorted((t[2], t[3]), key=repr)
                out.add((("op", "==", a, b), p))
                continue
            if t[0] == "op" and len(t) == 4 and t[1] in (">", ">="):
                # a > b  ==  b < a ; a >= b == !(a < b)
                if t[1] == ">":
                    out.add((("op", "<", t[3], t[2]), p))
                else:
                    out.add((("op", "<", t[2], t[3]), not p))
                continue
            if t[0] == "op" and len(t) == 4 and t[1] == "<=":
                out.add((("op", "<", t[3], t[2]), not p))
                continue
            if t[0] == "phi" and p:
                # bool flag: {false | cond} true  => cond
                live = [a for a in t[1] if a not in (("c", 0), ("c", 0, "b"))]
                if len(live) == 1:
                    st.append((live[0], True))
                elif len(live) > 1:
                    ss = [implied(a, True) for a in live]
                    out |= set.intersection(*ss)
                continue
            if t[0] == "phi" and not p:
                live = [a for a in t[1] if a not in (("c", 1), ("c", 1, "b"))]
                if len(live) == 1:
                    st.append((live[0], False))
                continue
            if t[0] == "condv" and len(t) == 4:
                # c ? a : b
                if p and t[3] in (("c", 0), ("c", 0, "b")):
                    st.append((t[1], True)); st.append((t[2], True)); continue
                if not p and t[2] in (("c", 1), ("c", 1, "b")):
                    st.append((t[1], False)); st.append((t[3], False)); continue
        out.add((t, p))
    return out


def implied_under(t, pol, facts):
    """atoms implied by `t` having truth value pol where `facts` hold: of a conjunction that is
    false with one side true the other side is false"""
    out = set()
    st = [(t, pol)]
    while st:
        t, p = st.pop()
        if type(t) is tuple and len(t) == 4 and t[0] == "op" and t[1] in ("&&", "||") and p == (t[1] == "||"):
            neutral = t[1] == "&&"
            a, b = decide(t[2], facts), decide(t[3], facts)
            if a is neutral:
                st.append((t[3], p))
                continue
            if b is neutral:
                st.append((t[2], p))
                continue
        if type(t) is tuple and len(t) == 4 and t[0] == "op" and t[1] in ("&&", "||"):
            if p == (t[1] == "&&"):
                st += [(t[2], p), (t[3], p)]
                continue
            out.add((t, p))
            continue
        if type(t) is tuple and len(t) == 3 and t[0] == "op" and t[1] == "!":
            st.append((t[2], not p))
            continue
        out |= implied(t, p)
    return out


def _num(t):
    return type(t) is tuple and len(t) >= 2 and t[0] == "c" and isinstance(t[1], (int, float))


def f32(x):
    """the float nearest to a number"""
    y = struct.unpack("f", struct.pack("f", float(x)))[0]
    return type(x)(y) if type(x) is not int or y == int(y) else y


def decide(t, facts):
    """truth value of condition `t` where `facts` hold: True, False or None (unknown)"""
    if type(t) is not tuple or not t:
        return None
    if _num(t):
        return bool(t[1])
    k = t[0]
    if k == "op" and t[1] == "!" and len(t) == 3:
        d = decide(t[2], facts)
        return None if d is None else not d
    if k == "op" and t[1] in ("&&", "||") and len(t) == 4:
        a, b = decide(t[2], facts), decide(t[3], facts)
        if t[1] == "&&":
            return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    if k == "cast" and len(t) == 3:
        return decide(t[2], facts) if t[1] != "f2i" else None
    if k == "phi":
        ds = {decide(a, facts) for a in t[1]}
        return ds.pop() if len(ds) == 1 else None
    if k == "condv" and len(t) == 4:
        d = decide(t[1], facts)
        if d is not None:
            return decide(t[2] if d else t[3], facts)
        a, b = decide(t[2], facts), decide(t[3], facts)
        return a if a == b else None
    if (t, True) in facts:
        return True
    if (t, False) in facts:
        return False
    if k == "op" and len(t) == 4 and t[1] in ("<", ">", "<=", ">=", "==", "!="):
        at = implied(t, True)
        if len(at) == 1:
            a, p = next(iter(at))
            d = _atom(a, facts)
            return None if d is None else (d == p)
        if at != {(t, True)}:
            ds = []
            for a, p in at:
                d = _atom(a, facts) if type(a) is tuple and a[:1] == ("op",) and a[1] in ("<", "==") else decide(a, facts)
                ds.append(None if d is None else d == p)
            if any(d is False for d in ds):
                return False
            if all(d for d in ds):
                return True
    return None


def _atom(a, facts):
    if (a, True) in facts:
        return True
    if (a, False) in facts:
        return False
    if type(a) is tuple and len(a) == 4 and a[0] == "op" and a[1] in ("<", "=="):
        x, y = simp(a[2], facts), simp(a[3], facts)
        if _num(x) and _num(y):
            return x[1] < y[1] if a[1] == "<" else x[1] == y[1]
        eq = ("op", "==") + tuple(sorted((x, y), key=repr))
        if a[1] == "==":
            if x == y and not any(s[0] == "phi" for s in subterms(x) if type(s) is tuple and s):
                return True
            if (eq, True) in facts:
                return True
            if (eq, False) in facts or (("op", "<", x, y), True) in facts or (("op", "<", y, x), True) in facts:
                return False
            if (("op", "<", x, y), False) in facts and (("op", "<", y, x), False) in facts:
                return True
            for u, v in ((x, y), (y, x)):
                if _num(v):
                    for f, p in facts:
                        if p and type(f) is tuple and len(f) == 4 and f[0] == "op" and f[1] == "==" and u in f[2:]:
                            w = f[2] if f[3] == u else f[3]
                            if _num(w) and w[1] != v[1]:
                                return False
        else:
            if (("op", "<", x, y), True) in facts:
                return True
            if (("op", "<", x, y), False) in facts or (("op", "<", y, x), True) in facts or (eq, True) in facts:
                return False
            if x == y and not any(s[0] == "phi" for s in subterms(x) if type(s) is tuple and s):
                return False
            # bounds by constants
            if _num(x) or _num(y):
                u, c = (x, y[1]) if _num(y) else (y, x[1])
                lo, los, hi, his = bounds(u, facts)
                if _num(y):      # u < c ?
                    if hi is not None and (hi < c or (hi == c and his)):
                        return True
                    if lo is not None and lo >= c:
                        return False
                else:            # c < u ?
                    if lo is not None and (lo > c or (lo == c and los)):
                        return True
                    if hi is not None and hi <= c:
                        return False
    return None


def bounds(u, facts):
    lo, los, hi, his = None, False, None, False
    for f, p in facts:
        if type(f) is tuple and len(f) == 4 and f[0] == "op" and f[1] == "<":
            if f[2] == u and _num(f[3]):
                c = f[3][1]
                if p:
                    if hi is None or c < hi or (c == hi and not his):
                        hi, his = c, True
                elif lo is None or c > lo:
                    lo, los = c, False
            if f[3] == u and _num(f[2]):
                c = f[2][1]
                if p:
                    if lo is None or c > lo or (c == lo and not los):
                        lo, los = c, True
                elif hi is None or c < hi:
                    hi, his = c, False
        elif type(f) is tuple and len(f) == 4 and f[0] == "op" and f[1] == "==" and p and u in f[2:]:
            w = f[3] if f[2] == u else f[2]
            if _num(w):
                lo = hi = w[1]
                los = his = False
    return lo, los, hi, his


def mkop(op, a, b):
    """operator on values, bit operations on integer constants folded"""
    if op in BITS and a[0] == "c" and b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int) and (op not in ("<<", ">>") or 0 <= b[1] < 64):
        return ("c", BITS[op](int(a[1]), int(b[1])))
    return ("op", op, a, b)


BITS = {"&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b}


def simp(t, facts):
    """value of `t` where `facts` hold, min / max / conditional expressions resolved"""
    if type(t) is not tuple or not t:
        return t
    if t[0] == "call" and t[1] in ("std::min", "std::max", "fmin", "fmax", "std::fmin", "std::fmax") and len(t) == 4:
        a, b = simp(t[2], facts), simp(t[3], facts)
        d = decide(("op", "<", a, b), facts)
        if d is None:
            d2 = decide(("op", "<", b, a), facts)
            d = None if d2 is None else (not d2)
        if d is not None:
            return (a if d else b) if "min" in t[1] else (b if d else a)
        return ("call", t[1], a, b)
    if t[0] == "condv" and len(t) == 4:
        d = decide(t[1], facts)
        if d is not None:
            return simp(t[2] if d else t[3], facts)
    return t


class Uncounted(Exception):
    """a loop taken step by step turned out not to have a known number of rounds"""


class Engine:
    def __init__(self, prog, noinline=(), maxdepth=25, opaque=None, vfilter=None, pure=(), maxsize=MAXSIZE, unroll=False, versions=()):
        self.versions = versions        # containers whose queries name the value they were made on
        self.maxsize = maxsize
        self.unroll = unroll            # counted loops step by step: for exit values, not for path queries
        self.nounroll = set()           # (function, head) that cannot be counted
        self.p = prog
        self.noinline = set(noinline)
        self.pure = dict.fromkeys(pure, ()) if not isinstance(pure, dict) else pure
        self.scalars = set()
        self.maxdepth = maxdepth
        self.opaque = opaque or (lambda fn: False)
        self.vfilter = vfilter          # virtual candidates filter
        self.events = {}                # (ctx, nid, tag) -> Ev
        self.order = {}                 # (ctx, nid) -> [ev keys]
        self.inl = {}                   # (ctx, nid) -> [ctx']
        self.ctxfn = {}                 # ctx -> Fn
        self.passed = set()             # unrolled runs: the atoms of all passes over an edge
        self.edgefacts = {}             # (ctx, block, succ index) -> frozenset(atoms)
        self.branch = {}                # (ctx, block) -> cond term
        self.pruned = set()             # (ctx, block, succ index) infeasible under the facts holding there
        self.rets = {}                  # ctx -> [terms]
        self.stack = []
        self.analysed = set()
        self.steps = 0

    # ------------------------------------------------------------ entry
    def run(self, fn, this="this", args=None, env=None, facts=frozenset()):
        while True:
            try:
                return self._run(fn, this, args, env, facts)
            except Uncounted as x:
                self.nounroll.add(x.args[0])
                for d in (self.events, self.order, self.inl, self.ctxfn, self.edgefacts, self.branch, self.rets, self.pruned, self.passed):
                    d.clear()
                self.stack = []

    def _run(self, fn, this, args, env, facts):
        self.root = fn
        st = State(dict(env or {}), facts)
        self.queries = set()            # objects that any fact met so far queries
        for f in facts:
            self.queries |= queried(f[0])
        a = []
        for i, p in enumerate(fn.params):
            v = args[i] if args else ("root", p["n"] or "arg%d" % i)
            t = self.p.type(p["t"])
            if t.endswith("&"):
                st.env[("alias", p["d"])] = ("deref", v) if not self._isptrlike(t) else ("box", v)
                if self._isptrlike(t):
                    st.env[("box", v)] = v
            else:
                st.env[("var", p["d"], p["n"])] = v
        out, ret = self.body(fn, (), ("root", this), st)
        self.final = out
        self.ret = ret
        return self

    @staticmethod
    def _isptrlike(t):
        t = t.replace("const ", "").strip()
        return any(t.startswith(x) or ("::" + x) in t.split("<")[0] for x in TRANSPARENT_PTR)

    # ------------------------------------------------------------ functions
    def body(self, fn, ctx, this, st):
        self.ctxfn[ctx] = fn
        self.analysed.add(fn.id)
        self.stack.append(fn.id)
        try:
            return self._body(fn, ctx, this, st)
        finally:
            self.stack.pop()

    def _body(self, fn, ctx, this, st):
        IN = {fn.entry: st}
        OUT = {}
        heads = {b for (_, b) in fn.back}
        counted = {b for b in heads if (fn.id, b) not in self.nounroll and "cond" in fn.blocks[b]} if self.unroll else set()
        gone = {}
        visits = {}
        idx = {b: i for i, b in enumerate(fn.rpo)}
        work = set([fn.entry])
        frame = {"fn": fn, "ctx": ctx, "this": this, "vals": {}, "lazy": [], "ret": []}
        outedges = {}
        entered = {}
        rounds = 0
        while work:
            b = min(work, key=lambda x: idx[x])
            work.discard(b)
            rounds += 1
            visits[b] = visits.get(b, 0) + 1
            if b == fn.entry:
                s = st.copy()
                ins = [outedges[(p, b)] for p in fn.preds[b] if (p, b) in outedges]
                if ins:
                    s = self.join([st] + ins, (ctx, b) if b in heads else None, visits[b])
            else:
                if b in heads:
                    # a loop entered with a new state is analysed afresh
                    ent = [(outedges[(p, b)].env, outedges[(p, b)].facts) for p in fn.preds[b] if (p, b) in outedges and (p, b) not in fn.back]
                    if b in entered and entered[b] != ent:
                        for p in fn.preds[b]:
                            if (p, b) in fn.back:
                                outedges.pop((p, b), None)
                        visits[b] = 1
                        IN.pop(b, None)
                        gone[b] = 0
                    entered[b] = ent
                ins = [outedges[(p, b)] for p in fn.preds[b] if (p, b) in outedges]
                if not ins:
                    continue
                if b in counted:
                    bk = [outedges[(p, b)] for p in fn.preds[b] if (p, b) in fn.back and (p, b) in outedges]
                    gone[b] = gone.get(b, 0) + 1
                    if gone[b] > 100:
                        raise Uncounted((fn.id, b))
                    s = self.join(bk or ins, None, 1)
                    for p in fn.preds[b]:
                        if (p, b) in fn.back:
                            outedges.pop((p, b), None)
                else:
                    s = self.join(ins, (ctx, b) if b in heads else None, visits[b], IN.get(b))
            if b in IN and visits[b] > 1 and b != fn.entry and s.env == IN[b].env and s.facts == IN[b].facts:
                continue
            IN[b] = s
            o = s.copy()
            self.block(fn, b, frame, o)
            B = fn.blocks[b]
            succ = B["s"]
            if B.get("noret"):
                continue
            multi = [x for x in succ if x is not None]
            for k, sx in enumerate(succ):
                if sx is None:
                    continue
                e = o
                if "cond" in B and len(succ) >= 2 and B.get("term") != "SwitchStmt":
                    c = self.rv(frame, o, B["cond"])
                    self.branch[(ctx, b)] = c
                    at = frozenset(implied_under(c, k == 0, o.facts))
                    self.edgefacts[(ctx, b, k)] = at
                    if self.unroll:
                        self.passed |= at
                    d = decide(c, o.facts)
                    if d is None and b in counted:
                        raise Uncounted((fn.id, b))
                    if d is not None and d != (k == 0):
                        self.pruned.add((ctx, b, k))
                        continue
                    self.pruned.discard((ctx, b, k))
                    e = o.copy() if len(multi) > 1 else o
                    e.facts = e.facts | at
                    self.queries.update(*(queried(f[0]) for f in at))
                elif B.get("term") == "SwitchStmt" and "cond" in B:
                    c = self.rv(frame, o, B["cond"])
                    self.branch[(ctx, b)] = c
                    eq = lambda n: ("op", "==") + tuple(sorted((c, ("c", n)), key=repr))
                    is_ = lambda n: c[1] == n if _num(c) else decide(eq(n), o.facts)
                    tb = fn.blocks[sx]
                    cs = [fn.blocks[x]["case"] for x in multi if "case" in fn.blocks[x]]
                    e = o.copy()
                    if "case" in tb:
                        at, dead = frozenset([(eq(tb["case"]), True)]), is_(tb["case"]) is False
                    else:
                        at, dead = frozenset([(eq(n), False) for n in cs]), any(is_(n) is True for n in cs)
                    if dead:
                        self.pruned.add((ctx, b, k))
                        continue
                    self.pruned.discard((ctx, b, k))
                    if not _num(c):
                        e.facts = e.facts | at
                        self.queries.update(*(queried(f[0]) for f in at))
                        self.edgefacts[(ctx, b, k)] = at
                key = (b, sx)
                # merge parallel edges
                if key in outedges and len([x for x in succ if x == sx]) > 1 and k > 0:
                    e = self.join([outedges[key], e], None, 1)
                prev = outedges.get(key)
                if prev is None or prev.env != e.env or prev.facts != e.facts:
                    outedges[key] = e
                    if sx in counted or not (key in fn.back and visits.get(sx, 0) > 6):
                        work.add(sx)
            OUT[b] = o
            if rounds > 60 * len(fn.rpo) + 200 + (20000 if counted else 0):
                break
        ex = OUT.get(fn.exit)
        rt = None
        if frame["ret"]:
            d = {}
            for nid, t in frame["ret"]:
                d[nid] = t
            self.rets[ctx] = d
            rt = phi(list(d.values())) if len(d) > 1 else next(iter(d.values()))
        return ex, rt

    def join(self, states, head, visit, prev=None):
        if len(states) == 1 and head is None:
            return states[0].copy()
        keys = set()
        for s in states:
            keys |= s.env.keys()
        env = {}
        facts = states[0].facts
        for s in states[1:]:
            facts = facts & s.facts
        for k in keys:
            vs = []
            skip = False
            for s in states:
                v = s.env.get(k)
                if v is None:
                    if k[0] in ("var", "alias", "box"):
                        skip = True
                        break
                    v = k
                vs.append(v)
            if skip:
                if k[0] == "alias":
                    continue
                # declared in only some predecessors: out of scope afterwards
                vs = [s.env[k] for s in states if k in s.env]
                if len(set(vs)) != 1:
                    continue
            if all(v == vs[0] for v in vs[1:]):
                v = vs[0]
            elif head is not None:
                v = ("loop", head[1], k if k[0] != "alias" else k) if visit > 1 else phi(vs)
                if visit > 1 and k[0] == "alias":
                    v = phi(vs)
            else:
                v = phi(vs)
            if head is not None and visit > 1 and prev is not None:
                pv = prev.env.get(k)
                if pv is not None and pv != v and k[0] != "alias":
                    v = ("loop", head[1], k)
            env[k] = v
        if head is not None and prev is not None:
            facts = facts & prev.facts if visit > 1 else facts
        return State(env, facts)

    # ------------------------------------------------------------ blocks
    def block(self, fn, b, frame, st):
        # what was evaluated on demand belongs to the block it was evaluated in
        for nid in frame["lazy"]:
            frame["vals"].pop(nid, None)
        frame["lazy"] = []
        for nid in fn.blocks[b]["e"]:
            self.steps += 1
            v = self.ev(frame, st, nid)
            frame["vals"][nid] = v

    def record(self, frame, nid, tag, **k):
        key = (frame["ctx"], nid, tag)
        e = Ev(id=key, fn=frame["fn"], ctx=frame["ctx"], nid=nid, **k)
        self.events[key] = e
        lst = self.order.setdefault((frame["ctx"], nid), [])
        if key not in lst:
            lst.append(key)
        return e

    # ---------------------------------------------------------- locations
    @staticmethod
    def isloc(v):
        return type(v) is tuple and len(v) == 2 and v[0] == "L"

    def ident(self, loc):
        """object identity usable as the base of a field"""
        if loc[0] == "deref":
            return loc[1]
        if loc[0] == "box":
            return loc
        return loc

    def load(self, st, loc):
        v = st.env.get(loc)
        if v is not None:
            return v
        k = loc[0]
        if k == "fld":
            b = st.env.get(loc[1]) if type(loc[1]) is tuple and loc[1][0] in ("var", "fld", "elem", "deref", "glob") else None
            if b is None and type(loc[1]) is tuple:
                b = st.env.get(("deref", loc[1]))
            if b is None and type(loc[1]) is tuple and loc[1][0] == "elem":
                b = self.load(st, loc[1])       # the element may have been replaced as a whole
                if b == loc[1]:
                    b = None
            if b is None and type(loc[1]) is tuple and loc[1][0] == "fld":
                b = self.load(st, loc[1])       # or been copied in with what it is a part of
                if b == loc[1] or b[0] != "fld":
                    b = None
            if b is not None:
                r = ("fld", b, loc[2])
                return st.env.get(r, r)
            return loc
        if k == "elem":
            b = self.load(st, loc[1])
            # read of an element just written
            while type(b) is tuple and b and b[0] == "upd":
                if b[2] == loc[2]:
                    return b[3]
                if self.disjoint(b[2], loc[2]):
                    b = b[1]
                    continue
                break
            return ("elem", b, loc[2])
        if k == "deref":
            t = loc[1]
            if type(t) is tuple and t and t[0] == "addr":
                return self.load(st, t[1])
            return ("deref", t)
        if k == "var":
            return ("uninit", loc[2]) if loc in st.env else loc
        return loc

    @staticmethod
    def disjoint(a, b):
        if a[0] == "acc" and b[0] == "acc" and a[1] == b[1] and len(a) == len(b):
            for x, y in zip(a[2:], b[2:]):
                if x[0] == "c" and y[0] == "c" and x != y:
                    return True
        if a[0] == "acc" and b[0] == "acc" and a[1] in "xyzw" and b[1] in "xyzw" and a[1] != b[1]:
            return True
        return False

    def rootloc(self, loc):
        while loc[0] == "elem":
            loc = loc[1]
        return loc

    def store(self, frame, st, nid, loc, val, how="=", tag="w"):
        old = self.load(st, loc)
        if size(val, self.maxsize) > self.maxsize:
            val = ("big", frame["ctx"], nid)
        root = self.rootloc(loc)
        self.record(frame, nid, tag, kind="write", loc=loc, val=val, facts=st.facts, op=how, old=old)
        if loc[0] == "elem":
            cur = self.load(st, root)
            # nested accessor
            path = []
            l = loc
            while l[0] == "elem":
                path.append(l[2])
                l = l[1]
            acc = path[0] if len(path) == 1 else ("path",) + tuple(reversed(path))
            if type(cur) is tuple and cur and cur[0] == "upd" and cur[2] == acc:
                cur = cur[1]
            nv = ("upd", cur, acc, val)
            if size(nv, self.maxsize) > self.maxsize:
                nv = ("big", frame["ctx"], nid)
            self.setenv(st, root, nv)
            for k in [k for k in st.env if k[0] == "fld" and self._under(k, loc)]:
                del st.env[k]
        else:
            self.setenv(st, loc, val)
            # whole-object write invalidates what is known about parts
            base = self.ident(loc)
            for k in [k for k in st.env if k[0] == "fld" and self._under(k, base)]:
                del st.env[k]
        # facts speak about values; only queries answered by location go stale
        self.killqueries(st, root)

    @staticmethod
    def _under(k, base):
        while type(k) is tuple and k and k[0] in ("fld", "elem"):
            k = k[1]
            if k == base:
                return True
        return False

    def setenv(self, st, loc, v):
        if loc[0] == "deref" and type(loc[1]) is tuple and loc[1] and loc[1][0] == "addr":
            loc = loc[1][1]
        st.env[loc] = v

    def killqueries(self, st, loc):
        if not st.facts:
            return
        if loc not in self.queries:
            return
        kill = [f for f in st.facts if loc in queried(f[0])]
        if kill:
            st.facts = st.facts - frozenset(kill)

    def killfacts(self, st, loc):
        if not st.facts:
            return
        kill = [f for f in st.facts if contains(f[0], loc)]
        if kill:
            st.facts = st.facts - frozenset(kill)

    # -------------------------------------------------------------- values
    def val(self, frame, st, nid):
        """value or location of a node (cached from its own evaluation)"""
        if nid is None or nid < 0:
            return ("none",)
        v = frame["vals"].get(nid)
        if v is None:
            v = self.ev(frame, st, nid)
            frame["vals"][nid] = v
            frame["lazy"].append(nid)
        return v

    def rv(self, frame, st, nid):
        return self.rval(st, self.val(frame, st, nid))

    def rval(self, st, v):
        if self.isloc(v):
            return self.load(st, v[1])
        return v

    def lv(self, frame, st, nid):
        v = self.val(frame, st, nid)
        if self.isloc(v):
            return v[1]
        return ("deref", ("addr", ("tmp", v)))

    def objid(self, frame, st, nid, arrow):
        """identity of the object a member is accessed on"""
        v = self.val(frame, st, nid)
        if arrow:
            t = self.rval(st, v)
            if type(t) is tuple and t and t[0] == "addr":
                return self.ident(t[1])
            return t
        if self.isloc(v):
            w = st.env.get(v[1])
            if type(w) is tuple and len(w) == 2 and w[0] == "addr":     # reference member
                return self.ident(w[1])
            return self.ident(v[1])
        return v

    def ev(self, frame, st, nid):
        fn = frame["fn"]
        nd = fn.nodes[nid]
        k = nd["k"]
        if "cv" in nd and nd.get("rv") and k != "Call":
            return self.const(nd)
        m = getattr(self, "ev_" + k, None)
        if m:
            return m(frame, st, nid, nd)
        c = nd.get("c", [])
        if k in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "DoStmt", "SwitchStmt", "CXXForRangeStmt", "NullStmt",
                 "BreakStmt", "ContinueStmt", "CaseStmt", "DefaultStmt"):
            return ("none",)
        return ("node", k, fn.id, nid) if not c else ("node", k) + tuple(self.rv(frame, st, x) for x in c)

    def const(self, nd):
        if nd["k"] == "Lit" or True:
            v = nd["cv"]
            t = self.p.types[nd["t"]] if nd.get("t", -1) >= 0 else ""
            if t == "bool":
                return ("c", 1 if v else 0, "b")
            if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
                v = int(v)
            return ("c", v)

    def ev_Lit(self, f, st, nid, nd):
        return self.const(nd) if "cv" in nd else ("node", "Lit", nid)

    def ev_Null(self, f, st, nid, nd):
        return ("c", 0)

    def ev_Str(self, f, st, nid, nd):
        return ("str", nd["s"])

    def ev_This(self, f, st, nid, nd):
        t = f["this"]
        if type(t) is tuple and t and t[0] in ("var", "fld", "elem", "glob", "tmp"):
            return ("addr", t)
        return t

    def ev_Ref(self, f, st, nid, nd):
        dk = nd["dk"]
        if dk == "fn":
            return ("fnref", nd["n"], nd["fn"])
        if dk == "enum":
            return self.const(nd) if "cv" in nd else ("glob", nd["n"])
        if dk == "global":
            if "cv" in nd and not nd.get("rv"):
                t = self.p.type(nd.get("t"))
                if t.startswith("const "):
                    return self.const(nd)
            return ("L", ("glob", nd["n"]))
        if dk in ("param", "local", "slocal"):
            d = nd.get("d")
            a = st.env.get(("alias", d))
            if a is not None:
                return a[1] if a[0] == "val" else ("L", a)
            if dk == "slocal":
                return ("L", ("glob", "static " + nd["n"] + "@" + f["fn"].n))
            return ("L", ("var", d, nd["n"]))
        return ("node", "Ref", nd.get("n"))

    def ev_Mem(self, f, st, nid, nd):
        base = self.objid(f, st, nd["c"][0], nd.get("ar"))
        loc = ("fld", base, nd["f"])
        w = st.env.get(loc)
        if type(w) is tuple and len(w) == 2 and w[0] == "addr" and nd.get("n") in self.reffields():
            return ("L", w[1])
        if w is not None and nd.get("n") in self.reffields() and type(w) is tuple and w[0] in ("root", "deref", "fld", "elem"):
            return ("L", ("deref", w))
        return ("L", loc)

    def reffields(self):
        """qualified names of the members that are references"""
        r = getattr(self.p, "_reffields", None)
        if r is None:
            r = self.p._reffields = {n + "::" + f["n"] for n, recs in self.p.rec_by_name.items() for rec in recs for f in rec["fields"] if self.p.types[f["t"]].endswith("&")}
        return r

    def ev_MemFn(self, f, st, nid, nd):
        return ("fnref", nd["n"], nd["fn"])

    def ev_ICast(self, f, st, nid, nd):
        v = self.rv(f, st, nd["c"][0])
        if nd["ck"] in ("FloatingToIntegral",):
            return ("cast", "f2i", v)
        if nd["ck"] == "FloatingCast":
            return self.narrow(nd, v)
        if nd["ck"] == "IntegralToBoolean" or nd["ck"] == "PointerToBoolean" or nd["ck"] == "FloatingToBoolean":
            return v
        return v

    def narrow(self, nd, v):
        """a double that becomes a float loses digits"""
        if self.p.types[nd["t"]].replace("const ", "") != "float" or v is None:
            return v
        if type(v) is tuple and v[:1] == ("c",):
            x = f32(v[1])
            return v if x == v[1] else ("c", x)
        return ("cast", "f32", v)

    def ev_Cast(self, f, st, nid, nd):
        v = self.val(f, st, nd["c"][0])
        if nd["ck"] == "FloatingToIntegral":
            return ("cast", "f2i", self.rval(st, v))
        if nd["ck"] == "FloatingCast" and self.p.types[nd["t"]] == "float":
            return self.narrow(nd, self.rval(st, v))
        if nd["ck"] == "ToVoid":
            return ("none",)
        return v

    def ev_Bin(self, f, st, nid, nd):
        a, b = nd["c"]
        op = nd["op"]
        if op == ",":
            return self.val(f, st, b)
        if op in (".*", "->*"):
            return ("node", "memptr", self.rv(f, st, a), self.rv(f, st, b))
        return self.arith(op, self.rv(f, st, a), self.rv(f, st, b))

    def ev_Un(self, f, st, nid, nd):
        op = nd["op"]
        c = nd["c"][0]
        if op == "&":
            v = self.val(f, st, c)
            if self.isloc(v):
                return ("addr", v[1]) if v[1][0] != "deref" else v[1][1]
            return v if (type(v) is tuple and v and v[0] == "fnref") else ("addr", ("tmp", v))
        if op == "*":
            t = self.rv(f, st, c)
            if type(t) is tuple and t and t[0] == "addr":
                return ("L", t[1])
            return ("L", ("deref", t))
        if op in ("++", "--", "post++", "post--"):
            loc = self.lv(f, st, c)
            old = self.load(st, loc)
            new = self.arith("+" if "++" in op else "-", old, ("c", 1))
            self.store(f, st, nid, loc, new, op)
            return old if op.startswith("post") else ("L", loc)
        if op in ("+", "__extension__", "__real"):
            return self.rv(f, st, c)
        if op == "-":
            v = self.rv(f, st, c)
            if v[0] == "c" and len(v) == 2 and not isinstance(v[1], str):
                return ("c", -v[1])
            return ("op", "neg", v)
        return ("op", op, self.rv(f, st, c))

    def arith(self, op, a, b):
        """mkop; while loops are taken step by step, integers are counted out"""
        if self.unroll and op in ("+", "-", "*") and _num(a) and _num(b) and type(a[1]) is int and type(b[1]) is int:
            return ("c", a[1] + b[1] if op == "+" else a[1] - b[1] if op == "-" else a[1] * b[1])
        return mkop(op, a, b)

    def ev_Asg(self, f, st, nid, nd):
        a, b = nd["c"]
        v = self.rv(f, st, b)
        loc = self.lv(f, st, a)
        self.store(f, st, nid, loc, v)
        return ("L", loc)

    def ev_CAsg(self, f, st, nid, nd):
        a, b = nd["c"]
        v = self.rv(f, st, b)
        loc = self.lv(f, st, a)
        old = self.load(st, loc)
        self.store(f, st, nid, loc, self.arith(nd["op"][:-1], old, v), nd["op"])
        return ("L", loc)

    def ev_Cond(self, f, st, nid, nd):
        c, a, b = nd["c"]
        vc = self.rv(f, st, c)
        d = decide(vc, st.facts)
        if d is not None:
            return self.val(f, st, a if d else b)
        va, vb = self.val(f, st, a), self.val(f, st, b)
        if self.isloc(va) and self.isloc(vb) and va == vb:
            return va
        va, vb = self.rval(st, va), self.rval(st, vb)
        if va == vb:
            return va
        return ("condv", vc, va, vb)

    def ev_Idx(self, f, st, nid, nd):
        base = self.val(f, st, nd["c"][0])
        i = self.rv(f, st, nd["c"][1])
        loc = base[1] if self.isloc(base) else ("deref", base)
        # pointers: the pointee array is identified by the pointer value
        t = self.p.type(f["fn"].nodes[nd["c"][0]].get("t"))
        if t.endswith("*"):
            v = self.rval(st, base)
            loc = v[1] if type(v) is tuple and v and v[0] == "addr" else ("deref", v)
        return ("L", ("elem", loc, ("acc", "at", i)))

    def ev_Trait(self, f, st, nid, nd):
        return self.const(nd) if "cv" in nd else ("node", "sizeof")

    def ev_List(self, f, st, nid, nd):
        return ("list",) + tuple(self.rv(f, st, x) for x in nd.get("c", []))

    def ev_Lambda(self, f, st, nid, nd):
        return ("lambda", nd.get("fn"))

    def ev_New(self, f, st, nid, nd):
        obj = ("new", self.p.type(nd.get("at")), f["fn"].where(nid))
        # a constructor evaluated just before describes this object
        for c in nd.get("c", []):
            cn = f["fn"].nodes[c]
            if cn["k"] == "Ctor":
                v = self.val(f, st, c)
                if type(v) is tuple and v and v[0] == "ctor":
                    self.retarget(st, ("tmpobj", f["ctx"], c), obj)
        # a freshly allocated object has no known parts from an earlier loop iteration
        self.record(f, nid, "new", kind="new", name=obj[1], val=obj, facts=st.facts)
        return obj

    def retarget(self, st, a, b, wipe=True):
        """what is known about the object under construction holds for the allocated object"""
        if wipe:
            for k in [k for k in st.env if self._under(k, b)]:
                del st.env[k]
        for k in list(st.env):
            if self._under(k, a):
                st.env[self._sub(k, a, b)] = st.env.pop(k)

    def parts(self, st, a, b):
        """what is known about the parts of a, said of b"""
        a, b = self.ident(a), self.ident(b)
        return {self._sub(k, a, b): x for k, x in st.env.items() if k[0] == "fld" and self._under(k, a)} if a != b else {}

    def objof(self, f, st, nid):
        """the object expression nid denotes or copies, if it has one"""
        nd = f["fn"].nodes[nid]
        while nd["k"] in ("ICast", "Cast", "Mat", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups") or nd["k"] == "Ctor" and nd.get("cp"):
            if len(nd.get("c", [])) != 1:
                return None
            nid = nd["c"][0]
            nd = f["fn"].nodes[nid]
        if nd["k"] == "Call":
            for c2 in self.inl.get((f["ctx"], nid), []):
                o = ("retobj", c2)
                if any(self._under(k, o) for k in st.env):
                    return o
        x = f["vals"].get(nid) or self.val(f, st, nid)
        return x[1] if self.isloc(x) else None

    def copied(self, f, st, nid, loc):
        """parts of an object initialised or assigned from expression nid"""
        o = self.objof(f, st, nid)
        return self.parts(st, o, loc) if o else {}

    def _sub(self, t, a, b):
        if t == a:
            return b
        if type(t) is tuple:
            return tuple(self._sub(x, a, b) if type(x) is tuple else x for x in t)
        return t

    def ev_Decl(self, f, st, nid, nd):
        for c in nd.get("c", []):
            v = f["fn"].nodes[c]
            d = v["d"]
            t = self.p.type(v["t"])
            if v.get("static"):
                continue
            init = v.get("c", [])
            st.env.pop(("alias", d), None)
            loc = ("var", d, v["n"])
            for k in [k for k in st.env if self._under(k, loc)]:
                del st.env[k]
            if v.get("ref"):
                x = self.val(f, st, init[0]) if init else ("none",)
                if self.isloc(x):
                    st.env[("alias", d)] = x[1]
                else:
                    st.env[("alias", d)] = loc
                    st.env[loc] = x
                continue
            if init and t.replace("const ", "").startswith("Eigen::Map<"):
                x = self.val(f, st, init[0])
                if self.isloc(x):       # a view of someone else's numbers
                    st.env[("alias", d)] = x[1]
                    continue
            if init:
                st.env.update(self.copied(f, st, init[0], loc))
                x = self.rv(f, st, init[0])
                if type(x) is tuple and x and x[0] == "ctor" and f["fn"].nodes[init[0]]["k"] == "Ctor":
                    self.retarget(st, ("tmpobj", f["ctx"], init[0]), loc)
                    if len(x) == 2:
                        # default construction: parts unknown / default
                        st.env[loc] = ("default", x[1])
                        self.record(f, nid, "decl%d" % c, kind="decl", loc=loc, val=st.env[loc], facts=st.facts, name=v["n"])
                        continue
                if type(x) is tuple and len(x) == 2 and x[0] == "call" and x[1].startswith("Eigen::") and x[1].endswith("::Zero") and "Eigen::Matrix<" in t:
                    x = ("mut", "setZero", ("default", t))      # keeps its size
                st.env[loc] = x
                self.record(f, nid, "decl%d" % c, kind="decl", loc=loc, val=x, facts=st.facts, name=v["n"])
                self.killfacts(st, loc)
            else:
                st.env[loc] = ("uninit", v["n"])
                self.killfacts(st, loc)
        return ("none",)

    def ev_Var(self, f, st, nid, nd):
        return ("none",)

    def ev_Ret(self, f, st, nid, nd):
        c = nd.get("c", [])
        v = self.val(f, st, c[0]) if c else ("none",)
        rt = self.p.type(f["fn"].info["rt"])
        if not rt.endswith("&"):
            if c:
                st.env.update(self.copied(f, st, c[0], ("retobj", f["ctx"])))
            v = self.rval(st, v)
        f["ret"].append((nid, v))
        self.record(f, nid, "ret", kind="ret", val=self.rval(st, v), facts=st.facts)
        return v

    def ev_Init(self, f, st, nid, nd):
        if nd.get("base") or nd.get("deleg"):
            for c in nd.get("c", []):
                self.val(f, st, c)
                # what a base class or delegated constructor sets belongs to this object
                this = f["this"]
                self.retarget(st, ("tmpobj", f["ctx"], c), self.ident(this) if this[0] == "deref" else this, wipe=False)
            return ("none",)
        if not nd.get("c"):
            return ("none",)
        this = f["this"]
        loc = ("fld", self.ident(this) if this[0] in ("deref",) else this, nd["f"])
        t = self.p.type(nd.get("t"))
        v = self.val(f, st, nd["c"][0])
        if t.endswith("&"):
            if self.isloc(v):
                # a reference member designates the bound object
                b = self.ident(v[1])
                st.env[loc] = ("addr", v[1]) if b == v[1] else b
            else:
                st.env[loc] = v
        else:
            x = self.rval(st, v)
            if type(x) is tuple and x and x[0] == "ctor":
                self.retarget(st, ("tmpobj", f["ctx"], nd["c"][0]), loc)
                if len(x) == 2:
                    x = ("default", x[1])
            st.env[loc] = x
            self.record(f, nid, "init", kind="write", loc=loc, val=x, facts=st.facts, op="init", old=None)
        return ("none",)

    def ev_Dtor(self, f, st, nid, nd):
        self.record(f, nid, "dtor", kind="dtor", name=nd["n"], loc=("var", nd["d"], nd["n"]), val=("type", self.p.type(nd.get("t"))), facts=st.facts,
                    info=self.p.fntable[nd["fn"]] if "fn" in nd else None)
        fid = nd.get("fn")
        g = self.p.fns.get(fid)
        if g is not None and not g.imp and fid not in self.stack and len(self.stack) < self.maxdepth and not self.opaque(g) and g.n not in self.noinline:
            c2 = f["ctx"] + (nid,)
            self.inl.setdefault((f["ctx"], nid), [])
            if c2 not in self.inl[(f["ctx"], nid)]:
                self.inl[(f["ctx"], nid)].append(c2)
            out, _ = self.body(g, c2, ("var", nd["d"], nd["n"]), st.copy())
            if out is not None:
                st.env, st.facts = out.env, out.facts
        return ("none",)

    # --------------------------------------------------------------- calls
    def ev_Ctor(self, f, st, nid, nd):
        c = nd.get("c", [])
        n = nd["n"]
        cls = n.rsplit("::", 1)[0]
        short = cls.rsplit("::", 1)[-1]
        t = self.p.type(nd.get("t"))
        args = [self.val(f, st, x) for x in c]
        if nd.get("cp") and args:
            return self.rval(st, args[0])
        if short in TRANSPARENT_PTR:
            return self.rval(st, args[0]) if args else ("c", 0)
        if short in ("_Rb_tree_iterator", "_Rb_tree_const_iterator", "__normal_iterator") and args:
            return self.rval(st, args[0])
        ra = [self.rval(st, a) for a in args]
        fid = nd["fn"]
        g = self.p.fns.get(fid)
        info = self.p.fntable[fid]
        self.record(f, nid, "call", kind="call", name=n, args=ra, facts=st.facts, info=info, inl=g is not None, val=("type", t), node=nd,
                    obj=("tmpobj", f["ctx"], nid))
        if g is not None and not g.imp and g.blocks and fid not in self.stack and len(self.stack) < self.maxdepth \
                and g.n not in self.noinline and not self.opaque(g):
            this = ("tmpobj", f["ctx"], nid)
            for k in [k for k in st.env if self._under(k, this)]:
                del st.env[k]
            self.call_body(f, st, nid, [(g, this)], nd, args, c)
            return ("ctor", t) if True else None
        if cls == "Eigen::Map" and args and self.isloc(args[0]):
            mm = re.search(r"Map<(?:const )?Eigen::Matrix<double, (\d+), (\d+)(?:, (\d+))?", t)
            if mm:
                loc = args[0][1]
                if loc[0] == "elem" and loc[2][:2] == ("acc", "data"):
                    loc = loc[1]
                rm = int(mm.group(3) or 0) & 1
                return ("L", ("elem", loc, ("acc", "map<%s,%s,%d>" % (mm.group(1), mm.group(2), rm))))
        if not info["repo"] and len(ra) == 1 and ("Eigen" in cls or "function" in short or "basic_string" in short) and self.p.fntable[fid]["n"].split("::")[-1] == "(ctor)":
            # conversions / copies of value-like library types
            if "Quaternion" in short or "Matrix" in short or "basic_string" in short or short in ("MatrixBase", "Array"):
                at = self.p.type(f["fn"].nodes[c[0]].get("t")) if c else ""
                if "Matrix" in short and at in ("int", "const int", "unsigned int", "long"):
                    return ("call", "ctor " + cls) + tuple(ra)
                return ra[0] if "Quaternion" not in short or "Matrix" not in at else ("call", "quatFromMatrix", ra[0])
        if not ra:
            return ("ctor", t)
        return ("call", "ctor " + cls) + tuple(ra)

    def ev_CXXScalarValueInitExpr(self, f, st, nid, nd):
        return ("c", 0)

    def ev_ImplicitValueInitExpr(self, f, st, nid, nd):
        return ("c", 0)

    def call_body(self, f, st, nid, cands, nd, args, argn):
        """analyse the candidate callees in this context; joins their effects"""
        key = (f["ctx"], nid)
        outs, rets = [], []
        lst = self.inl.setdefault(key, [])
        for j, (g, this) in enumerate(cands):
            c2 = f["ctx"] + ((nid, g.id),)
            if c2 not in lst:
                lst.append(c2)
            s2 = st.copy()
            for i, p in enumerate(g.params):
                t = self.p.type(p["t"])
                s2.env.pop(("alias", p["d"]), None)
                loc = ("var", p["d"], p["n"])
                for k in [k for k in s2.env if self._under(k, loc)]:
                    del s2.env[k]
                if i >= len(args):
                    s2.env[loc] = ("none",)
                    continue
                a = args[i]
                if t.endswith("&"):
                    if self.isloc(a):
                        s2.env[("alias", p["d"])] = a[1]
                    else:
                        s2.env[("alias", p["d"])] = loc
                        s2.env[loc] = a
                        if type(a) is tuple and a and a[0] == "ctor":
                            self.retarget(s2, ("tmpobj", f["ctx"], argn[i]), loc)
                            s2.env.pop(loc, None)
                            if len(a) == 2:
                                s2.env[loc] = ("default", a[1])
                            # parts known through retarget stay readable
                            if any(self._under(k, loc) for k in s2.env):
                                s2.env.pop(loc, None)
                else:
                    if self.isloc(a):
                        s2.env.update(self.parts(st, a[1], loc))
                    s2.env[loc] = self.rval(st, a)
                    self.record(f, nid, "p%d.%d" % (j, i), kind="decl", loc=loc, val=s2.env[loc], facts=st.facts, op="param")
            if "(lambda at" in (self.p.type(g.info.get("clsT")) if g.info.get("clsT") is not None else "") or "::(lambda" in g.n:
                this = f["this"]        # the captured one
            out, r = self.body(g, c2, this, s2)
            if out is not None:
                if self.isloc(r) and r is not None:
                    pass
                outs.append(out)
                rets.append(r if r is not None else ("none",))
        if not outs:
            st.env[("dead",)] = ("c", 1)
            return ("none",)
        o = self.join(outs, None, 1)
        st.env, st.facts = o.env, o.facts
        if all(self.isloc(r) for r in rets):
            if len(set(rets)) == 1:
                return rets[0]
            return phi([self.load(st, r[1]) for r in rets])
        return phi([self.rval(st, r) for r in rets])

    def ev_Call(self, f, st, nid, nd):
        fn = f["fn"]
        c = list(nd.get("c", []))
        n = nd.get("n")
        if n is None:
            vals = [self.rv(f, st, x) for x in c]
            # call through a lambda value or pointer
            self.record(f, nid, "call", kind="call", name="<indirect>", args=vals, facts=st.facts, info=None, node=nd)
            return ("call", "<indirect>") + tuple(vals)
        short = n.rsplit("::", 1)[-1]
        info = self.p.fntable[nd["fn"]]
        member = bool(nd.get("m"))
        clsshort = info.get("cls", "").rsplit("::", 1)[-1]
        if member:
            objn, argn = c[0], c[1:]
        else:
            objn, argn = None, c
        if n in self.pure:
            # summarised by the rule: an event and a named result, no other effect
            ra = [self.rv(f, st, a) for a in argn]
            obj = None
            if member:
                ov = self.val(f, st, objn)
                obj = ov[1] if self.isloc(ov) else ov
                if type(obj) is tuple and obj and obj[0] == "addr":
                    obj = obj[1]
            r = ("call", n, obj) + tuple(ra)
            self.record(f, nid, "call", kind="call", name=n, obj=obj, args=ra, facts=st.facts, info=info, node=nd, ret=r, pre=dict(st.env),
                        val=tuple(self.objof(f, st, a) for a in argn))
            for loc in self.pure[n]:
                if loc[0] == "arg":
                    # result handed back through a reference argument
                    a = self.val(f, st, argn[loc[1]])
                    if self.isloc(a):
                        self.setenv(st, a[1], ("out", n) + tuple(x for j, x in enumerate(ra) if j != loc[1]))
                    continue
                self.killfacts(st, loc)
                st.env[loc] = ("after", short, nid, loc)
            return r
        # ---------------- smart pointers and iterators
        if short == "operator->" or (short == "operator*" and len(c) == 1):
            v = self.rv(f, st, c[0])
            if short == "operator->":
                return v
            if type(v) is tuple and v and v[0] == "addr":
                return ("L", v[1])
            return ("L", ("deref", v))
        if clsshort in TRANSPARENT_PTR or (clsshort.startswith("__shared_ptr")):
            if short == "get":
                return self.rv(f, st, c[0])
            if short == "operator=":
                loc = self.lv(f, st, c[0])
                self.store(f, st, nid, loc, self.rv(f, st, c[1]))
                return ("L", loc)
            if short == "reset":
                loc = self.lv(f, st, c[0])
                self.store(f, st, nid, loc, self.rv(f, st, c[1]) if len(c) > 1 else ("c", 0))
                return ("none",)
            if short in ("operator bool", "(conv)"):
                return self.rv(f, st, c[0])
        if short in ("move", "forward", "ref", "cref", "addressof") and not info["repo"] and len(argn) == 1 and not member:
            v = self.val(f, st, argn[0])
            if short == "addressof":
                return ("addr", v[1]) if self.isloc(v) else v
            return v
        if short in ("static_pointer_cast", "dynamic_pointer_cast", "const_pointer_cast") and len(argn) == 1:
            return self.rv(f, st, argn[0])
        if short in ("make_shared", "make_unique") and not info["repo"]:
            ra = [self.rv(f, st, a) for a in argn]
            ta = info.get("ta", ["?"])
            obj = ("new", ta[0] if ta else "?", fn.where(nid))
            for k in [k for k in st.env if self._under(k, obj)]:
                del st.env[k]
            self.record(f, nid, "new", kind="new", name=obj[1], val=obj, facts=st.facts, args=ra)
            # construct
            for g in self.p.fns.values():
                if g.info.get("k") == "ctor" and not g.imp and self.p.type(g.info.get("clsT")) == obj[1] and len(g.params) == len(argn):
                    if g.id not in self.stack:
                        self.call_body(f, st, nid, [(g, obj)], nd, [self.val(f, st, a) for a in argn], argn)
                    break
            return obj
        if short in ("prev", "next") and n.startswith("std::") and argn:
            k = self.rv(f, st, argn[1]) if len(argn) > 1 and fn.nodes[argn[1]]["k"] != "CXXDefaultArgExpr" else ("c", 1)
            return ("op", "-" if short == "prev" else "+", self.rv(f, st, argn[0]), k)
        if short == "__builtin_expect" and argn:
            return self.rv(f, st, argn[0])
        # ---------------- fusion sequence access
        if not info["repo"] and short in ("at", "at_c") and n.startswith("boost::fusion") and argn:
            idx = None
            for x in info.get("ta", []):
                if isinstance(x, int):
                    idx = x
                    break
                mm = re.search(r"(?:mpl_::int_|integral_c<int, |mpl_::long_|enum)<?\(?(\d+)", x) if isinstance(x, str) else None
                if mm:
                    idx = int(mm.group(1))
                    break
            return ("L", ("elem", self.lv(f, st, argn[0]), ("acc", "state", ("c", idx))))
        if not info["repo"] and short == "for_each" and n.startswith("boost::fusion"):
            return self.for_each(f, st, nid, nd, argn, info)
        # ---------------- assignment operators
        if short in ("operator=",) and member and nd.get("op") == "=" and nd["fn"] not in self.p.fns or (
                short == "operator=" and member and nd["fn"] in self.p.fns and self.p.fns[nd["fn"]].imp):
            if len(c) == 2:
                v = self.rv(f, st, c[1])
                loc = self.lv(f, st, c[0])
                al = n.startswith("Eigen::") and self.aliased(f, st, c[0], c[1], loc)
                parts = self.copied(f, st, c[1], loc) if not n.startswith("Eigen::") else {}
                self.store(f, st, nid, loc, v)
                st.env.update(parts)
                if al:
                    self.events[(f["ctx"], nid, "w")].alias = True
                return ("L", loc)
        if nd.get("op") in ("+=", "-=", "*=", "/=") and nd["fn"] not in self.p.fns:
            v = self.rv(f, st, c[1])
            loc = self.lv(f, st, c[0])
            self.store(f, st, nid, loc, ("op", nd["op"][0], self.load(st, loc), v), nd["op"])
            return ("L", loc)
        if nd.get("op") in ("++", "--") and nd["fn"] not in self.p.fns:
            loc = self.lv(f, st, c[0])
            old = self.load(st, loc)
            new = ("op", nd["op"][0], old, ("c", 1))
            self.record(f, nid, "call", kind="call", name=n, args=[], obj=loc, facts=st.facts, info=info, node=nd, old=old, op=nd["op"])
            self.store(f, st, nid, loc, new, nd["op"])
            return old if len(c) > 1 else ("L", loc)
        if nd.get("op") == "<<" and not info["repo"]:
            lhs = self.val(f, st, c[0])
            t0 = self.p.type(fn.nodes[c[0]].get("t"))
            if "Eigen" in t0:
                v = self.rv(f, st, c[1])
                loc = lhs[1] if self.isloc(lhs) else ("deref", lhs)
                self.store(f, st, nid, loc, ("comma", v), "<<")
                return ("ci", loc)
            r = self.rv(f, st, c[1])
            self.record(f, nid, "call", kind="call", name="operator<<", args=[self.rval(st, lhs), r], facts=st.facts, info=info, node=nd)
            return lhs
        if nd.get("op") == "," and not info["repo"]:
            l = self.val(f, st, c[0])
            if type(l) is tuple and l and l[0] == "ci":
                loc = l[1]
                cur = self.load(st, loc)
                v = self.rv(f, st, c[1])
                nv = cur + (v,) if type(cur) is tuple and cur and cur[0] == "comma" else ("comma", v)
                if len(nv) <= 40:
                    self.store(f, st, nid, loc, nv, "<<")
                return l
        if short == "finished" and member and n.startswith("Eigen::"):
            l = self.val(f, st, objn)
            if type(l) is tuple and l and l[0] == "ci":
                return self.load(st, l[1])
        # ---------------- functions of the repository
        args = [self.val(f, st, x) for x in argn]
        ra = [self.rval(st, a) for a in args]
        if member:
            this = self.objid(f, st, objn, nd.get("ar"))
        else:
            this = ("none",)
        cands = []
        if nd["fn"] in self.p.fns or nd.get("v"):
            ids = sorted(self.p.overriders(nd["fn"])) if nd.get("v") else [nd["fn"]]
            for i in ids:
                g = self.p.fns.get(i)
                if g is not None and g.blocks and not (self.vfilter and nd.get("v") and not self.vfilter(g, this)):
                    cands.append(g)
        inl = [g for g in cands if g.id not in self.stack and len(self.stack) < self.maxdepth and
               g.n not in self.noinline and not self.opaque(g)]
        self.record(f, nid, "call", kind="call", name=n, obj=this, args=ra, facts=st.facts, info=info, inl=bool(inl), node=nd,
                    val=tuple(a[1] if self.isloc(a) else None for a in args))
        if inl:
            r = self.call_body(f, st, nid, [(g, this) for g in inl], nd, args, argn)
            e = self.events[(f["ctx"], nid, "call")]
            e.ret = self.rval(st, r)
            return r
        # ---------------- library / opaque call
        v = self.library(f, st, nid, nd, info, short, clsshort, member, objn, argn, args, ra)
        self.events[(f["ctx"], nid, "call")].ret = self.rval(st, v)
        return v

    def aliased(self, f, st, lhs, rhs, loc):
        """does an Eigen assignment overwrite coefficients that it has yet to read?"""
        fn = f["fn"]
        noalias = any(fn.nodes[x].get("n", "").endswith("::noalias") for x in self.descend(fn, lhs))

        def reads(x):
            return any((fn.nodes[y]["k"] in ("Ref", "Mem", "Call")) and self.val(f, st, y) == ("L", loc) for y in self.descend(fn, x))

        def walk(x):
            nd = fn.nodes[x]
            if nd["k"] == "Call":
                n = nd.get("n") or ""
                sh = n.rsplit("::", 1)[-1]
                if sh in ("eval", "inverse", "finished"):
                    return False
                if "Eigen::Product<" in self.p.type(nd.get("t")) or "Eigen::Product<" in str(self.p.fntable[nd["fn"]].get("ret", "") if n else ""):
                    return noalias and reads(x)
                if n.startswith("Eigen::") and sh in ("transpose", "adjoint", "reverse") and nd.get("m"):
                    return reads(x)
                if not n.startswith("Eigen::"):
                    return False
            return any(walk(y) for y in nd.get("c", []) if type(y) is int and y >= 0)
        return walk(rhs)

    @staticmethod
    def descend(fn, x):
        todo = [x]
        while todo:
            y = todo.pop()
            if type(y) is not int or y < 0:
                continue
            yield y
            todo += fn.nodes[y].get("c", [])

    def library(self, f, st, nid, nd, info, short, clsshort, member, objn, argn, args, ra):
        fn = f["fn"]
        n = info["n"]
        if n.startswith("Eigen::"):
            for a, v in zip(argn, ra):
                if self.p.type(fn.nodes[a].get("t")) in SCALARS:
                    self.scalars.add(v)
        # mutable reference / pointer arguments may be written
        am = nd.get("am", "")
        if short in FORWARDS and (n.startswith("std::") or n.startswith("boost::")):
            am = "v" * len(args)        # takes its arguments by forwarding reference, and only copies or moves from them
        for i, a in enumerate(args):
            mode = am[i] if i < len(am) else "?"
            if mode == "r" and self.isloc(a):
                self.store(f, st, nid, a[1], ("out", n, i) + tuple(x for j, x in enumerate(ra) if j != i), "out", "w%d" % i)
            elif mode in ("p", "?") and type(ra[i]) is tuple and ra[i] and ra[i][0] == "addr":
                self.store(f, st, nid, ra[i][1], ("out", n, i) + tuple(x for j, x in enumerate(ra) if j != i and not (type(x) is tuple and x and x[0] == "addr")), "out", "w%d" % i)
            elif mode in ("p",) and type(ra[i]) is tuple and ra[i] and n.split("::")[-1] in ("memcpy", "memmove", "memset", "snprintf", "sprintf", "strncpy"):
                self.store(f, st, nid, ("deref", ra[i]), ("out", n, i) + tuple(x for j, x in enumerate(ra) if j != i), "out", "w%d" % i)
        if not member:
            if nd.get("op") in ("==", "!=", "<", ">", "<=", ">=") and len(ra) == 2 and not n.startswith("Eigen::"):
                return ("op", nd["op"], ra[0], ra[1])
            if n in ("fabs", "std::fabs", "std::abs", "abs", "fabsf") and len(ra) == 1:
                return ("call", "fabs", ra[0])
            if short == "duration_cast":
                return ("call", n) + tuple(ra) + (("targs",) + tuple(str(x) for x in info.get("ta", [])[:1]),)
            return ("call", n) + tuple(ra)
        ov = self.val(f, st, objn)
        if nd.get("ar"):
            t = self.rval(st, ov)
            ov = ("L", t[1]) if type(t) is tuple and t and t[0] == "addr" else ("L", ("deref", t))
        if short in IDENT:
            return ov
        tail = ("acc", short) + tuple(ra)
        ta = [x for x in info.get("ta", []) if isinstance(x, int)]
        if ta and short in MATPROJ:
            tail = ("acc", short + "<%s>" % ",".join(map(str, ta))) + tuple(ra)
        if short in REFACC and (n.startswith("Eigen::") or n.startswith("std::") or n.startswith("boost::")):
            if short in ("operator()", "operator[]", "at", "coeffRef", "coeff"):
                tail = ("acc", "at") + tuple(ra)
            if short in ("vec", "coeffs", "data"):
                pass
            if self.isloc(ov):
                if ov[1] in self.versions and short == "operator[]":
                    cur = self.load(st, ov[1])
                    self.record(f, nid, "mut", kind="mut", name=n, loc=ov[1], args=ra, facts=st.facts, old=cur)
                    st.env[ov[1]] = ("mut", n, cur) + tuple(ra)
                return ("L", ("elem", ov[1], tail))
            return ("elem", ov, tail)
        if short in ("cbegin", "cend"):
            o = ov[1] if self.isloc(ov) else ov
            return ("call", n[:-len(short)] + short[1:], o) + tuple(ra)
        if short in ("begin", "end", "find", "lower_bound", "upper_bound", "size", "empty", "rbegin", "rend", "count", "equal_range", "contains"):
            o = ov[1] if self.isloc(ov) else ov
            if o in self.versions:
                o = st.env.get(o, o)
            return ("call", n, o) + tuple(ra)
        if n.startswith("Eigen::") and short in ("setZero", "setIdentity", "setOnes", "setConstant", "normalize", "transposeInPlace",
                                                   "fill", "conservativeResize", "resize", "reverseInPlace", "setRandom") and self.isloc(ov):
            cur = self.load(st, ov[1])
            self.store(f, st, nid, ov[1], ("mut", short, cur) + tuple(ra), short)
            return ov
        if not nd.get("mc") and self.isloc(ov) and not (n.startswith("Eigen::")):
            cur = self.load(st, ov[1])
            root = self.rootloc(ov[1])
            self.record(f, nid, "mut", kind="mut", name=n, loc=ov[1], args=ra, facts=st.facts, old=cur)
            if short not in ("operator<<", "write", "setf", "precision", "width", "flags"):
                st.env.pop(("dead",), None)
                if ov[1] not in self.versions:
                    self.killfacts(st, root)
                if cur is not None and ov[1][0] != "deref":
                    st.env[ov[1]] = ("mut", n, cur) + tuple(ra) if size(cur) < 200 else ("mut", n, ("big",)) + tuple(ra)
                    base = self.ident(ov[1])
                    for k in [k for k in st.env if k[0] == "fld" and self._under(k, base)]:
                        del st.env[k]
            return ("call", n, cur) + tuple(ra)
        o = self.rval(st, ov)
        if nd.get("op") in ("==", "!=", "<", ">", "<=", ">=") and len(ra) == 1 and not n.startswith("Eigen::"):
            return ("op", nd["op"], o, ra[0])
        return ("call", n, o) + tuple(ra)

    # ------------------------------------------------------------ for_each
    def for_each(self, f, st, nid, nd, argn, info):
        fn = f["fn"]
        seq = self.lv(f, st, argn[0])
        fv = self.val(f, st, argn[1])
        t = re.sub(r"^const ", "", self.p.type(fn.nodes[argn[1]].get("t")))
        seqt = self.p.type(fn.nodes[argn[0]].get("t"))
        order = seqt
        ids = self.p._opcalls().get(t, [])
        insts = []
        for i in ids:
            g = self.p.fns[i]
            if not g.params:
                continue
            pt = self.p.type(g.params[0]["t"]).replace("const ", "").rstrip("& ").strip()
            if pt in order:
                m = re.search(r", (\d+), (-?\d+)(?:, (-?\d+))?>$", pt)
                m = re.search(r"StateVar_T<.*?, (\d+), -?\d+(?:, -?\d+)?>$", pt) or m
                idx = None
                mm = re.findall(r", (-?\d+)", pt[pt.rfind(">", 0, len(pt) - 1):]) if ">" in pt[:-1] else []
                if mm:
                    idx = int(mm[0])
                insts.append((idx if idx is not None else 99, pt, g))
        insts.sort(key=lambda x: (x[0], x[1]))
        self.record(f, nid, "call", kind="call", name="boost::fusion::for_each", obj=seq, args=[self.rval(st, fv), ("type", t)],
                    facts=st.facts, info=info, inl=True, node=nd, val=tuple(g.id for _, _, g in insts))
        lst = self.inl.setdefault((f["ctx"], nid), [])
        thisloc = fv[1] if self.isloc(fv) else ("tmpobj", f["ctx"], argn[1])
        for idx, pt, g in insts:
            if g.id in self.stack:
                continue
            c2 = f["ctx"] + ((nid, g.id),)
            if c2 not in lst:
                lst.append(c2)
            s2 = st.copy()
            s2.env[("alias", g.params[0]["d"])] = ("elem", seq, ("acc", "state", ("c", idx)))
            out, _ = self.body(g, c2, thisloc, s2)
            if out is not None:
                st.env, st.facts = out.env, out.facts
        return ("none",)

    # ------------------------------------------------------------ order graph
    def graph(self):
        """points: (ctx, block, i) before element i; edges in execution order.
        Returns Order, which answers path queries over events."""
        return Order(self)


class Order:
    """Execution-order graph of the events of one run."""

    def __init__(self, eng):
        self.e = eng
        self.succ = {}
        self.evat = {}
        for ctx, fn in eng.ctxfn.items():
            self._fn(ctx, fn)
        self.entry = ((), eng.root.entry, 0)
        self.exit = ((), eng.root.exit, "x")

    def _edge(self, a, b, facts=frozenset(), kind=""):
        self.succ.setdefault(a, []).append((b, facts, kind))

    def _fn(self, ctx, fn):
        e = self.e
        for b in fn.rpo:
            B = fn.blocks[b]
            els = B["e"]
            for i, nid in enumerate(els):
                p, q = (ctx, b, i), (ctx, b, i + 1)
                self.evat[p] = e.order.get((ctx, nid), [])
                sub = [c for c in e.inl.get((ctx, nid), []) if c in e.ctxfn]
                if sub:
                    isfe = any(x[2] == "call" and e.events[x].name == "boost::fusion::for_each" for x in self.evat[p])
                    mid = (ctx, b, i, "in")
                    self._edge(p, mid)
                    if isfe:
                        cur = mid
                        for c in sub:
                            g = e.ctxfn[c]
                            self._edge(cur, (c, g.entry, 0))
                            cur = (c, g.exit, "x")
                        self._edge(cur, q)
                    else:
                        for c in sub:
                            g = e.ctxfn[c]
                            self._edge(mid, (c, g.entry, 0))
                            self._edge((c, g.exit, "x"), q)
                else:
                    self._edge(p, q)
            end = (ctx, b, len(els))
            if b == fn.exit:
                self._edge(end, (ctx, b, "x"))
                continue
            if B.get("noret"):
                continue
            for k, s in enumerate(B["s"]):
                if s is None or (ctx, b, k) in e.pruned:
                    continue
                kind = "back" if (b, s) in fn.back else "logic" if B.get("term") in ("&&", "||", "BinaryOperator", "ConditionalOperator") else ""
                self._edge(end, (ctx, s, 0), e.edgefacts.get((ctx, b, k), frozenset()), kind)

    def events(self):
        for k, ev in self.e.events.items():
            yield ev

    def point(self, ev):
        fn = ev.fn
        for b in fn.rpo:
            for i, nid in enumerate(fn.blocks[b]["e"]):
                if nid == ev.nid:
                    return (ev.ctx, b, i)
        return None

    def path(self, start, goal, avoid=None, avoid_edge=None, include_start=False):
        """A path from point `start` to an event satisfying goal (or the exit,
        goal='exit') with no event satisfying `avoid` on the way.  Returns the
        list of events along it, or None.  Events of one node are visited in
        order, the callee's events after the call event itself."""
        from collections import deque
        none = frozenset()
        s0 = (start, none) if include_start else (start, None)      # the start itself can be reached again
        dq = deque([s0])
        par = {s0: None}
        while dq:
            state = dq.popleft()
            p, mem = state
            mem = mem or none
            blocked = False
            if not (state == s0 and not include_start):
                for k in self.evat.get(p, []):
                    ev = self.e.events[k]
                    if goal != "exit" and goal(ev):
                        return self._trace(par, state) + [ev]
                    if avoid and avoid(ev):
                        blocked = True
                        break
            if blocked:
                continue
            if p == self.exit and goal == "exit":
                return self._trace(par, state)
            for q, facts, kind in self.succ.get(p, []):
                m = mem
                if facts:
                    # operands of a short-circuit operator decided on the way here
                    if mem:
                        if any((f, not pol) in mem for f, pol in facts):
                            continue
                        if any(len(f) == 4 and f[0] == "op" and f[1] in ("&&", "||") for f, pol in facts):
                            new = set()
                            for f, pol in facts:
                                new |= implied_under(f, pol, mem)
                            facts = frozenset(new)
                            if any((f, not pol) in mem for f, pol in facts):
                                continue
                    m = mem | facts if kind == "logic" else none
                if kind == "back":
                    m = none
                if (q, m) in par:
                    continue
                if avoid_edge and facts and avoid_edge(facts):
                    continue
                par[(q, m)] = state
                dq.append((q, m))
        return None

    def _trace(self, par, s):
        out = []
        while s is not None:
            for k in reversed(self.evat.get(s[0], [])):
                out.append(self.e.events[k])
            s = par[s]
        return out[::-1]

    def must_precede(self, target, pre, avoid_edge=None):
        """every path from entry to an event `target` passes an event `pre`; returns counterexample path or None"""
        return self.path(self.entry, target, avoid=pre, avoid_edge=avoid_edge, include_start=True)

    def must_follow(self, ev, post, avoid_edge=None):
        return self.path(self.point(ev), "exit", avoid=post, avoid_edge=avoid_edge)

    def reaches(self, ev, target, avoid=None, avoid_edge=None):
        return self.path(self.point(ev), target, avoid=avoid, avoid_edge=avoid_edge)


def brief(path, n=14):
    out = []
    for ev in path:
        if ev.kind in ("call", "write", "ret"):
            s = "%s %s" % (ev.kind, ev.name if ev.kind == "call" else (show(ev.loc)[:80] if ev.kind == "write" else ""))
            if "operator<<" in s or "operator->" in s:
                continue
            out.append("%s @ %s" % (s, ev.where()))
    if len(out) > n:
        out = out[:n // 2] + ["..."] + out[-n // 2:]
    return out
