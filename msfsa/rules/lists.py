"""A time-ordered buffer with known contents: positions, objects and times of the terms about it are numbers.

Used with settle(): every comparison a lookup makes then has a value, whatever form it takes."""
from .core import *
from .flow import *

M = "std::map::"
ITREF = ("begin", "end", "find", "lower_bound", "upper_bound", "rbegin", "rend", "equal_range", "size", "empty", "count", "at", "cbegin", "cend", "contains", "max_size", "crbegin", "crend", "key_comp")
OBJ = 5000          # the number of the i-th object is OBJ + i, of the 'none' object OBJ - 1
FOREIGN = OBJ + 4000
NONE = "no object"


class List:
    """terms about a container holding objects at the given times"""

    def __init__(self, ts, m, inv, vals=None, foreign=None, ids=None):
        """vals: numbers of terms; foreign: (term, its time) of an object that is not in the buffer"""
        self.ts, self.n, self.m, self.inv, self.vals, self.foreign = tuple(ts), len(ts), m, inv, vals or {}, foreign
        self.ids = ids if ids is not None else [OBJ + i for i in range(self.n)]
        self.versions = {m: self}           # the buffer's value after each change -> its contents
        self.cur, self.fresh = 0, ()        # objects removed so far, and the queries made since

    def pos(self, t):
        """index of an iterator term (n: the end), None if unknown"""
        if type(t) is tuple and len(t) == 2 and t[0] in ("L", "phi", "tmp"):
            if t[0] == "phi":
                ps = {self.pos(x) for x in t[1]}
                return ps.pop() if len(ps) == 1 else None
            return self.pos(t[1])
        if type(t) is not tuple or not t:
            return None
        if t[0] == "op" and t[1] in ("+", "-") and len(t) == 4 and num(t[3]):
            b = self.pos(t[2])
            r = t[2]
            while type(r) is tuple and r[:1] == ("op",) and len(r) == 4:
                r = r[2]
            if b is not None and type(r) is tuple and r[:1] == ("call",) and short(r[1]) in ("rbegin", "rend", "crbegin", "crend"):
                return b - (int(t[3][1]) if t[1] == "+" else -int(t[3][1]))
            return None if b is None else b + (int(t[3][1]) if t[1] == "+" else -int(t[3][1]))
        if t[0] == "condv":
            c = truth(t[1], self.leaf)
            return None if c is None else self.pos(t[2] if c else t[3])
        if t[0] == "fld" and t[2] in ("first", "second") and type(t[1]) is tuple and t[1][:1] == ("call",) and short(t[1][1]) == "equal_range" and t[1][2] == self.m:
            k = evalnum(t[1][3], self.leaf)
            return None if k is None else sum(x < k for x in self.ts) if t[2] == "first" else sum(x <= k for x in self.ts)
        if t[0] == "call" and isinstance(t[1], str):
            n, own = short(t[1]), t[1].startswith(SC)
            if not own and not (t[1].startswith(M) and t[2] == self.m) and n not in ("next", "prev"):
                o = self.versions.get(t[2]) if t[1].startswith(M) and len(t) > 2 else None
                return o.pos(t) if o is not None and o is not self else None
            if n in ("next", "prev"):
                b = self.pos(t[2])
                k = int(t[3][1]) if len(t) > 3 and num(t[3]) else 1
                return None if b is None else b + k if n == "next" else b - k
            if n in ("begin", "cbegin", "GetIteratorBegin"):
                return self.cur if n in self.fresh else 0
            if n in ("end", "cend", "GetIteratorEnd"):
                return self.n
            if n in ("rbegin", "crbegin"):
                return self.n - 1
            if n in ("rend", "crend"):
                return -1
            k = evalnum(t[3], self.leaf) if len(t) == 4 else None
            if k is None:
                return None
            lb, ub = sum(x < k for x in self.ts), sum(x <= k for x in self.ts)
            if n == "lower_bound":
                return lb
            if n == "upper_bound":
                return ub
            if n in ("find", "GetIteratorAtValue"):
                return lb if lb != ub else (self.n if n == "find" else lb)
            if n in ("GetIteratorClosestBefore", "GetClosestBefore"):
                return lb - 1 if lb else (self.n if "Iterator" in n else 0)
            if n in ("GetIteratorClosestAfter", "GetClosestAfter"):
                return ub
            if n in ("GetIteratorClosest", "GetClosest"):
                if not self.n:
                    return self.n
                return min(range(self.n), key=lambda i: (abs(self.ts[i] - k), i))
        return None

    def obj(self, t):
        """index of an object term, -1: the 'none' object"""
        if type(t) is tuple and len(t) == 2 and t[0] in ("L", "deref"):
            return self.obj(t[1])
        if t == self.inv:
            return -1
        if type(t) is tuple and t[:1] == ("condv",):
            c = truth(t[1], self.leaf)
            return None if c is None else self.obj(t[2] if c else t[3])
        if type(t) is tuple and t[:1] == ("phi",):
            ps = {self.obj(x) for x in t[1]}
            return ps.pop() if len(ps) == 1 else None
        if type(t) is tuple and t[:1] == ("fld",) and t[2] == "second":
            i = self.pos(t[1])
            h = self.home(t[1])
            if h is not self and i is not None:
                return self.ids.index(h.ids[i]) if 0 <= i < h.n and h.ids[i] in self.ids else None
            return i
        if type(t) is tuple and t[:1] == ("call",) and isinstance(t[1], str) and t[1].startswith(SC):
            n = short(t[1])
            if n == "GetLast":
                return self.n - 1
            if n == "GetFirst":
                c = self.cur if n in self.fresh else 0
                return c if self.n > c else -1
            if n == "GetInvalid":
                return -1
            if n.startswith("Get") and "Iterator" not in n:
                i = self.pos(t)
                return None if i is None else i if i < self.n else -1
        if type(t) is tuple and t[:1] == ("call",) and short(t[1]) == "operator*":
            return self.obj(t[2])
        return None

    def leaf(self, t):
        if type(t) is not tuple or not t:
            return None
        if t in self.vals:
            return self.vals[t]
        if t[0] == "condv":
            c = truth(t[1], self.leaf)
            return None if c is None else evalnum(t[2] if c else t[3], self.leaf)
        if t[0] == "cast" and len(t) == 3 and t[1] == "f2i":
            a = evalnum(t[2], self.leaf)
            return None if a is None else int(a)
        if t[0] == "fld" and t[2] == "time":
            if self.foreign and t[1] in (self.foreign[0], ("deref", self.foreign[0])):
                return self.foreign[1]
            i = self.obj(t[1])
            return None if i is None else -1 if i == -1 else self.ts[i] if 0 <= i < self.n else None
        if t[0] == "fld" and t[2] == "first" and not (type(t[1]) is tuple and t[1][:1] == ("call",) and short(t[1][1]) == "equal_range"):
            i, h = self.pos(t[1]), self.home(t[1])
            return None if i is None or not 0 <= i < h.n else h.ts[i]
        if t[0] == "call" and isinstance(t[1], str) and (t[1].startswith(SC) or len(t) > 2 and t[2] == self.m):
            c = self.cur if short(t[1]) in self.fresh else 0
            if short(t[1]) in ("size", "Size"):
                return self.n - c
            if short(t[1]) == "empty":
                return int(self.n == c)
            if short(t[1]) in ("count", "contains") and len(t) == 4:
                k = evalnum(t[3], self.leaf)
                return None if k is None else int(k in self.ts)
        if t[0] == "call" and short(t[1]) == "distance" and len(t) == 4:
            a, b = self.pos(t[2]), self.pos(t[3])
            return None if None in (a, b) else b - a
        p = self.pos(t)
        if p is not None:
            return p
        o = self.obj(t)
        if o is not None and -1 <= o < self.n:
            return OBJ - 1 if o < 0 else self.ids[o]
        if self.foreign and t in (self.foreign[0], ("deref", self.foreign[0])):
            return FOREIGN
        return None

    def home(self, t):
        """the contents an iterator term refers to"""
        while type(t) is tuple and t:
            if t[0] == "call" and isinstance(t[1], str) and t[1].startswith(M) and len(t) > 2:
                return self.versions.get(t[2], self)
            if t[0] == "condv":
                t = t[2] if truth(t[1], self.leaf) is not False else t[3]
            elif t[0] in ("op", "L", "tmp", "fld"):
                t = t[2] if t[0] == "op" else t[1]
            elif t[0] == "call" and len(t) > 2:
                t = t[2]
            elif t[0] == "phi":
                t = next(iter(t[1]))
            else:
                break
        return self

    def live(self, t):
        """subterms that are evaluated: not those in the other branch of a decided conditional"""
        todo = [t]
        while todo:
            x = todo.pop()
            if type(x) is not tuple or not x:
                continue
            yield x
            if x[0] == "condv" and len(x) == 4:
                c = truth(x[1], self.leaf)
                todo += [x[1]] + ([x[2]] if c is not False else []) + ([x[3]] if c is not True else [])
            elif x[0] == "op" and len(x) == 4 and x[1] in ("&&", "||"):
                c = truth(x[2], self.leaf)
                todo += [x[2]] + ([x[3]] if c is None or c == (x[1] == "&&") else [])
            else:
                todo += [y for y in x if type(y) is tuple]




INSERTS = ("insert", "emplace", "emplace_hint", "try_emplace")


class Replay:
    """what a run through an operation leaves in a buffer with known contents.

    now: time -> number of the object filed there; problems found on the way are collected."""

    def __init__(self, L, e, g, objs):
        self.L, self.e, self.g = L, e, g
        self.now = {t: L.ids[i] for i, t in enumerate(L.ts)}
        self.times = dict(objs)           # object -> its time
        self.problems, self.unknown, self.results = [], [], {}
        self.value, self.contents = L.m, {L.m: dict(self.now)}
        path = g.path(g.entry, "exit", include_start=True) or []
        every = [v for v in e.events.values() if self.touches(v)]
        for v in every:
            if v not in path:       # a change that happens on another way through
                self.unknown.append((v, "whether %s happens" % (short(v.name) if v.name else "the write")))
        for v in [x for x in path if x in every]:
            n = short(v.name) if v.name else "the write"
            if g.path(g.entry, "exit", avoid=lambda x, v=v: x is v, include_start=True) is not None:
                self.unknown.append((v, "whether %s happens" % n))
                break
            if g.reaches(v, lambda x, v=v: x is v) is not None:
                self.unknown.append((v, "how often %s happens" % n))
                break
            before = len(self.unknown)
            self.step(v)
            if len(self.unknown) > before:
                break

    def touches(self, v):
        L = self.L
        if v.kind == "mut" and v.loc == L.m:
            return short(v.name) not in ITREF
        if v.kind == "write" and v.loc is not None:
            if v.loc == L.m or contains(v.loc, L.m) and v.op != "out" and rootof(v.loc) == rootof(L.m) and v.loc[:1] in (("elem",),) or v.loc[:1] == ("fld",) and v.loc[2] == "second" and contains(v.loc, L.m):
                return True
            return v.loc[:1] == ("fld",) and v.loc[2] == "time" and self.object(v.loc[1]) is not None
        return v.kind == "mut" and v.loc is not None and (v.loc[:1] == ("elem",) and v.loc[1] == L.m or v.loc[:1] == ("fld",) and v.loc[2] == "second" and contains(v.loc, L.m) and short(v.name) in ("operator=", "reset", "swap"))

    def num(self, t):
        return evalnum(t, self.L.leaf)

    def object(self, t):
        for x in alts(t):
            while type(x) is tuple and len(x) == 2 and x[0] in ("L", "tmp"):
                x = x[1]
            if type(x) is tuple and x[:1] == ("fld",) and x[2] == "second":
                k = self.key(x[1])
                d = self.contents.get(self.L.home(x[1]).m, self.now)
                d = self.now if x[1] in self.results or type(x[1]) is tuple and x[1][:1] == ("fld",) and x[1][1] in self.results else d
                if k is not None:
                    return d.get(k, NONE)
            k = evalnum(x, self.L.leaf)
            if k is not None and k >= OBJ - 1:
                return int(k)
        return None

    def key(self, t):
        """time at which the element an iterator points to is filed; END if to none"""
        for x in alts(t):
            while type(x) is tuple and len(x) == 2 and x[0] in ("L", "tmp"):
                x = x[1]
            if type(x) is tuple and x[:1] == ("fld",) and x[2] == "first" and x[1] in self.results:
                return self.results[x[1]]
            if x in self.results:
                return self.results[x]
            if type(x) is tuple and x[:1] == ("condv",):
                c = truth(x[1], self.L.leaf)
                if c is not None:
                    return self.key(x[2] if c else x[3])
            i, h = self.L.pos(x), self.L.home(x)
            if i is not None:
                return h.ts[i] if 0 <= i < h.n else "the end"
        return None

    def index(self, t):
        """key of operator[] or at()"""
        return self.num(t[2] if type(t) is tuple and t[:1] == ("acc",) and len(t) == 3 else t)

    def version(self, v):
        """the value the buffer has after the change"""
        L = self.L
        ks = sorted(self.now)
        # the assignment to an element changes what the value made by operator[] holds
        new = ("mut", v.name, self.value) + tuple(v.args) if v.kind == "mut" else self.value
        c = List(ks, new, L.inv, L.vals, L.foreign, [self.now[k] for k in ks])
        c.versions = L.versions
        L.versions[new] = c
        self.contents[new] = dict(self.now)
        self.value = new

    def step(self, v):
        n = short(v.name) if v.kind == "mut" and v.name else "="
        if v.kind == "write" and v.loc[2:3] == ("time",):
            o, k = self.object(v.loc[1]), self.num(v.val)
            if k is None:
                self.unknown.append((v, "the time written: " + show(v.val)[:80]))
                return
            if o in self.now.values() and self.times.get(o) != k:
                self.problems.append((v, "before", "the time of an object changes while it is in the buffer"))
            self.times[o] = k
            return
        if n in INSERTS or n == "insert_or_assign":
            k, w = keyval(v)
            kn, wn = None if k is None else self.num(k), None if w is None else self.object(w)
            if kn is None or wn is None:
                self.unknown.append((v, "what is stored: %s" % show(tuple(v.args))[:100]))
                return
            took = kn not in self.now
            if n == "insert_or_assign" or took:
                self.now[kn] = wn
            for r in (("call", v.name, self.value) + tuple(v.args), v.ret):
                if r is not None:
                    self.results[r] = kn
                    self.L.vals[("fld", r, "second")] = int(took)
        elif n == "erase" and len(v.args) == 1:
            k = self.key(v.args[0])
            k = self.num(v.args[0]) if k is None else k
            if k is None or k == "the end":
                self.unknown.append((v, "what is taken out: %s" % show(tuple(v.args))[:100]))
                return
            self.now.pop(k, None)
        elif n == "erase" and len(v.args) == 2:
            a, b = self.key(v.args[0]), self.key(v.args[1])
            if a is None or b is None:
                self.unknown.append((v, "what is taken out: %s" % show(tuple(v.args))[:100]))
                return
            for k in list(self.now):
                if a != "the end" and k >= a and (b == "the end" or k < b):
                    del self.now[k]
        elif n == "clear":
            self.now.clear()
        elif n == "extract" and len(v.args) == 1:
            k = self.key(v.args[0])
            k = self.num(v.args[0]) if k is None else k
            self.now.pop(k, None)
        elif n == "operator[]" and len(v.args) == 1:
            k = self.num(v.args[0])
            if k is None:
                self.unknown.append((v, "what is stored: %s" % show(tuple(v.args))[:100]))
                return
            self.now.setdefault(k, None)
        elif v.loc[:1] == ("elem",) and self.index(v.loc[2]) is not None and (v.val is not None or v.args):
            self.now[self.index(v.loc[2])] = self.object(v.val if v.kind == "write" else v.args[-1])
        elif v.loc[:1] == ("fld",) and v.loc[2] == "second" and self.key(v.loc[1]) is not None and (v.val is not None or v.args):
            self.now[self.key(v.loc[1])] = self.object(v.val if v.kind == "write" else v.args[-1])
        else:
            self.unknown.append((v, "the effect of %s at %s" % (n, v.loc)))
            return
        self.version(v)


def keyval(v):
    """(key, value) of an insertion event"""
    a = list(v.args)
    if short(v.name) == "emplace_hint" and a:
        a = a[1:]
    if len(a) == 2 and not (short(v.name) == "insert" and type(a[1]) is tuple and a[1][:1] in (("call",), ("ctor",), ("pair",), ("brace",), ("list",))):
        return a[0], a[1]
    if a and type(a[-1]) is tuple and a[-1][0] in ("call", "ctor", "pair", "brace", "list"):
        t = a[-1]
        k = [x for x in t[1:] if type(x) is tuple]
        if len(k) >= 2:
            return k[-2], k[-1]
    return None, None
