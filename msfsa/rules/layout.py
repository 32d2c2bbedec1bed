"""The state vector of a unit: which variable sits where."""
from .core import *


def targs(t, name):
    """template arguments of the first `name<...>` in a type"""
    t = t.replace("const ", "")
    i = t.index(name + "<") + len(name) + 1
    d, cur, out = 0, "", []
    for ch in t[i:]:
        if ch in "<(":
            d += 1
        if ch in ">)":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        cur += ch
    out.append(cur.strip())
    return out


class Var:
    """one state variable: slot, name, quaternion or vector, sizes and offsets"""

    def __init__(self, slot, t):
        a = targs(t, "StateVar_T")
        self.slot = slot
        self.index = int(a[1])
        self.type = a[0]
        self.quat = "Quaternion" in a[0]
        self.n = 4 if self.quat else int(targs(a[0], "Matrix")[1])
        self.nc = 3 if self.quat else self.n
        self.kind = int(a[2]) if len(a) > 2 else 2
        self.opts = int(a[3]) if len(a) > 3 else 0
        self.name = None
        self.off = self.offc = None

    @property
    def core(self):
        return self.kind in (0, 1)

    def __repr__(self):
        return "%s@%d/%d" % (self.name, self.off, self.offc)


_lay = {}


def layout(cx, p):
    """[Var] in order of the sequence; offsets as sums of the sizes before"""
    if id(p) in _lay:
        return _lay[id(p)]
    rec = [r for r in p.records if r["n"] == "msf_core::GenericState_T"]
    cx.need(len(rec) == 1, "the state type of unit %s" % p.name)
    vs = [Var(i, t) for i, t in enumerate(targs(rec[0]["ta"][0], "vector"))]
    en = [e for e in p.enums if e["n"] == rec[0]["ta"][1]]
    cx.need(en, "the state definition of unit %s" % p.name)
    names = {v: k for k, v in en[0]["e"]}
    o = oc = 0
    for v in vs:
        v.name = names.get(v.index)
        v.off, v.offc = o, oc
        o += v.n
        oc += v.nc
    _lay[id(p)] = L = Layout(vs, o, oc, rec[0], en[0])
    return L


class Layout(list):
    def __init__(self, vs, n, nc, rec, enum):
        list.__init__(self, vs)
        self.n, self.nc, self.rec, self.enum = n, nc, rec, enum

    def __getitem__(self, k):
        if type(k) is str:
            return next((v for v in self if v.name == k), None)
        return list.__getitem__(self, k)

    def __contains__(self, k):
        return any(v.name == k for v in self)


def var(state, v):
    """the value of a state variable of a state object"""
    return ("fld", ("elem", ("fld", state, "statevars"), ("acc", "state", ("c", v.slot))), "state_")


def qblock(state, v):
    return ("fld", ("elem", ("fld", state, "statevars"), ("acc", "state", ("c", v.slot))), "Q")


def slice_of(t):
    """(vector, offset, length) of a part of a column vector"""
    if type(t) is not tuple or len(t) != 3 or t[0] != "elem" or t[2][0] != "acc":
        return None
    acc = t[2]
    n = acc[1]
    a = [x[1] if num(x) else None for x in acc[2:]]
    ta = []
    if "<" in n:
        ta = [int(x) for x in n[n.index("<") + 1:-1].split(",")]
        n = n[:n.index("<")]
    r = None
    if n == "block" and len(ta) == 2 and len(a) == 2 and a[1] == 0 and ta[1] == 1:
        r = (a[0], ta[0])
    elif n == "block" and len(a) == 4 and a[1] == 0 and a[3] == 1:
        r = (a[0], a[2])
    elif n == "segment" and len(ta) == 1 and len(a) == 1:
        r = (a[0], ta[0])
    elif n == "segment" and len(a) == 2:
        r = (a[0], a[1])
    elif n in ("middleRows",) and len(ta) == 1 and len(a) == 1:
        r = (a[0], ta[0])
    elif n in ("head", "topRows"):
        k = ta[0] if ta else (a[0] if a else None)
        r = (0, k)
    if r is None or None in r:
        return None
    return t[1], r[0], r[1]
