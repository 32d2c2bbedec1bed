"""Questions asked by the rules about one abstract run."""
from .engine import alts, brief, bounds, contains, decide, f32, implied, phi, show, simp, subterms, _num

num = _num
THIS = ("root", "this")


def fld(*names, base=THIS):
    t = base
    for n in names:
        t = ("fld", t, n)
    return t


def short(name):
    return name.rsplit("::", 1)[-1] if name else ""


def calls(e, *names):
    """call events whose callee's qualified name is, or ends with, one of `names`"""
    return [v for v in e.events.values() if v.kind == "call" and iscall(v, *names)]


def iscall(v, *names):
    return v.kind == "call" and v.name and any(v.name == n or v.name.endswith("::" + n) for n in names)


def callp(*names):
    return lambda v: iscall(v, *names)


def writes(e, loc=None, pred=None):
    return [v for v in e.events.values() if v.kind == "write" and (loc is None or v.loc == loc) and (pred is None or pred(v))]


def exitval(e, loc):
    return e.final.env.get(loc, loc) if e.final is not None else None


def subst(t, m):
    if t in m:
        return m[t]
    if type(t) is tuple:
        return tuple(subst(x, m) if type(x) in (tuple, frozenset) else x for x in t)
    if type(t) is frozenset:
        return frozenset(subst(x, m) for x in t)
    return t


def key(t):
    return repr(t)


COMM = {"+", "*", "==", "!=", "&&", "||"}


def canon(t):
    """scalar expressions up to commutativity / associativity of + and *, and
    a - b = a + (-1)*b ; other operators are left as they are"""
    if type(t) is not tuple or not t:
        return t
    if t[0] == "phi":
        return ("phi", frozenset(canon(x) for x in t[1]))
    if t[0] == "op" and t[1] in ("+", "-", "*", "neg", "/") or t[0] == "c":
        p = poly(t)
        return ("poly", frozenset(p.items()))
    return tuple(canon(x) if type(x) is tuple else x for x in t)


def poly(t):
    """commutative polynomial: {sorted tuple of (atom): coeff}"""
    if _num(t):
        return {(): t[1]} if t[1] != 0 else {}
    if type(t) is tuple and t and t[0] == "op":
        if t[1] in ("+", "-") and len(t) == 4:
            a, b = dict(poly(t[2])), poly(t[3])
            s = 1 if t[1] == "+" else -1
            for k, v in b.items():
                a[k] = a.get(k, 0) + s * v
                if a[k] == 0:
                    del a[k]
            return a
        if t[1] == "neg":
            return {k: -v for k, v in poly(t[2]).items()}
        if t[1] == "*" and len(t) == 4:
            a, b = poly(t[2]), poly(t[3])
            if len(a) * len(b) <= 64:
                out = {}
                for k, v in a.items():
                    for k2, v2 in b.items():
                        kk = tuple(sorted(k + k2, key=repr))
                        out[kk] = out.get(kk, 0) + v * v2
                        if out[kk] == 0:
                            del out[kk]
                return out
        if t[1] == "/" and len(t) == 4:
            b = poly(t[3])
            if len(b) == 1 and () in b and b[()] != 0:
                return {k: v / b[()] for k, v in poly(t[2]).items()}
            a = poly(t[2])
            inv = ("inv", canon(t[3]))
            return {tuple(sorted(k + (inv,), key=repr)): v for k, v in a.items()}
    return {(canon_atom(t),): 1}


def canon_atom(t):
    if type(t) is tuple and t and t[0] == "cast" and len(t) == 3 and t[1] not in ("f2i", "f32"):
        return canon_atom(t[2])
    return tuple(canon(x) if type(x) is tuple else x for x in t) if type(t) is tuple else t


def same(a, b):
    return a == b or canon(a) == canon(b)


def allalts(t, pred):
    return all(pred(a) for a in alts(t))


def rounds_to(v):
    return abs(v)


def order_before(g, a, b):
    """is there a path on which event a happens and b afterwards"""
    return g.reaches(a, lambda v: v is b) is not None
