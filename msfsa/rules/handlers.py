"""The sensor handlers of a unit: callbacks that build a measurement and hand it to the filter."""
from .core import *

ADD = C + "AddMeasurement"
PARAM = ("param",)
HU = ("pose", "pose_pressure", "position", "position_pose", "spherical")


def hunits(cx):
    return fetch(cx, HU)


def funnels(p):
    """functions outside the filter that hand it measurements themselves"""
    return [f for f in p.repo_fns() if f.blocks and not f.n.startswith("msf_core::MSF_Core::") and
            any(c_.get("n") == ADD for c_ in f.nodes if c_ and c_["k"] == "Call")]


def runfunnel(cx, p, f, facts=frozenset(), **k):
    return cx.run(p, f, pure={ADD: ()}, facts=frozenset(facts), **k)


def added(e):
    return [v for v in e.events.values() if v.kind == "call" and v.name == ADD]


def params(cx, p, f):
    """{parameter name: (event, location)} read in a constructor"""
    e, g = cx.run(p, f)
    out = {}
    for v in e.events.values():
        if v.kind == "call" and short(v.name) == "param" and "ros::" in v.name and len(v.args) >= 2:
            n = v.args[0]
            out.setdefault(strval(n), []).append((v, v.val[1] if v.val else None))
    return e, g, out


def strval(t):
    if type(t) is tuple and t and t[0] == "str":
        return t[1]
    for x in subterms(t) if type(t) is tuple else ():
        if x and x[0] == "str":
            return x[1]
    return repr(t)[:40]


def handlerclass(f):
    return f.info.get("cls")


def ctors(p, cls):
    return [f for f in p.repo_fns() if f.info.get("k") == "ctor" and f.info.get("cls") == cls and f.blocks and not f.imp]
