"""What the rules about MSF_Core share: its members by role, the standard runs
of its entry points, and the notion of an observable effect."""
import re
from ..q import *
from ..q import _num
from ..build import AnalysisBroken

C = "msf_core::MSF_Core::"
SC = "msf_core::SortedContainer::"
INVALID = ("c", -1)
TRUE, FALSE = ("c", 1, "b"), ("c", 0, "b")

CALCQ = "CalcQCore"
LOGCALLS = ("operator<<", "ros::", "std::basic_stringstream", "std::setprecision", "std::fixed", "msf_core::timehuman")

UNITS = {"quick": ("pose", "pose_pressure", "position", "position_pose"), "thorough": ("pose", "pose_pressure", "position", "position_pose", "pose_dyn")}


def fetch(cx, us):
    """the units, extracted side by side"""
    cx.load(list(us))
    return us


def units(cx):
    return fetch(cx, UNITS["thorough" if cx.tier == "thorough" else "quick"])


class Roles:
    """members of MSF_Core by the part they play (name, or type if renamed)"""

    def __init__(self, cx, p):
        recs = p.rec_by_name.get("msf_core::MSF_Core", [])
        cx.need(recs, "class MSF_Core in unit %s" % p.name)
        fs = [(f["n"], p.types[f["t"]]) for f in recs[0]["fields"]]
        self.fields = fs

        def pick(name, pred):
            c = [n for n, t in fs if pred(t)]
            if name in c:
                return fld(name)
            if len(c) == 1:
                return fld(c[0])
            return None
        self.states = pick("stateBuffer_", lambda t: "SortedContainer<" in t and "MeasurementBase" not in t)
        self.meas = pick("MeasurementBuffer_", lambda t: "SortedContainer<" in t and "MeasurementBase" in t)
        self.queue = pick("queueFutureMeasurements_", lambda t: t.startswith("std::queue<") or t.startswith("std::deque<") or t.startswith("std::list<"))
        self.tp = pick("time_P_propagated", lambda t: t == "double")
        self.last = pick("it_last_IMU", lambda t: "_Rb_tree_iterator" in t)
        self.fuzzy = pick("fuzzyTracker_", lambda t: "CheckFuzzyTracking" in t)
        self.user = pick("usercalc_", lambda t: "MSF_SensorManager" in t)
        bools = [n for n, t in fs if t in ("bool", "std::atomic<bool>", "volatile bool")]
        self.init = self.pred = self.isfuzzy = None
        if "initialized_" in bools:
            self.init = fld("initialized_")
        if "predictionMade_" in bools:
            self.pred = fld("predictionMade_")
        if "isfuzzyState_" in bools:
            self.isfuzzy = fld("isfuzzyState_")
        if self.init is None or self.pred is None:
            fn = p.one(C + "Init")
            e, g = cx.run(p, fn, noinline=NOIN(p))
            t = [b for b in bools if exitval(e, fld(b)) == TRUE]
            fz = [b for b in bools if exitval(e, fld(b)) == FALSE]
            if self.init is None and len(t) == 1:
                self.init = fld(t[0])
            if self.pred is None and len(fz) == 1:
                self.pred = fld(fz[0])
        for k in ("states", "meas", "queue", "tp", "last", "fuzzy", "user", "init", "pred"):
            cx.need(getattr(self, k) is not None, "member of MSF_Core playing the role '%s'" % k)
        # the map inside a container
        sc = p.rec_by_name.get("msf_core::SortedContainer", [])
        cx.need(sc, "class SortedContainer")
        m = [f["n"] for f in sc[0]["fields"] if "std::map<" in p.types[f["t"]] or "std::multimap<" in p.types[f["t"]]]
        cx.need(len(m) == 1, "the map of SortedContainer")
        iv = [f["n"] for f in sc[0]["fields"] if f["n"] not in m]
        cx.need(len(iv) == 1, "the invalid prototype of SortedContainer")
        self.mapname, self.invname = m[0], iv[0]
        self.smap = ("fld", self.states, m[0])
        self.mmap = ("fld", self.meas, m[0])
        self.sinv = ("fld", self.states, iv[0])
        self.minv = ("fld", self.meas, iv[0])


_roles = {}


def roles(cx, p):
    if id(p) not in _roles:
        _roles[id(p)] = Roles(cx, p)
    return _roles[id(p)]


def NOIN(p):
    """functions kept opaque in every run of a core entry point"""
    return (CALCQ,)


def APPLIES(p):
    return tuple(sorted({f.n for f in p.repo_fns() if f.n.endswith("Measurement::Apply")}))


NOISE = re.compile(r"^(msf_timing::|ros::|std::basic_(string|o|i)|std::operator<<|operator<<)")


def rootof(loc):
    """the outermost object a location lies in"""
    while type(loc) is tuple and loc and loc[0] in ("fld", "elem", "deref", "addr", "L"):
        loc = loc[1]
    return loc


def outer(loc):
    """does the location outlive the call (member, static, or reached through a parameter)"""
    r = rootof(loc)
    if type(r) is tuple and r and r[0] == "glob" and r[1].startswith("std::"):
        return False
    return any(type(a) is tuple and a and a[0] in ("root", "glob", "call", "op") for a in alts(r))


PUBLISH = ("publish", "sendTransform", "sendCorrection", "PublishStateInitial", "PublishStateAfterUpdate", "PublishStateAfterPropagation")


def ispublish(v):
    return v.kind == "call" and short(v.name) in PUBLISH


def lifecycle(v):
    return v.fn.n.startswith("msf_timing::") or v.fn.n.startswith("ros::")


def iseffect(v):
    """something another call or another process can observe"""
    if lifecycle(v):
        return False
    if v.kind == "write":
        return outer(v.loc)
    if v.kind == "mut":
        return outer(v.loc) and not NOISE.match(v.name or "")
    if v.kind == "call":
        return ispublish(v) or short(v.name) == "Apply"
    return False


def isflag(t, *locs):
    """the value of one of these members, now or after an opaque call"""
    return t in locs or type(t) is tuple and len(t) > 2 and t[0] == "after" and t[-1] in locs


def instantiated(p, name):
    """nodes without relative measurements do not instantiate all of MSF_Core"""
    return bool(p.by_name.get(C + name))


def corefn(p, name):
    return p.one(C + name)
