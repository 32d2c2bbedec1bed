"""Sensor intake: what a callback of a sensor handler does with one message (shared by C17, C18, C35)."""
import math
from fractions import Fraction
from types import SimpleNamespace as NS
from .core import *
from .flow import settle, evalnum
from .handlers import *
from ..comp import Comp, Mx, Unknown

PS, OS, RS = "msf_pose_sensor::PoseSensorHandler", "msf_position_sensor::PositionSensorHandler", "msf_pressure_sensor::PressureSensorHandler"
AS, DS = "msf_spherical_position::AngleSensorHandler", "msf_spherical_position::DistanceSensorHandler"
TOENU, TOECEF = "msf_core::GPSConversion::ECEFToENU", "msf_core::GPSConversion::WGS84ToECEF"


def topic(msg, cov=None, every=1, **k):
    return NS(msg=msg, cov=cov, every=every, fix=("latitude", "longitude", "altitude") if msg == "NavSatFix" else None, **k)


POSE = ("pose", "pose")
HANDLERS = {
    PS: NS(z={"z_p_": 3, "z_q_": "q"}, abs="pose_absolute_measurements", fixed="pose_use_fixed_covariance", world="pose_measurement_world_sensor",
           mindt="pose_measurement_minimum_dt", delay=True, kinds=(3, 3), topics={
               "pose_with_covariance_input": topic("PoseWithCovarianceStamped", p=POSE + ("position",), q=POSE + ("orientation",), cov=("pose", "covariance")),
               "odometry_input": topic("Odometry", p=POSE + ("position",), q=POSE + ("orientation",), cov=("pose", "covariance")),
               "transform_input": topic("TransformStamped", p=("transform", "translation"), q=("transform", "rotation")),
               "pose_input": topic("PoseStamped", p=("pose", "position"), q=("pose", "orientation"))}),
    OS: NS(z={"z_p_": 3}, abs="position_absolute_measurements", fixed="position_use_fixed_covariance", world=None, mindt=None, delay=True, kinds=(3,), topics={
        "position_input": topic("PointStamped", p=("point",)),
        "transform_input": topic("TransformStamped", p=("transform", "translation"), every=5),
        "navsatfix_input": topic("NavSatFix", p=(), cov=("position_covariance",))}),
    RS: NS(z={"z_p_": ("z",)}, abs=None, fixed=None, world=None, mindt=None, delay=False, kinds=(1,), topics={"pressure_height": topic("PointStamped", p=("point",), every=10)}),
    AS: NS(z={"z_a_": ("x", "y")}, abs="absolute_measurements", fixed="use_fixed_covariance", world=None, mindt=None, delay=True, kinds=(2,), topics={
        "angle_input": topic("PointStamped", p=("point",))}),
    DS: NS(z={"z_d_": ("z",)}, abs="absolute_measurements", fixed="use_fixed_covariance", world=None, mindt=None, delay=True, kinds=(1,), topics={
        "distance_input": topic("PointStamped", p=("point",))}),
}


def path(base, *names):
    for n in names:
        base = ("fld", base, n)
    return base


class Handler:
    """one sensor handler class of a unit: its subscriptions and the members its parameters fill"""

    def __init__(self, cx, p, u, cls):
        self.cx, self.p, self.u, self.cls, self.spec = cx, p, u, cls, HANDLERS[cls]
        self.name = short(cls)
        cs = ctors(p, cls)
        cx.need(cs, "constructor of %s in unit %s" % (cls, u))
        self.ctor = cs[0]
        self.e, self.g, self.params = params(cx, p, self.ctor)
        self.subs = {}
        self.odd = []
        for v in self.e.events.values():
            if v.kind == "call" and short(v.name) == "subscribe" and "ros::" in v.name and v.args:
                cb = [a for a in v.args if type(a) is tuple and a[:1] == ("fnref",)]
                self.subs.setdefault(strval(v.args[0]), []).append((v, p.fns.get(cb[0][2]) if cb else None))
        self.delay = None
        if self.spec.delay and any(f.n == cls + "::SetDelay" and f.blocks for f in p.repo_fns()):
            self.delay = self.setter("SetDelay")[0]

    def flag(self, what):
        """the member a constructor parameter is read into"""
        n = getattr(self.spec, what, None) if what in ("abs", "fixed", "world", "mindt") else what
        if n is None:
            return None
        ls = [l for _, l in self.params.get(n, []) if type(l) is tuple and l[:2] == ("fld", THIS)]
        return ls[0] if len(ls) == 1 else None

    def setter(self, name):
        """members a setter leaves each of its parameters in"""
        fs = [f for f in self.p.repo_fns() if f.n == self.cls + "::" + name and f.blocks]
        self.cx.need(fs, "%s::%s" % (self.cls, name))
        e, g = self.cx.run(self.p, fs[0])
        out = []
        for q in fs[0].params:
            ls = [k for k, v in e.final.env.items() if k[:1] == ("fld",) and v == ("root", q["n"])]
            out.append(ls[0] if len(ls) == 1 else None)
        return out

    def msg(self, f):
        return ("root", f.params[0]["n"])

    def consts(self, **k):
        """members set to constants: fixed / world / ..."""
        return {self.flag(n): TRUE if v else FALSE for n, v in k.items() if self.flag(n) is not None}

    def distorter(self):
        r = [x for x in self.p.rec_by_name.get(self.cls, [])]
        for x in r:
            for fl in x["fields"]:
                if "PoseDistorter" in self.p.types[fl["t"]]:
                    return fld(fl["n"])
        return None

    def case(self, f, stamp=100.0, prev=0.0, mindt=0.05, seq=100, cov0=None, fixed=None, world=None, nodist=False, covtype=2, havemgr=False):
        """the callback on one kind of message: a run in which the comparisons on time, sequence number and
        covariance are settled"""
        m = self.msg(f)
        tp = self.topicof(f)
        st = path(m, "header", "stamp")
        sq = path(m, "header", "seq")
        prevs = self.prev(f)
        md = self.flag("mindt")

        def leaf(t):
            if type(t) is not tuple or not t:
                return None
            x = stampnum(t, st, stamp)
            if x is not None:
                return x
            if t == sq:
                return seq
            if t in prevs:
                return prev
            if t == md and md is not None:
                return mindt
            if t[0] == "elem" and t[2] == ("acc", "at", ("c", 0)) and self.covarr(t[1]):
                return self.cov0(t[1], tp, m, cov0)
            return None
        env = self.consts(**{k: v for k, v in (("fixed", fixed), ("world", world)) if v is not None})
        if tp.fix:
            env[path(m, "position_covariance_type")] = ("c", covtype)
        base = set()
        if nodist and self.distorter():
            base.add((self.distorter(), False))
        run = lambda facts: runfunnel(self.cx, self.p, f, facts=facts, env=env, maxsize=400000, unroll=True, **({} if havemgr else {}))
        e, g, facts = settle(run, leaf, base)
        return NS(e=e, g=g, leaf=leaf, add=added(e), m=m, tp=tp, f=f)

    def covarr(self, t):
        return type(t) is tuple and t[:1] == ("fld",) and "covariance" in t[2]

    def cov0(self, arr, tp, m, v):
        """first covariance entry of the array: of the message, or of a message created in the callback
        (ROS messages are created zeroed)"""
        if tp.cov and arr == path(m, *tp.cov):
            return v
        r = rootof(arr)
        if type(r) is tuple and r[:1] == ("new",):
            return 0.0
        return None

    def topicof(self, f):
        for n, l in self.subs.items():
            if n in self.spec.topics and any(h is f for _, h in l):
                return self.spec.topics[n]
        return None

    def prev(self, f):
        """members the callback leaves the time stamp of the message in"""
        if not self.spec.mindt:
            return set()
        m = self.msg(f)
        e, g = runfunnel(self.cx, self.p, f, maxsize=400000, unroll=True)
        return {v.loc for v in e.events.values() if v.kind == "write" and v.loc[:2] == ("fld", THIS) and v.val == ("call", "ros::Time::toSec", path(m, "header", "stamp"))}


def stampnum(t, st, at):
    """the number a term that is made of a time stamp stands for, at a given time"""
    if type(t) is not tuple or len(t) != 3 or t[0] not in ("call", "fld"):
        return None
    sec = math.floor(at)
    nsec = round((at - sec) * 1e9)
    if t[0] == "call" and short(t[1]) in ("toSec", "toNSec") and type(t[2]) is tuple and short(str(t[2][1])) == "Time" and t[2][0] in ("call", "new", "ctor", "obj"):
        xs = [evalnum(x, lambda y: stampnum(y, st, at)) for x in t[2][2:]]       # a time stamp made of parts of it
        if len(xs) in (1, 2) and None not in xs:
            x = xs[0] + (xs[1] * 1e-9 if len(xs) == 2 else 0)
            return x if short(t[1]) == "toSec" else round(x * 1e9)
    if t[0] == "call" and t[2] == st and short(t[1]) in ("toSec", "toNSec"):
        return at if short(t[1]) == "toSec" else sec * 10**9 + nsec
    if t[0] == "fld" and t[1] == st and short(t[2]) in ("sec", "nsec"):
        return sec if short(t[2]) == "sec" else nsec
    return None


def intake(cx):
    """(handler, topic name, callback) of every subscription the specification knows, per unit"""
    us = {PS: ("pose", "pose_pressure", "position_pose") + (("pose_dyn",) if cx.tier == "thorough" else ()), OS: ("position", "position_pose"), RS: ("pose_pressure",), AS: ("spherical",), DS: ("spherical",)}
    fetch(cx, sorted({u for l in us.values() for u in l}))
    for cls, l in us.items():
        for u in l:
            yield Handler(cx, cx.unit(u), u, cls)


def callbacks(h):
    for n in h.spec.topics:
        for v, f in h.subs.get(n, []):
            if f is not None and f.blocks:
                yield n, h.spec.topics[n], f


def value(r, v, *names):
    """value of a member of the handed-over measurement when it is handed over, with what it was copied from"""
    e = r.e
    st = NS(env=v.pre)
    return resolve(e, st, e.load(st, path(v.args[0], *names)))


def resolve(e, st, t, busy=()):
    """what the members of new objects in a term were set to; a member changed in place stays as it is"""
    if type(t) is frozenset:
        return frozenset(resolve(e, st, x, busy) for x in t)
    if type(t) is not tuple:
        return t
    if t[:1] == ("fld",) and t not in busy and rootof(t)[:1] == ("new",):
        x = e.load(st, t)
        return x if x == t else resolve(e, st, x, busy + (t,))
    return tuple(resolve(e, st, x, busy) for x in t)
