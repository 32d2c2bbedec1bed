"""C14 - the state is laid out, indexed and protected at compile time as documented, for any state definition.

Witness programs are generated from a description of a state definition and put to the compiler, which decides them
against the current headers; nothing is run.  What the compiler cannot decide (which entries a correction, a noise
block or a message gets) is decided on a state definition unlike the shipped ones by the analysis engine."""
from .layout import *
from .flow import *
from .c15 import entries
from ..comp import Comp, Mx, Unknown, padd
from .. import build
from fractions import Fraction
import concurrent.futures as cf, os, re, subprocess

MARK = re.compile(r'"?W\|(\w+)\|([^|]*)\|([^|"]*)\|')
CORE5 = [("p", 3, 0), ("v", 3, 0), ("q", "q", 0), ("b_w", 3, 1), ("b_a", 3, 1)]
# other lists of variables: (name, size or "q", kind [, option])
LISTS = {
    "one vector": [("a", 3, 2)],
    "one attitude": [("a", "q", 2)],
    "mixed": [("a", 4, 2), ("b", "q", 2), ("c", 1, 2), ("d", 10, 2)],
    "core only": CORE5,
    "shipped pose": CORE5 + [("L", 1, 2), ("q_wv", "q", 3), ("p_wv", 3, 2), ("q_ic", "q", 2), ("p_ic", 3, 2)],
    "position only": CORE5 + [("p_ip", 3, 2)],
    "drift-free vector": CORE5 + [("x", 2, 3), ("y", 5, 2)],
    "drift-free vector first": CORE5 + [("x", 2, 3), ("y", "q", 3), ("z", "q", 2)],
    "drift-free attitude first": CORE5 + [("y", "q", 3), ("x", 2, 3), ("z", 7, 2)],
    "options": CORE5 + [("s", 2, 2, 1), ("a", "q", 2), ("t", 1, 3, 1), ("u", 6, 2)],
    "core in another order": [("v", 3, 0), ("a", 2, 2), ("q", "q", 0), ("b", 1, 1), ("p", 3, 0), ("c", "q", 1)],
    "nine": [("v%d" % i, "q" if i % 3 == 1 else i + 1, (i * 7) % 4) for i in range(9)],
}


def check(cx):
    cx.rule("Y1", "variables take up consecutive ranges of the state (attitudes four entries) and of the error state (attitudes three), in order, without gaps or overlap")
    cx.rule("Y2", "the sizes of the state, its core part and its propagated part are the sums of the sizes of the variables concerned")
    cx.rule("Y3", "the drift-free variable found is the attitude if there is one, else the vector, else none")
    cx.rule("Y4", "a state definition that contradicts itself or the filter does not compile; a sound one does")
    cx.rule("Y5", "core variables cannot be written from outside the filter")
    cx.rule("Y6", "corrections, noise blocks, state messages and the list of ranges use the entries of each variable, for any definition")
    W = Witness(cx)
    lists(cx, W)
    rejected(cx, W)
    synth(cx)
    cx.floor("Y1", 150)
    cx.floor("Y2", 60)
    cx.floor("Y4", 8)
    cx.floor("Y6", 40)


class Witness:
    """the compiler, with the headers of the current tree precompiled"""

    def __init__(self, cx):
        self.cx = cx
        self.dir = os.path.join(build.scratch(), "c14")
        os.makedirs(self.dir, exist_ok=True)
        self.flags = build.flags()
        hdr = os.path.join(self.dir, "w.h")
        with open(hdr, "w") as f:
            f.write("#include <msf_core/msf_core.h>\n#include <msf_core/static_ordering_assertions.h>\n")
        self.pch = hdr + ".pch"
        r = build.sh(["clang++", "-x", "c++-header", hdr, "-o", self.pch] + self.flags)
        if r.returncode:
            raise build.AnalysisBroken("the headers of the current tree do not compile:\n" + r.stdout[-1500:])

    def compile(self, name, text):
        """[(file, line, message)] of the errors"""
        src = os.path.join(self.dir, re.sub(r"\W", "_", name) + ".cc")
        with open(src, "w") as f:
            f.write(text)
        r = build.sh(["clang++", "-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics", "-include-pch", self.pch, src] + self.flags)
        out = []
        for ln in r.stdout.splitlines():
            m = re.match(r"(.*?):(\d+):\d+: (?:fatal )?error: (.*)", ln)
            if m:
                out.append((m.group(1).replace(build.REPO + "/", ""), int(m.group(2)), m.group(3)))
        if r.returncode and not out:
            raise build.AnalysisBroken("the compiler failed on a witness program:\n" + r.stdout[-800:])
        return out


def vtype(v):
    t = "Eigen::Quaterniond" if v[1] == "q" else "Eigen::Matrix<double, %d, 1>" % v[1]
    return "msf_core::StateVar_T<%s, %s, %d%s>" % (t, v[0], v[2], ", %d" % v[3] if len(v) > 3 else "")


def define(ns, vs, enum=None):
    return "namespace %s { enum Def { %s };\ntypedef boost::fusion::vector<%s> Seq;\ntypedef msf_core::GenericState_T<Seq, Def> State; }\n" % (
        ns, ", ".join(enum or [v[0] for v in vs]), ", ".join(vtype(v) for v in vs))


def lists(cx, W):
    jobs = {}
    for k, (name, vs) in enumerate(sorted(LISTS.items())):
        ns = "L%d" % k
        t = define(ns, vs) + "namespace %s {\n" % ns
        facts = []

        def fact(rule, what, expr, value):
            facts.append((rule, what))
            return 'static_assert(static_cast<int>(%s) == %d, "W|%s|%s|%d|");\n' % (expr, value, rule, what, value)
        n = lambda v: 4 if v[1] == "q" else v[1]
        ne = lambda v: 3 if v[1] == "q" else v[1]
        o = oe = 0
        for i, v in enumerate(vs):
            t += fact("Y1", "size of %s" % v[0], vtype(v) + "::sizeInState_", n(v))
            t += fact("Y1", "size of %s in the error state" % v[0], vtype(v) + "::sizeInCorrection_", ne(v))
            t += fact("Y1", "rows of the noise block of %s" % v[0], vtype(v) + "::Q_T::RowsAtCompileTime", ne(v))
            t += fact("Y1", "columns of the noise block of %s" % v[0], vtype(v) + "::Q_T::ColsAtCompileTime", ne(v))
            for form, nm in (("%s", ""), ("const %s&", " by reference")):
                t += fact("Y1", "start of %s%s" % (v[0], nm), "msf_tmp::GetStartIndex<Seq, %s, msf_tmp::StateLengthForType>::value" % (form % vtype(v)), o)
                t += fact("Y1", "start of %s in the error state%s" % (v[0], nm), "msf_tmp::GetStartIndex<Seq, %s, msf_tmp::CorrectionStateLengthForType>::value" % (form % vtype(v)), oe)
            t += fact("Y1", "start of variable %d" % i, "msf_tmp::GetStateIndexInState<Seq, %d>::value" % i, o)
            t += fact("Y1", "start of variable %d in the error state" % i, "msf_tmp::GetStateIndexInErrorState<Seq, %d>::value" % i, oe)
            t += fact("Y1", "start of variable %d in the correction" % i, "msf_tmp::GetStartIndexInCorrection<Seq, %d>::value" % i, oe)
            t += fact("Y1", "type of variable %d" % i, "std::is_same<typename msf_tmp::StripConstReference<typename msf_tmp::GetEnumStateType<Seq, %d>::value>::result_t, %s>::value" % (i, vtype(v)), 1)
            t += fact("Y1", "kind of %s" % v[0], vtype(v) + "::statetype_", v[2])
            o += n(v)
            oe += ne(v)
        tot = {"nStateVars": len(vs), "nStates": o, "nErrorStates": oe,
               "nCoreStates": sum(n(v) for v in vs if v[2] in (0, 1)), "nCoreErrorStates": sum(ne(v) for v in vs if v[2] in (0, 1)),
               "nPropagatedCoreStates": sum(n(v) for v in vs if v[2] == 0), "nPropagatedCoreErrorStates": sum(ne(v) for v in vs if v[2] == 0)}
        for c, x in sorted(tot.items()):
            t += fact("Y2", c, "State::%sAtCompileTime" % c, x)
        t += fact("Y2", "rows of the covariance", "decltype(State::P)::RowsAtCompileTime", oe)
        t += fact("Y2", "columns of the covariance", "decltype(State::P)::ColsAtCompileTime", oe)
        df = [(v[1] == "q", i) for i, v in enumerate(vs) if v[2] == 3]
        best = max(df)[1] if df and [q for q, _ in df].count(max(df)[0]) == 1 else -1 if not df else None
        if best is not None:
            t += fact("Y3", "drift-free variable", "msf_tmp::IndexOfBestNonTemporalDriftingState<Seq>::value", best)
        t += "}\n"
        jobs[name] = (t, facts)
    with cf.ThreadPoolExecutor(8) as ex:
        res = dict(zip(jobs, ex.map(lambda n: W.compile("list " + n, jobs[n][0]), jobs)))
    hdr = "msf_core/include/msf_core/msf_tmp.h"
    for name, (t, facts) in jobs.items():
        bad, other = {}, []
        for f, ln, msg in res[name]:
            m = MARK.search(msg)
            if m:
                bad[m.group(1), m.group(2)] = m.group(3)
            else:
                other.append((f, ln, msg))
        if other and not bad:
            asserts = [x for x in other if "static assertion failed" in x[2] or "static_assert failed" in x[2]]
            if asserts:
                cx.bad("Y4", "%s compiles" % name, "%s:%d" % asserts[0][:2], "a sound state definition (%s) is rejected: %s" % (name, asserts[0][2][:120]), key="Y4 sound " + name)
            else:
                cx.undecided("Y1", name, "%s:%d" % other[0][:2], "the witness program does not compile: %s" % other[0][2][:120])
            continue
        cx.ok("Y4", "%s compiles" % name)
        for rule, what in facts:
            if (rule, what) in bad:
                cx.bad(rule, "%s: %s" % (name, what), hdr, "%s is not %s in the state definition '%s'" % (what, bad[rule, what], name), key="%s %s" % (rule, re.sub(r" (of|variable) \w+", "", what)))
            elif other:
                cx.undecided(rule, "%s: %s" % (name, what), hdr, other[0][2][:80])
            else:
                cx.ok(rule, "%s: %s" % (name, what))


ORDER = "namespace { template struct StaticAssertCoreStateOrderingCorrect<%s::State>; }\n"
POSE = LISTS["shipped pose"]


def swapped(vs, i, j):
    vs = list(vs)
    vs[i], vs[j] = vs[j], vs[i]
    return vs


def use(body, vs=POSE, ns="N"):
    return define(ns, vs) + "namespace %s { inline void use(State& s, const State& c) { (void)s; (void)c; %s } }\n" % (ns, body)


def rejected(cx, W):
    """pairs of programs: the first must not compile, the second, its sound twin, must"""
    P = []
    for i in range(4):
        P.append(("Y4", "names and types in different order (%d)" % i, define("N", swapped(POSE, i + 4, i + 5), [v[0] for v in POSE]).replace("} \n", "}\n") + "int n = N::State::nStatesAtCompileTime;\n",
                  define("N", swapped(POSE, i + 4, i + 5)) + "int n = N::State::nStatesAtCompileTime;\n"))
    P.append(("Y4", "a name left out", define("N", POSE, [v[0] for v in POSE[:5]] + ["extra"] + [v[0] for v in POSE[5:]]) + "int n = N::State::nStatesAtCompileTime;\n", define("N", POSE) + "int n = N::State::nStatesAtCompileTime;\n"))
    for i, j in ((0, 1), (1, 2), (3, 4), (0, 3)):
        P.append(("Y4", "core variables %s and %s exchanged" % (POSE[i][0], POSE[j][0]), define("N", swapped(POSE, i, j)) + ORDER % "N", define("N", POSE) + ORDER % "N"))
    for i in range(5):
        moved = POSE[:i] + [("x",) + POSE[i][1:2] + (2,)] + POSE[i + 1:5] + [POSE[i]] + POSE[5:]
        P.append(("Y4", "core variable %s after an auxiliary one" % POSE[i][0], define("N", moved) + ORDER % "N", define("N", POSE) + ORDER % "N"))
    P.append(("Y4", "an auxiliary variable before the core", define("N", [POSE[5]] + POSE[:5] + POSE[6:]) + ORDER % "N", define("N", POSE) + ORDER % "N"))
    corr = "template void msf_core::GenericState_T<N::Seq, N::Def>::Correct(const Eigen::Matrix<double, N::State::nErrorStatesAtCompileTime, 1>&);\n"
    P.append(("Y4", "a multiplicative correction of an attitude", define("N", POSE[:6] + [("q_wv", "q", 2, 1)]) + corr, define("N", POSE[:6] + [("q_wv", "q", 2)]) + corr))
    fz = "template class msf_core::CheckFuzzyTracking<N::State, typename msf_tmp::GetEnumStateType<N::Seq, msf_tmp::IndexOfBestNonTemporalDriftingState<N::Seq>::value>::value>;\n"
    P.append(("Y4", "divergence check by a vector", define("N", POSE[:5] + [("x", 3, 3)]) + fz, define("N", POSE) + fz))
    for v in POSE:
        arg = "Eigen::Quaterniond()" if v[1] == "q" else "Eigen::Matrix<double, %d, 1>()" % v[1]
        bad = v[2] in (0, 1)
        twin = "(void)c.Get<%s>();" % v[0]
        writes = [("set", "s.Set<%s>(%s);" % (v[0], arg), "(void)c.Get<%s>();" % v[0]), ("noise block of", "s.GetQBlock<%s>().setZero();" % v[0], "(void)c.GetQBlock<%s>();" % v[0])]
        for what, stmt, ok in writes:
            if bad:
                P.append(("Y5", "%s %s" % (what, v[0]), use(stmt), use(ok)))
            else:
                P.append(("Y5", "%s %s" % (what, v[0]), None, use(stmt)))
        P.append(("Y5", "direct access to %s" % v[0], use("s.Get<%s>() = %s;" % (v[0], arg)), use(twin)))
        P.append(("Y5", "direct access to variable %s" % v[0], use("s.GetStateVariable<%s>().state_ = %s;" % (v[0], arg)), use("(void)c.GetStateVariable<%s>();" % v[0])))
        P.append(("Y5", "setting %s of a constant state" % v[0], use("const_cast<const State&>(s).Set<%s>(%s);" % (v[0], arg)), None))
    todo = [(i, k, t[2 + k]) for i, t in enumerate(P) for k in (0, 1) if t[2 + k] is not None]
    with cf.ThreadPoolExecutor(8) as ex:
        res = {(i, k): r for (i, k, _), r in zip(todo, ex.map(lambda x: W.compile("pair %d %d" % x[:2], x[2]), todo))}
    where = "msf_core/include/msf_core/msf_state.h"
    for i, (rule, name, bad, good) in enumerate(P):
        g, b = res.get((i, 1)), res.get((i, 0))
        if g:
            a = [x for x in g if "static" in x[2] and "assert" in x[2] or "private" in x[2] or "protected" in x[2]]
            if a:
                cx.bad(rule, "%s: sound twin" % name, "%s:%d" % a[0][:2], "a sound program next to '%s' is rejected: %s" % (name, a[0][2][:120]), key="%s twin %s" % (rule, name.split(" (")[0]))
            else:
                cx.undecided(rule, "%s: sound twin" % name, "%s:%d" % g[0][:2], g[0][2][:120])
            continue
        if g is not None:
            cx.ok(rule, "%s: sound twin" % name)
        if b is not None:
            cx.expect(bool(b), rule, name, where, "a program that must be rejected compiles: %s" % name, key="%s %s" % (rule, name))


def synth(cx):
    p = cx.unit("synth")
    L = layout(cx, p)
    # correction
    f = p.one("msf_core::GenericState_T::Correct")
    SMALL = "QuaternionFromSmallAngle"
    e, g = cx.run(p, f, pure={SMALL: ()}, maxsize=60000)
    d = ("root", f.params[0]["n"])
    K = Comp(lambda t: None, e.scalars)
    dv = Mx(L.nc, 1, [K.var(("d", i)) for i in range(L.nc)])
    for x in (d, ("deref", d)):
        K.subst[x] = dv
    old = {}
    for v in L:
        if not v.quat:
            old[v.slot] = Mx(v.n, 1, [K.var((v.name, i)) for i in range(v.n)])
            K.subst[var(THIS, v)] = old[v.slot]
    for v in L:
        t = e.load(e.final, var(THIS, v))
        inst = "correction of %s" % v.name
        if v.quat:
            a = {x for x in subterms(t) if x and x[0] == "call" and short(x[1]) == SMALL}
            try:
                got = [K.mat(x[-1], 3, 1).e for x in a]
            except Unknown as ex:
                cx.undecided("Y6", inst, f.where(), str(ex))
                continue
            cx.expect(got and all(m == dv.e[v.offc:v.offc + 3] for m in got), "Y6", inst, f.where(), "attitude %s is not corrected with entries %d to %d of the correction" % (v.name, v.offc, v.offc + 2), key="Y6 correct q")
            continue
        try:
            m = K.mat(t, v.n, 1)
        except Unknown as ex:
            cx.undecided("Y6", inst, f.where(), str(ex))
            continue
        part = dv.e[v.offc:v.offc + v.n]
        want = [K.pmul(a, b) if v.opts & 1 else padd(a, b) for a, b in zip(old[v.slot].e, part)]
        cx.expect(m.e == want, "Y6", inst, f.where(), "%s is not %s entries %d to %d of the correction" % (v.name, "multiplied by" if v.opts & 1 else "increased by", v.offc, v.offc + v.n - 1), key="Y6 correct %s" % v.opts)
    # messages and vectors
    for n, size, core in (("ToFullStateMsg", L.n, False), ("ToCoreStateMsg", sum(v.n for v in L if v.core), True), ("ToEigenVector", sum(v.n for v in L if v.core), True)):
        f = p.one("msf_core::GenericState_T::" + n)
        e, g = cx.run(p, f, maxsize=60000, unroll=True)
        K = Comp(lambda t: None, e.scalars)
        want = []
        for v in L:
            xs = [K.var((v.name, i)) for i in range(v.n)]
            m = Mx(v.n, 1, xs)
            K.subst[var(THIS, v)] = ("q", m) if v.quat else m
            if v.core or not core:
                want += [xs[3]] + xs[:3] if v.quat else xs
        try:
            if f.params:
                out = e.load(e.final, ("fld", ("root", f.params[0]["n"]), "data"))
                got = entries(K, out, size)
            else:
                got = K.mat(next(iter(alts(e.ret))), size, 1).e
        except Unknown as ex:
            if "expected" in str(ex) or "written" in str(ex):
                cx.bad("Y6", n, f.where(), "%s: %s" % (n, ex), key="Y6 " + n)
            else:
                cx.undecided("Y6", n, f.where(), str(ex))
            continue
        i = 0
        for v in L:
            if not (v.core or not core):
                continue
            cx.expect(got[i:i + v.n] == want[i:i + v.n], "Y6", "%s %s" % (n, v.name), f.where(), "%s does not put %s at entries %d to %d" % (n, v.name, i, i + v.n - 1), key="Y6 %s" % n)
            i += v.n
    # the list of ranges
    f = p.one("msf_core::GenericState_T::CalculateIndicesInErrorState")
    e, g = cx.run(p, f, maxsize=60000)
    out = [v for v in e.events.values() if v.kind == "mut" and short(v.name) in ("push_back", "emplace_back")]
    got, ok = [], bool(out)
    for v in out:
        a = v.args if len(v.args) == 3 else v.args[0][2:] if v.args and type(v.args[0]) is tuple and v.args[0][:1] in (("ctor",), ("call",)) else ()
        if len(a) != 3 or not all(num(x) for x in a):
            ok = False
        else:
            got.append(tuple(int(x[1]) for x in a))
    if not ok:
        cx.undecided("Y6", "ranges", f.where(), "how the list of ranges is filled")
    else:
        for v in L:
            cx.expect(got.count((v.index, v.offc, v.nc)) == 1, "Y6", "range of %s" % v.name, f.where(), "the range given for %s is %s" % (v.name, [x for x in got if x[0] == v.index]), key="Y6 ranges")
        cx.expect(len(got) == len(L), "Y6", "as many ranges as variables", f.where(), "%d ranges are given" % len(got), key="Y6 ranges n")
    # noise blocks
    f = p.one("synth::synth_noise")
    e, g = cx.run(p, f, maxsize=200000)
    K = Comp(lambda t: None, e.scalars)
    s, q = (("root", x["n"]) for x in f.params)
    n = L.nc
    K.subst[q] = K.subst[("deref", q)] = Mx(n, n, [K.var(("old", i)) for i in range(n * n)])
    want = Mx(n, n, list(K.subst[q].e))
    for v in L:
        b = Mx(v.nc, v.nc, [K.var((v.name, "Q", i)) for i in range(v.nc * v.nc)])
        for base in (s, ("deref", s)):
            K.subst[("fld", ("elem", ("fld", base, "statevars"), ("acc", "state", ("c", v.slot))), "Q")] = b
        if not v.core:
            for i in range(v.nc):
                for j in range(v.nc):
                    want.e[(v.offc + i) * n + v.offc + j] = b.e[i * v.nc + j]
    try:
        got = K.mat(e.load(e.final, ("deref", q)), n, n)
    except Unknown as ex:
        if "outside" in str(ex):
            cx.bad("Y6", "noise blocks", f.where(), "process noise: " + str(ex), key="Y6 noise outside")
        else:
            cx.undecided("Y6", "noise blocks", f.where(), str(ex))
        return
    for v in L:
        for w in L:
            bad = [(i, j) for i in range(v.nc) for j in range(w.nc) if got[v.offc + i, w.offc + j] != want[v.offc + i, w.offc + j]]
            cx.expect(not bad, "Y6", "noise block (%s, %s)" % (v.name, w.name), "msf_core/include/msf_core/msf_tmp.h", "entries %s of block (%s, %s) of the process noise are wrong" % (bad[:3], v.name, w.name), key="Y6 noise")
