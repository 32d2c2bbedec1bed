"""One run of one property's check: obligations, violations, analysed scope."""
import json, os, sys, time
from . import build, ir
from .engine import Engine, show, brief
from .build import AnalysisBroken

VERIF = build.VERIF if hasattr(build, "VERIF") else os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_runs = {}


class Ctx:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.obs = []            # (rule, instance, ok)
        self.viols = []          # dicts
        self.units = []
        self.fns = set()
        self.rules = {}
        self.notes = []
        self.open = []           # (rule, instance, where, why): obligations no answer was found for
        self.t0 = time.time()

    # ------------------------------------------------------------ programs
    def unit(self, name):
        return self.load([name])[name]

    def load(self, names):
        r = ir.load(names)
        for n in names:
            if n not in self.units:
                self.units.append(n)
        return r

    def run(self, prog, fn, noinline=(), facts=frozenset(), env=None, args=None, this="this", **k):
        """abstract interpretation of one entry point (memoised)"""
        if isinstance(fn, str):
            fn = prog.one(fn)
        key = (prog.name, fn.id, tuple(sorted(noinline)), facts, frozenset((env or {}).items()), tuple(args or ()), this,
               tuple(sorted((a, repr(b) if a in ("pure", "maxsize", "versions") else id(b)) for a, b in k.items())))
        if key not in _runs:
            e = Engine(prog, noinline=noinline, **k).run(fn, this=this, args=args, env=env, facts=facts)
            _runs[key] = (e, e.graph())
        e, g = _runs[key]
        for i in e.analysed:
            self.fns.add(prog.fns[i].n)
        return e, g

    # ---------------------------------------------------------- obligations
    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, inst):
        self.obs.append((rule, inst, True))

    def bad(self, rule, inst, where, msg, key=None, path=None):
        """obligation not met.  `key` names the construct independently of its position."""
        self.obs.append((rule, inst, False))
        self.viols.append({"rule": rule, "instance": inst, "where": where, "msg": msg,
                           "key": key or ("%s %s" % (rule, inst)), "path": path or []})

    def expect(self, cond, rule, inst, where, msg, key=None, path=None):
        if cond:
            self.ok(rule, inst)
        else:
            self.bad(rule, inst, where, msg, key, path)
        return bool(cond)

    def nopath(self, path, rule, inst, where, msg, key=None):
        """obligation: the counterexample path found by a query is None"""
        if path is None:
            self.ok(rule, inst)
            return True
        self.bad(rule, inst, where, msg, key, brief(path))
        return False

    def undecided(self, rule, inst, where, why):
        """an obligation the analysis could not evaluate: neither met nor violated, and reported as such"""
        self.open.append((rule, inst, where, why))

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)

    def floor(self, rule, n):
        c = sum(1 for r, _, _ in self.obs if r == rule)
        if c < n:
            raise AnalysisBroken("rule %s matched %d instances, at least %d were confirmed by hand" % (rule, c, n))
