"""Resolved program of one translation unit."""
import os, re
from . import build


class Fn:
    __slots__ = ("p", "id", "n", "full", "file", "line", "eline", "params", "nodes", "blocks", "entry", "exit",
                 "body", "imp", "info", "rpo", "preds", "back", "_parents", "_calls")

    def __init__(self, p, d):
        self.p = p
        self.id = d["id"]
        self.n = d["n"]
        self.full = d["full"]
        self.file = p.files[d["f"]]
        self.line = d["l"]
        self.eline = d["el"]
        self.params = d["params"]
        self.nodes = d["nodes"]
        self.body = d["body"]
        self.imp = bool(d.get("imp"))
        self.info = p.fntable[self.id]
        self.blocks = {b["id"]: b for b in d.get("blocks", [])}
        self.entry = d.get("entry")
        self.exit = d.get("exit")
        self._parents = None
        self._calls = None
        if self.blocks:
            self._order()

    def _order(self):
        seen, post = set(), []
        st = [(self.entry, iter([s for s in self.blocks[self.entry]["s"] if s is not None]))]
        seen.add(self.entry)
        onst = {self.entry}
        back = set()
        while st:
            b, it = st[-1]
            for s in it:
                if s in onst:
                    back.add((b, s))
                if s not in seen:
                    seen.add(s)
                    onst.add(s)
                    st.append((s, iter([x for x in self.blocks[s]["s"] if x is not None])))
                    break
            else:
                st.pop()
                onst.discard(b)
                post.append(b)
        self.rpo = post[::-1]
        self.back = back
        self.preds = {b: [] for b in seen}
        for b in seen:
            for s in self.blocks[b]["s"]:
                if s is not None and b not in self.preds[s]:
                    self.preds[s].append(b)

    def rel(self):
        r = os.path.realpath(build.REPO) + "/"
        return self.file[len(r):] if self.file.startswith(r) else self.file

    def where(self, nid=None):
        return "%s:%d" % (self.rel(), self.nodes[nid]["l"] if nid is not None else self.line)

    def short(self):
        return self.n

    def walk(self, root=None):
        """all nodes of the syntax tree in pre-order"""
        st = [self.body if root is None else root]
        while st:
            i = st.pop()
            if i is None or i < 0:
                continue
            yield i, self.nodes[i]
            st.extend(reversed(self.nodes[i].get("c", [])))

    def parents(self):
        if self._parents is None:
            self._parents = {}
            for i, nd in enumerate(self.nodes):
                if nd:
                    for c in nd.get("c", []):
                        self._parents.setdefault(c, []).append(i)
        return self._parents

    def call_ids(self):
        if self._calls is None:
            self._calls = [(i, nd) for i, nd in enumerate(self.nodes)
                           if nd and "fn" in nd and nd["k"] in ("Call", "Ctor", "Dtor")]
        return self._calls


class Program:
    def __init__(self, name, d):
        self.name = name
        self.types = d["types"]
        self.files = d["files"]
        self.fntable = d["fntable"]
        self.records = d["records"]
        self.globals = d["globals"]
        self.enums = d["enums"]
        self.fns = {}
        self.by_name = {}
        for f in d["functions"]:
            fn = Fn(self, f)
            self.fns[fn.id] = fn
            self.by_name.setdefault(fn.n, []).append(fn)
        self.rec_by_name = {}
        self.rec_by_type = {}
        for r in self.records:
            self.rec_by_name.setdefault(r["n"], []).append(r)
            self.rec_by_type[self.types[r["t"]]] = r
        # virtual dispatch
        self.over = {}
        for i, t in enumerate(self.fntable):
            for o in t.get("ov", []):
                self.over.setdefault(o, set()).add(i)
        self._reach = {}

    def repo_fns(self):
        return [f for f in self.fns.values() if not f.imp]

    def overriders(self, fid):
        out, st = set(), [fid]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(self.over.get(x, ()))
        return out

    def named(self, name, cls=None):
        """functions whose qualified name is `name` (or ends with ::name)"""
        r = list(self.by_name.get(name, []))
        if not r:
            for k, v in self.by_name.items():
                if k.endswith("::" + name):
                    r += v
        return [f for f in r if not f.imp]

    def one(self, name):
        r = self.named(name)
        if not r:
            raise build.AnalysisBroken("anchor function %s not found in unit %s" % (name, self.name))
        return r[0]

    def type(self, i):
        return self.types[i] if i is not None and i >= 0 else ""

    def callees(self, fn):
        """repo functions fn may call directly (virtual dispatch, functors and lambdas resolved)"""
        out = set()
        for i, nd in enumerate(fn.nodes):
            if not nd or "fn" not in nd:
                continue
            if nd["k"] in ("Call", "Ctor", "Dtor", "Ref", "Lambda", "MemFn"):
                t = nd["fn"]
                for o in (self.overriders(t) if nd.get("v") else (t,)):
                    if o in self.fns:
                        out.add(o)
            if nd["k"] == "Call":
                for g in self.functor_targets(fn, i):
                    out.add(g)
        return out

    def functor_targets(self, fn, nid):
        """operator() instances a library algorithm may call on a functor argument"""
        nd = fn.nodes[nid]
        info = self.fntable[nd["fn"]] if "fn" in nd else None
        if not info or info["repo"]:
            return []
        out = []
        for c in nd.get("c", []):
            if c < 0:
                continue
            t = self.type(fn.nodes[c].get("t"))
            t = re.sub(r"^const ", "", t)
            if "msf" in t or "(lambda" in t or t.startswith("(anonymous"):
                for g in self._opcalls().get(t, []):
                    out.append(g)
        return out

    _oc = None

    def _opcalls(self):
        if self._oc is None:
            self._oc = {}
            for f in self.fns.values():
                if f.n.endswith("::operator()") and "clsT" in f.info:
                    self._oc.setdefault(self.type(f.info["clsT"]), []).append(f.id)
        return self._oc

    def reachable(self, roots):
        seen, st = set(), [r.id if isinstance(r, Fn) else r for r in roots]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.callees(self.fns[x]) - seen)
        return seen


_cache = {}


def load(names):
    need = [n for n in names if n not in _cache]
    if need:
        for k, v in build.dump(need).items():
            _cache[k] = Program(k, v)
    return {n: _cache[n] for n in names}
