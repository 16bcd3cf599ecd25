"""Typed program representation shared by all rules."""
import json, os, sys
from . import extract
from .extract import AnalysisError, REPO

sys.setrecursionlimit(20000)


class Type(dict):
    """Canonical type: s (spelling), ref, const, ptr (Type), elem (Type), n, rec (record name), cls."""
    __slots__ = ()
    def __repr__(self): return "<%s>" % self["s"]
    __hash__ = object.__hash__
    def __eq__(self, o): return self is o or (isinstance(o, dict) and dict.__eq__(self, o))


NOTYPE = Type(s="?")
SKIP = {"t", "l", "k", "at", "ret"}


def kids(n):
    """Immediate child nodes of a node, in evaluation-friendly order."""
    k = n.get("k")
    order = ORDER.get(k)
    if order:
        for f in order:
            v = n.get(f)
            if isinstance(v, dict):
                yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict): yield x
        return
    for f, v in n.items():
        if f in SKIP: continue
        if isinstance(v, dict) and "k" in v:
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and "k" in x: yield x


ORDER = {
    "For": ("init", "cond", "body", "inc"), "If": ("init", "var", "cond", "then", "else"), "While": ("var", "cond", "body"), "Do": ("body", "cond"),
    "RFor": ("range", "var", "body"), "MCall": ("obj", "a"), "Idx": ("b", "i"), "Cond": ("cond", "then", "else"), "Switch": ("cond", "body"),
    "Try": ("body", "handlers"), "Catch": ("var", "body"), "Var": ("init",), "OMP": ("body",), "Lambda": ("params", "body"),
}


def walk(n, into_lambda=True):
    if n is None: return
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        if x.get("k") == "Lambda" and not into_lambda and x is not n:
            continue
        stack.extend(reversed(list(kids(x))))


class Func(dict):
    @property
    def q(self): return self["q"]
    @property
    def body(self): return self.get("body")
    @property
    def loc(self): return "%s:%d" % (self["file"], self["l"])
    def __repr__(self): return "<Func %s>" % self.get("disp")
    __hash__ = object.__hash__


class Program:
    def __init__(self, max_row=3, only=None):
        paths = extract.extract(max_row, only)
        self.funcs, self.records, self.vars, self.decls, self._types = {}, {}, {}, {}, {}
        self.tus = sorted(paths)
        self.lambdas = {}
        for i, src in enumerate(self.tus):
            self._load(paths[src], i)
        self._index()

    def _load(self, path, tu):
        d = json.load(open(path))
        files = [os.path.relpath(f, REPO) if f.startswith(REPO + "/") else f for f in d["files"]]
        raw = d["types"]
        tys = []
        for t in raw:
            s = (t["s"], bool(t.get("ref")))
            if s in self._types: tys.append(self._types[s])
            else:
                T = Type(t); self._types[s] = T; T["_new"] = True; tys.append(T)
        for t in tys:
            pass
        for t, r in zip(tys, raw):
            if t.pop("_new", None):
                for f in ("ptr", "elem"):
                    if f in r and isinstance(r[f], int): t[f] = tys[r[f]]
        pre = "%d." % tu
        def conv(n):
            stack = [n]
            while stack:
                x = stack.pop()
                if isinstance(x, list):
                    stack.extend(y for y in x if isinstance(y, (dict, list)))
                    continue
                for f, v in x.items():
                    if f == "t" or f == "at" or f == "ret" or f == "base":
                        if isinstance(v, int): x[f] = tys[v] if v >= 0 else NOTYPE
                    elif f == "id":
                        if v and v[0] == "v": x[f] = pre + v
                    elif f == "file" and isinstance(v, int): x[f] = files[v]
                    elif f == "ps": x[f] = [tys[i] if i >= 0 else NOTYPE for i in v]
                    elif isinstance(v, (dict, list)) and not isinstance(v, Type): stack.append(v)
        for k, f in d["funcs"].items():
            o = self.funcs.get(k)
            if o is None or (o.body is None and f.get("body")):
                conv(f); self.funcs[k] = Func(f); self.funcs[k]["key"] = k
        for k, r in d["records"].items():
            if k not in self.records:
                conv(r); r["key"] = k; self.records[k] = r
        for k, v in d["vars"].items():
            if k not in self.vars or ("init" in v and "init" not in self.vars[k]):
                conv(v); self.vars[k] = v
        for k, c in d["decls"].items():
            if k not in self.decls and c:
                conv(c); self.decls[k] = c

    def _index(self):
        self.by_q, self.by_name, self.by_cls = {}, {}, {}
        for k, f in self.funcs.items():
            self.by_q.setdefault(f["q"], []).append(f)
            self.by_name.setdefault(f["n"], []).append(f)
            if "clsb" in f: self.by_cls.setdefault(f["clsb"], []).append(f)
        # direct subclasses, by record name with template arguments
        self.subs = {}
        for k, r in self.records.items():
            if r.get("dep"): continue
            for b in r["bases"]:
                if "rec" in b: self.subs.setdefault(b["rec"], []).append(k)
        # overriders: method key -> funcs overriding it (transitively)
        self.over = {}
        for r in self.records.values():
            for m in r["methods"]:
                for b in m.get("ov", []):
                    self.over.setdefault(b, set()).add(m["f"])

    def concrete(self):
        """All functions with a body that are not uninstantiated templates."""
        return [f for f in self.funcs.values() if f.body and not f.get("dep")]

    def get(self, q, cls=None):
        return [f for f in self.by_q.get(q, []) if f.body and not f.get("dep")]

    def one(self, q):
        fs = self.get(q)
        if not fs: raise AnalysisError("anchor vanished: no function named " + q)
        return fs[0]

    def subclasses(self, rec):
        out, todo = [], [rec]
        while todo:
            x = todo.pop()
            for s in self.subs.get(x, []):
                if s not in out: out.append(s); todo.append(s)
        return out

    def bases(self, rec):
        """All transitive bases of a record (names with template arguments)."""
        out, todo = [], [rec]
        while todo:
            x = todo.pop(0)
            for b in self.records.get(x, {}).get("bases", []):
                if "rec" in b and b["rec"] not in out: out.append(b["rec"]); todo.append(b["rec"])
        return out

    def overriders(self, key):
        out, todo = [], [key]
        while todo:
            x = todo.pop()
            for y in self.over.get(x, ()):
                if y not in out: out.append(y); todo.append(y)
        return out

    def callee(self, n):
        """Function key statically named by a call node, or None."""
        return n.get("f")

    def targets(self, n):
        """Possible bodies executed by a call node (virtual dispatch expanded)."""
        k = n.get("f")
        if not k: return []
        d = self.decls.get(k, {})
        keys = [k]
        if d.get("virt") and not n.get("qual"):
            keys += self.overriders(k)
        return [self.funcs[x] for x in keys if x in self.funcs and self.funcs[x].body]

    def fields(self, rec):
        r = self.records.get(rec)
        return r["fields"] if r else []


def src_line(file, line):
    try:
        return open(os.path.join(REPO, file)).read().split("\n")[line - 1].strip()
    except Exception:
        return ""


def show(n, depth=0):
    """Debug printer."""
    if n is None: return
    pad = "  " * depth
    at = {f: v for f, v in n.items() if not isinstance(v, (dict, list)) and f not in ("k", "l")}
    if "t" in n: at["t"] = n["t"]["s"][:50] if isinstance(n["t"], dict) else n["t"]
    if "f" in at: at["f"] = at["f"][-50:]
    print(pad + n["k"], "@%s" % n.get("l"), at)
    for c in kids(n): show(c, depth + 1)
