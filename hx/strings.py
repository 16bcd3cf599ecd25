"""Constant propagation for string-valued and integer-valued expressions."""
from .ir import walk


class StringEval:
    def __init__(self, P):
        self.P = P
        self._writes = {}

    def field_init(self, q):
        if not hasattr(self, "_fi"):
            self._fi, wr = {}, set()
            for r in self.P.records.values():
                for fl in r["fields"]:
                    if fl.get("init"): self._fi[r.get("q", r["key"]) + "::" + fl["n"]] = fl["init"]
            def base(t):
                while t is not None and t["k"] in ("Cast", "ICast"): t = t["e"]
                return t["q"] if t is not None and t["k"] == "Mem" else None
            for f in self.P.concrete():
                for i in f.get("inits", []):
                    if i.get("field") and i.get("e", {}).get("k") != "DefInit" and not f.get("implicit") and i.get("written", True): wr.add((f.get("clsb", "") + "::" + i["field"], id(i)))
                for n in walk(f.body):
                    if n["k"] == "Asg" or n["k"] == "OpCall" and n["op"] in ("=", "+=", ">>", "<<"): wr.add((base(n["a"][0]), None))
                    if n["k"] == "MCall" and not self.P.decls.get(n.get("f"), {}).get("const") and n.get("n") not in ("begin", "end", "c_str", "size"): wr.add((base(n.get("obj")), None))
                    if n["k"] == "Un" and n["op"] == "&": wr.add((base(n["e"]), None))
                    if n["k"] in ("Call", "MCall", "Ctor"):
                        for a, pt in zip(n["a"], self.P.decls.get(n.get("f"), {}).get("ps", [])):
                            if pt.get("ref") and not pt.get("const") and not pt["s"].endswith("&&"): wr.add((base(a), None))
            for w, _ in wr:
                if _ is None: self._fi.pop(w, None)
        return self._fi.get(q)

    def _fn_index(self, f):
        k = f["key"]
        if k in self._writes: return self._writes[k]
        decl, writes, params = {}, {}, {}
        for p in f["params"]: params[p["id"]] = p
        for n in walk(f.body) if f.body else ():
            if n["k"] == "Var":
                decl[n["id"]] = n
            elif n["k"] == "Lambda":
                for p in n["params"]: params[p["id"]] = p
            elif n["k"] == "RFor":
                writes.setdefault(n["var"]["id"], []).append(("?", None))
                decl[n["var"]["id"]] = n["var"]
            elif n["k"] == "Asg":
                t = n["a"][0]
                if t["k"] == "Ref": writes.setdefault(t["id"], []).append((n["op"], n["a"][1]))
            elif n["k"] == "OpCall" and n["op"] in ("=", "+=", "<<", ">>"):
                t = n["a"][0]
                if t["k"] == "Ref" and n["op"] != "<<": writes.setdefault(t["id"], []).append((n["op"], n["a"][1]))
            elif n["k"] == "MCall":
                t = n.get("obj")
                d = self.P.decls.get(n.get("f"), {})
                if t and t["k"] == "Ref" and not d.get("const"): writes.setdefault(t["id"], []).append(("?", None))
            if n["k"] in ("Call", "MCall", "Ctor"):
                d = self.P.decls.get(n.get("f"), {})
                for a, pt in zip(n["a"], d.get("ps", [])):
                    if a["k"] == "Ref" and pt.get("ref") and not pt.get("const") and not pt["s"].endswith("&&"):
                        writes.setdefault(a["id"], []).append(("?", None))
                    if a["k"] == "Un" and a["op"] == "&" and a["e"]["k"] == "Ref": writes.setdefault(a["e"]["id"], []).append(("?", None))
        self._writes[k] = (decl, writes, params)
        return self._writes[k]

    def eval(self, f, n, env=None, depth=0):
        """-> (set of strings | None, set of dependencies)."""
        if n is None or depth > 40: return None, set()
        k = n["k"]
        E = lambda x: self.eval(f, x, env, depth + 1)
        if k == "Str": return {n["v"]}, set()
        if k == "Char": return {chr(n["v"])}, set()
        if k in ("Cast", "ICast"): return E(n["e"])
        if k == "Ctor":
            a = [x for x in n["a"] if not x.get("def")]
            if len(a) == 0: return {""}, set()
            if len(a) == 1: return E(a[0])
            return None, set()
        if k == "MCall" and n.get("n") in ("c_str", "data", "str") and n.get("obj"): return E(n["obj"])
        if k == "Cond":
            a, da = E(n["then"]); b, db = E(n["else"])
            return (a | b if a is not None and b is not None else None), da | db
        if k == "OpCall" and n["op"] == "+":
            a, da = E(n["a"][0]); b, db = E(n["a"][1])
            if a is None or b is None: return None, da | db
            return {x + y for x in a for y in b}, da | db
        if k == "Init" and len(n["a"]) == 1: return E(n["a"][0])
        if k == "Call":
            if n.get("n") == "to_string" and n["a"] and n["a"][0]["t"].get("cls") in ("int", "uint", "bool"): return {"9"}, set()
            if n.get("n") in ("move", "forward") and n["a"]: return E(n["a"][0])
        if k in ("Call", "MCall"):
            # helper returning a constant text
            ts = self.P.targets(n)
            if len(ts) == 1 and ts[0] is not f:
                g = ts[0]
                rets = [r for r in walk(g.body, False) if r["k"] == "Return" and r.get("e")]
                env2 = {p["id"]: ("expr", f, a, env) for p, a in zip(g["params"], n["a"])}
                out, deps = set(), set()
                for r in rets:
                    v, d = self.eval(g, r["e"], env2, depth + 1)
                    deps |= d
                    if v is None: return None, deps
                    out |= v
                if rets: return out, deps
            return None, set()
        if k == "Mem":
            # field with a constant initializer that nothing assigns
            i = self.field_init(n["q"])
            return E(i) if i is not None else (None, set())
        if k == "Ref":
            if env and n["id"] in env:
                e = env[n["id"]]
                return self.eval(e[1], e[2], e[3], depth + 1)
            if n["id"].startswith("G:"):
                v = self.P.vars.get(n["id"])
                if v and v.get("init") and ("const" in v["t"]["s"] or v.get("constexpr") or v["t"].get("const")): return E(v["init"])
                return None, set()
            decl, writes, params = self._fn_index(f)
            if n["id"] in decl:
                v = decl[n["id"]]
                if not v.get("init"):
                    out = set()
                    deps = set()
                else:
                    out, deps = E(v["init"])
                    if out is None: return None, deps
                out = set(out)
                for op, r in writes.get(n["id"], []):
                    if op != "=": return None, deps
                    x, d = E(r); deps |= d
                    if x is None: return None, deps
                    out |= x
                return (out or None), deps
            if n["id"] in params:
                return None, {("param", n["id"], _FnBox(f))}
        return None, set()

    def int_(self, f, n, env=None, depth=0):
        """integer constant, ('?',) when unknown."""
        if n is None or depth > 30: return ("?",)
        if "cv" in n: return n["cv"]
        if n["k"] == "Int": return n["v"]
        if n["k"] in ("Cast", "ICast"): return self.int_(f, n["e"], env, depth + 1)
        if n["k"] == "Ref":
            if env and n["id"] in env:
                e = env[n["id"]]; return self.int_(e[1], e[2], e[3], depth + 1)
            decl, writes, params = self._fn_index(f)
            if n["id"] in decl and not writes.get(n["id"]) and decl[n["id"]].get("init"): return self.int_(f, decl[n["id"]]["init"], env, depth + 1)
        if n["k"] == "Bin":
            a, b = self.int_(f, n["a"][0], env, depth + 1), self.int_(f, n["a"][1], env, depth + 1)
            if isinstance(a, int) and isinstance(b, int):
                if n["op"] == "+": return a + b
                if n["op"] == "-": return a - b
                if n["op"] == "*": return a * b
        return ("?",)


class _FnBox:
    """hashable function reference"""
    def __init__(self, f): self.f = f
    def __hash__(self): return hash(self.f["key"])
    def __eq__(self, o): return (o.f if isinstance(o, _FnBox) else o) is self.f
