"""Which HIL variables the C++ code defines, reads and demands.

Every call of a method of hexed::Namespace is an event. Names are evaluated as patterns (hil.N for an integer, hil.W for
anything), through helper functions (parameters bound at the call site) and loops over constant lists. Events are attributed to a
unit: the outermost lambda (the body of a Heisenberg variable) or the function itself, and to a namespace: 'global' for the one of
the case or solver, 'local' for that of a sub-interpreter."""
import re
from .ir import walk, kids
from .strings import StringEval
from .hil import N, W

NS = "hexed::Namespace::"
METHODS = {"assign", "assign_default", "create", "lookup", "exists", "exists_recursive"}
WRITES = {"assign", "assign_default", "create"}


def tname(t):
    s = t["s"] if t else "?"
    if "basic_string" in s: return "s"
    if "double" in s: return "d"
    if "int" in s or "bool" in s: return "i"
    return "?"


def strip(n):
    while n is not None and (n["k"] in ("Cast", "ICast") or n["k"] == "Ctor" and len([a for a in n["a"] if not a.get("def")]) == 1 and (n.get("copy") or n.get("move"))):
        n = n["e"] if n["k"] != "Ctor" else n["a"][0]
    return n


class Names(StringEval):
    """string patterns; None only when the text depends on an unbound parameter"""
    def __init__(self, P):
        super().__init__(P)
        self._rf = {}
        self.text_of = None    # function: variable name -> list of texts it may hold (HIL environment)

    def rfors(self, f):
        if f["key"] not in self._rf: self._rf[f["key"]] = {n["var"]["id"]: n["range"] for n in walk(f.body) if n["k"] == "RFor"}
        return self._rf[f["key"]]

    def struct_texts(self, f, n, env):
        """texts held by a Struct_expr expression, None if unknown"""
        n = strip(n)
        if n is None or self.text_of is None: return None
        if n["k"] == "Ref":
            if env and n["id"] in env:
                e = env[n["id"]]; return self.struct_texts(e[1], e[2], e[3])
            d = self._fn_index(f)[0].get(n["id"])
            return self.struct_texts(f, d["init"], env) if d and d.get("init") else None
        if n["k"] == "Ctor" and "Struct_expr" in n["t"]["s"]:
            a = [x for x in n["a"] if not x.get("def")]
            return self.texts(f, a[0], env) if a else None
        return None

    def texts(self, f, n, env):
        """texts of an expression that is a variable's value or a constant"""
        nm = self.var_names(f, n, env)
        if nm is None:
            v, d = self.eval(f, n, env)
            return None if v is None or any(W in x for x in v) else sorted(v)
        out = []
        for x in nm:
            t = self.text_of(x)
            if t is None: return None
            out += t
        return out

    def var_names(self, f, n, env):
        """names of the HIL variables whose value the expression is (through value(), * and accessors), or None"""
        n = strip(n)
        if n is None: return None
        if n["k"] == "MCall" and n.get("n") == "value" and "obj" in n: return self.var_names(f, n["obj"], env)
        if n["k"] == "OpCall" and n["op"] == "*" and len(n["a"]) == 1: return self.var_names(f, n["a"][0], env)
        if n["k"] == "Ref":
            if env and n["id"] in env:
                e = env[n["id"]]; return self.var_names(e[1], e[2], e[3])
            decl, wr, _ = self._fn_index(f)
            d = decl.get(n["id"])
            return self.var_names(f, d["init"], env) if d and d.get("init") and not wr.get(n["id"]) else None
        if n["k"] in ("MCall", "Call"):
            d = self.P.decls.get(n.get("f"), {})
            if d.get("q") == NS + "lookup":
                v, _ = self.eval(f, n["a"][0], env)
                return v
            ts = self.P.targets(n)
            if len(ts) == 1:
                rets = [r for r in walk(ts[0].body, False) if r["k"] == "Return" and r.get("e")]
                if len(rets) == 1:
                    return self.var_names(ts[0], rets[0]["e"], {p["id"]: ("expr", f, a, env) for p, a in zip(ts[0]["params"], n["a"])})
        return None

    def coll(self, f, n, env, depth):
        """elements of a collection of strings"""
        n = strip(n)
        if n["k"] == "Init":
            out = set()
            for a in n["a"]:
                v, d = self.eval(f, a, env, depth)
                if v is None: return None, d
                out |= v
            return out, set()
        if n["k"] == "Ctor":
            a = [x for x in n["a"] if not x.get("def")]
            if len(a) == 1: return self.coll(f, a[0], env, depth)
            return {W}, set()
        if n["k"] in ("Ref",):
            if env and n["id"] in env:
                e = env[n["id"]]; return self.coll(e[1], e[2], e[3], depth)
            decl, wr, _ = self._fn_index(f)
            d = decl.get(n["id"])
            if d and d.get("init"):
                out, dep = self.coll(f, d["init"], env, depth) if strip(d["init"])["k"] in ("Init", "Ctor") else ({W}, set())
                if out is None: return None, dep
                for m in walk(f.body):
                    if m["k"] == "MCall" and m.get("n") in ("push_back", "emplace_back", "insert") and strip(m.get("obj")).get("id") == n["id"]:
                        for a in m["a"]:
                            v, _ = self.eval(f, a, env, depth)
                            out = out | (v or {W})
                return out - ({""} if len(out) > 1 else set()), dep
            if n["id"].startswith("G:"):
                v = self.P.vars.get(n["id"])
                if v and v.get("init"): return self.coll(f, v["init"], env, depth)
            return {W}, set()
        if n["k"] == "Mem" and n["q"].endswith("Struct_expr::names"):
            t = self.struct_texts(f, n["e"] if "e" in n else next(kids(n), None), env)
            return (struct_names(t) if t is not None else {W}), set()
        return {W}, set()

    def eval(self, f, n, env=None, depth=0):
        if n is None or depth > 60: return {W}, set()
        k = n["k"]
        if k == "Call" and n.get("n") == "to_string": return {N}, set()
        if k == "Call" and n.get("n") == "format_str" and len(n["a"]) >= 2:
            fm, d = self.eval(f, n["a"][1], env, depth + 1)
            if fm is None: return None, d
            out = set(fm)
            args = list(n["a"][2:])
            res = set()
            for t in out:
                parts = [""]; ai = 0
                pos = 0
                for m in re.finditer(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(?:hh|h|ll|l|z|j|t|L)?([diouxXcsfFeEgGp%])", t):
                    lit = t[pos:m.start()]; pos = m.end()
                    ai += (m.group(2) == "*") + (m.group(3) == "*")
                    c = m.group(4)
                    if c == "%": add = {"%"}
                    elif c in "diou": add = {N}; ai += 1
                    elif c == "s" and ai < len(args):
                        add, dd = self.eval(f, args[ai], env, depth + 1); ai += 1
                        if add is None: return None, dd
                    else: add = {W}; ai += 1
                    parts = [p + lit + x for p in parts for x in add]
                res |= {p + t[pos:] for p in parts}
            return res, set()
        if k in ("OpCall",) and n["op"] == "+":
            a, da = self.eval(f, n["a"][0], env, depth + 1)
            if a is None: return None, da
            b, db = self.eval(f, n["a"][1], env, depth + 1)
            if b is None: return None, db
            return {x + y for x in a for y in b}, set()
        if k == "OpCall" and n["op"] == "[]" or k == "MCall" and n.get("n") == "at":
            o = strip(n["a"][0] if k == "OpCall" else n["obj"])
            return self.coll(f, o, env, depth + 1)
        if (k == "OpCall" and n["op"] == "*" and len(n["a"]) == 1 or k == "MCall" and n.get("n") == "value") and "basic_string" in n["t"]["s"]:
            if self.text_of is not None:
                nm = self.var_names(f, n, env)
                if nm is not None and all(x.strip(W) for x in nm):
                    ts = [self.text_of(x) for x in nm]
                    if ts and all(ts): return {t for l in ts for t in l}, set()
            nm = None
            if env is None or True:
                for x in walk(n):
                    if x["k"] == "Ref" and any(p["id"] == x["id"] for p in f["params"]) and not (env and x["id"] in env): return None, {("param", x["id"])}
            return {W}, set()
        if k == "OpCall" and n["op"] == "*" and len(n["a"]) == 1: return {W}, set()
        if k == "Ref":
            if env and n["id"] in env:
                e = env[n["id"]]
                if e[0] == "const": return set(e[1]), set()
                return self.eval(e[1], e[2], e[3], depth + 1)
            rf = self.rfors(f)
            if n["id"] in rf: return self.coll(f, rf[n["id"]], env, depth + 1)
        v, d = super().eval(f, n, env, depth)
        if v is None:
            if any(isinstance(x, tuple) and x[0] == "param" for x in d) and not (env is not None and not self.is_fn_param(f, d)): return None, d
            return {W}, set()
        return v, d

    def is_fn_param(self, f, deps):
        ids = {p["id"] for p in f["params"]}
        return any(isinstance(x, tuple) and x[1] in ids for x in deps)


def struct_names(texts):
    out = set()
    for t in texts:
        for s in re.split(r"[;\n]", t):
            if "=" in s: out.add(s.split("=")[0].strip())
    return out


def struct_statements(t):
    out = []
    for s in re.split(r"[;\n]", t):
        if "=" in s:
            a, b = s.split("=", 1)
            out.append((a.strip(), b.strip()))
    return out


class Event:
    def __init__(self, **k): self.__dict__.update(k)
    def __repr__(self): return "<%s %s %r %s %s %s>" % (self.method, self.ty, self.names, self.ns, self.unit, self.loc)


class Collector:
    def __init__(self, P):
        self.P = P
        self.S = Names(P)
        self.events, self.execs, self.structs = [], [], []
        # functions which can reach a Namespace method
        self.reach = set()
        calls = {}
        for f in P.concrete():
            if f.get("cls") in ("hexed::Namespace",): continue
            for n in walk(f.body):
                if n["k"] in ("Call", "MCall", "Ctor") and n.get("f"):
                    d = P.decls.get(n["f"], {})
                    if d.get("q", "").startswith(NS) or self.is_exec(n): self.reach.add(f["key"])
                    calls.setdefault(n["f"], set()).add(f["key"])
                if n["k"] == "Ctor" and "Struct_expr" in n["t"]["s"]: self.reach.add(f["key"])
        self.direct = set(self.reach)
        self.parents = {}

    def is_exec(self, n):
        return n["k"] == "MCall" and self.P.decls.get(n.get("f"), {}).get("q") == "hexed::Interpreter::exec"

    def run(self):
        self.events, self.execs, self.structs = [], [], []
        self.seen = set()
        for f in sorted(self.P.concrete(), key=lambda f: f["key"]):
            if f["key"] in self.calling() and f.get("cls") != "hexed::Namespace": self.function(f, None, None, (), None)
        return self

    # ---- helpers
    def par(self, f):
        if f["key"] not in self.parents:
            m = {}
            for n in walk(f.body):
                for c in kids(n): m[id(c)] = n
            self.parents[f["key"]] = m
        return self.parents[f["key"]]

    def unit(self, f, n):
        m, x, u = self.par(f), n, None
        while id(x) in m:
            x = m[id(x)]
            if x["k"] == "Lambda": u = x
        if u is None: return f["key"]
        nm = None
        y = u
        while id(y) in m:                      # name of the Heisenberg variable it implements
            y = m[id(y)]
            if y["k"] == "MCall" and self.P.decls.get(y.get("f"), {}).get("q") == NS + "create":
                v, _ = self.S.eval(f, y["a"][0], None)
                nm = min(v) if v else None
                break
        return "%s::<%s>" % (f["q"], nm if nm else u["l"] if "l" in u else "lambda")

    def demand(self, f, n, env):
        """'demand' | 'test' | 'weak' | 'ret' for the optional produced by node n"""
        m, x = self.par(f), n
        while id(x) in m:
            p = m[id(x)]
            k = p["k"]
            if k == "MCall" and p.get("obj") is x:
                if p.get("n") == "value": return "demand"
                if p.get("n") in ("has_value", "operator bool", "value_or"): return "test"
                return "weak"
            if k == "OpCall" and p["op"] in ("*", "->") and p["a"][0] is x: return "demand"
            if k in ("OpCall", "Bin"): return "weak"
            if k in ("If", "Cond", "Un"): return "test"
            if k == "Return": return "ret"
            if k == "Var":
                out = set()
                for r in walk(f.body):
                    if r["k"] == "Ref" and r["id"] == p["id"]: out.add(self.demand(f, r, env))
                return "test" if "test" in out else "demand" if "demand" in out else "weak"
            if k in ("Asg", ) : return "test"
            if k in ("Block", "For", "While", "Lambda", "Call"): return "weak"
            x = p
        return "weak"

    def recv(self, f, n, env):
        n = strip(n)
        while n is not None:
            if n["k"] == "Mem":
                if n["n"] in ("_inter", "_namespace"): return "global"
                n = strip(n.get("e") or next(kids(n), None))
            elif n["k"] == "This":
                return "global"
            elif n["k"] == "Ref":
                if env and n["id"] in env and env[n["id"]][0] == "expr":
                    e = env[n["id"]]; return self.recv(e[1], e[2], e[3])
                if any(p["id"] == n["id"] for p in f["params"]): return "param"
                d = self.S._fn_index(f)[0].get(n["id"])
                if d and d.get("init") and d["t"].get("ref"): n = strip(d["init"]); continue
                if d and d.get("init") and "shared_ptr" in d["t"]["s"]: n = strip(d["init"]); continue
                return "local"
            elif n["k"] in ("OpCall", "Un", "MCall", "Ctor", "Cast", "ICast"):
                if n["k"] == "MCall":
                    if n.get("n") == "nspace": return "global"
                    n = strip(n.get("obj"))
                elif n["k"] == "OpCall": n = strip(n["a"][0])
                elif n["k"] == "Ctor": n = strip(n["a"][0]) if n["a"] else None
                else: n = strip(n.get("e"))
            else: return "local"
        return "local"

    def function(self, f, env, unit, stack, dem):
        """collect the events of f; env None: only those that do not depend on parameters"""
        S, P = self.S, self.P
        if f["key"] in stack or len(stack) > 6: return
        for n in walk(f.body):
            k = n["k"]
            if k not in ("Call", "MCall", "Ctor"): continue
            d = P.decls.get(n.get("f"), {})
            q = d.get("q", "")
            u = unit or self.unit(f, n)
            loc = "%s:%d" % (f["file"], n["l"])
            if q.startswith(NS) and n.get("n") in METHODS:
                names, deps = S.eval(f, n["a"][0], env)
                r = self.recv(f, n.get("obj"), env)
                dep = names is None or r == "param"
                if dep and env is None: continue
                if env is not None and not (stack and self.depends(f, n, env)): continue
                meth = n["n"]
                ty = tname(n["t"]) if meth == "lookup" else tname(d["ps"][1]) if len(d.get("ps", [])) > 1 else "?"
                dm = self.demand(f, n, env) if meth == "lookup" else "test" if meth.startswith("exists") else None
                if dm == "ret": dm = dem or "weak"
                val = self.const(f, n["a"][1], env) if meth in WRITES and len(n["a"]) > 1 else None
                heis = meth == "create" and any(x["k"] == "New" and "Heisenberg" in x["t"]["s"] for x in walk(n["a"][1]))
                key = (id(n), tuple(sorted(names or {W})), r, u, dm)
                if key in self.seen: continue
                self.seen.add(key)
                self.events.append(Event(method=meth, ty=ty, names=names or {W}, ns="global" if r == "global" else "local", unit=u, loc=loc, dem=dm, val=val, heis=heis, fn=f["q"], node=n, cls=f.get("cls"), alias=self.aliased(f, n["a"][0])))
                continue
            if self.is_exec(n):
                v, deps = S.eval(f, n["a"][0], env)
                if v is not None: self.execs.append((v, self.recv(f, n.get("obj"), env), u, loc, f["q"]))
                continue
            if k == "Ctor" and d.get("q") == "hexed::Struct_expr::Struct_expr" and not n.get("copy") and not n.get("move"):
                a = [x for x in n["a"] if not x.get("def")]
                if a: self.structs.append((f, n, a[0], env, u, loc))
                continue
            ts = P.targets(n) if n.get("f") in P.funcs else []
            for g in ts:
                if g["key"] in self.closure() and g.get("cls") not in ("hexed::Namespace", "hexed::Interpreter"):
                    e2 = {p["id"]: ("expr", f, a, env) for p, a in zip(g["params"], n["a"])}
                    self.function(g, e2, u, stack + (f["key"],), self.demand(f, n, env))

    def calling(self):
        """functions that access the namespace themselves or call something that does"""
        if not hasattr(self, "_call"):
            cl = self.closure()
            self._call = set(cl)
            for f in self.P.concrete():
                for n in walk(f.body):
                    if n["k"] in ("Call", "MCall", "Ctor") and n.get("f") in cl: self._call.add(f["key"]); break
        return self._call

    def aliased(self, f, n):
        """does the name come from the left-hand sides of a structured expression?"""
        seen, todo = set(), list(walk(n))
        decl = self.S._fn_index(f)[0]
        while todo:
            x = todo.pop()
            if x["k"] == "Mem" and x["q"].endswith("Struct_expr::names"): return True
            if x["k"] == "Ref" and x["id"] not in seen:
                seen.add(x["id"])
                d = decl.get(x["id"])
                if d and d.get("init"): todo += list(walk(d["init"]))
                rf = self.S.rfors(f).get(x["id"])
                if rf: todo += list(walk(rf))
        return False

    def closure(self):
        if not hasattr(self, "_cl"):
            self._cl = set(self.direct)
            rev = {}
            for f in self.P.concrete():
                for n in walk(f.body):
                    if n["k"] in ("Call", "MCall", "Ctor") and n.get("f"): rev.setdefault(n["f"], set()).add(f["key"])
            # only functions that take a namespace, interpreter or text are worth inlining
            todo = list(self._cl)
            while todo:
                x = todo.pop()
                for y in rev.get(x, ()):
                    g = self.P.funcs[y]
                    if y not in self._cl and any("Namespace" in p["t"]["s"] or "Interpreter" in p["t"]["s"] or "basic_string" in p["t"]["s"] for p in g["params"]):
                        self._cl.add(y); todo.append(y)
        return self._cl

    def depends(self, f, n, env):
        """does the event depend on the bindings of f's parameters?"""
        ids = {p["id"] for p in f["params"]}
        sub = [n["a"][0]] + ([n["obj"]] if n.get("obj") else [])
        seen = set()
        todo = [x for s in sub for x in walk(s)]
        decl = self.S._fn_index(f)[0]
        while todo:
            x = todo.pop()
            if x["k"] == "Ref" and x["id"] not in seen:
                seen.add(x["id"])
                if x["id"] in ids: return True
                dd = decl.get(x["id"])
                if dd and dd.get("init"): todo += list(walk(dd["init"]))
                rf = self.S.rfors(f).get(x["id"])
                if rf: todo += list(walk(rf))
        return False

    def const(self, f, n, env):
        n0 = strip(n)
        if n0 is None: return None
        if n0["k"] == "Bool": return ("i", int(n0["v"]))
        if "cv" in n and n["t"].get("cls") in ("int", "uint", "bool"): return ("i", n["cv"])
        if n0["k"] == "Int": return ("i", n0["v"])
        if n0["k"] == "Float": return ("d", float(n0["v"]))
        if n0["k"] == "Un" and n0["op"] == "-":
            c = self.const(f, n0["e"], env)
            return (c[0], -c[1]) if c and c[1] is not None and c[0] in "id" else None
        if n0["k"] == "Ref":
            if env and n0["id"] in env and env[n0["id"]][0] == "expr":
                e = env[n0["id"]]; return self.const(e[1], e[2], e[3])
            if n0["id"].startswith("G:"):
                v = self.P.vars.get(n0["id"])
                if v and v.get("q") == "hexed::huge": return ("d", float("inf"))
                if v and v.get("init") and "const" in v["t"]["s"]: return self.const(f, v["init"], env)
        if "basic_string" in n["t"]["s"] or n0["k"] == "Str":
            v, _ = self.S.eval(f, n, env)
            if v and len(v) == 1 and W not in next(iter(v)) and N not in next(iter(v)): return ("s", next(iter(v)))
        return None
