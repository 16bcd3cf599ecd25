"""Path-condition analysis: which conditions are known to hold when an expression is evaluated.

Structured forward dataflow over the statement tree.  A state is a frozenset of facts; a fact is
(atom, polarity) with atoms over canonical expressions, ("or", ((atom, pol), ...)), or an alias of a
boolean local.  Facts are killed when something they mention may be modified (assignments, mutating
methods, by-reference arguments, fields that a callee may assign).  Guards are recognised through
early exits, assertions, short-circuit operators, boolean locals, predicate helpers and checking helpers."""
from .ir import walk, kids, NOTYPE

ACCESS = {"operator*", "operator->", "operator[]", "at", "begin", "end", "front", "back", "get", "value", "data", "c_str", "find", "rbegin", "rend",
          "cbegin", "cend", "operator()", "lower_bound", "upper_bound", "equal_range", "count", "size", "empty", "operator bool", "has_value", "str", "good", "coeffRef"}
NEG = {"<": False, ">": False, "<=": False, ">=": False}


def deref(c):
    return c[1] if c[0] == "&" else ("*", c)


def canon_children(c):
    return [x for x in c if isinstance(x, tuple)]


def contains(c, sub):
    if c == sub: return True
    return any(contains(x, sub) for x in c if isinstance(x, tuple))


def subterms(c):
    if isinstance(c, tuple):
        yield c
        for x in c:
            if isinstance(x, tuple): yield from subterms(x)


class Guards:
    def __init__(self, P):
        self.P = P
        self._nr, self._mods, self._post, self._local, self._postret = {}, {}, {}, {}, {}
        self.uniq = 0
        self.depth = 0
        self.precise = False        # analyse the first iteration of a loop apart from the others
        self.nonempty_always = []   # containers an invariant keeps nonempty
        self.after_call = None      # domain model: (node, state) -> facts established by a call

    # ---- canonical expressions ----
    def canon(self, n, env=None):
        if n is None: return ("none",)
        k = n["k"]
        C = lambda x: self.canon(x, env)
        if "cv" in n: return ("i", n["cv"])
        if k in ("Cast", "ICast", "ConstCast"):
            return C(n["e"])
        if k == "Int" or k == "Char" or k == "Bool": return ("i", int(n["v"]))
        if k == "Float": return ("d", n["v"])
        if k == "Str": return ("s", n["v"])
        if k == "Ref":
            if env and n["id"] in env:
                e = env[n["id"]]
                return e if isinstance(e, tuple) else e
            if "std::basic_regex<" in n["t"]["s"]:
                t = self.regex_text(n["id"])
                if t is not None: return ("s", t)
            return ("v", n["id"])
        if k == "This": return (env or {}).get("this", ("this",))
        if k == "Mem":
            b = C(n["b"])
            if n.get("arrow"): b = deref(b)
            return ("m", n["q"], b)
        if k == "Idx": return ("[]", C(n["b"]), C(n["i"]))
        if k == "OpCall":
            a = [C(x) for x in n["a"]]
            if n["op"] == "*" and len(a) == 1: return ("*", a[0])
            if n["op"] == "->" and len(a) == 1: return ("&", ("*", a[0]))
            if n["op"] == "[]": return ("[]", a[0], a[1])
            return ("op" + n["op"],) + tuple(a)
        if k in ("MCall", "Call"):
            e = self.inline_expr(n, env)
            if e is not None: return e
        if k == "MCall":
            o = C(n["obj"]) if n.get("obj") else ("this",)
            if n.get("arrow"): o = deref(o)
            nm = n.get("n", "?")
            if nm in ("operator bool", "has_value") : return ("truth", o)
            if nm in ("value",) and not n["a"]: return ("*", o)
            if nm in ("operator*", "operator->"): return ("*", o)
            if nm == "at" and n["a"]: return ("[]", o, C(n["a"][0]))
            return ("c", self.cname(n), o) + tuple(C(x) for x in n["a"] if not x.get("def"))
        if k == "Call":
            return ("c", self.cname(n), ("none",)) + tuple(C(x) for x in n["a"])
        if k == "Bin": return (n["op"], C(n["a"][0]), C(n["a"][1]))
        if k == "Un":
            if n["op"] == "*": return deref(C(n["e"]))
            if n["op"] == "&":
                e = C(n["e"])
                return ("&", e)
            return ("u" + n["op"], C(n["e"]))
        if k == "Ctor" and len([x for x in n["a"] if not x.get("def")]) == 1: return C(n["a"][0])
        if k == "Init" and len(n["a"]) == 1: return C(n["a"][0])
        if k == "Ctor": return ("ctor", n["t"]["s"]) + tuple(C(x) for x in n["a"] if not x.get("def"))
        if k == "Cond": return ("?", C(n["cond"]), C(n["then"]), C(n["else"]))
        self.uniq += 1
        return ("uniq", self.uniq)

    def regex_text(self, vid):
        """constant text of a const regular expression variable"""
        if not hasattr(self, "_rx"):
            self._rx = {}
            vs = [x for f in self.P.concrete() for x in walk(f.body) if x["k"] == "Var"] + [dict(v, id=k) for k, v in self.P.vars.items()]
            for v in vs:
                if v["t"]["s"].startswith("const std::basic_regex<") and v.get("init") and v["init"]["k"] == "Ctor":
                    a = [y for y in v["init"]["a"] if not y.get("def")]
                    if len(a) == 1:
                        e = a[0]
                        while e["k"] in ("Cast", "ICast") or e["k"] == "Ctor" and len([x for x in e["a"] if not x.get("def")]) == 1: e = e["e"] if "e" in e else e["a"][0]
                        if e["k"] == "Str": self._rx[v["id"]] = e["v"]
        return self._rx.get(vid)

    def inline_expr(self, n, env):
        """a helper that only returns an expression is transparent"""
        if self.depth > 4: return None
        f = n.get("f")
        d = self.P.decls.get(f, {})
        if not d.get("repo") or d.get("virt"): return None
        g = self.P.funcs.get(f)
        if not g or not g.body or g.body["k"] != "Block": return None
        st = [c for c in g.body["c"] if c["k"] != "Null"]
        if len(st) != 1 or st[0]["k"] != "Return" or not st[0].get("e"): return None
        if len(n["a"]) < len(g["params"]): return None
        env2 = {p["id"]: self.canon(a, env) for p, a in zip(g["params"], n["a"])}
        if n["k"] == "MCall" and n.get("obj"):
            o = self.canon(n["obj"], env)
            env2["this"] = o if n.get("arrow") else ("&", o)
        self.depth += 1
        try: return self.canon(st[0]["e"], env2)
        finally: self.depth -= 1

    def cname(self, n):
        f = n.get("f")
        return f if self.P.decls.get(f, {}).get("repo") else n.get("n", "?")

    # ---- conditions -> facts ----
    def facts_of(self, n, pol, env=None, depth=0):
        """facts implied by condition n having truth value pol"""
        if n is None: return []
        if "cv" in n: return []
        k = n["k"]
        if k in ("Cast", "ICast"): return self.facts_of(n["e"], pol, env, depth)
        if k == "Un" and n["op"] == "!": return self.facts_of(n["e"], not pol, env, depth)
        if k == "Bin" and n["op"] in ("&&", "||"):
            conj = (n["op"] == "&&") == pol
            a = self.facts_of(n["a"][0], pol, env, depth); b = self.facts_of(n["a"][1], pol, env, depth)
            if conj: return a + b
            if not a or not b: return []
            return [("or", (tuple(a), tuple(b)))]
        if k in ("Bin", "OpCall") and n.get("op") in ("<", ">", "<=", ">=", "==", "!="):
            x, y = n["a"]
            while x["k"] in ("Cast", "ICast"): x = x["e"]
            if x["k"] == "OpCall" and x.get("op") == "<=>": x, y = x["a"]     # C++20 rewritten comparison
            a, b = self.canon(x, env), self.canon(y, env)
            return [cmp_fact(n["op"], a, b, pol)]
        if k in ("Call", "MCall"):
            # predicate helper: a single return expression
            ts = self.P.targets(n)
            if len(ts) == 1 and depth < 3:
                g = ts[0]; b = g.body
                st = [c for c in b["c"] if c["k"] != "Null"] if b["k"] == "Block" else []
                if len(st) == 1 and st[0]["k"] == "Return" and st[0].get("e"):
                    env2 = {p["id"]: self.canon(a, env) for p, a in zip(g["params"], n["a"])}
                    if n["k"] == "MCall" and n.get("obj"):
                        o = self.canon(n["obj"], env)
                        env2["this"] = o if n.get("arrow") else ("&", o)
                    return self.facts_of(st[0]["e"], pol, env2, depth + 1) + [(("truth", self.canon(n, env)), pol)]
            if k == "MCall":
                nm = n.get("n")
                o = self.canon(n["obj"], env) if n.get("obj") else ("this",)
                if n.get("arrow"): o = deref(o)
                if nm in ("has_value", "operator bool"): return [(("truth", o), pol)]
                if nm == "empty": return [(("empty", o), pol)]
        if k == "MCall" or k == "Call": pass
        c = self.canon(n, env)
        if c and c[0] == "truth": return [(c, pol)]
        return [(("truth", c), pol)]

    # ---- effects ----
    def noreturn(self, n):
        f = n.get("f")
        d = self.P.decls.get(f, {})
        if d.get("q") in ("std::exit", "exit", "abort", "std::abort", "std::terminate"): return True
        if f not in self._nr:
            self._nr[f] = False
            g = self.P.funcs.get(f)
            if g and g.body and not d.get("virt"):
                self._nr[f] = not self.completes(g.body) and not any(x["k"] == "Return" for x in walk(g.body, False))
        return self._nr[f]

    def completes(self, n):
        """may control reach the end of this statement?"""
        if n is None: return True
        k = n["k"]
        if k == "Block": return all(self.completes(c) for c in n["c"])
        if k in ("Return", "Throw", "Break", "Continue"): return False
        if k == "If":
            if n.get("else") is None:
                if n["cond"].get("cv"): return self.completes(n["then"])
                return True
            return self.completes(n["then"]) or self.completes(n["else"])
        if k == "OMP": return self.completes(n.get("body"))
        if k in ("Call", "MCall"): return not self.noreturn(n)
        if k == "Try": return self.completes(n["body"]) or any(self.completes(h["body"]) for h in n["handlers"])
        if k == "While" and n["cond"].get("cv") == 1: return any(x["k"] == "Break" for x in walk(n["body"], False))
        return True

    def fields_modified(self, key, depth=0):
        """field names a function may assign, transitively"""
        if key in self._mods: return self._mods[key]
        self._mods[key] = frozenset()
        d = self.P.decls.get(key, {})
        keys = [key] + (self.P.overriders(key) if d.get("virt") else [])
        out = set()
        for k in keys:
            g = self.P.funcs.get(k)
            if not g or not g.body: continue
            for x in walk(g.body):
                t = None
                if x["k"] == "Asg": t = x["a"][0]
                elif x["k"] == "Un" and x["op"] in ("++", "--"): t = x["e"]
                elif x["k"] == "OpCall" and x["op"] in ("=", "+=", "-=", "*=", "/=", ">>"): t = x["a"][0 if x["op"] != ">>" else 1]
                elif x["k"] == "MCall" and x.get("obj"):
                    dd = self.P.decls.get(x.get("f"), {})
                    if not dd.get("const") and not dd.get("repo") and x.get("n") not in ACCESS: t = x["obj"]
                while t is not None:
                    if t["k"] == "Mem": out.add(t["q"]); break
                    if t["k"] in ("Cast", "ICast", "Un"): t = t["e"]
                    elif t["k"] == "Idx": t = t["b"]
                    elif t["k"] == "MCall": t = t.get("obj")
                    elif t["k"] == "OpCall" and t["a"]: t = t["a"][0]
                    else: break
                if x["k"] in ("Call", "MCall", "Ctor", "OpCall") and x.get("f") in self.P.funcs and depth < 12:
                    out |= self.fields_modified(x["f"], depth + 1)
        self._mods[key] = frozenset(out)
        return self._mods[key]

    def kill(self, st, loc):
        """a location (canonical lvalue) is modified"""
        def hit(fact):
            for t in subterms(fact):
                if t == loc: return True
                if loc[0] == "m" and t[0] == "m" and t[1] == loc[1]:
                    a, b = t[2], loc[2]
                    if not (a[0] == "v" and b[0] == "v" and a != b): return True
                if loc[0] == "*" and t[0] == "*" and t[1] == loc[1]: return True
            return False
        return frozenset(f for f in st if not hit(f))

    def kill_fields(self, st, fields):
        if not fields: return st
        return frozenset(f for f in st if not any(t[0] == "m" and t[1] in fields for t in subterms(f)))

    def lv(self, n):
        return self.canon(n, self.env)

    def modifications(self, n):
        """locations / fields modified anywhere in a subtree"""
        out, fields = [], set()
        for x in walk(n):
            for l in self.direct_mods(x): out.append(l)
            if x["k"] in ("Call", "MCall", "Ctor", "OpCall") and x.get("f"): fields |= self.fields_modified(x["f"])
        return out, fields

    def direct_mods(self, x):
        k = x["k"]
        if k == "Asg": yield self.lv(x["a"][0])
        elif k == "Un" and x["op"] in ("++", "--"): yield self.lv(x["e"])
        elif k == "OpCall":
            d = self.P.decls.get(x.get("f"), {})
            if x["op"] in ("=", "+=", "-=", "*=", "/=", "++", "--", "%="): yield self.lv(x["a"][0])
            elif x["op"] == ">>":
                for a in x["a"][1:]: yield self.lv(a)
        elif k == "MCall" and x.get("obj"):
            d = self.P.decls.get(x.get("f"), {})
            if not d.get("const") and not (d.get("repo")) and x.get("n") not in ACCESS:
                o = self.lv(x["obj"])
                yield deref(o) if x.get("arrow") else o
            elif not d.get("const") and d.get("repo") and not x.get("arrow"):
                o = self.lv(x["obj"])
                if o[0] == "v": yield o
        if k in ("Call", "MCall", "Ctor"):
            d = self.P.decls.get(x.get("f"), {})
            for a, pt in zip(x["a"], d.get("ps", [])):
                if pt.get("ref") and not pt.get("const") and not pt["s"].endswith("&&") and a["k"] in ("Ref", "Mem", "Idx", "OpCall"):
                    yield self.lv(a)
                if a["k"] == "Un" and a["op"] == "&": yield self.lv(a["e"])

    # ---- traversal ----
    def analyse(self, f, visit, body=None, init=frozenset(), on_return=None):
        """visit(node, state) for every expression evaluated"""
        saved = (getattr(self, "env", None), getattr(self, "visit", None), getattr(self, "breaks", None), getattr(self, "rets", None), getattr(self, "onret", None))
        self.env, self.visit, self.breaks, self.rets, self.onret = {}, visit, [], [], on_return
        self.fn = f
        st = init
        for i in f.get("inits", []) if body is None else []:
            st = self.ex(i["e"], st)
            if i.get("field"):
                q = i["field"] if "::" in i["field"] else f.get("clsb", "") + "::" + i["field"]
                e = i["e"]
                while e["k"] == "Init" and len(e["a"]) == 1: e = e["a"][0]
                if st is not None: st = self.equate(st, ("m", q, ("*", ("this",))), e, e["t"])
        st = self.stm(body if body is not None else f.body, st)
        ends = self.rets + ([st] if st is not None else [])
        self.env, self.visit, self.breaks, self.rets, self.onret = saved
        return ends

    def engaged(self, n, st, depth=0):
        """does this optional-typed expression surely hold a value?"""
        if n is None: return False
        k = n["k"]
        if k in ("Cast", "ICast"): return self.engaged(n["e"], st, depth)
        if not is_optional(n["t"]): return "nullopt" not in n["t"]["s"] and k not in ("Init",) or k == "Init" and len(n["a"]) == 1
        if k in ("Ctor", "Init"):
            a = [x for x in n["a"] if not x.get("def")]
            return len(a) == 1 and self.engaged(a[0], st, depth)
        if k == "Cond":
            return self.engaged(n["then"], self.assume(st, n["cond"], True), depth) and self.engaged(n["else"], self.assume(st, n["cond"], False), depth)
        c = self.canon(n, self.env)
        if entails(st, lambda F: (("truth", c), True) in F): return True
        if k in ("Call", "MCall") and depth < 3:
            g = self.P.funcs.get(n.get("f"))
            if not g or not g.body or self.P.decls[n["f"]].get("virt"): return False
            sub = {self.canon(a, self.env): ("v", p["id"]) for p, a in zip(g["params"], n["a"])}
            if k == "MCall" and n.get("obj"):
                o = self.canon(n["obj"], self.env)
                if o != ("this",): sub[o] = ("this",) if n.get("arrow") else ("*", ("this",))
            init = frozenset(substitute(f, sub) for f in st)
            good, seen = [True], [0]
            save = self.fn
            def onret(e, s2):
                seen[0] += 1
                if not self.engaged(e, s2, depth + 1): good[0] = False
            self.analyse(g, lambda n, s: None, init=init, on_return=onret)
            self.fn = save
            return good[0] and seen[0] > 0
        return False

    def post(self, key):
        """facts about parameters that hold whenever the function returns normally"""
        if key in self._post: return self._post[key]
        self._post[key] = frozenset()
        g = self.P.funcs.get(key)
        d = self.P.decls.get(key, {})
        if g and g.body and not d.get("virt"):
            save = self.__dict__.get("fn")
            ends = self.analyse(g, lambda n, s: None)
            self.fn = save
            if ends:
                common = frozenset.intersection(*ends)
                pids = {("v", p["id"]) for p in g["params"]}
                lids = lambda f: all(t in pids for t in subterms(f) if t[0] == "v")
                self._post[key] = frozenset(f for f in common if lids(f) and not any(t[0] == "uniq" for t in subterms(f)))
        return self._post[key]

    def post_ret(self, key):
        """facts about the returned value, as ("ret",), that hold whenever the function returns"""
        if key in self._postret: return self._postret[key]
        self._postret[key] = frozenset()
        g = self.P.funcs.get(key)
        if not g or not g.body: return self._postret[key]
        if not any(x["k"] == "Decl" for x in g.body.get("c", [])): return self._postret[key]
        acc = []
        pids = {("v", p["id"]) for p in g["params"]}
        def onret(e, st):
            if e is None: acc.append(frozenset()); return
            while e["k"] in ("Cast", "ICast") or e["k"] == "Ctor" and len([x for x in e["a"] if not x.get("def")]) == 1: e = e["e"] if "e" in e else e["a"][0]
            c = self.canon(e, self.env)
            if c[0] == "i": fs = {(("==",) + tuple(sorted((("ret",), c), key=repr)), True)}
            elif is_string(e["t"]) and e["k"] != "Ref": fs = self.copy_string(frozenset(), ("ret",), e)
            else: fs = {substitute(f, {c: ("ret",)}) for f in st if f[0] not in ("or", "alias") and contains(f, c)}
            acc.append(frozenset(f for f in fs if all(t in pids for t in subterms(f) if t[0] == "v") and not any(t[0] in ("uniq", "elem") for t in subterms(f))))
        save = self.__dict__.get("fn")
        self.analyse(g, lambda n, s: None, on_return=onret)
        self.fn = save
        if acc: self._postret[key] = frozenset.intersection(*acc)
        return self._postret[key]

    def ex(self, n, st):
        if n is None or st is None: return st
        k = n["k"]
        if k == "Bin" and n["op"] in ("&&", "||"):
            st = self.ex(n["a"][0], st)
            if st is None: return None
            s2 = self.assume(st, n["a"][0], n["op"] == "&&")
            r = self.ex(n["a"][1], s2)
            self.visit(n, st)
            if r is None: return st
            # what the right side may have modified no longer holds
            m, fl = self.modifications(n["a"][1])
            for l in m: st = self.kill(st, l)
            return self.kill_fields(st, fl)
        if k == "Cond":
            st = self.ex(n["cond"], st)
            a = self.ex(n["then"], self.assume(st, n["cond"], True)); b = self.ex(n["else"], self.assume(st, n["cond"], False))
            self.visit(n, st)
            if a is None: return b
            if b is None: return a
            return a & b
        if k == "Lambda":
            self.visit(n, st)
            s = (self.breaks, self.rets, self.onret)
            self.breaks, self.rets, self.onret = [], [], None
            # by-value captures keep what is known about them; everything else may have changed when it runs
            self.stm(n["body"], frozenset())
            self.breaks, self.rets, self.onret = s
            return st
        for c in kids(n):
            st = self.ex(c, st)
            if st is None: return None
        self.visit(n, st)
        if k == "Throw": return None
        if k in ("Call", "MCall") and self.noreturn(n): return None
        for l in self.direct_mods(n): st = self.kill(st, l)
        if k in ("Call", "MCall", "Ctor", "OpCall") and n.get("f") in self.P.decls:
            st = self.kill_fields(st, self.fields_modified(n["f"]))
            if self.after_call: st = st | frozenset(self.after_call(n, st))
            if k in ("Call", "MCall"):
                g = self.P.funcs.get(n["f"])
                po = (self.post(n["f"]) | self.post_ret(n["f"])) if g and not self.P.decls[n["f"]].get("virt") else ()
                if po:
                    sub = {("v", p["id"]): self.canon(a, self.env) for p, a in zip(g["params"], n["a"])}
                    if k == "MCall" and n.get("obj"):
                        o = self.canon(n["obj"], self.env)
                        sub[("this",)] = o if n.get("arrow") else ("&", o)
                    if any(contains(f, ("ret",)) for f in po): sub[("ret",)] = self.canon(n, self.env)
                    st = st | frozenset(substitute(f, sub) for f in po)
        # an optional that has just been given a value
        if k == "OpCall" and n["op"] == "=" and is_optional(n["a"][0]["t"]):
            r = n["a"][1]
            while r["k"] in ("Cast", "ICast") or r["k"] == "Ctor" and len(r["a"]) == 1 and is_optional(r["t"]): r = r["e"] if "e" in r else r["a"][0]
            if not is_optional(r["t"]) and not (r["k"] == "Ctor" and not r["a"]) and "nullopt" not in r["t"]["s"]: st = st | {(("truth", self.lv(n["a"][0])), True)}
            elif is_optional(r["t"]) and r["k"] in ("Ref", "Mem"):
                c = self.canon(r, self.env)
                if (("truth", c), True) in st: st = st | {(("truth", self.lv(n["a"][0])), True)}
        if k == "MCall" and n.get("n") == "value" and n.get("obj") and is_optional(n["obj"]["t"]) and not n["a"]:
            o = self.canon(n["obj"], self.env)
            st = st | {(("truth", o), True)}
        if k == "MCall" and n.get("n") == "emplace" and n.get("obj") and is_optional(n["obj"]["t"]):
            st = st | {(("truth", self.lv(n["obj"])), True)}
        if k == "MCall" and n.get("n") in ("push_back", "emplace_back", "push_front") and n.get("obj"):
            o = self.lv(n["obj"]); o = deref(o) if n.get("arrow") else o
            st = st | {(("empty", o), False)}
        if k == "OpCall" and n["op"] == "=" and is_string(n["a"][0]["t"]): st = self.copy_string(st, self.lv(n["a"][0]), n["a"][1])
        if k == "Asg" and n["op"] == "=":
            st = self.equate(st, self.lv(n["a"][0]), n["a"][1], n["a"][0]["t"])
        return st

    def copy_string(self, st, l, r):
        """what is known about the length of a text holds for its copy"""
        while r["k"] in ("Cast", "ICast") or r["k"] == "Ctor" and len([x for x in r["a"] if not x.get("def")]) == 1:
            r = r["e"] if "e" in r else r["a"][0]
        sz = ("c", "size", l)
        if r["k"] == "Str" and r["v"] == "" or r["k"] == "Ctor" and not r["a"]:
            out = {(("==",) + tuple(sorted((sz, ("i", 0)), key=repr)), True), (("empty", l), True)}
            for o in self.nonempty_always: out.add((("<", sz, ("c", "size", o)), True))
            return st | out
        if not is_string(r["t"]): return st
        c = self.canon(r, self.env)
        if contains(c, l) or any(x[0] == "uniq" for x in subterms(c)): return st
        cs = ("c", "size", c)
        new = {substitute(substitute(f, {cs: sz}), {("empty", c): ("empty", l)}) for f in st if f[0] not in ("or", "alias") and any(t in (cs, ("empty", c)) for t in subterms(f))}
        return st | new

    def equate(self, st, l, r, t):
        if t.get("cls") in ("int", "uint", "enum") or t.get("cls") == "float":
            c = self.canon(r, self.env)
            if not contains(c, l) and not any(x[0] == "uniq" for x in subterms(c)): return st | {(("==",) + tuple(sorted((l, c), key=repr)), True)}
        elif t.get("cls") == "bool" and r is not None and "cv" not in r:
            T, F = self.facts_of(r, True, self.env), self.facts_of(r, False, self.env)
            return st | {("alias", l, tuple(T), tuple(F))}
        return st

    def assume(self, st, cond, pol):
        if st is None: return None
        fs = self.facts_of(cond, pol, self.env)
        out = set(st)
        todo = list(fs)
        while todo:
            f = todo.pop()
            if f in out: continue
            if len(f) == 2 and isinstance(f[1], bool) and (f[0], not f[1]) in out: return None
            out.add(f)
            todo += cardinality(out)
            if f[0] != "or" and f[0] != "alias" and f[0][0] == "truth":
                for a in st:
                    if a[0] == "alias" and a[1] == f[0][1]: todo += list(a[2] if f[1] else a[3])
        for f in out:
            if f[0] == "or" and all(any(g[0] not in ("or", "alias") and (g[0], not g[1]) in out for g in br) for br in f[1]): return None
        return frozenset(out)

    def declare(self, v, st):
        if v.get("init"):
            st = self.ex(v["init"], st)
            if st is None: return None
        t = v["t"]
        i = ("v", v["id"])
        st = self.kill(st, i)
        if v.get("init") and not v.get("static"):
            if t.get("ref") and v["init"]["k"] in ("Ref", "Mem", "Idx", "OpCall", "Un", "MCall"):
                self.env[v["id"]] = self.canon(v["init"], self.env)
            elif is_optional(t):
                r = v["init"]
                while r["k"] in ("Cast", "ICast") or r["k"] == "Ctor" and len(r["a"]) == 1: r = r["e"] if "e" in r else r["a"][0]
                if not is_optional(r["t"]) and not (r["k"] in ("Ctor", "Init") and not r["a"]) and "nullopt" not in r["t"]["s"]: st = st | {(("truth", i), True)}
            elif is_string(t): st = self.copy_string(st, i, v["init"])
            elif t.get("cls") == "rec" and ("iterator" in t["s"] or t["s"].startswith("std::vector")):
                c = self.canon(v["init"], self.env)
                if not any(x[0] == "uniq" for x in subterms(c)): st = st | {(("==",) + tuple(sorted((i, c), key=repr)), True)}
            else: st = self.equate(st, i, v["init"], t)
        return st

    def loop_entry(self, st, *parts):
        for p in parts:
            if p is None: continue
            m, fl = self.modifications(p)
            for l in m: st = self.kill(st, l)
            st = self.kill_fields(st, fl)
        return st

    def precise_loop(self, n, st):
        if st is None: return None
        save = self.breaks
        outs = []
        def once(s, loud):
            self.breaks = []
            vis = self.visit
            if not loud: self.visit, onret, nret = (lambda a, b: None), self.onret, len(self.rets); self.onret = None
            if n["k"] == "RFor":
                outs.append(s)
                s = self.kill(s, n["elem"]) | {n["nonempty"]}
            if n.get("var"): s = self.declare(n["var"], s)
            if n.get("cond"): s = self.ex(n["cond"], s)
            if n["k"] != "RFor" and s is not None and not (n.get("cond") and n["cond"].get("cv") == 1): outs.append(self.assume(s, n["cond"], False) if n.get("cond") else None)
            b = self.assume(s, n["cond"], True) if n.get("cond") else s
            e = self.stm(n["body"], b)
            for kind, x in self.breaks:
                if kind == "c": e = x if e is None else e & x
                else: outs.append(x)
            if n.get("inc") and e is not None: e = self.ex(n["inc"], e)
            if not loud: self.visit = vis; self.onret = onret; del self.rets[nret:]
            return e
        e = once(st, True)
        if e is not None:
            X = e
            for _ in range(6):
                keep = len(outs)
                e = once(X, False)
                del outs[keep:]
                Y = X if e is None else X & e
                if Y == X: break
                X = Y
            else: X = self.loop_entry(st, n.get("cond"), n["body"], n.get("inc"))
            once(X, True)
        self.breaks = save
        outs = [o for o in outs if o is not None]
        if not outs: return None
        r = outs[0]
        for o in outs[1:]: r = join(r, o)
        return r

    def stm(self, n, st):
        """-> state after, None when control does not get there"""
        if n is None or st is None: return st
        k = n["k"]
        if k == "Block":
            for c in n["c"]:
                st = self.stm(c, st)
                if st is None: 
                    return None
            return st
        if k == "Decl":
            for v in n["c"]:
                st = self.declare(v, st)
                if st is None: return None
            return st
        if k == "Var": return self.declare(n, st)
        if k == "If":
            if n.get("init"): st = self.stm(n["init"], st)
            if n.get("var"): st = self.declare(n["var"], st)
            st = self.ex(n["cond"], st)
            if st is None: return None
            if "cv" in n["cond"]:
                return self.stm(n["then"], st) if n["cond"]["cv"] else self.stm(n.get("else"), st)
            a = self.stm(n["then"], self.assume(st, n["cond"], True))
            b = self.assume(st, n["cond"], False)
            if n.get("else") is not None: b = self.stm(n["else"], b)
            if a is None: return b
            if b is None: return a
            return join(a, b)
        if k in ("For", "While") and self.precise:
            if k == "For": st = self.stm(n["init"], st) if n.get("init") else st
            return self.precise_loop(n, st)
        if k == "For":
            st = self.stm(n["init"], st) if n.get("init") else st
            st = self.loop_entry(st, n.get("cond"), n["body"], n.get("inc"))
            save, self.breaks = self.breaks, []
            s = st
            if n.get("cond"):
                s = self.ex(n["cond"], st); s = self.assume(s, n["cond"], True)
            s = self.stm(n["body"], s)
            cont = [x for kind, x in self.breaks if kind == "c"]
            if s is None and cont: s = cont.pop()
            for x in cont: s = s & x
            if n.get("inc") and s is not None: self.ex(n["inc"], s)
            out = self.assume(st, n["cond"], False) if n.get("cond") else None
            for kind, x in self.breaks:
                if kind == "b": out = x if out is None else out & x
            self.breaks = save
            return out
        if k in ("While",):
            st = self.loop_entry(st, n["cond"], n["body"])
            save, self.breaks = self.breaks, []
            if n.get("var"): st = self.declare(n["var"], st)
            s = self.ex(n["cond"], st)
            self.stm(n["body"], self.assume(s, n["cond"], True))
            out = self.assume(s, n["cond"], False) if n["cond"].get("cv") != 1 else None
            for kind, x in self.breaks:
                if kind == "b": out = x if out is None else out & x
            self.breaks = save
            return out
        if k == "Do":
            st = self.loop_entry(st, n["cond"], n["body"])
            save, self.breaks = self.breaks, []
            s = self.stm(n["body"], st)
            for kind, x in self.breaks:
                if kind == "c": s = x if s is None else s & x
            if s is not None: s = self.assume(self.ex(n["cond"], s), n["cond"], False)
            for kind, x in self.breaks:
                if kind == "b": s = x if s is None else s & x
            self.breaks = save
            return s
        if k == "RFor" and self.precise:
            st = self.ex(n["range"], st)
            v = n["var"]
            if v["t"].get("ref"):
                self.uniq += 1
                self.env[v["id"]] = ("elem", self.canon(n["range"], self.env), self.uniq)
            return self.precise_loop({"k": "RFor", "body": n["body"], "elem": self.env.get(v["id"], ("v", v["id"])), "nonempty": (("empty", self.canon(n["range"], self.env)), False)}, st)
        if k == "RFor":
            st = self.ex(n["range"], st)
            st = self.loop_entry(st, n["body"])
            save, self.breaks = self.breaks, []
            s = st
            v = n["var"]
            if v["t"].get("ref"):
                self.uniq += 1
                self.env[v["id"]] = ("elem", self.canon(n["range"], self.env), self.uniq)
            if s is not None: s = s | {(("empty", self.canon(n["range"], self.env)), False)}
            self.stm(n["body"], s)
            out = st
            for kind, x in self.breaks:
                if kind == "b": out = out & x
            self.breaks = save
            return out
        if k in ("Break", "Continue"):
            self.breaks.append(("b" if k == "Break" else "c", st)); return None
        if k == "Return":
            if n.get("e"): st = self.ex(n["e"], st)
            if st is not None:
                self.rets.append(st)
                if self.onret: self.onret(n.get("e"), st)
            return None
        if k == "Switch":
            st = self.ex(n["cond"], st)
            save, self.breaks = self.breaks, []
            outs = [st]
            s = None
            for c in n["body"]["c"]:
                if c["k"] in ("Case", "Default"):
                    b = c
                    while b["k"] in ("Case", "Default"): b = b["body"]
                    s = self.stm(b, st if s is None else s & st)
                elif s is not None: s = self.stm(c, s)
            if s is not None: outs.append(s)
            outs += [x for kind, x in self.breaks if kind == "b"]
            self.breaks = save
            outs = [self.loop_entry(outs[0], n["body"])] + outs[1:]
            return frozenset.intersection(*outs)
        if k == "Try":
            st0 = self.loop_entry(st, n["body"])
            out = self.stm(n["body"], st)
            for h in n["handlers"]:
                s = self.stm(h["body"], st0)
                if s is not None: out = s if out is None else out & s
            return out
        if k == "OMP": return self.stm(n.get("body"), st)
        if k in ("Case", "Default", "Label"): return self.stm(n["body"], st)
        if k == "Null": return st
        return self.ex(n, st)


def card_terms(c):
    """sum of truth values -> list of the truth atoms"""
    if c[0] == "truth": return [c]
    if c[0] == "+":
        a, b = card_terms(c[1]), card_terms(c[2])
        return a + b if a and b else None
    return None


def cardinality(st):
    """consequences of `has(x) + has(y) + ... == k`"""
    out = []
    for f in st:
        if len(f) != 2 or f[1] is not True or f[0][0] != "==": continue
        a, b = f[0][1], f[0][2]
        for x, k in ((a, b), (b, a)):
            if k[0] != "i": continue
            ts = card_terms(x)
            if not ts or len(ts) < 2: continue
            yes = sum((t, True) in st for t in ts); unk = [t for t in ts if (t, True) not in st and (t, False) not in st]
            if yes + len(unk) == k[1]: out += [(t, True) for t in unk]
            elif yes == k[1]: out += [(t, False) for t in unk]
    return out


def join(a, b):
    """facts true on both paths; a fact of one path against its negation's companions becomes a disjunction"""
    c = a & b
    x, y = tuple(sorted((f for f in a - b if f[0] not in ("alias", "or")), key=repr)), tuple(sorted((f for f in b - a if f[0] not in ("alias", "or")), key=repr))
    if x and y and len(x) <= 6 and len(y) <= 6: c = c | {("or", (x, y))}
    return c


def is_string(t):
    s = t["s"].replace("const ", "")
    return s.startswith("std::basic_string<") or s == "std::string"


def is_optional(t):
    return t["s"].replace("const ", "").startswith("std::optional<")


def cmp_fact(op, a, b, pol):
    if op == "!=": op, pol = "==", not pol
    if op == ">": op, a, b = "<", b, a
    elif op == ">=": op, pol = "<", not pol
    elif op == "<=": op, a, b, pol = "<", b, a, not pol
    if op == "==": a, b = sorted((a, b), key=repr)
    return ((op, a, b), pol)


def substitute(c, sub):
    if isinstance(c, tuple):
        if c in sub: return sub[c]
        r = tuple(substitute(x, sub) for x in c)
        if len(r) == 2 and r[0] == "*" and isinstance(r[1], tuple) and len(r[1]) == 2 and r[1][0] == "&": return r[1][1]
        return r
    return c


def entails(st, goal, depth=0):
    """goal: predicate over a set of plain facts"""
    plain = frozenset(f for f in st if f[0] not in ("or", "alias"))
    if goal(plain): return True
    if depth > 3: return False
    for f in st:
        if f[0] != "or": continue
        rest = st - {f}
        def branch(fs):
            new = rest
            for g in fs:
                if g[0] not in ("or", "alias") and (g[0], not g[1]) in st: return True   # contradicts what is known
                new = new | {g}
            return entails(new, goal, depth + 1)
        if all(branch(fs) for fs in f[1]): return True
    return False


def eq_class(F, c):
    """expressions known equal to c"""
    out, todo = {c}, [c]
    while todo:
        x = todo.pop()
        for f in F:
            if f[1] is True and f[0][0] == "==":
                for a, b in ((f[0][1], f[0][2]), (f[0][2], f[0][1])):
                    if a == x and b not in out: out.add(b); todo.append(b)
    return out


def nonzero(F, c):
    for x in eq_class(F, c):
        if x[0] == "i" and x[1] != 0: return True
        z = ("i", 0)
        if (("==",) + tuple(sorted((x, z), key=repr)), False) in F or (("<", z, x), True) in F or (("truth", x), True) in F: return True
        for f in F:
            if f[0][0] == "<":
                if f[1] is False and f[0][1] == x and f[0][2][0] == "i" and f[0][2][1] >= 1: return True
                if f[1] is True and f[0][2] == x and f[0][1][0] == "i" and f[0][1][1] >= 0: return True
    return False


def linear(c):
    """c = sum of terms + constant -> (sorted tuple of terms, constant)"""
    if c[0] == "i": return ((), c[1])
    if c[0] == "+" and len(c) == 3:
        a, b = linear(c[1]), linear(c[2]); return (tuple(sorted(a[0] + b[0], key=repr)), a[1] + b[1])
    if c[0] == "-" and len(c) == 3:
        b = linear(c[2])
        if not b[0]:
            a = linear(c[1]); return (a[0], a[1] - b[1])
    return ((c,), 0)


def at_most(F, a, b):
    """a <= b"""
    la, lb = linear(a), linear(b)
    if la[0] == lb[0]: return la[1] <= lb[1]
    for f in F:
        if f[0][0] not in ("<",): continue
        x, y = linear(f[0][1]), linear(f[0][2])
        if f[1] is True: k = 1                    # x + 1 <= y
        else: x, y, k = y, x, 0                   # y <= x
        # x + k <= y ; want a <= b
        if x[0] == la[0] and y[0] == lb[0] and la[1] - x[1] - k <= lb[1] - y[1]: return True
    # sizes are not negative
    if not la[0] and la[1] <= lb[1] and len(lb[0]) == 1 and lb[0][0][0] == "c" and lb[0][0][1] == "size": return True
    return False


def not_empty(F, o):
    if (("empty", o), False) in F: return True
    return at_most(F, ("i", 1), ("c", "size", o)) or nonzero(F, ("c", "size", o))
