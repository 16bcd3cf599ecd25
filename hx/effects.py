"""Interprocedural effect analysis of a piece of code.

Every memory access is described by an access path (a `Place`): a root and a sequence of
steps.  The analysis inlines calls (virtual calls: every overrider), follows references,
pointers, views, smart pointers, iterators, lambdas and std::function objects, and records
each read and write with the locks held and whether it is atomic.

Place steps:
  ("f", field)          member access
  ("[]", sym, inj)      element of a container/array/buffer; inj: the index is an injective
                        function of the parallel loop variable
  ("*",)                a hop through a pointer to a record: the object may be shared
  ("u",)                owned pointee (std::unique_ptr)
  ("b",)                buffer behind a pointer to scalars stored in the object
"""
from collections import namedtuple
from .ir import walk, kids, NOTYPE

Place = namedtuple("Place", "root steps")
Access = namedtuple("Access", "place rw atomic locks where fn")


class Val:
    __slots__ = ("places", "pts", "sym", "inj", "clo", "lin")
    def __init__(self, places=frozenset(), pts=frozenset(), sym=None, inj=False, clo=frozenset()):
        self.places, self.pts, self.sym, self.inj, self.clo = frozenset(places), frozenset(pts), sym, inj, frozenset(clo)
    def key(self):
        return (self.places, self.pts, self.sym, self.inj, self.clo)
    def join(self, o):
        return Val(self.places | o.places, self.pts | o.pts, self.sym if self.sym == o.sym else None, self.inj and o.inj, self.clo | o.clo)


EMPTY = Val()
ACCESSORS = set("""operator[] at begin end rbegin rend cbegin cend data front back operator() get value operator* operator-> col row head tail segment block
 transpose array matrix noalias find top topRows bottomRows leftCols rightCols middleRows middleCols rowwise colwise diagonal reshaped real coeffRef coeff derived eval operator bool
 has_value size rows cols empty count lower_bound upper_bound c_str str good topLeftCorner bottomRightCorner triangularView selfadjointView unaryExpr template cwiseProduct
 cast nestedExpression const_cast_derived operator<< lpNorm norm""".split()) | {"operator<<"}
NEVER = {"throw_critical"}


def is_view(t):
    s = t["s"]
    if s.startswith("const "): s = s[6:]
    if s.startswith("Eigen::"): return not (s.startswith("Eigen::Matrix<") or s.startswith("Eigen::Array<") or s.startswith("Eigen::PartialPivLU") or s.startswith("Eigen::HouseholderQR") or s.startswith("Eigen::ColPivHouseholderQR") or s.startswith("Eigen::JacobiSVD") or s.startswith("Eigen::SelfAdjointEigenSolver") or s.startswith("Eigen::EigenSolver"))
    return "iterator" in s or s.startswith("std::reference_wrapper") or s.startswith("std::span") or s.startswith("std::initializer_list")


def base_of(t):
    s = t["s"].replace("const ", "").rstrip("& ").strip()
    return s


def is_ptr(t): return t.get("cls") == "ptr"


def pointee_scalar(t):
    p = t.get("ptr")
    if not p: return False
    return p.get("cls") in ("int", "uint", "float", "bool", "enum", "ptr") or "elem" in p or p["s"].replace("const ", "") in ("void", "char")


def ptr_like(P, rec):
    """repo class with operator* and operator-> : a smart pointer to a shared object"""
    r = P.records.get(rec)
    if not r: return False
    names = {m["n"] for m in r["methods"]}
    for b in P.bases(rec): names |= {m["n"] for m in P.records.get(b, {}).get("methods", [])}
    return "operator->" in names or ("operator*" in names and "operator bool" in names)


class Effects:
    strict_refs = False
    def __init__(self, P, max_depth=30):
        self.P, self.max_depth = P, max_depth
        self.accesses = set()
        self.calls = set()         # external calls seen
        self.events = []
        self.heap = {}
        self.env = {}
        self.locks = ()
        self.atomic = None
        self.stack = []
        self.memo = {}
        self.fn = None
        self.loopvar = None
        self.assigned = {}
        self.ptrlike = {}
        self.virtual_skips = set()
        self.budget = 400000
        self.incomplete = set()
        self.rets = None
        self.lock_orders = set()

    # ---- recording ----
    def acc(self, places, rw, n):
        for p in places:
            self.accesses.add(Access(p, rw, self.atomic, self.locks, "%s:%d" % (self.fn["file"], n.get("l", 0)), self.fn["q"]))

    def read(self, v, n):
        self.acc(v.places, "R", n)

    def step(self, places, st):
        out = set()
        for p in places:
            if len(p.steps) > 14: out.add(p); continue
            out.add(Place(p.root, p.steps + (st,)))
        return frozenset(out)

    def index(self, places, iv):
        """element of container/array/buffer"""
        out = set()
        for p in places:
            out.add(Place(p.root, p.steps + (("[]", iv.sym, iv.inj),)))
        return frozenset(out)

    def padd(self, places, iv, sub=False):
        """pointer arithmetic: combine with a trailing element step"""
        out = set()
        for p in places:
            if p.steps and p.steps[-1][0] == "[]":
                _, s, inj = p.steps[-1]
                if s == "0" or s is None and iv.sym is None: s2 = iv.sym
                elif iv.sym == "0": s2 = s
                elif s is None or iv.sym is None: s2 = None
                else: s2 = "(%s%s%s)" % (s, "-" if sub else "+", iv.sym)
                out.add(Place(p.root, p.steps[:-1] + (("[]", s2, inj or iv.inj),)))
            else:
                out.add(Place(p.root, p.steps + (("[]", iv.sym, iv.inj),)))
        return frozenset(out)

    # ---- loading ----
    def load_ptr(self, places, t):
        """what a pointer-typed memory cell points to"""
        out = set()
        for p in places:
            if p in self.heap: out |= self.heap[p]
            else: out.add(Place(p.root, p.steps + ((("b",) if pointee_scalar(t) else ("*",)),)))
        return frozenset(out)

    def rval(self, v, n, t=None):
        """value of an lvalue: records the read, loads pointers"""
        t = t or n.get("t", NOTYPE)
        if v.places:
            if not (t.get("cls") == "rec" and False): self.acc(v.places, "R", n)
            if is_ptr(t) and not v.pts:
                return Val((), self.load_ptr(v.places, t), v.sym, v.inj, v.clo)
        return v

    # ---- expressions ----
    def ev(self, n):
        """evaluate for its places (lvalue) / pts; children are read as needed"""
        if n is None: return EMPTY
        self.budget -= 1
        if self.budget < 0: self.incomplete.add("budget"); return EMPTY
        k = n["k"]
        m = getattr(self, "x_" + k, None)
        if m: return m(n)
        for c in kids(n): self.use(c)
        return EMPTY

    def use(self, n):
        """evaluate and read"""
        if n is None: return EMPTY
        v = self.ev(n)
        return self.rval(v, n)

    def x_Int(self, n): return Val(sym=str(n["v"]))
    x_Bool = x_Char = x_Int
    def x_Float(self, n): return EMPTY
    def x_Str(self, n): return EMPTY
    def x_Null(self, n): return EMPTY
    def x_Enum(self, n): return Val(sym=n["n"])
    def x_Fn(self, n): return Val(clo=[("fn", n["f"])])
    def x_Sizeof(self, n): return EMPTY
    def x_This(self, n):
        return Val((), self.env.get("this", EMPTY).places)

    def x_Ref(self, n):
        if "cv" in n and not (self.env.get(n["id"]) and self.env[n["id"]].places):
            return Val(sym=str(n["cv"]))
        i = n["id"]
        if i in self.env: return self.env[i]
        if i.startswith("G:"):
            return Val([Place(("glob", i[2:]), ())])
        # captured from outside the analysed region: shared local variable
        return self.outer(i, n)

    def outer(self, i, n):
        t = n["t"]
        v = Val([Place(("sh", i, n.get("n", "")), ())], (), "v:" + i)
        self.env[i] = v
        return v

    def x_Mem(self, n):
        b = self.ev(n["b"])
        if n.get("arrow"):
            if b.places and not b.pts: b = self.rval(b, n["b"])
            base = b.pts
        else:
            base = b.places or b.pts
        rec = (n["b"]["t"].get("ptr") or n["b"]["t"]).get("rec")
        out = set()
        sym = None
        for p in base:
            q = Place(p.root, p.steps + (("f", n["q"]),))
            out.add(q)
        t = self.field_type(n)
        if t is not None and t.get("ref"):
            # reference member: refers to another object
            res = set()
            for q in out:
                if q in self.heap: res |= self.heap[q]
                else: res.add(Place(q.root, q.steps + (("*",),)))
            return Val(res)
        clo = set()
        for q in out: clo |= {c for c in self.heap.get(("clo", q), ())}
        if len(out) == 1: sym = "m:" + str(next(iter(out)))
        return Val(out, (), sym, False, clo)

    def field_type(self, n):
        k = n["q"]
        if not hasattr(self.P, "_ft"):
            self.P._ft = {}
            for r in self.P.records.values():
                for f in r["fields"]:
                    self.P._ft.setdefault(r["key"] + "::" + f["n"], f["t"])
                    self.P._ft.setdefault(r["q"] + "::" + f["n"], f["t"])
        return self.P._ft.get(k)

    def x_Idx(self, n):
        b = self.ev(n["b"])
        i = self.use(n["i"])
        bt = n["b"]["t"]
        if is_ptr(bt):
            if b.places and not b.pts: b = self.rval(b, n["b"])
            return Val(self.padd(b.pts, i), (), None)
        return Val(self.index(b.places, i))

    def x_Un(self, n):
        op = n["op"]
        if op == "*":
            v = self.ev(n["e"])
            if v.places and not v.pts: v = self.rval(v, n["e"])
            return Val(v.pts)
        if op == "&":
            if n["e"]["k"] == "Fn": return self.ev(n["e"])
            v = self.ev(n["e"])
            return Val((), v.places)
        if op in ("++", "--"):
            v = self.ev(n["e"])
            self.acc(v.places, "R", n); self.acc(v.places, "W", n)
            return v
        v = self.use(n["e"])
        if op == "-": return Val(sym=None, inj=v.inj)
        return Val((), (), None, v.inj if op in ("+",) else False)

    def x_Bin(self, n):
        op = n["op"]
        a = self.use(n["a"][0]); b = self.use(n["a"][1])
        if "cv" in n: return Val(sym=str(n["cv"]))
        t = n["t"]
        if is_ptr(t) and op in ("+", "-"):
            p, i = (a, b) if a.pts else (b, a)
            return Val((), self.padd(p.pts, i, op == "-"))
        sym = None
        if a.sym is not None and b.sym is not None and op in "+-*/%":
            sym = "(%s%s%s)" % (a.sym, op, b.sym)
            if op in "+-" and b.sym == "0": sym = a.sym
            if op == "+" and a.sym == "0": sym = b.sym
        inj = False
        if op in ("+", "-"): inj = a.inj != b.inj
        elif op == "*": inj = a.inj != b.inj
        elif op in (",",): return b
        return Val((), (), sym, inj)

    def x_Asg(self, n):
        l = self.ev(n["a"][0])
        r = self.use(n["a"][1])
        if n["op"] != "=": self.acc(l.places, "R", n)
        self.acc(l.places, "W", n)
        t = n["a"][0]["t"]
        if is_ptr(t):
            pts = r.pts
            if n["op"] in ("+=", "-="):
                pts = self.padd(self.rval(l, n["a"][0]).pts, r)
            self.store_ptr(n["a"][0], l, pts)
        return l

    def store_ptr(self, lhs, l, pts):
        if lhs["k"] == "Ref" and lhs["id"] in self.env and not lhs["id"].startswith("G:"):
            e = self.env[lhs["id"]]
            self.env[lhs["id"]] = Val(e.places, e.pts | pts, e.sym, False, e.clo)
            return
        for p in l.places:
            if p.root[0] in ("priv", "tmp"):
                self.heap[p] = self.heap.get(p, frozenset()) | pts

    def x_ICast(self, n):
        ck = n.get("ck")
        if ck in ("UserDefinedConversion", "ConstructorConversion"): return self.ev(n["e"])
        v = self.use(n["e"])
        return Val((), v.pts, v.sym, v.inj, v.clo)

    def x_Cast(self, n):
        t = n["t"]
        if t.get("cls") == "rec" or n.get("ck") in ("UserDefinedConversion", "ConstructorConversion"): return self.ev(n["e"])
        v = self.ev(n["e"])
        if v.places and (is_ptr(t) or t.get("cls") in ("int", "uint", "float", "bool", "enum")):
            v = self.rval(v, n["e"])
            return Val((), v.pts, v.sym, v.inj, v.clo)
        return v
    x_ReCast = x_ConstCast = x_DynCast = x_Cast

    def x_Cond(self, n):
        self.use(n["cond"])
        a = self.ev(n["then"]); b = self.ev(n["else"])
        return a.join(b)

    def x_Init(self, n):
        v = EMPTY
        first = True
        pts, clo = set(), set()
        for a in n["a"]:
            x = self.use(a)
            pts |= x.pts; clo |= x.clo
            v = x
        if len(n["a"]) == 1: return Val((), pts, v.sym, v.inj, clo)
        return Val((), pts, None, False, clo)

    def x_Lambda(self, n):
        # by-reference captures share the enclosing environment; copies are treated alike
        pts = set()
        for c in n["caps"]:
            if "init" in c: 
                v = self.use(c["init"]); self.bind(c["id"], c["t"], v, c["n"])
        self.lams = getattr(self, "lams", {})
        self.lams[n["id"]] = n
        return Val((), (), None, False, [("lam", n["id"], self.env.get("this", EMPTY).places)])

    def x_New(self, n):
        if n.get("size"): self.use(n["size"])
        pl = frozenset([Place(("priv", "new@%s:%s" % (self.fn["file"], n.get("l"))), ())])
        if n.get("init"): self.construct(n["init"], pl)
        return Val((), pl)

    def x_Delete(self, n):
        v = self.use(n["e"])
        self.acc(v.pts, "W", n)
        return EMPTY

    def x_Throw(self, n): return EMPTY   # the path ends here
    def x_Zero(self, n): return Val(sym="0")
    def x_ArrCopy(self, n): return Val((), self.use(n["e"]).pts)

    # ---- construction ----
    def construct(self, n, dest):
        """initialise object(s) at `dest` from expression n; returns the Val of the initialiser"""
        k = n["k"]
        if k in ("Cast", "ICast") and n.get("ck") in ("ConstructorConversion", "UserDefinedConversion", "NoOp"): return self.construct(n["e"], dest)
        if k == "Ctor":
            return self.ctor(n, dest)
        if k == "Init" and n["t"].get("rec") in self.P.records:
            fl = self.P.fields(n["t"]["rec"])
            r = self.P.records[n["t"]["rec"]]
            pts, clo = set(), set()
            for f, a in zip(fl, n["a"]):
                d = self.step(dest, ("f", r["q"] + "::" + f["n"]))
                v = self.construct(a, d)
                if f["t"].get("ref"):
                    for x in d: self.heap[x] = self.heap.get(x, frozenset()) | v.places
                elif is_ptr(f["t"]):
                    for x in d: self.heap[x] = self.heap.get(x, frozenset()) | v.pts
                pts |= v.pts; clo |= v.clo
            return Val(dest, pts, None, False, clo)
        v = self.use(n)
        if v.places: self.copy_heap(v.places, dest)
        return v

    def copy_heap(self, src, dst):
        for s in src:
            L = len(s.steps)
            for p, pts in list(self.heap.items()):
                if isinstance(p, Place) and p.root == s.root and p.steps[:L] == s.steps:
                    for d in dst:
                        q = Place(d.root, d.steps + p.steps[L:])
                        self.heap[q] = self.heap.get(q, frozenset()) | pts

    def ctor(self, n, dest):
        d = self.P.decls.get(n["f"], {})
        args = n["a"]
        # copy/move of one object
        if (n.get("copy") or n.get("move")) and args:
            v = self.ev(args[0])
            if not n.get("elide"):
                self.acc(v.places, "R", n)
                if n.get("move"): self.acc([p for p in v.places if p.root[0] not in ("priv", "tmp")], "W", n)
            self.copy_heap(v.places, dest)
            if d.get("repo"):
                fs = self.P.targets(n)
                if fs and fs[0].body and not fs[0].get("implicit") and not fs[0].get("defaulted"):
                    self.run_ctor(fs[0], n, [v], dest)
            return Val(dest, v.pts | (v.places if False else frozenset()), v.sym, v.inj, v.clo)
        vals = [self.ev(a) for a in args]
        fs = [f for f in self.P.targets(n) if f["kind"] == "ctor"]
        if fs: return self.run_ctor(fs[0], n, vals, dest)
        pts, clo = set(), set()
        view = is_view(n["t"])
        s = n["t"]["s"]
        for a, v in zip(args, vals):
            at = a["t"]
            if v.places and not (view and not is_ptr(at)): v = self.rval(v, a)
            if view or "std::function" in s or s.startswith("std::shared_ptr") or s.startswith("std::unique_ptr") or "tuple" in s or "pair" in s or "reference_wrapper" in s:
                pts |= v.pts
                if view and not v.pts: pts |= v.places
            clo |= v.clo
        return Val(dest, pts, vals[0].sym if len(vals) == 1 else None, False, clo)

    def x_Ctor(self, n):
        dest = frozenset([Place(("tmp", "%s:%s" % (self.fn["file"], n.get("l")), n["t"]["s"][:40]), ())])
        return self.ctor(n, dest)

    def run_ctor(self, f, n, vals, dest):
        d = f
        sig = ("ctor", f["key"], tuple(v.key() for v in vals), dest, self.locks, self.atomic)
        if sig in self.memo: return self.memo[sig]
        if len(self.stack) > self.max_depth or f["key"] in self.stack: return Val(dest)
        self.memo[sig] = Val(dest)
        save_env, save_fn, save_rets = self.env, self.fn, self.rets
        self.env = dict(self.env); self.env["this"] = Val(dest); self.fn = f; self.rets = []
        self.stack.append(f["key"])
        for p, v, a in zip(f["params"], vals, n["a"]): self.bind_param(p, v, a)
        clo = set(); pts = set()
        for i in f.get("inits", []):
            if "field" in i:
                q = i["q"]
                dd = self.step(dest, ("f", q))
                v = self.construct(i["e"], dd)
                ft = self.P._ft.get(q) if hasattr(self.P, "_ft") else self.field_type({"q": q})
                if ft is not None and ft.get("ref"):
                    for x in dd: self.heap[x] = self.heap.get(x, frozenset()) | v.places
                elif ft is not None and is_ptr(ft):
                    for x in dd: self.heap[x] = self.heap.get(x, frozenset()) | v.pts
                elif v.clo:
                    for x in dd: self.heap[("clo", x)] = frozenset(self.heap.get(("clo", x), ())) | v.clo
                elif ft is not None and is_view(ft):
                    for x in dd: self.heap[("pts", x)] = frozenset(self.heap.get(("pts", x), ())) | v.pts
                if dest and next(iter(dest)).root[0] not in ("priv", "tmp"): self.acc(dd, "W", n)
            else:
                self.construct(i["e"], dest)
        if f.body: self.run(f.body)
        self.stack.pop()
        self.env, self.fn, self.rets = save_env, save_fn, save_rets
        # RAII lock objects
        return Val(dest)

    # ---- calls ----
    def bind_param(self, p, v, a):
        t = p["t"]
        if t.get("ref"):
            if not v.places and not v.pts and not v.clo:
                self.env[p["id"]] = Val([Place(("tmp", p["id"]), ())], (), v.sym, v.inj, v.clo)
            else: self.env[p["id"]] = Val(v.places, v.pts, v.sym, v.inj, v.clo)
        else:
            if v.places: v2 = self.rval(v, a, t)
            else: v2 = v
            own = frozenset([Place(("priv", p["id"], p.get("n", "")), ())])
            self.copy_heap(v.places, own)
            self.env[p["id"]] = Val(own, v2.pts, self.asym(p["id"], v2.sym), v2.inj and not self.reassigned(p["id"]), v2.clo)

    def asym(self, i, sym):
        return ("v:" + i) if self.reassigned(i) or sym is None else sym

    def reassigned(self, i):
        k = self.fn["key"] if self.fn else None
        if k not in self.assigned:
            s = set()
            def scan(b):
                for n in walk(b):
                    if n["k"] == "Asg" and n["a"][0]["k"] == "Ref": s.add(n["a"][0]["id"])
                    elif n["k"] == "Un" and n["op"] in ("++", "--") and n["e"]["k"] == "Ref": s.add(n["e"]["id"])
            if self.fn and self.fn.body: scan(self.fn.body)
            self.assigned[k] = s
        return i in self.assigned[k]

    def bind(self, i, t, v, name=""):
        own = frozenset([Place(("priv", i, name), ())])
        self.env[i] = Val(own, v.pts, self.asym(i, v.sym), v.inj and not self.reassigned(i), v.clo)

    def call_fn(self, f, n, this, vals, args):
        if f["n"] in NEVER: return EMPTY
        sig = (f["key"], tuple(v.key() for v in vals), this, self.locks, self.atomic)
        if sig in self.memo: return self.memo[sig]
        if len(self.stack) > self.max_depth or self.stack.count(f["key"]) >= 1:
            self.incomplete.add("recursion " + f["q"])
            return Val(this | frozenset(x for v in vals for x in v.places)) if f["ret"].get("ref") else EMPTY
        self.memo[sig] = EMPTY
        save_env, save_fn, save_rets = self.env, self.fn, self.rets
        self.env = dict(self.env)
        if this is not None: self.env["this"] = Val(this)
        self.fn = f; self.rets = []
        self.stack.append(f["key"])
        for p, v, a in zip(f["params"], vals, args): self.bind_param(p, v, a)
        self.run(f.body)
        r = EMPTY
        for i, x in enumerate(self.rets): r = x if i == 0 else r.join(x)
        self.stack.pop()
        self.env, self.fn, self.rets = save_env, save_fn, save_rets
        self.memo[sig] = r
        return r

    def call_lam(self, clo, n, vals, args):
        r = None
        for c in clo:
            if c[0] == "fn":
                f = self.P.funcs.get(c[1])
                if f and f.body:
                    if f["kind"] in ("method",) and vals:
                        x = self.call_fn(f, n, vals[0].places or vals[0].pts, vals[1:], args[1:])
                    else: x = self.call_fn(f, n, None, vals, args)
                else: continue
            else:
                lam = self.lams.get(c[1])
                if lam is None: continue
                sig = ("lam", c[1], tuple(v.key() for v in vals), c[2], self.locks, self.atomic)
                if sig in self.memo: x = self.memo[sig]
                else:
                    if len(self.stack) > self.max_depth or ("lam" + c[1]) in self.stack: continue
                    self.memo[sig] = EMPTY
                    save_env, save_rets = self.env, self.rets
                    self.env = dict(self.env); self.env["this"] = Val(c[2]); self.rets = []
                    self.stack.append("lam" + c[1])
                    for p, v, a in zip(lam["params"], vals, args): self.bind_param(p, v, a)
                    self.run(lam["body"])
                    x = EMPTY
                    for i, y in enumerate(self.rets): x = y if i == 0 else x.join(y)
                    self.stack.pop()
                    self.env, self.rets = save_env, save_rets
                    self.memo[sig] = x
            r = x if r is None else r.join(x)
        return r if r is not None else EMPTY

    def is_seq(self, cls):
        return cls.startswith("hexed::Sequence<") or any(b.startswith("hexed::Sequence<") for b in self.P.bases(cls))

    def ptrlike_cls(self, cls):
        if cls not in self.ptrlike: self.ptrlike[cls] = ptr_like(self.P, cls)
        return self.ptrlike[cls]

    def method(self, n, obj, objv, name, args, arrow=False):
        """obj: expression of the object; objv: Val whose places are the object"""
        d = self.P.decls.get(n.get("f"), {})
        cls = d.get("cls", "")
        base = objv.places
        t = n["t"]
        # lambda / std::function objects
        if name == "operator()" and (d.get("lam") or "std::function" in cls or objv.clo):
            vals = [self.ev(a) for a in args]
            if objv.clo:
                self.read(objv, n)
                return self.call_lam(objv.clo, n, vals, args)
            for v, a in zip(vals, args): self.rval(v, a)
            self.read(objv, n)
            self.calls.add("callback:" + cls)
            # an opaque callback: may write what it is given by mutable reference only
            return self.opaque_result(n, objv, vals)
        if name == "operator[]" and self.is_seq(cls):
            iv = self.use(args[0])
            self.acc(base, "R", n)
            # a view made here refers to objects which live elsewhere
            if self.strict_refs: base = frozenset(Place(p.root, p.steps + (("*",),)) if p.root[0] in ("priv", "tmp") and not p.steps else p for p in base)
            return Val(self.index(base, iv))
        if self.ptrlike_cls(cls) and name in ("operator*", "operator->", "get", "operator bool", "value"):
            self.acc(base, "R", n)
            if name == "operator bool": return EMPTY
            p = self.step(base, ("*",))
            return Val(p) if name in ("operator*", "value") else Val((), p)
        ts = self.P.targets(n)
        if ts:
            vals = [self.ev(a) for a in args]
            if d.get("static"): base = None
            r = None
            for f in ts:
                if f["n"] in NEVER: continue
                if f.get("defaulted") and name == "operator=":
                    for v, a in zip(vals, args): self.rval(v, a)
                    self.write_obj(base, n); self.copy_heap(vals[0].places, base); r = Val(base); continue
                # an overrider only runs on objects of its own class: narrowing is left out (over-approximation)
                x = self.call_fn(f, n, base, vals, args)
                r = x if r is None else r.join(x)
            return r if r is not None else EMPTY
        if d.get("repo") and d.get("virt"):
            # pure virtual without bodies
            vals = [self.use(a) for a in args]
            self.calls.add("pure:" + d["q"])
            return self.opaque_result(n, objv, vals)
        if d.get("implicit") or d.get("defaulted"):
            vals = [self.use(a) for a in args]
            if name == "operator=":
                self.write_obj(base, n)
                if vals: self.copy_heap(vals[0].places, base)
                return Val(base)
            return Val(base)
        # ---- external methods ----
        view = is_view((obj["t"].get("ptr") if arrow and obj["t"].get("ptr") else obj["t"]) if obj else NOTYPE)
        s = cls
        tgt = base
        if view:
            tgt = objv.pts
            for p in base: tgt = tgt | self.heap.get(("pts", p), frozenset())
            if not tgt: tgt = frozenset(p for p in base)
            if "std::" in s or "__gnu" in s or "Iterator" in s or "iterator" in s:
                # iterators: deref
                if name in ("operator*",): return Val(tgt)
                if name in ("operator->",): return Val((), tgt)
                if name in ("operator[]",):
                    iv = self.use(args[0]); return Val(self.padd(tgt, iv))
                if name in ("operator+", "operator-", "operator+=", "operator-=", "operator++", "operator--"):
                    vals = [self.use(a) for a in args]
                    if name in ("operator+", "operator+=") and vals: return Val(base if "=" in name else (), self.padd(tgt, vals[0]))
                    return Val(base, tgt)
        vals = []
        for a in args:
            v = self.ev(a)
            if v.places and not v.pts: v = self.rval(v, a) if not (is_view(a["t"])) else v
            if is_view(a["t"]): self.acc(v.pts, "R", a)
            elif v.pts and not v.places and is_ptr(a["t"]): pass
            vals.append(v)
        inj = any(v.inj for v in vals)
        syms = ",".join(str(v.sym) for v in vals)
        iv = Val(sym=syms if vals else "0", inj=inj)
        if s.startswith("std::unique_ptr") or s.startswith("std::shared_ptr"):
            if name in ("operator*", "operator->", "get", "operator bool"):
                self.acc(base, "R", n)
                if name == "operator bool": return EMPTY
                p = self.step(base, ("u",) if "unique" in s.split("<")[0] else ("*",))
                if objv.pts: p = objv.pts
                return Val(p) if name == "operator*" else Val((), p)
            if name == "operator[]":
                return Val(self.index(self.step(base, ("u",)), iv))
        if s.startswith("std::optional") and name in ("operator*", "value", "operator->"):
            self.acc(base, "R", n)
            return Val((), self.index(base, Val(sym="opt"))) if name == "operator->" else Val(self.index(base, Val(sym="opt")))
        const = d.get("const")
        ret_t = d.get("ret", NOTYPE) if d else NOTYPE
        refers = ret_t.get("ref") or is_ptr(ret_t) or is_view(t) or is_view(ret_t)
        if name in ACCESSORS or const:
            if refers:
                if not view and t.get("s", "").startswith("Eigen::") is False: pass
                if is_ptr(ret_t) and not ret_t.get("ref"): return Val((), self.index(tgt, Val(sym="0") if not vals else iv))
                if name in ("derived", "noalias", "array", "matrix", "nestedExpression", "const_cast_derived", "transpose") or not vals and is_view(t) and "iterator" not in t["s"]:
                    if is_view(t) or name == "noalias": return Val([Place(("tmp", "view"), ())], tgt)
                    return Val(tgt)
                el = self.index(tgt, iv)
                if name in ("begin", "end", "find", "rbegin", "rend", "cbegin", "cend", "lower_bound", "upper_bound"): el = self.index(tgt, Val(sym="it", inj=False))
                if name in ("front",): el = self.index(tgt, Val(sym="0"))
                if const and ret_t.get("ref") and name in ("get", "value"): self.acc(base, "R", n)
                if is_view(t) or is_view(ret_t): return Val([Place(("tmp", "view"), ())], el)
                return Val(el)
            self.acc(tgt, "R", n)
            return Val((), (), None, False)
        # mutating external method
        if view:
            self.acc(tgt, "W", n)
        else:
            self.write_obj(base, n)
            if name == "operator=" and vals: 
                for v in vals: 
                    if v.clo:
                        for x in base: self.heap[("clo", x)] = frozenset(self.heap.get(("clo", x), ())) | v.clo
        # pushing pointers/closures into private containers: remember what they may refer to
        for v, a in zip(vals, args):
            if is_ptr(a["t"]) and v.pts and name in ("push_back", "emplace_back", "insert", "emplace"):
                for b in base:
                    if b.root[0] in ("priv", "tmp"): self.heap[("elpts", b)] = frozenset(self.heap.get(("elpts", b), ())) | v.pts
        if refers:
            pr = is_ptr(ret_t) and not ret_t.get("ref")
            return Val(tgt if not pr else (), tgt if pr or is_view(t) else ())
        return EMPTY

    def write_obj(self, places, n):
        """the object as a whole is modified"""
        if not places: return
        self.acc(places, "W", n)
        self.acc(self.index(places, Val(sym="*")), "W", n) if False else None

    def opaque_result(self, n, objv, vals):
        rt = n["t"]
        d = self.P.decls.get(n.get("f"), {})
        if d.get("ret", NOTYPE).get("ref"): return Val(self.step(objv.places, ("*",)))
        if is_ptr(rt): return Val((), self.step(objv.places, ("*",)))
        return EMPTY

    def x_MCall(self, n):
        obj = n.get("obj")
        if obj is None: return EMPTY
        ov = self.ev(obj)
        if n.get("arrow"):
            if ov.places and not ov.pts: ov = self.rval(ov, obj)
            ov = Val(ov.pts)
        elif not ov.places and ov.pts and not is_view(obj["t"]):
            ov = Val(ov.pts, (), None, False, ov.clo)
        elif not ov.places:
            ov = Val([Place(("tmp", "obj@%s" % n.get("l")), ())], ov.pts, None, False, ov.clo)
        name = n.get("n", "")
        return self.method(n, obj, ov, name, n["a"], n.get("arrow"))

    def x_OpCall(self, n):
        d = self.P.decls.get(n.get("f"), {})
        op = n["op"]
        a = n["a"]
        if d.get("cls") is not None and not d.get("static") and a:
            ov = self.ev(a[0])
            if not ov.places: ov = Val([Place(("tmp", "obj@%s" % n.get("l")), ())], ov.pts, None, False, ov.clo)
            return self.method(n, a[0], ov, "operator" + op, a[1:])
        if not d and op == "()" and a:
            ov = self.ev(a[0]); vals = [self.ev(x) for x in a[1:]]
            return self.call_lam(ov.clo, n, vals, a[1:])
        return self.free_call(n, a, d)

    def x_Call(self, n):
        if n.get("f") is None:
            fe = self.use(n["fe"])
            vals = [self.ev(a) for a in n["a"]]
            if fe.clo: return self.call_lam(fe.clo, n, vals, n["a"])
            for v, a in zip(vals, n["a"]): self.rval(v, a)
            return EMPTY
        d = self.P.decls.get(n["f"], {})
        if "cv" in n: return Val(sym=str(n["cv"]))
        return self.free_call(n, n["a"], d)

    def free_call(self, n, args, d):
        ts = self.P.targets(n)
        name = d.get("n", "")
        if ts:
            vals = [self.ev(a) for a in args]
            r = None
            for f in ts:
                this = None if f["kind"] != "method" else (self.env.get("this", EMPTY).places)
                x = self.call_fn(f, n, this, vals, args)
                r = x if r is None else r.join(x)
            return r
        q = d.get("q", "")
        vals = [self.ev(a) for a in args]
        if q in ("std::move", "std::forward", "std::as_const", "std::addressof", "std::ref", "std::cref", "std::get", "std::const_pointer_cast", "std::static_pointer_cast"):
            if not vals: return EMPTY
            if q == "std::addressof": return Val((), vals[0].places)
            if q == "std::get": return Val(self.index(vals[0].places, Val(sym="get")))
            return vals[0]
        if q in ("std::begin", "std::end"): return Val((), self.index(vals[0].places, Val(sym="it")))
        ps = d.get("ps", [])
        pts, places = set(), set()
        for i, (a, v) in enumerate(zip(args, vals)):
            pt = ps[i] if i < len(ps) else a["t"]
            at = a["t"]
            if pt.get("ref") and not pt.get("const") and not pt["s"].endswith("&&"):
                st = pt["s"]
                if "ostream" in st or "istream" in st or "basic_ios" in st: 
                    if v.places and any(p.root[0] == "glob" for p in v.places): pass
                    else: self.acc(v.places, "W", n)
                elif is_view(at): self.acc(v.pts, "W", n)
                else: self.acc(v.places, "R", n); self.acc(v.places, "W", n)
                places |= v.places
            elif is_ptr(pt):
                v2 = self.rval(v, a) if v.places and not v.pts else v
                pp = pt.get("ptr", NOTYPE)
                if not pp.get("const") and "const" not in pp["s"].split(" ")[0]: self.acc(v2.pts, "W", n)
                else: self.acc(v2.pts, "R", n)
                pts |= v2.pts
            elif is_view(at):
                self.acc(v.pts, "R", n)
                # iterators handed to algorithms
                if "iterator" in at["s"] and name in ("copy", "fill", "sort", "transform", "swap", "iota", "replace", "reverse", "rotate", "unique", "remove", "remove_if", "partition", "generate", "nth_element", "for_each", "copy_if", "move", "swap_ranges"):
                    if not (name in ("copy", "transform", "move", "copy_if") and i < 2): self.acc(v.pts, "W", n)
                pts |= v.pts
            else:
                self.rval(v, a)
                places |= v.places
            if v.clo and name not in ("function",):
                # a callable handed to a library algorithm runs on elements of the ranges
                el = [Val(frozenset(pts))]
                for c in v.clo:
                    if c[0] == "lam":
                        lam = self.lams.get(c[1])
                        if lam: self.call_lam([c], n, el*len(lam["params"]), [a]*len(lam["params"]))
        self.calls.add(q)
        rt = d.get("ret", NOTYPE)
        if rt.get("ref"): return Val(places)
        if is_ptr(rt) or is_view(rt): return Val((), pts | (places if is_view(rt) else frozenset()))
        return EMPTY

    # ---- statements ----
    def run(self, n):
        if n is None: return
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m: return m(n)
        self.use(n)

    def s_Block(self, n):
        locks = self.locks
        for c in n["c"]: self.run(c)
        self.locks = locks

    def declare(self, v):
        i, t = v["id"], v["t"]
        if v.get("static"):
            self.env[i] = Val([Place(("glob", "static %s::%s" % (self.fn["q"], v["n"])), ())])
            if v.get("init"): self.use(v["init"])
            return
        init = v.get("init")
        if t.get("ref"):
            x = self.ev(init) if init else EMPTY
            if not x.places and not x.pts and not x.clo:
                # a reference to an object the analysis could not name: some shared object
                st = (("*",),) if self.strict_refs and self.yields_ref(init) else ()
                x = Val([Place(("priv", i, v["n"]), st)], (), x.sym, x.inj, x.clo)
            elif not x.places and x.pts and is_view(t): x = Val([Place(("priv", i, v["n"]), ())], x.pts)
            self.env[i] = x
            return
        own = frozenset([Place(("priv", i, v["n"]), ())])
        if init:
            x = self.construct(init, own)
            if x.places and is_ptr(t) and not x.pts: x = self.rval(x, init, t)
            pts = x.pts
            if x.places and not is_ptr(t) and init["k"] != "Ctor": self.acc([p for p in x.places if p not in own], "R", init)
        else: x, pts = EMPTY, frozenset()
        if t.get("rec") == "hexed::Lock::Acquire" and init:
            self.acquire(init, n=v)
        self.env[i] = Val(own, pts, self.asym(i, x.sym), x.inj and not self.reassigned(i), x.clo)
        for b in v.get("binds", []):
            self.env[b["id"]] = Val(self.index(x.places or own, Val(sym=b["n"])), pts)

    def yields_ref(self, e):
        while e is not None and (e["k"] in ("Cast", "ICast") or e["k"] == "Init" and len(e["a"]) == 1): e = e.get("e") or e["a"][0]
        if e is None: return False
        if e["k"] == "Un": return e["op"] == "*"
        if e["k"] not in ("MCall", "OpCall", "Call"): return False
        return bool(self.P.decls.get(e.get("f"), {}).get("ret", NOTYPE).get("ref"))

    def acquire(self, init, n):
        c = init
        while c["k"] in ("Cast", "ICast"): c = c["e"]
        if c["k"] not in ("Ctor", "Init") or not c["a"]: return
        lv = self.ev(c["a"][0])
        for held in self.locks:
            self.lock_orders.add((held, lv.places, "%s:%d" % (self.fn["file"], n.get("l", 0)), self.fn["q"]))
        self.locks = self.locks + (lv.places,)

    def s_Decl(self, n):
        for v in n["c"]: self.declare(v)
    def s_Var(self, n): self.declare(n)
    def s_If(self, n):
        if n.get("init"): self.run(n["init"])
        if n.get("var"): self.declare(n["var"])
        c = n["cond"]
        self.use(c)
        if "cv" in c:
            self.run(n["then"] if c["cv"] else n.get("else")); return
        for b in (n["then"], n.get("else")):
            l = self.locks; self.run(b); self.locks = l
    def s_For(self, n):
        l = self.locks
        self.run(n.get("init"))
        for _ in range(2):
            if n.get("cond"): self.use(n["cond"])
            self.run(n["body"])
            if n.get("inc"): self.use(n["inc"])
        self.locks = l
    def s_While(self, n):
        l = self.locks
        for _ in range(2):
            if n.get("var"): self.declare(n["var"])
            self.use(n["cond"]); self.run(n["body"])
        self.locks = l
    def s_Do(self, n):
        for _ in range(2): self.run(n["body"]); self.use(n["cond"])
    def range_elem(self, n, inj=False):
        r = self.ev(n["range"])
        rt = n["range"]["t"]
        base = r.places
        if not base and r.pts: base = r.pts
        if not base: base = frozenset([Place(("tmp", "range"), ())])
        self.acc(r.places, "R", n)
        # containers of pointers filled locally
        v = n["var"]
        elp = set()
        for b in base: elp |= self.heap.get(("elpts", b), frozenset())
        el = self.index(base, Val(sym="rf:" + v["id"], inj=inj))
        if r.pts and not r.places: el = r.pts if not is_view(rt) else r.pts
        if v["t"].get("ref"): self.env[v["id"]] = Val(el, frozenset(elp))
        else:
            own = frozenset([Place(("priv", v["id"], v["n"]), ())])
            self.acc(el, "R", n)
            pts = frozenset(elp) if elp else (self.load_ptr(el, v["t"]) if is_ptr(v["t"]) else frozenset())
            self.copy_heap(el, own)
            self.env[v["id"]] = Val(own, pts, "v:" + v["id"])
        for b in v.get("binds", []): self.env[b["id"]] = Val(self.index(el, Val(sym=b["n"])))
    def s_RFor(self, n):
        l = self.locks
        for _ in range(2):
            self.range_elem(n)
            self.run(n["body"])
        self.locks = l
    def s_Switch(self, n): self.use(n["cond"]); self.run(n["body"])
    def s_Case(self, n): self.run(n["body"])
    s_Default = s_Label = s_Case
    def s_Return(self, n):
        if n.get("e"):
            rt = self.fn["ret"] if self.fn and not (self.stack and str(self.stack[-1]).startswith("lam")) else None
            v = self.ev(n["e"])
            if rt is not None and not rt.get("ref") or rt is None and not n["e"]["t"].get("ref") and n["e"]["k"] not in ("Ref", "Mem", "MCall", "OpCall", "Un", "Idx"):
                v = self.rval(v, n["e"], rt) if (rt and (is_ptr(rt) or rt.get("cls") in ("int", "uint", "float", "bool"))) else v
                if rt is not None and not is_ptr(rt) and rt.get("cls") in ("int", "uint", "float", "bool", "enum"): v = Val((), (), v.sym, v.inj)
                elif rt is not None and is_ptr(rt): v = Val((), v.pts)
                elif rt is not None: self.acc(v.places, "R", n)
            self.rets.append(v)
    def s_Break(self, n): pass
    s_Continue = s_Null = s_Break
    def s_Try(self, n):
        self.run(n["body"])
        for h in n["handlers"]:
            if h.get("var"): self.env[h["var"]["id"]] = Val([Place(("priv", h["var"]["id"]), ())])
            self.run(h["body"])

    def s_OMP(self, n):
        d = n["dir"]
        if d == "atomic":
            kind = [c["n"] for c in n["clauses"] if c["n"] in ("read", "write", "update", "capture")]
            save = self.atomic
            self.atomic_stmt(n["body"])
            self.atomic = save
            return
        if d == "critical":
            l = self.locks
            self.locks = self.locks + ("critical",)
            self.run(n["body"])
            self.locks = l
            return
        if d in ("parallel", "parallel for", "for", "parallel for simd"):
            return self.nested_parallel(n)
        self.run(n.get("body"))

    def nested_parallel(self, n):
        """a parallel region reached while analysing another piece of code"""
        self.nested = getattr(self, "nested", []) + [n]
        self.run(n.get("body"))

    def atomic_stmt(self, b):
        """only the one memory cell named by the construct is accessed atomically"""
        while b["k"] == "Block" and len(b["c"]) == 1: b = b["c"][0]
        if b["k"] in ("Asg",) or (b["k"] == "OpCall" and b["op"] in ("=", "+=", "-=", "*=", "/=")):
            l, r = b["a"]
            def scalar_cell(e):
                v = self.ev(e)
                return v
            lv = self.ev(l); 
            rv = self.ev(r)
            self.atomic = True
            if b["op"] != "=": self.acc(lv.places, "R", b)
            self.acc(lv.places, "W", b)
            self.acc(rv.places, "R", b)
            self.atomic = None
            if is_ptr(l["t"]): self.store_ptr(l, lv, self.rval(rv, r).pts)
        elif b["k"] == "Un" and b["op"] in ("++", "--"):
            v = self.ev(b["e"]); self.atomic = True
            self.acc(v.places, "R", b); self.acc(v.places, "W", b); self.atomic = None
        else:
            self.run(b)
