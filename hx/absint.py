"""Abstract interpreter over the typed IR: integers known at analysis time are propagated (they are sizes and indices fixed by the
template instantiation), every floating-point value is abstracted to a quantity (units.Q), branches on unknown conditions are
joined and loops with an unknown number of iterations are analysed as one abstract iteration (twice, joined).
Anything that is not modelled becomes an unknown value, about which nothing is ever reported."""
import re
from fractions import Fraction as Fr
from . import units as U
from . import forms as F
from .units import Q, TOPQ

class Unk:
    def __repr__(self): return "UNK"
UNK = Unk()          # unknown integer / boolean / object


class Budget(Exception): pass


class Cnd:
    """condition that holds where the (exact) form is positive"""
    def __init__(self, e): self.e = e


class Cell:
    """lvalue of a scalar"""
    __slots__ = ("o", "key")
    def __init__(self, o, key): self.o, self.key = o, key


ABSENT = type("Absent", (), {"__repr__": lambda s: "ABSENT"})() # an empty std::optional


class Store:
    """anything with cells"""
    kind = "store"
    def __init__(self): self.c = {}
    def get(self, key): return self.c.get(key, UNK)


class Frame(Store): kind = "frame"


class Obj(Store):
    kind = "obj"
    def __init__(self, rec=""):
        self.c, self.rec = {}, rec
    def __repr__(self): return "Obj<%s>" % self.rec


class Arr(Store):
    """flat C array; `read(i)` gives initial contents, `typ(i)` the quantity each slot is required to hold"""
    kind = "arr"
    size = None
    def __init__(self, mk=None, read=None, typ=None, name=""):
        self.c, self.mk, self.read, self.typ, self.name = {}, mk, read, typ, name
    def get(self, key):
        if key in self.c: return self.c[key]
        if key is UNK: return UNK
        if self.read:
            return self.read(key)
        v = self.mk() if self.mk else UNK
        if isinstance(v, Store): self.c[key] = v
        return v


class Ptr:
    def __init__(self, o, off): self.o, self.off = o, off
    def __eq__(self, x): return isinstance(x, Ptr) and self.o is x.o and self.off == x.off
    def __hash__(self): return id(self.o)
    def __repr__(self): return "Ptr(%s,%s)" % (self.o, self.off)


class Seq:
    def __init__(self, a, n): self.a, self.n = a, n
    def __eq__(self, x): return isinstance(x, Seq) and (self.a, self.n) == (x.a, x.n)
    __hash__ = None

class Sym:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n

ALL, LAST = Sym("all"), Sym("last")


class Mat(Store):
    """matrix; cells 0..r*c-1 column-major; r or c None: shape unknown, one summary cell '*'"""
    kind = "mat"
    def __init__(self, r, c, cells=None):
        self.c = {"r": r, "k": c}
        if r is None or c is None:
            self.c["*"] = cells if isinstance(cells, Q) else TOPQ
        elif cells is not None:
            self.c.update(enumerate(cells))
    r = property(lambda s: s.c["r"])
    k = property(lambda s: s.c["k"])
    known = property(lambda s: isinstance(s.c["r"], int) and isinstance(s.c["k"], int))
    def get(self, key):
        v = self.c.get(key)
        return v if isinstance(v, Q) else TOPQ
    def vals(self):
        return [self.get(i) for i in range(self.r * self.k)] if self.known else None
    def summary(self):
        if not self.known: return self.get("*")
        v = None
        for x in self.vals(): v = x if v is None else U.join(v, x)
        return v if v is not None else TOPQ
    def __repr__(self): return "Mat(%s,%s,%s)" % (self.r, self.k, self.vals() if self.known else self.get("*"))


class View:
    """rectangular selection of scalar lvalues"""
    kind = "view"
    def __init__(self, r, k, ls): self.r, self.k, self.ls = r, k, ls
    known = True


class VWise:
    def __init__(self, m, rows): self.m, self.rows = m, rows


class Comma:
    def __init__(self, m): self.m, self.i = m, 0


class Vec(Store):
    """std::vector / std::array: cells 0..n-1; n None: unknown length, one summary cell '*'"""
    kind = "vec"
    ptrs = False # elements are pointers to objects: copied as they are
    def __init__(self, n=0, vals=None, mk=None):
        self.c = {"n": n}; self.mk = mk
        if vals is not None: self.c.update(enumerate(vals))
    n = property(lambda s: s.c["n"])
    def get(self, key):
        if not isinstance(self.n, int): return self.c.get("*", UNK)
        if key in self.c: return self.c[key]
        v = self.mk() if self.mk else UNK
        if isinstance(v, Store): self.c[key] = v
        return v


class Model(Store):
    """an object of the environment whose interface is given by the rule"""
    kind = "model"
    def __init__(self, name, methods, fields=None):
        self.c, self.name, self.methods = dict(fields or {}), name, methods
    def __repr__(self): return "Model<%s>" % self.name


class Dec:
    """matrix decomposition; only used to solve a linear system"""
    def __init__(self, A): self.A = A


DECT = re.compile(r"Eigen::(?:ColPivHouseholderQR|HouseholderQR|FullPivHouseholderQR|CompleteOrthogonalDecomposition|PartialPivLU|FullPivLU|LDLT|LLT)<")


class Lam:
    def __init__(self, n, fr): self.n, self.fr = n, fr


MAT = re.compile(r"Eigen::(?:Matrix|Array)<(double|float|int|bool), (-?\d+), (-?\d+)")
MAPT = re.compile(r"Eigen::Map<(?:const )?Eigen::(?:Matrix|Array)<double, (-?\d+), (-?\d+)")
VECT = re.compile(r"std::vector<(.*?)(?:, std::allocator<.*)?>$")
ARRT = re.compile(r"std::array<(.*), (\d+)>$")
FLOATFN = {"sqrt", "abs", "fabs", "max", "min", "pow", "exp", "log", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "atan2", "hypot", "cbrt", "fmax", "fmin"}
INVALID = ("throw", "ret", "brk", "cont")


def leaf(t):
    n = 1
    while t and "elem" in t:
        n *= t.get("n") or 1
        t = t["elem"]
    return t, n


def pointers(s):
    """is a container type one of pointers?"""
    return re.match(r"(const )?std::(vector|array)<(std::(unique|shared)_ptr<|[^<>]*(<[^<>]*>[^<>]*)?\*)", s) is not None


class Unsure:
    def __init__(self, I, on): self.I, self.d = I, 1 if on else 0
    def __enter__(self): self.I.maybe += self.d
    def __exit__(self, *a): self.I.maybe -= self.d


class Interp:
    bounds = None # called with (interpreter, array, index, size if known) for every access at a known index
    shape = None  # called with (interpreter, operation, shape, shape) for every operation on matrices of known shape
    optionals = False # are optional quantities known to be present or absent?

    def __init__(self, P, report, budget=4000000, maxdepth=40):
        self.P, self.report = P, report
        self.log = None
        self.steps, self.budget, self.maxdepth = 0, budget, maxdepth
        self.fn = []
        self.globals = {}
        self.hooks_global = {}    # id -> function() -> value
        self.hooks_call = {}      # callee name -> function(interp, node, obj, args) -> value or None
        self.sites = {}           # id(node) -> both operands known
        self.unkn = {}            # sites with an operand of unknown dimension
        self.funcs_seen = set()

    # ---------------------------------------------------------------- store
    def wr(self, o, key, val):
        if self.log is not None: self.log.append((o, key, o.c.get(key, self)))
        o.c[key] = val

    def rollback(self, log):
        post = {}
        for o, key, old in reversed(log):
            k = (id(o), key)
            if k not in post: post[k] = (o, key, o.c.get(key, self))
            if old is self: o.c.pop(key, None)
            else: o.c[key] = old
        return post

    def join(self, a, b):
        if a is b: return a
        if isinstance(a, Q) and isinstance(b, Q): return self.gated(U.join(a, b), a, b)
        if isinstance(a, Q) or isinstance(b, Q): return TOPQ
        try:
            if type(a) is type(b) and a == b: return a
        except Exception: pass
        return UNK

    def gated(self, r, a, b):
        """value that is a where the condition of the branch holds, b elsewhere"""
        if self.gate is None: return r
        x, y = U.ex(a), U.ex(b)
        if x is None or y is None or r.e is not None and r.v is None and a == b: return r
        return Q(r.d, r.p, None, F.fn("ite", self.gate.e, x, y)) if F.canon(x) != F.canon(y) else a

    def apply(self, o, key, val):
        if val is self:
            return
        self.wr(o, key, val)

    def join_posts(self, posts):
        """posts: list of {loc: (o,key,val)}; locations not in a post keep their current value on that path"""
        locs = {}
        for p in posts:
            for k, (o, key, v) in p.items(): locs[k] = (o, key)
        for k, (o, key) in locs.items():
            vals = [p[k][2] if k in p else (o.c[key] if key in o.c else self) for p in posts]
            if self.gate is not None and any(v is self for v in vals) and isinstance(o, Arr):
                try: vals = [o.get(key) if v is self else v for v in vals]
                except Exception: pass
            res = vals[0]
            for v in vals[1:]:
                if res is self: res = v if isinstance(v, Store) else (TOPQ if isinstance(v, Q) else UNK) if v is not self else self
                elif v is self: res = res if isinstance(res, Store) else (TOPQ if isinstance(res, Q) else UNK)
                else: res = self.join(res, v)
            if res is self: continue
            if isinstance(o, (Mat,)) and key in ("r", "k") and not isinstance(res, int): res = None
            self.wr(o, key, res)

    cnd = gate = None
    maybe = 0  # depth of branches that are followed without knowing whether any input takes them
    def unsure(self, c):
        """the branches of a comparison of two quantities of the flow are both taken by some input; of other unknown conditions that is not known"""
        return Unsure(self, not (c is not None and any(x.get("k") == "Bin" and x.get("op") in ("<", ">", "<=", ">=") and any((k.get("t") or {}).get("cls") == "float" for k in x.get("a") or [] if isinstance(k, dict)) for x in self.walk(c))))

    def branches(self, thunks, gate=None):
        """run each thunk from the current state, join the results; returns the list of signals"""
        outer = self.log
        posts, sigs = [], []
        for th in thunks:
            self.log = []
            s = th()
            posts.append(self.rollback(self.log)); sigs.append(s)
        self.log = outer
        live = [p for p, s in zip(posts, sigs) if s not in ("throw", "ret")]
        if not live: live = [p for p, s in zip(posts, sigs) if s == "ret"]
        if live:
            self.gate = gate if len(live) == 2 and not any(sigs) else None
            self.join_posts(live)
            self.gate = None
        return sigs

    # ---------------------------------------------------------------- checks
    def where(self): return self.fn[-1] if self.fn else None

    def chk(self, a, b, n, what):
        if not (isinstance(a, Q) and isinstance(b, Q)): return
        md, mp = U.mismatch(a, b)
        if a.v is None and b.v is None and a.d is not None and b.d is not None: self.sites.setdefault(id(n), (n, self.where(), what))
        if (a.d is None and a.v is None) or (b.d is None and b.v is None): self.unkn[id(n)] = (n, self.where(), what)
        if what in ("+", "-", "+=", "-=") and (a.v is None) != (b.v is None):
            # a dimensional quantity plus a nonzero number (tiny numbers are guards against division by zero)
            x, c = (a, b) if a.v is None else (b, a)
            if abs(c.v) > 1e-6 and any(k.get("k") in ("Int", "Float") for k in n.get("a") or [] if isinstance(k, dict)) and x.d is not None and x.d != U.D0: md, a, b = True, Q(a.d, a.p), Q(b.d, b.p)
        if md or mp: self.report(n, self.where(), what, a, b, "dimension" if md else "parity")

    def add(self, a, b, n, what="+"):
        self.chk(a, b, n, what)
        return U.merge(a, b)

    def dimless(self, a, n, what):
        if isinstance(a, Q):
            if a.v is None and a.d is not None:
                self.sites.setdefault(id(n), (n, self.where(), what))
                if a.d != U.D0: self.report(n, self.where(), what, a, U.DLESS, "dimension")

    # ---------------------------------------------------------------- conversions
    def rv(self, x):
        if isinstance(x, Cell):
            v = x.o.get(x.key)
            return v
        return x

    def q(self, x):
        x = self.rv(x)
        if isinstance(x, Q): return x
        if isinstance(x, bool): return U.const(int(x))
        if isinstance(x, int): return U.const(x)
        if isinstance(x, (Mat, View)) and x.known and x.r == x.k == 1: return self.cells(x)[0]
        return TOPQ

    def cells(self, m):
        if isinstance(m, Mat): return m.vals() if m.known else None
        if isinstance(m, View): return [self.q(l) for l in m.ls]
        return None

    def mat(self, x):
        """any matrix-like value as Mat"""
        x = self.rv(x)
        if isinstance(x, Mat): return x
        if isinstance(x, View): return Mat(x.r, x.k, self.cells(x))
        if isinstance(x, Q): return Mat(1, 1, [x])
        if isinstance(x, VWise): return self.mat(x.m)
        return Mat(None, None, TOPQ)

    def clone(self, v):
        v = self.rv(v)
        if isinstance(v, Mat):
            m = Mat(None, None); m.c = dict(v.c); return m
        if isinstance(v, View): return self.mat(v)
        if isinstance(v, Vec):
            o = Vec(); o.mk, o.ptrs = v.mk, v.ptrs
            o.c = {k: (self.clone(x) if isinstance(x, (Mat, Vec, Obj)) and not v.ptrs else x) for k, x in v.c.items()}
            return o
        if isinstance(v, Obj):
            o = Obj(v.rec)
            o.c = {k: (self.clone(x) if isinstance(x, (Mat, Vec)) else x) for k, x in v.c.items()}
            return o
        return v

    def default(self, t):
        """uninitialised / default-initialised value of a type"""
        if not t: return UNK
        if "elem" in t:
            lt, n = leaf(t)
            a = Arr(mk=lambda: self.default(lt)); a.size = n
            return Ptr(a, 0)
        cls = t.get("cls")
        if cls == "float": return TOPQ
        if cls in ("int", "uint", "bool", "enum"): return UNK
        s = t["s"].replace("const ", "")
        m = MAT.match(s)
        if m:
            r, c = int(m.group(2)), int(m.group(3))
            if r >= 0 and c >= 0: return Mat(r, c)
            return Mat(0 if r < 0 else r, 0 if c < 0 else c)
        if s.startswith("Eigen::"): return UNK
        m = ARRT.match(s)
        if m:
            el = m.group(1)
            if pointers(s):
                v = Vec(int(m.group(2)), mk=lambda: UNK); v.ptrs = True
                return v
            if el.startswith("std::"): return Vec(int(m.group(2)), mk=lambda: self.default({"s": el}))
            return Vec(int(m.group(2)), mk=lambda: TOPQ if el == "double" else UNK)
        if s.startswith("std::vector<"):
            v = Vec(0); v.ptrs = pointers(s)
            return v
        if "rec" in t and t["rec"].startswith("hexed::"): return self.newobj(t["rec"])
        return UNK

    def newobj(self, rec):
        o = Obj(rec)
        for b in [rec] + self.P.bases(rec):
            for fl in self.P.fields(b):
                if fl["n"] in o.c: continue
                if not (fl.get("t") or {}).get("ref"): o.c[fl["n"]] = self.default(fl["t"])
        return o

    def coerce(self, v, t):
        """value assigned to an object of type t"""
        cls = t.get("cls") if t else None
        v = self.rv(v)
        if cls == "float": return self.q(v) if not v is UNK else TOPQ
        if cls in ("int", "uint", "bool"):
            if isinstance(v, Q): return int(v.v) if v.v is not None and cls != "bool" else (bool(v.v) if v.v is not None else UNK)
            return v
        return v

    # ---------------------------------------------------------------- functions
    def call(self, f, this, args, n=None):
        if len(self.fn) > self.maxdepth or sum(1 for g in self.fn if g is f) > 6: return UNK
        fr = Frame()
        fr.this, fr.rets, fr.f = this, [], f
        for i, p in enumerate(f["params"]):
            a = args[i] if i < len(args) else UNK
            self.bindvar(fr, p["id"], p["t"], a)
        self.fn.append(f); self.funcs_seen.add(f["key"])
        save = getattr(self, "fr", None)
        self.fr = fr
        try:
            if f.get("kind") == "ctor" or f.get("inits"): self.run_inits(f, this)
            self.ex(f.body)
        finally:
            self.fn.pop(); self.fr = save
        if not fr.rets: return UNK
        r = fr.rets[0]
        for x in fr.rets[1:]: r = self.join_ret(r, x)
        return r

    def join_ret(self, a, b):
        if isinstance(a, Mat) and isinstance(b, Mat):
            if a.r == b.r and a.k == b.k and a.known: return Mat(a.r, a.k, [U.join(x, y) for x, y in zip(a.vals(), b.vals())])
            return Mat(None, None, U.join(a.summary(), b.summary()))
        if isinstance(a, Vec) and isinstance(b, Vec) and a.n == b.n and isinstance(a.n, int):
            return Vec(a.n, [self.join(a.get(i), b.get(i)) for i in range(a.n)])
        return self.join(self.rv(a), self.rv(b))

    def bindvar(self, fr, vid, t, a):
        ref = (t or {}).get("ref")
        if ref:
            v = self.rv(a) if not isinstance(a, Cell) else a
            if isinstance(a, Cell) and isinstance(self.rv(a), (Store, View, Ptr)) and not isinstance(self.rv(a), Frame) and not isinstance(self.rv(a), Ptr): v = self.rv(a)
            if isinstance(v, Cell): fr.c[vid] = ("alias", v)
            else: fr.c[vid] = v if not isinstance(v, (int,)) or t.get("cls") != "float" else self.q(v)
        elif (t or {}).get("cls") == "ptr" and isinstance(self.rv(a), Obj): self.wr(fr, vid, self.rv(a)) # a pointer to an object is the object
        else:
            v = self.clone(a)
            if isinstance(v, (View,)): v = self.mat(v)
            v = self.to_type(v, t)
            self.wr(fr, vid, v)

    def to_type(self, v, t):
        if not t or "elem" in t: return v
        v = self.coerce(v, t)
        s = t["s"].replace("const ", "")
        m = MAT.match(s)
        if m: return self.to_mat(v, int(m.group(2)), int(m.group(3)))
        return v

    def to_mat(self, v, r, c):
        """fixed/dynamic Matrix object constructed from a matrix expression"""
        v = self.mat(v)
        if v.known:
            R, C = (v.r if r < 0 else r), (v.k if c < 0 else c)
            if (R, C) == (v.r, v.k): return Mat(R, C, v.vals())
            if (R, C) == (v.k, v.r) and 1 in (R, C): return Mat(R, C, v.vals())
            if r >= 0 and c >= 0: return Mat(r, c, [TOPQ] * (r * c))
            return Mat(None, None, TOPQ)
        if r >= 0 and c >= 0: return Mat(r, c, [v.get("*")] * (r * c))
        return Mat(None, None, v.get("*"))

    def run_inits(self, f, this):
        if not isinstance(this, Obj): return
        done = set()
        for i in f.get("inits", []):
            if i.get("field"):
                e = i.get("e")
                if e is None: continue
                if e.get("k") == "DefInit" : e = e.get("e") or None
                if e is None: continue
                fl = self.field(this.rec, i["field"])
                v = self.ev(e)
                t = fl.get("t") if fl else e.get("t")
                if t and t.get("ref"):
                    self.wr(this, i["field"], v if not isinstance(v, Cell) else ("alias", v)); continue
                if v is UNK and isinstance(this.c.get(i["field"]), Obj): continue # value-initialised class object
                if (t or {}).get("cls") == "ptr" and isinstance(self.rv(v), Obj): self.wr(this, i["field"], self.rv(v)); continue
                self.wr(this, i["field"], self.to_type(self.clone(v), t))
            elif i.get("deleg") or i.get("base"):
                e = i.get("e")
                if e is not None and e.get("k") == "Ctor":
                    g = self.P.funcs.get(e.get("f"))
                    if g is not None and g.body: self.call(g, this, self.args(e, g), e)
                    elif e.get("copy") or e.get("move"): self.subobject(this, self.rv(self.ev(e["a"][0])) if e.get("a") else UNK, i.get("base"))
                elif e is not None and e.get("k") == "Init": self.subobject(this, self.rv(self.ev(e)), i.get("base"))

    def subobject(self, this, o, base):
        """the fields of a base class from an object of that class"""
        r = base if isinstance(base, str) else (base or {}).get("rec")
        if isinstance(o, Obj) and r:
            for fl in self.P.fields(r):
                if fl["n"] in o.c: self.wr(this, fl["n"], self.clone(o.c[fl["n"]]))

    def field(self, rec, name):
        for b in [rec] + self.P.bases(rec):
            for fl in self.P.fields(b):
                if fl["n"] == name: return fl
        return None

    def args(self, n, f=None):
        ps = [p["t"] for p in f["params"]] if f is not None else None
        out = []
        for i, a in enumerate(n["a"]):
            out.append(self.ev(a))
        return out

    # ---------------------------------------------------------------- statements
    def ex(self, n):
        if n is None: return None
        self.steps += 1
        if self.steps > self.budget: raise Budget()
        k = n["k"]
        m = getattr(self, "x_" + k, None)
        if m: return m(n)
        self.ev(n)
        return None

    def x_Block(self, n):
        for c in n["c"]:
            s = self.ex(c)
            if s: return s

    x_Decl = x_Block

    def x_OMP(self, n): return self.ex(n.get("body"))
    def x_Null(self, n): return None
    def x_Break(self, n): return "brk"
    def x_Continue(self, n): return "cont"
    def x_Throw(self, n): return "throw"

    def x_Return(self, n):
        if n.get("e") is not None:
            v = self.ev(n["e"])
            rt = self.fr.f.get("ret") if getattr(self.fr, "f", None) else None
            if not (rt and rt.get("ref")):
                v = self.rv(v)
                if rt is not None: v = self.to_type(self.clone(v), rt)
                elif isinstance(v, View): v = self.mat(v)
            self.fr.rets.append(v)
        return "ret"

    def x_Var(self, n):
        t = n.get("t") or {}
        if t.get("s") == "?" : t = {"s": "?"}
        init = n.get("init")
        if n.get("cv") is not None and t.get("cls") != "float":
            self.wr(self.fr, n["id"], n["cv"]); return
        if init is None:
            self.wr(self.fr, n["id"], self.default(t)); return
        if init.get("k") == "Init" and "elem" in t:
            v = self.default(t); self.fill(v, t, init); self.wr(self.fr, n["id"], v); return
        if init.get("k") == "Ctor" and "elem" in t:
            self.wr(self.fr, n["id"], self.default(t)); return
        v = self.ev(init)
        if t.get("ref"):
            if isinstance(v, Cell):
                inner = self.rv(v)
                self.wr(self.fr, n["id"], inner if isinstance(inner, (Store, View)) else ("alias", v))
            else: self.wr(self.fr, n["id"], v)
            return
        s = t.get("s", "")
        if t.get("cls") == "ptr" and isinstance(self.rv(v), Obj): self.wr(self.fr, n["id"], self.rv(v)); return
        if isinstance(v, View) and not MAT.match(s.replace("const ", "")): self.wr(self.fr, n["id"], v); return
        if isinstance(v, Cell) or not (init.get("k") in ("Ctor", "Init")): v = self.clone(v) if not (isinstance(self.rv(v), Obj) and init.get("k") in ("Ctor",)) else self.rv(v)
        self.wr(self.fr, n["id"], self.to_type(v, t))

    def fill(self, p, t, init):
        """aggregate initialisation of an array"""
        _, esz = leaf(t["elem"])
        nsub = t.get("n") or 0
        lt, tot = leaf(t)
        def rec(off, t, init):
            el = t["elem"]; _, esz = leaf(el)
            a = init.get("a", []) if init is not None and init.get("k") == "Init" else []
            for i in range(t.get("n") or 0):
                if "elem" in el:
                    rec(off + i * esz, el, a[i] if i < len(a) else None)
                elif i < len(a):
                    v = self.ev(a[i]); self.wr(p.o, off + i, self.to_type(self.clone(v), el))
                elif lt.get("cls") == "float": self.wr(p.o, off + i, U.ZERO)
                elif lt.get("cls") in ("int", "uint", "bool"): self.wr(p.o, off + i, 0)
        rec(0, t, init)

    def truth(self, n):
        v = self.rv(self.ev(n))
        self.cnd = v
        if isinstance(v, Q): v = bool(v.v) if v.v is not None else UNK
        if isinstance(v, bool): return v
        if isinstance(v, int): return bool(v)
        return UNK

    def x_If(self, n):
        if n.get("init"): self.ex(n["init"])
        if n.get("var"): self.ex(n["var"])
        c = n["cond"]
        if c.get("cv") is not None: t = bool(c["cv"])
        elif c["k"] == "Bool": t = bool(c["v"])
        else: t = self.truth(c)
        if t is True: return self.ex(n["then"])
        if t is False: return self.ex(n["else"])
        with self.unsure(c): s = self.branches([lambda: self.ex(n["then"]), lambda: self.ex(n["else"])], self.cnd if isinstance(self.cnd, Cnd) else None)
        if s[0] == s[1]: return s[0]
        live = [x for x in s if x not in ("throw", "ret")]
        if not live: return "ret"
        if None in live: return None
        return live[0]

    def x_For(self, n):
        self.ex(n.get("init"))
        it = 0
        cond = n.get("cond")
        while True:
            t = True if cond is None else self.truth(cond)
            if t is False: return None
            if t is UNK or it > 20000 or cond is None: break
            s = self.ex(n["body"]); it += 1
            if s in ("ret", "throw"): return s
            if s == "brk": return None
            if n.get("inc") is not None: self.ev(n["inc"])
        return self.unkloop(n["body"], n.get("inc"))

    def unkloop(self, body, inc=None):
        if inc is not None:
            for x in self.walk(inc):
                if x["k"] in ("Un", "Asg"):
                    tgt = x["e"] if x["k"] == "Un" else x["a"][0]
                    try:
                        l = self.ev(tgt)
                        if isinstance(l, Cell): self.wr(l.o, l.key, UNK if not isinstance(self.rv(l), Q) else TOPQ)
                    except Exception: pass
        with self.unsure(None): self.branches([lambda: self.cut(self.ex(body)), lambda: (self.cut(self.ex(body)), self.ex(body))[1] and None])
        return None

    def cut(self, s): return None

    def walk(self, n):
        from .ir import walk
        return walk(n)

    def x_While(self, n):
        it = 0
        while True:
            t = self.truth(n["cond"]) if n.get("cond") else UNK
            if t is False: return None
            if t is UNK or it > 3000: break
            s = self.ex(n["body"]); it += 1
            if s in ("ret", "throw"): return s
            if s == "brk": return None
        return self.unkloop(n["body"])

    def x_Do(self, n):
        s = self.ex(n["body"])
        if s in ("ret", "throw"): return s
        return self.unkloop(n["body"])

    def x_RFor(self, n):
        r = self.rv(self.ev(n["range"]))
        v = n["var"]
        if isinstance(r, Ptr): # C array
            t = n["range"].get("t") or {}
            cnt = t.get("n")
            if isinstance(cnt, int) and "elem" in t and "elem" not in t["elem"]: items = [Cell(r.o, r.off + i) for i in range(cnt)]
            else: items = None
        elif isinstance(r, Vec) and isinstance(r.n, int): items = [Cell(r, i) for i in range(r.n)]
        elif isinstance(r, Vec): items = None
        elif isinstance(r, (list, tuple)): items = list(r)
        else: items = None
        if items is None:
            el = Cell(r, "*") if isinstance(r, Vec) else UNK
            def once():
                self.bindvar(self.fr, v["id"], v.get("t") or {}, el)
                self.ex(n["body"])
            with self.unsure(None): self.branches([once, lambda: (once(), once())[1]])
            return None
        for x in items:
            self.bindvar(self.fr, v["id"], v.get("t") or {}, x)
            s = self.ex(n["body"])
            if s in ("ret", "throw"): return s
            if s == "brk": break
        return None

    def x_Switch(self, n):
        c = self.rv(self.ev(n["cond"]))
        items = n["body"]["c"] if n["body"]["k"] == "Block" else [n["body"]]
        flat = []
        for it in items:
            while it is not None and it["k"] in ("Case", "Default"):
                flat.append(("lab", it)); it = it.get("body")
            flat.append(("st", it))
        if isinstance(c, int):
            on = False
            tgt = None
            for i, (kk, it) in enumerate(flat):
                if kk == "lab" and it["k"] == "Case" and self.rv(self.ev(it["val"])) == c: tgt = i; break
            if tgt is None:
                for i, (kk, it) in enumerate(flat):
                    if kk == "lab" and it["k"] == "Default": tgt = i; break
            if tgt is None: return None
            for kk, it in flat[tgt:]:
                if kk == "st":
                    s = self.ex(it)
                    if s == "brk": return None
                    if s: return s
            return None
        def runfrom(i):
            for kk, it in flat[i:]:
                if kk == "st":
                    s = self.ex(it)
                    if s == "brk": return None
                    if s: return s
            return None
        with self.unsure(None): self.branches([(lambda i=i: runfrom(i)) for i, (kk, it) in enumerate(flat) if kk == "lab"] + [lambda: None])
        return None

    def x_Try(self, n):
        return self.ex(n["body"])

    # ---------------------------------------------------------------- expressions
    def ev(self, n):
        if n is None: return UNK
        self.steps += 1
        if self.steps > self.budget: raise Budget()
        k = n["k"]
        cv = n.get("cv")
        if cv is not None and k != "Var":
            cls = (n.get("t") or {}).get("cls")
            if cls == "float":
                # evaluated structurally, because it may be made of named physical constants
                m = getattr(self, "e_" + k, None)
                v = self.rv(m(n)) if m and k != "Call" else None
                return v if isinstance(v, Q) and v.d is not None else U.const(cv)
            return cv
        m = getattr(self, "e_" + k, None)
        if m is None:
            if hasattr(self, "x_" + k): self.ex(n); return UNK
            return UNK
        return m(n)

    def v(self, n): return self.rv(self.ev(n))

    def e_Int(self, n): return n["v"] if (n.get("t") or {}).get("cls") != "float" else U.const(n["v"])
    def e_Bool(self, n): return bool(n["v"])
    def e_Float(self, n):
        try: return U.const(float(n["v"]))
        except Exception: return TOPQ
    def e_Str(self, n): return n["v"]
    def e_Char(self, n): return n.get("v", UNK)
    def e_Zero(self, n):
        t = n.get("t") or {}
        cls = t.get("cls")
        if cls == "float": return U.ZERO
        if cls in ("int", "uint", "bool"): return 0
        return self.default(t)
    def e_Enum(self, n): return UNK
    def e_Paren(self, n): return self.ev(n["e"])
    def e_Null(self, n): return UNK

    def e_DefInit(self, n): return self.ev(n.get("e")) if n.get("e") else UNK

    def e_This(self, n): return self.fr.this

    def e_Ref(self, n):
        i = n["id"]
        fr = self.fr
        while fr is not None:
            if i in fr.c:
                v = fr.c[i]
                if isinstance(v, tuple) and len(v) == 2 and v[0] == "alias": return v[1]
                if isinstance(v, (Store, View, VWise, Lam)): return v
                return Cell(fr, i)
            fr = getattr(fr, "parent", None)
        if n.get("glob"):
            nm = n["n"]
            ty = (n.get("t") or {}).get("s", "")
            if "Eigen::internal::all_t" in ty: return ALL
            if "symbolic_last_tag" in ty and "AddExpr" not in ty: return LAST
            if i in self.globals: return self.globals[i]
            h = self.hooks_global.get(i.split(":", 1)[1] if i.startswith("G:") else i)
            if h is None: h = self.hooks_global.get(nm)
            if h is not None:
                self.globals[i] = h() if callable(h) else h
                return self.globals[i]
            g = self.P.vars.get(i)
            if g is not None and (g.get("t") or {}).get("const") and g.get("init") is not None:
                self.globals[i] = UNK
                self.fn.append({"q": g.get("q", nm), "key": i, "file": g.get("file", "?"), "l": g.get("l", 0)})
                save, slog = getattr(self, "fr", None), self.log
                self.fr, self.log = Frame(), None
                self.fr.this, self.fr.rets, self.fr.f = None, [], None
                try: v = self.to_type(self.clone(self.ev(g["init"])), g["t"])
                finally: self.fn.pop(); self.fr, self.log = save, slog
                self.globals[i] = v
                return v
            return TOPQ if (n.get("t") or {}).get("cls") == "float" else UNK
        if (n.get("t") or {}).get("cls") == "float": return Cell(self.fr, i)
        return Cell(self.fr, i)

    def e_Mem(self, n):
        b = self.v(n["b"])
        if isinstance(b, Ptr) and b.off is not UNK: b = b.o.get(b.off)
        if isinstance(b, (Obj, Model)):
            v = b.c.get(n["n"], self)
            if v is self:
                if isinstance(b, Model) and n["n"] in b.methods: return b.methods[n["n"]]
                fl = self.P.vars.get("G:" + str(n.get("q")))
                if fl is not None and "cv" in fl: return fl["cv"]
                t = n.get("t") or {}
                if isinstance(b, Model): return TOPQ if t.get("cls") == "float" else UNK
                v = self.default(t)
                if isinstance(v, Store): b.c[n["n"]] = v; return v
                return Cell(b, n["n"])
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "alias": return v[1]
            if isinstance(v, (Store, View)): return v
            return Cell(b, n["n"])
        return TOPQ if (n.get("t") or {}).get("cls") == "float" else UNK

    def e_Idx(self, n):
        b, i = self.v(n["b"]), self.v(n["i"])
        if isinstance(i, bool): i = int(i)
        if isinstance(b, Vec): return self.vidx(b, i)
        if isinstance(b, Ptr):
            t = n.get("t") or {}
            lt, sz = leaf(t)
            off = b.off + i * sz if isinstance(i, int) and isinstance(b.off, int) else UNK
            if "elem" in t: return Ptr(b.o, off)
            return self.slot(b.o, off, t)
        return TOPQ if (n.get("t") or {}).get("cls") == "float" else UNK

    def slot(self, o, off, t=None):
        if off is UNK:
            if t and t.get("cls") == "float": return Cell(Obj("unknown"), "x") if False else Cell(UnkSlot(o), "x")
            return UNK
        if self.bounds: self.bounds(self, o, off)
        v = o.get(off)
        if isinstance(v, (Store, View)): return v
        return Cell(o, off)

    def vidx(self, b, i):
        if isinstance(b.n, int) and isinstance(i, int):
            if self.bounds: self.bounds(self, b, i)
            if not 0 <= i < b.n: return Cell(UnkSlot(b), "x")
            v = b.get(i)
            return v if isinstance(v, (Store, View)) else Cell(b, i)
        if not isinstance(b.n, int):
            v = b.get("*")
            return v if isinstance(v, (Store, View)) else Cell(b, "*")
        # known length, unknown index
        vals = [b.get(j) for j in range(b.n)]
        if vals and all(isinstance(x, Q) for x in vals):
            q = vals[0]
            for x in vals[1:]: q = U.join(q, x)
            u = UnkSlot(b); u.q = q
            return Cell(u, "x")
        return vals[0] if len(vals) == 1 else UNK

    # ---- casts
    def cast(self, n):
        ck = n.get("ck")
        x = self.ev(n["e"])
        if ck in ("IntegralToFloating",):
            x = self.rv(x)
            if isinstance(x, (int, bool)): return U.const(int(x))
            return Q(U.D0, 0)
        if ck in ("FloatingToIntegral", "FloatingToBoolean"):
            x = self.rv(x)
            if isinstance(x, Q) and x.v is not None: return int(x.v) if ck == "FloatingToIntegral" else bool(x.v)
            return UNK
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            x = self.rv(x)
            if isinstance(x, (int, bool)): return bool(x)
            if isinstance(x, Ptr): return True
            return UNK
        if ck == "IntegralCast":
            x = self.rv(x)
            return x
        t = (n.get("t") or {})
        if t.get("cls") == "float" and not isinstance(x, Cell): return self.q(x)
        return x
    e_ICast = e_Cast = cast
    def e_ReCast(self, n): self.ev(n["e"]); return UNK

    def e_Cond(self, n):
        c = n["cond"]
        t = bool(c["cv"]) if c.get("cv") is not None else self.truth(c)
        if t is True: return self.ev(n["then"])
        if t is False: return self.ev(n["else"])
        out = []
        def go(x):
            v = self.ev(x)
            out.append(self.rv(v))
        g = self.cnd if isinstance(self.cnd, Cnd) else None
        with self.unsure(c): self.branches([lambda: go(n["then"]), lambda: go(n["else"])], g)
        a, b = out
        if g is not None and isinstance(a, Q) and isinstance(b, Q):
            self.chk(a, b, n, "?:")
            self.gate = g
            try: return self.join(a, b)
            finally: self.gate = None
        if isinstance(a, Q) and isinstance(b, Q):
            # both arms produce the same variable: they must agree
            self.chk(a, b, n, "?:")
        return self.join_ret(a, b) if not (isinstance(a, (View, Mat)) or isinstance(b, (View, Mat))) else self.join_ret(self.mat(a), self.mat(b))

    def e_Un(self, n):
        op = n["op"]
        if op == "&":
            x = self.ev(n["e"])
            if isinstance(x, Cell):
                if isinstance(x.o, Arr): return Ptr(x.o, x.key)
                a = Arr(); a.c = x.o.c if False else {}
                return Ptr(OneCell(x), 0)
            return x
        if op == "*":
            x = self.v(n["e"])
            if isinstance(x, Ptr): return self.slot(x.o, x.off, n.get("t"))
            return x
        x = self.ev(n["e"])
        val = self.rv(x)
        if op in ("++", "--"):
            d = 1 if op == "++" else -1
            if isinstance(val, bool): val = int(val)
            new = val + d if isinstance(val, int) else Ptr(val.o, val.off + d) if isinstance(val, Ptr) and isinstance(val.off, int) else (val if isinstance(val, Q) else UNK)
            if isinstance(x, Cell): self.wr(x.o, x.key, new)
            return val if n.get("post") else new
        if op == "!":
            t = val
            if isinstance(t, Cnd): return Cnd(F.neg(t.e))
            if isinstance(t, Q): t = bool(t.v) if t.v is not None else UNK
            return (not t) if isinstance(t, (int, bool)) else UNK
        if op == "-":
            if isinstance(val, (int, bool)): return -val
            if isinstance(val, Q): return U.neg(val)
            return TOPQ if (n.get("t") or {}).get("cls") == "float" else UNK
        if op == "+": return val
        if op == "~": return ~val if isinstance(val, int) else UNK
        return UNK

    def e_Bin(self, n):
        op = n["op"]
        if op in ("&&", "||"):
            a = self.truth(n["a"][0])
            if a is (op == "||"): return a
            b = self.truth(n["a"][1]) if a is not UNK else None
            if a is UNK:
                out = []
                with self.unsure(None): self.branches([lambda: out.append(self.truth(n["a"][1])) and None, lambda: None])
                b = out[0]
                return b if b is (op == "||") else UNK
            return b
        if op == ",":
            self.ev(n["a"][0]); return self.ev(n["a"][1])
        a, b = self.v(n["a"][0]), self.v(n["a"][1])
        return self.binop(op, a, b, n)

    def binop(self, op, a, b, n):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o and isinstance(a.off, int) and isinstance(b.off, int):
            if op in ("-", "==", "!=", "<", ">", "<=", ">="): a, b = a.off, b.off
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(b, Ptr) and not isinstance(a, Ptr): a, b = b, a
            if op in ("+", "-") and not isinstance(b, Ptr):
                if not isinstance(b, (int, bool)) or not isinstance(a.off, int): return Ptr(a.o, UNK)
                return Ptr(a.o, a.off + b if op == "+" else a.off - b)
            return UNK
        fl = (n.get("t") or {}).get("cls") == "float" or isinstance(a, Q) or isinstance(b, Q)
        if not fl:
            if a is UNK or b is UNK or not isinstance(a, (int, bool)) or not isinstance(b, (int, bool)):
                return UNK
            a, b = int(a), int(b)
            try:
                if op == "+": return a + b
                if op == "-": return a - b
                if op == "*": return a * b
                if op == "/": return int(a / b) if b else UNK
                if op == "%": return a - int(a / b) * b if b else UNK
                if op == "==": return a == b
                if op == "!=": return a != b
                if op == "<": return a < b
                if op == ">": return a > b
                if op == "<=": return a <= b
                if op == ">=": return a >= b
                if op == "&": return a & b
                if op == "|": return a | b
                if op == "^": return a ^ b
                if op == "<<": return a << b
                if op == ">>": return a >> b
            except Exception: pass
            return UNK
        a, b = self.q(a), self.q(b)
        if op in ("+", "-"):
            if op == "-": b = U.neg(b)
            return self.add(a, b, n, op)
        if op == "*": return U.mul(a, b)
        if op == "/": return U.div(a, b)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            md, _ = U.mismatch(a, b)
            self.chk(Q(a.d, None, a.v), Q(b.d, None, b.v), n, op)
            if a.v is not None and b.v is not None:
                return {"<": a.v < b.v, ">": a.v > b.v, "<=": a.v <= b.v, ">=": a.v >= b.v, "==": a.v == b.v, "!=": a.v != b.v}[op]
            if U.EXACT and op in ("<", ">", "<=", ">="):
                x, y = U.ex(a), U.ex(b)
                if x is not None and y is not None: return Cnd(F.add(x, F.neg(y)) if op[0] == ">" else F.add(y, F.neg(x)))
            return UNK
        return UNK

    def e_Asg(self, n):
        op = n["op"]
        r = self.ev(n["a"][1])
        l = self.ev(n["a"][0])
        t = n["a"][0].get("t") or {}
        if op == "=":
            rv = self.rv(r)
            if isinstance(l, Cell):
                self.store(l, self.to_type(self.clone(rv), t), n)
            elif isinstance(l, (Mat, View)): self.massign(l, rv, n)
            elif isinstance(l, Store) and isinstance(rv, Store): self.copy_into(l, rv)
            return l
        bop = op[:-1]
        val = self.binop(bop, self.rv(l), self.rv(r), {"k": "Bin", "t": t, "l": n.get("l"), "op": op, "_n": n} if False else n)
        if isinstance(l, Cell): self.store(l, self.coerce(val, t), n)
        return l

    def copy_into(self, l, r):
        if isinstance(r, (Frame, Model)): return
        for k in list(l.c):
            if k not in r.c: self.wr(l, k, UNK) if not isinstance(l.c[k], Q) else self.wr(l, k, TOPQ)
        for k, x in r.c.items(): self.wr(l, k, self.clone(x) if isinstance(x, (Mat, Vec)) else x)

    def store(self, l, val, n):
        typ = getattr(l.o, "typ", None)
        if typ is not None and isinstance(val, Q):
            want = typ(l.key)
            if isinstance(want, Q):
                self.chk(val, want, n, "stored in " + l.o.name)
        if isinstance(l.o, UnkSlot):
            l.o.havoc(self); return
        self.wr(l.o, l.key, val)

    # ---- calls
    def e_Ctor(self, n):
        t = n.get("t") or {}
        s = t.get("s", "").replace("const ", "")
        f = self.P.funcs.get(n.get("f"))
        if f is not None and f.body and (f["file"].startswith("include/") or f["file"].startswith("src/")) and not n.get("copy") and not n.get("move"):
            args = self.args(n, f)
            o = self.newobj(t.get("rec", ""))
            self.call(f, o, args, n)
            return o
        args = [self.ev(a) for a in n["a"]]
        if (n.get("copy") or n.get("move")) and args: return self.clone(args[0]) if n.get("copy") else self.rv(args[0])
        m = MAT.match(s)
        if m:
            r, c = int(m.group(2)), int(m.group(3))
            vals = [self.rv(a) for a in args]
            if not vals: return self.default(t)
            if len(vals) == 1 and isinstance(vals[0], int) and not isinstance(vals[0], bool):
                if r < 0 or c < 0: return Mat(vals[0] if r < 0 else r, vals[0] if c < 0 else c)
                return self.default(t)
            if len(vals) == 2 and all(isinstance(x, int) for x in vals) and (r < 0 or c < 0): return Mat(vals[0], vals[1])
            if all(x is UNK or isinstance(x, int) for x in vals) and (r < 0 or c < 0): return Mat(None, None, TOPQ)
            if n["a"] and n["a"][0]["k"] == "Init" and "elem" in (n["a"][0].get("t") or {}) and all(x["k"] == "Init" for x in n["a"][0]["a"]):
                rows = [[self.q(self.ev(y)) for y in x["a"]] for x in n["a"][0]["a"]] # {{a, b}, {c, d}}
                if r > 0 and c > 0 and len(rows) == r and all(len(x) == c for x in rows): return Mat(r, c, [rows[i][j] for j in range(c) for i in range(r)])
                if r > 0 and c == 1 and len(rows) == 1 and len(rows[0]) == r: return Mat(r, c, rows[0])
                return Mat(r, c, [TOPQ] * (r * c)) if r >= 0 and c >= 0 else Mat(None, None, TOPQ)
            if len(vals) == 1 and isinstance(vals[0], (Mat, View, VWise)): return self.to_mat(vals[0], r, c)
            if vals and all(isinstance(x, Q) for x in vals) and r > 0 and c > 0 and len(vals) == r * c: return Mat(r, c, vals)
            if vals and all(isinstance(x, Vec) for x in vals): # nested initializer list {{a, b}, {c, d}}
                rows = [[self.q(x.get(j)) for j in range(x.n)] for x in vals if isinstance(x.n, int)]
                if r > 0 and c > 0 and len(rows) == r and all(len(x) == c for x in rows):
                    return Mat(r, c, [rows[i][j] for j in range(c) for i in range(r)])
            return Mat(r, c, [TOPQ] * (r * c)) if r >= 0 and c >= 0 else Mat(None, None, TOPQ)
        m = MAPT.match(s)
        if m:
            r, c = int(m.group(1)), int(m.group(2))
            vals = [self.rv(a) for a in args]
            dims = [x for x in vals[1:] if isinstance(x, int) and not isinstance(x, bool)]
            if r < 0 and dims: r = dims[0]; dims = dims[1:]
            if c < 0 and dims: c = dims[0]
            p = vals[0] if vals else UNK
            if isinstance(p, Ptr) and isinstance(p.off, int) and r >= 0 and c >= 0 and "1>" not in s[-3:]:
                if self.bounds and r * c: self.bounds(self, p.o, p.off); self.bounds(self, p.o, p.off + r * c - 1)
                return View(r, c, [Cell(p.o, p.off + i) for i in range(r * c)])
            return Mat(None, None, TOPQ)
        if s.startswith("std::vector<") or ARRT.match(s):
            vals = [self.rv(a) for a in args if not (isinstance(a, Unk))]
            a0 = n["a"][0] if n["a"] else None
            am = ARRT.match(s)
            if am: return vals[0] if vals and isinstance(vals[0], Vec) else self.default(t)
            if not vals:
                v = Vec(0); v.ptrs = pointers(s)
                return v
            if a0 is not None and a0["k"] == "Init" and "elem" in (a0.get("t") or {}): # {a, b, c}
                dbl = s.startswith("std::vector<double")
                return Vec(len(a0["a"]), [(self.q if dbl else self.rv)(self.clone(self.ev(x))) for x in a0["a"]])
            if isinstance(vals[0], Vec): return vals[0] if vals[0].n is not None else self.clone(vals[0])
            if isinstance(vals[0], int) and not isinstance(vals[0], bool):
                fill = vals[1] if len(vals) > 1 and n["a"][1].get("def") is None else None
                dbl = s.startswith("std::vector<double")
                if fill is None or not isinstance(fill, Q): fill = U.ZERO if dbl else UNK
                return Vec(vals[0], [fill] * vals[0])
            return self.unkvec()
        if DECT.match(s) and len(args) == 1: return Dec(self.clone(self.mat(args[0])))
        if s.startswith("std::basic_string"):
            return self.rv(args[0]) if args and isinstance(self.rv(args[0]), str) else UNK
        if len(args) == 1 and isinstance(self.rv(args[0]), (Obj, Model)): return self.rv(args[0])
        h = self.hooks_call.get("ctor:" + (t.get("rec") or ""))
        if h: return h(self, n, None, args)
        return UNK if t.get("cls") != "float" else TOPQ

    def unkvec(self, q=UNK):
        v = Vec(None); v.c["*"] = q
        return v

    def e_Init(self, n):
        t = n.get("t") or {}
        s = t.get("s", "").replace("const ", "")
        if "elem" in t:
            p = self.default(t); self.fill(p, t, n); return p
        m = ARRT.match(s)
        if m:
            a = n["a"]
            if len(a) == 1 and a[0]["k"] == "Init": a = a[0]["a"]
            cnt = int(m.group(2))
            if len(a) == 1 and (a[0].get("t") or {}).get("s", "").replace("const ", "") == s: return self.clone(self.ev(a[0]))
            vals = [self.clone(self.ev(x)) for x in a]
            if m.group(1) == "double": vals = [self.q(x) for x in vals] + [U.ZERO] * (cnt - len(vals))
            return Vec(cnt, vals, mk=lambda: UNK)
        if s.startswith("std::initializer_list") or s.startswith("std::vector"):
            a = n["a"]
            if len(a) == 1 and a[0]["k"] == "Init" : a = a[0]["a"]
            vals = [self.clone(self.ev(x)) for x in a]
            if len(vals) == 1 and isinstance(vals[0], Vec) and not s.startswith(("std::vector<std::vector", "std::vector<std::array", "std::initializer_list")): return vals[0]
            return Vec(len(a), vals)
        if t.get("cls") in ("float", "int", "uint", "bool") or t.get("cls") == "ptr":
            return self.ev(n["a"][0]) if n["a"] else self.e_Zero(n)
        if len(n["a"]) == 1 and not t.get("rec", "").startswith("hexed::"): return self.ev(n["a"][0])
        if len(n["a"]) == 1:
            at = n["a"][0].get("t") or {}
            if at.get("rec") and at["rec"] in [t["rec"]] + [r for r in self.P.subclasses(t["rec"])]: return self.ev(n["a"][0])
        if t.get("rec", "").startswith("hexed::"):
            o = self.newobj(t["rec"])
            for fl, x in zip(self.P.fields(t["rec"]), n["a"]):
                o.c[fl["n"]] = self.to_type(self.clone(self.ev(x)), fl["t"])
            return o
        for x in n["a"]: self.ev(x)
        return UNK

    def e_InitList(self, n): return self.ev(n["e"]) if n.get("e") else UNK

    def e_Lambda(self, n): return Lam(n, self.fr)

    def e_New(self, n):
        if ((n.get("at") or {}).get("rec") or "").startswith("hexed::") and n.get("size") is None and (n.get("init") or {}).get("k") == "Ctor":
            v = self.rv(self.ev(n["init"]))
            if isinstance(v, Obj): return v
        return UNK

    def calllam(self, lam, args):
        fr = Frame()
        fr.this, fr.rets, fr.f, fr.parent = lam.fr.this, [], None, lam.fr
        for p, a in zip(lam.n["params"], args): self.bindvar(fr, p["id"], p.get("t") or {}, a)
        save = self.fr; self.fr = fr
        try: self.ex(lam.n["body"])
        finally: self.fr = save
        if not fr.rets: return UNK
        r = fr.rets[0]
        for x in fr.rets[1:]: r = self.join_ret(r, x)
        return r

    def user(self, n, this, args, virt=None):
        f = self.P.funcs.get(n.get("f"))
        d = self.P.decls.get(n.get("f"), {})
        if d.get("virt") and isinstance(this, Obj) and this.rec:
            f = self.dispatch(n["f"], this.rec) or f
        if f is None or not f.body or f.get("dep"): return None
        if not (f["file"].startswith("include/") or f["file"].startswith("src/")): return None
        return (self.call(f, this, args, n),)

    def dispatch(self, key, rec):
        """final overrider of method `key` in class rec"""
        keys = set([key]) | set(self.P.overriders(key))
        for r in [rec] + self.P.bases(rec):
            for m in self.P.records.get(r, {}).get("methods", []):
                if m["f"] in keys:
                    g = self.P.funcs.get(m["f"])
                    return g if g is not None and g.body else None
        return None

    def e_Call(self, n):
        nm = n.get("n")
        h = self.hooks_call.get(nm)
        args = [self.ev(a) for a in n["a"]]
        if h:
            r = h(self, n, None, args)
            if r is not None: return r
        if nm in FLOATFN and (n.get("t") or {}).get("cls") == "float": return self.mathfn(nm, args, n)
        if nm in ("max", "min") and (n.get("t") or {}).get("cls") in ("int", "uint"):
            a = [self.rv(x) for x in args]
            if len(a) == 2 and all(isinstance(x, int) for x in a): return max(a) if nm == "max" else min(a)
            return UNK
        f = str(n.get("f"))
        if f.startswith("c:@N@Eigen@"): return self.eigen_static(n, nm, [self.rv(a) for a in args])
        if nm in ("move", "forward") and args: return args[0]
        if nm == "swap" and len(args) == 2 and f.startswith("c:@N@std@"):
            a, b = args
            if isinstance(a, Cell) and isinstance(b, Cell):
                x, y = self.rv(a), self.rv(b)
                self.store(a, y, n); self.store(b, x, n); return UNK
            if type(a) is type(b) and isinstance(a, (Vec, Mat, Obj)):
                x, y = dict(a.c), dict(b.c)
                for k in set(x) | set(y):
                    self.wr(a, k, y.get(k, UNK)); self.wr(b, k, x.get(k, UNK))
                return UNK
        if nm == "to_string" and args:
            x = self.rv(args[0])
            return str(int(x)) if isinstance(x, (int, bool)) else UNK
        if nm == "seqN": return self.eigen_static(n, nm, [self.rv(a) for a in args])
        if nm == "pow" and (n.get("t") or {}).get("cls") in ("int", "uint"):
            a = [self.rv(x) for x in args]
            if all(isinstance(x, int) for x in a) and a[1] >= 0: return a[0] ** a[1]
        u = self.user(n, None, args)
        if u: return u[0]
        if nm in ("isfinite", "isnan", "isinf"): return UNK
        self.escape(n, args)
        return self.topof(n)

    def escape(self, n, args):
        """an unmodelled call may write through non-const pointers and references"""
        ps = self.P.decls.get(n.get("f"), {}).get("ps", [])
        for i, a in enumerate(args):
            pt = ps[i] if i < len(ps) else {}
            if pt.get("ref") and not pt.get("const") and not pt["s"].endswith("&&"):
                if isinstance(a, Cell): self.wr(a.o, a.key, TOPQ if isinstance(self.rv(a), Q) else UNK) if not isinstance(a.o, UnkSlot) else None
                else: self.havoc(a)
            elif pt.get("cls") == "ptr" and not (pt.get("ptr") or {}).get("const"): self.havoc(self.rv(a))

    def havoc(self, x):
        if isinstance(x, Ptr): x = x.o
        if isinstance(x, Mat):
            for k in list(x.c):
                if k not in ("r", "k"): self.wr(x, k, TOPQ)
        elif isinstance(x, View):
            for l in x.ls: self.wr(l.o, l.key, TOPQ)
        elif isinstance(x, (Arr, Vec)):
            for k in list(x.c):
                if k == "n": self.wr(x, k, None)
                elif not isinstance(x.c[k], Store): self.wr(x, k, TOPQ if isinstance(x.c[k], Q) else UNK)
            if isinstance(x, Arr) and x.read: x.read = lambda i: TOPQ

    def topof(self, n):
        return TOPQ if (n.get("t") or {}).get("cls") == "float" else UNK

    def mathfn(self, nm, args, n):
        r = self.mathfn_q(nm, args, n)
        if not U.EXACT or not isinstance(r, Q) or r.v is not None or r.e is not None or not args: return r
        xs = [U.ex(self.q(x)) for x in args]
        if any(x is None for x in xs): return r
        nm = {"fmax": "max", "fmin": "min", "fabs": "abs"}.get(nm, nm)
        return U.withe(r, F.fmax(nm, *xs) if nm in ("max", "min") and len(xs) == 2 else F.fn(nm, *xs))

    def mathfn_q(self, nm, args, n):
        if not args: return U.const(1e308) if nm == "max" else U.const(1e-308) if nm == "min" else TOPQ   # std::numeric_limits
        a = [self.q(x) for x in args]
        if nm in ("max", "min", "fmax", "fmin"):
            self.chk(Q(a[0].d, None, a[0].v), Q(a[1].d, None, a[1].v), n, nm)
            m = U.merge(Q(a[0].d, 0, a[0].v), Q(a[1].d, 0, a[1].v))
            if m.v is not None: return TOPQ if a[0].v is None else U.const(max(a[0].v, a[1].v) if "max" in nm else min(a[0].v, a[1].v))
            if 0 in (a[0].v, a[1].v): m = Q((a[0] if a[1].v is not None else a[1]).d, None)
            p = 0 if all(x.p == 0 for x in a) else None
            return Q(m.d, p)
        if nm in ("abs", "fabs"): return Q(a[0].d, 0 if a[0].p is not None else None, abs(a[0].v) if a[0].v is not None else None)
        if nm == "sqrt": return U.power(a[0], Fr(1, 2))
        if nm == "cbrt": return U.power(a[0], Fr(1, 3))
        if nm == "hypot":
            self.chk(Q(a[0].d, None, a[0].v), Q(a[1].d, None, a[1].v), n, nm)
            m = U.merge(Q(a[0].d, 0, a[0].v), Q(a[1].d, 0, a[1].v)); return Q(m.d, 0)
        if nm == "atan2":
            self.chk(Q(a[0].d, None, a[0].v), Q(a[1].d, None, a[1].v), n, nm)
            return Q(U.D0, None)
        if nm == "pow":
            e = self.rv(args[1])
            ev = e if isinstance(e, int) and not isinstance(e, bool) else e.v if isinstance(e, Q) else None
            if ev is not None:
                fr = Fr(ev).limit_denominator(60)
                if abs(float(fr) - ev) < 1e-9: return U.power(a[0], fr)
                self.dimless(a[0], n, "pow"); return Q(U.D0, 0 if a[0].p == 0 else None)
            if isinstance(e, Q): # exponent not known
                self.dimless(e, n, "exponent of pow")
                self.dimless(a[0], n, "pow with a variable exponent")
                return Q(U.D0 if a[0].d == U.D0 or a[0].v is not None else None, 0 if a[0].p == 0 else None)
            return TOPQ
        self.dimless(a[0], n, nm)
        return Q(U.D0, 0 if a[0].p == 0 else None)

    # ---- methods
    def e_MCall(self, n):
        nm = n.get("n")
        h = self.hooks_call.get(nm)
        o = self.ev(n["obj"]) if n.get("obj") is not None else self.fr.this
        args = [self.ev(a) for a in n["a"]]
        ob = self.rv(o)
        if isinstance(ob, Ptr) and (n.get("arrow")) and isinstance(ob.off, int): ob = ob.o.get(ob.off)
        if h:
            r = h(self, n, ob, args)
            if r is not None: return r
        if nm == "compute" and args and DECT.search(((n.get("obj") or {}).get("t") or {}).get("s", "")):
            d = Dec(self.clone(self.mat(args[0])))
            if isinstance(o, Cell): self.wr(o.o, o.key, d)
            return d
        if isinstance(ob, Dec):
            return self.solve(ob.A, self.mat(args[0]), n) if nm == "solve" else UNK
        return self.method(n, nm, ob, o, args)

    def solve(self, A, b, n):
        """x with A x = b: every row gives the quantity of x_j"""
        if not (A.known and b.known) or A.r != b.r: return Mat(None, None, TOPQ)
        if U.EXACT and A.r == A.k and A.r <= 3:
            m, y = [U.ex(x) for x in A.vals()], [U.ex(x) for x in b.vals()]
            if all(x is not None for x in m + y):
                r = A.r
                def det(m):
                    if r == 1: return m[0]
                    if r == 2: return F.add(F.mul(m[0], m[3]), F.neg(F.mul(m[1], m[2])))
                    t = {}
                    for i, j, k, s in ((0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (0, 2, 1, -1), (2, 1, 0, -1), (1, 0, 2, -1)):
                        t = F.add(t, F.scale(F.mul(F.mul(m[i], m[3 + j]), m[6 + k]), s))
                    return t
                d = F.opaque(det(m))
                inv = F.power(d, Fr(-1)) if d else None
                if inv is not None:
                    cols = [y[c * r:(c + 1) * r] for c in range(b.k)]
                    return Mat(A.k, b.k, [Q(None, None, None, F.mul(F.opaque(det(m[:j * r] + cols[c] + m[(j + 1) * r:])), inv)) for c in range(b.k) for j in range(A.k)])
        out = []
        for c in range(b.k):
            for j in range(A.k):
                x = None
                for i in range(A.r):
                    a, y = A.get(i + j * A.r), b.get(i + c * b.r)
                    if a.v is not None or y.v is not None: continue
                    q = U.div(y, a)
                    x = q if x is None else self.add(x, q, n, "solve")
                out.append(x if x is not None else TOPQ)
        return Mat(A.k, b.k, out)

    def method(self, n, nm, ob, o, args):
        if isinstance(ob, Model):
            m = ob.methods.get(nm)
            if m is None: return self.topof(n)
            return m(*[self.rv(a) for a in args]) if callable(m) else m
        if isinstance(ob, Lam) and nm == "operator()": return self.calllam(ob, args)
        if isinstance(ob, (Mat, View, VWise, Comma)): return self.eigen_method(n, nm, ob, args)
        if isinstance(ob, Vec): return self.vec_method(n, nm, ob, args)
        if isinstance(ob, Obj) or ob is UNK or ob is None:
            f = self.P.funcs.get(n.get("f"))
            if isinstance(ob, Obj):
                u = self.user(n, ob, args)
                if u: return u[0]
            self.escape(n, args)
            return self.topof(n)
        if ob is ABSENT:
            if nm in ("has_value", "operator bool"): return False
            if nm == "value_or": return self.rv(args[0])
            return self.topof(n)
        if isinstance(ob, Q):
            if nm in ("value", "value_or", "operator*"): return ob
            if nm in ("has_value", "operator bool"): return True if self.optionals else UNK
            if nm.startswith("operator ") or nm.startswith("operator const"): return ob
        if isinstance(ob, str) and nm in ("c_str", "data"): return ob
        self.escape(n, args)
        return self.topof(n)

    def vec_method(self, n, nm, v, args):
        if nm == "size": return v.n if isinstance(v.n, int) else UNK
        if nm == "empty": return v.n == 0 if isinstance(v.n, int) else UNK
        if nm in ("at", "operator[]"): return self.vidx(v, self.rv(args[0]))
        if nm == "back":
            if isinstance(v.n, int): return self.vidx(v, v.n - 1)
            return self.vidx(v, UNK)
        if nm == "front": return self.vidx(v, 0)
        if nm == "data":
            if isinstance(v.n, int): return Ptr(v, 0)
            return UNK
        if nm in ("push_back", "emplace_back"):
            x = self.rv(args[0]) if args and v.ptrs else self.clone(args[0]) if args else UNK
            if isinstance(v.n, int):
                self.wr(v, v.n, x); self.wr(v, "n", v.n + 1)
            else: self.wr(v, "*", self.join(v.c.get("*", x), x) if "*" in v.c else x)
            return UNK
        if nm == "resize":
            m = self.rv(args[0])
            if isinstance(m, int) and isinstance(v.n, int):
                for i in range(v.n, m): self.wr(v, i, self.rv(args[1]) if len(args) > 1 else U.ZERO if "double" in str(n.get("f")) or True else UNK)
                self.wr(v, "n", m)
            else: self.wr(v, "n", None); self.wr(v, "*", UNK)
            return UNK
        if nm == "clear":
            self.wr(v, "n", 0); return UNK
        if nm == "fill" and isinstance(v.n, int) and args:
            for i in range(v.n): self.wr(v, i, self.clone(self.rv(args[0])))
            return UNK
        if nm in ("begin", "end", "cbegin", "cend"): return UNK
        self.havoc(v)
        return self.topof(n)

    # ---- operators
    def e_OpCall(self, n):
        op = n["op"]
        f = self.P.funcs.get(n.get("f"))
        a0 = self.ev(n["a"][0])
        ob = self.rv(a0)
        if isinstance(ob, (Obj, Model)) or (f is not None and f.body and not isinstance(ob, (Mat, View, Vec))):
            args = [self.ev(x) for x in n["a"][1:]]
            h = self.hooks_call.get("operator" + op)
            if h:
                r = h(self, n, ob, args)
                if r is not None: return r
            if isinstance(ob, Model):
                m = ob.methods.get("operator" + op)
                if m is None:
                    if op in ("->", "*"): return ob
                    return self.topof(n)
                return m(*[self.rv(x) for x in args])
            if isinstance(ob, Obj) and op in ("->", "*") and len(n["a"]) == 1: return ob
            if f is not None and f.body:
                if "cls" in f or "clsb" in f:
                    if not isinstance(ob, Obj): self.escape(n, args); return self.topof(n)
                    u = self.user(n, ob, args)
                else: u = self.user(n, None, [a0] + args)
                if u: return u[0]
            elif isinstance(ob, Obj):
                u = self.user(n, ob, args)
                if u: return u[0]
                if op == "=" and args:
                    r = self.rv(args[0])
                    if isinstance(r, Obj): self.copy_into(ob, r); return ob
            self.escape(n, [a0] + args)
            return self.topof(n)
        rest = [self.ev(x) for x in n["a"][1:]]
        if isinstance(ob, Lam) and op == "()": return self.calllam(ob, rest)
        if isinstance(ob, Vec):
            if op == "[]": return self.vidx(ob, self.rv(rest[0]))
            if op == "=":
                r = self.rv(rest[0])
                if isinstance(r, Vec): self.copy_into(ob, r) if r is not ob else None
                else: self.havoc(ob)
                return ob
            return UNK
        if isinstance(ob, str) or (rest and isinstance(self.rv(rest[0]), str)):
            if op == "+":
                b = self.rv(rest[0])
                return ob + b if isinstance(ob, str) and isinstance(b, str) else UNK
            if op == "=" and isinstance(a0, Cell): self.wr(a0.o, a0.key, self.rv(rest[0])); return a0
            if op == "+=" and isinstance(a0, Cell):
                b = self.rv(rest[0]); self.wr(a0.o, a0.key, ob + b if isinstance(ob, str) and isinstance(b, str) else UNK); return a0
            return UNK
        if isinstance(ob, (Mat, View, VWise, Comma)) or (rest and isinstance(self.rv(rest[0]), (Mat, View, VWise))):
            return self.eigen_op(n, op, a0, ob, rest)
        if op in ("*", "->") and not rest: return a0 if isinstance(ob, Q) else ob
        if op == "()" and callable(ob): return ob(*[self.rv(x) for x in rest])
        if op == "=" and isinstance(a0, Cell):
            r = self.rv(rest[0]); self.wr(a0.o, a0.key, r); return a0
        if isinstance(ob, Q) and op == "[]": return TOPQ
        if isinstance(ob, Q) and rest and isinstance(self.rv(rest[0]), Q) and op in "+-*/" : return self.binop(op, ob, self.rv(rest[0]), n)
        if ob is LAST and op in ("-",): return UNK
        self.escape(n, [a0] + rest)
        return self.topof(n)

    # ---------------------------------------------------------------- Eigen
    def eigen_static(self, n, nm, a):
        t = n.get("t") or {}
        m = re.search(r"Eigen::(?:Matrix|Array)<double, (-?\d+), (-?\d+)", t.get("s", ""))
        if nm == "seqN":
            return Seq(a[0], a[1]) if len(a) >= 2 and all(isinstance(x, int) for x in a[:2]) and len(a) == 2 else Seq(UNK, UNK)
        if nm == "seq" and len(a) == 2 and all(isinstance(x, int) for x in a): return Seq(a[0], a[1] - a[0] + 1)
        if m:
            r, c = int(m.group(1)), int(m.group(2))
            ints = [x for x in a if isinstance(x, int) and not isinstance(x, bool)]
            if nm in ("Zero", "Ones", "Identity"):
                if r < 0: r = ints.pop(0) if ints else None
                if c < 0: c = ints.pop(0) if ints else None
                if r is None or c is None: return Mat(None, None, U.ZERO if nm == "Zero" else TOPQ)
                if nm == "Zero": return Mat(r, c, [U.ZERO] * (r * c))
                if nm == "Ones": return Mat(r, c, [U.ONE] * (r * c))
                return Mat(r, c, [U.ONE if i == j else U.ZERO for j in range(c) for i in range(r)])
            if nm == "Constant":
                if r < 0: r = ints.pop(0) if ints else None
                if c < 0: c = ints.pop(0) if ints else None
                q = self.q(a[-1])
                if r is None or c is None: return Mat(None, None, q)
                return Mat(r, c, [q] * (r * c))
        if t.get("cls") == "float": return TOPQ
        return Mat(None, None, TOPQ) if "Eigen::" in t.get("s", "") else UNK

    def lin(self, m, i):
        if isinstance(m, View): return m.ls[i] if 0 <= i < len(m.ls) else None
        return Cell(m, i) if 0 <= i < m.r * m.k else None

    def at(self, m, i, j):
        return self.lin(m, i + j * m.r)

    def index(self, m, args, n):
        if isinstance(m, Mat) and not m.known:
            scal = (n.get("t") or {}).get("cls") == "float"
            return Cell(m, "*") if scal else Mat(None, None, m.get("*"))
        R, K = m.r, m.k
        def sel(a, N):
            if a is ALL: return list(range(N)), False
            if a is LAST: return [N - 1], True
            if isinstance(a, Seq): return (list(range(a.a, a.a + a.n)), False) if isinstance(a.a, int) else (None, False)
            if isinstance(a, bool): a = int(a)
            if isinstance(a, int): return [a], True
            return None, True
        if len(args) == 1:
            N = R * K
            s, sc = sel(args[0], N)
            if self.bounds and s:
                for i in s: self.bounds(self, m, i, N)
            if s is None or any(not 0 <= i < N for i in s):
                return self.unkidx(m, n, sc)
            if sc: return self.lin(m, s[0])
            ls = [self.lin(m, i) for i in s]
            return View(len(s), 1, ls) if K == 1 or R != 1 else View(1, len(s), ls)
        (si, a), (sj, b) = sel(args[0], R), sel(args[1], K)
        if self.bounds and si and sj:
            for i in si: self.bounds(self, m, i, R)
            for i in sj: self.bounds(self, m, i, K)
        if si is None or sj is None or any(not 0 <= i < R for i in si) or any(not 0 <= j < K for j in sj):
            return self.unkidx(m, n, a and b)
        if a and b: return self.at(m, si[0], sj[0])
        return View(len(si), len(sj), [self.at(m, i, j) for j in sj for i in si])

    def unkidx(self, m, n, scalar):
        q = self.mat(m).summary()
        if scalar:
            u = UnkSlot(m); u.q = q
            return Cell(u, "x")
        return Mat(None, None, q)

    def massign(self, l, r, n):
        r = self.mat(r)
        cells = list(r.vals()) if r.known else None
        if isinstance(l, Mat) and (not l.known or (r.known and (l.r, l.k) != (r.r, r.k))):
            if r.known and l.known and (l.r, l.k) == (r.k, r.r) and 1 in (l.r, l.k):
                pass
            elif r.known:
                self.wr(l, "r", r.r); self.wr(l, "k", r.k)
            else:
                self.wr(l, "r", None); self.wr(l, "k", None); self.wr(l, "*", r.get("*")); return
        if not r.known:
            if isinstance(l, Mat) and l.known:
                for i in range(l.r * l.k): self.wr(l, i, r.get("*"))
            elif isinstance(l, View):
                for x in l.ls: self.store(x, r.get("*"), n)
            return
        if isinstance(l, View):
            if self.shape: self.shape(self, "=", len(l.ls), len(cells))
            if len(l.ls) != len(cells):
                for x in l.ls: self.store(x, TOPQ, n)
                return
            for x, q in zip(l.ls, cells): self.store(x, q, n)
            return
        for i, q in enumerate(cells): self.wr(l, i, q)

    def ewise(self, a, b, fn):
        a, b = self.mat(a), self.mat(b)
        if a.known and b.known:
            if self.shape: self.shape(self, "+", a.r * a.k, b.r * b.k)
            if (a.r, a.k) == (b.r, b.k) or ((a.r, a.k) == (b.k, b.r) and 1 in (a.r, a.k)): return Mat(a.r, a.k, [fn(x, y) for x, y in zip(a.vals(), b.vals())])
            return Mat(None, None, TOPQ)
        if a.known: return Mat(a.r, a.k, [fn(x, b.get("*")) for x in a.vals()])
        if b.known: return Mat(b.r, b.k, [fn(a.get("*"), x) for x in b.vals()])
        return Mat(None, None, fn(a.get("*"), b.get("*")))

    def emap(self, a, fn):
        a = self.mat(a)
        return Mat(a.r, a.k, [fn(x) for x in a.vals()]) if a.known else Mat(None, None, fn(a.get("*")))

    def total(self, qs, n, what):
        s = U.ZERO
        for x in qs: s = self.add(s, x, n, what)
        return s

    def matmul(self, a, b, n):
        a, b = self.mat(a), self.mat(b)
        if a.known and b.known:
            if self.shape: self.shape(self, "*", a.k, b.r)
            if a.k != b.r: return Mat(None, None, TOPQ)
            av, bv = a.vals(), b.vals()
            out = []
            for j in range(b.k):
                for i in range(a.r):
                    out.append(self.total([U.mul(av[i + l * a.r], bv[l + j * b.r]) for l in range(a.k)], n, "*"))
            return Mat(a.r, b.k, out)
        if a.known:
            return Mat(None, None, TOPQ) if True and b.get("*").d is None else Mat(None, None, U.mul(self.uni(a), b.get("*")))
        if b.known:
            # shape of the left factor unknown: keep the columns, sum over rows
            return Mat(None, None, U.mul(a.get("*"), self.uni(b)))
        return Mat(None, None, U.mul(a.get("*"), b.get("*")))

    def uni(self, m): return m.summary()

    def is_arr(self, n):
        """element-wise product semantics: the operand is an Eigen array expression"""
        s = (n.get("t") or {}).get("s", "")
        return "ArrayWrapper" in s or "Eigen::Array<" in s and "Eigen::Matrix<" not in s

    def eigen_op(self, n, op, a0, ob, rest):
        rs = [self.rv(x) for x in rest]
        if op in ("()", "[]"):
            if isinstance(ob, VWise): return UNK
            return self.index(ob, rs, n)
        if op == "=":
            r = rs[0]
            if isinstance(a0, Cell) and not isinstance(ob, (Mat, View)): self.wr(a0.o, a0.key, r); return a0
            self.massign(ob, r, n); return ob
        if op == "<<":
            c = Comma(ob); return self.comma(c, rs[0], n)
        if op == ",":
            return self.comma(ob, rs[0], n)
        if not rest:
            if op == "-": return self.emap(ob, U.neg)
            if op == "*" or op == "->": return ob
            return UNK
        r = rs[0]
        ismat = lambda x: isinstance(x, (Mat, View, VWise))
        if op in ("+", "-", "+=", "-="):
            if isinstance(ob, VWise) or isinstance(r, VWise): return Mat(None, None, TOPQ)
            f = (lambda x, y: self.add(x, y, n, op)) if op[0] == "+" else (lambda x, y: self.add(x, U.neg(y), n, op))
            if ismat(ob) and ismat(r): v = self.ewise(ob, r, f)
            elif ismat(ob): v = self.emap(ob, lambda x: f(x, self.q(r)))
            else: v = self.emap(r, lambda x: f(self.q(ob), x))
            if "=" in op: self.massign(ob, v, n); return ob
            return v
        if op in ("*", "*="):
            if isinstance(ob, VWise):
                m, w = self.mat(ob.m), self.mat(r)
                if m.known and w.known:
                    N = m.k if ob.rows else m.r
                    if w.r * w.k == N:
                        wv = w.vals()
                        return Mat(m.r, m.k, [U.mul(m.get(i + j * m.r), wv[j if ob.rows else i]) for j in range(m.k) for i in range(m.r)])
                return Mat(None, None, TOPQ)
            if ismat(ob) and ismat(r):
                if self.is_arr(n["a"][0]) : v = self.ewise(ob, r, U.mul)
                else: v = self.matmul(ob, r, n)
            elif ismat(ob): q = self.q(r); v = self.emap(ob, lambda x: U.mul(x, q))
            else: q = self.q(ob); v = self.emap(r, lambda x: U.mul(q, x))
            if op == "*=": self.massign(ob, v, n); return ob
            return v
        if op in ("/", "/="):
            if ismat(ob) and ismat(r): v = self.ewise(ob, r, U.div)
            elif ismat(ob): q = self.q(r); v = self.emap(ob, lambda x: U.div(x, q))
            else: q = self.q(ob); v = self.emap(r, lambda x: U.div(q, x))
            if op == "/=": self.massign(ob, v, n); return ob
            return v
        return UNK if (n.get("t") or {}).get("cls") != "float" else TOPQ

    def comma(self, c, x, n):
        # row-major filling
        m = c.m
        if isinstance(m, Mat) and not m.known or not isinstance(m, (Mat, View)): return c
        xs = [self.q(x)] if not isinstance(x, (Mat, View)) else self.cells(x)
        if isinstance(x, (Mat, View)) and (xs is None or not (m.k == 1 or m.r == 1)):
            self.havoc(m); c.i = 10 ** 6; return c
        for q in xs:
            i, j = (c.i // m.k, c.i % m.k) if m.k else (0, 0)
            if i < m.r:
                l = self.at(m, i, j)
                if l is not None: self.store(l, q, n)
            c.i += 1
        return c

    def norm(self, m, n, what):
        qs = self.mat(m)
        vals = qs.vals() if qs.known else [qs.get("*")]
        return self.total([U.power(Q(x.d, 0 if x.p is not None else None, x.v, x.e), Fr(2)) for x in vals], n, what)

    def eigen_method(self, n, nm, m, args):
        a = [self.rv(x) for x in args]
        if nm in ("operator()", "operator[]", "coeff", "coeffRef"): return self.index(m, a, n)
        if isinstance(m, VWise):
            mm = self.mat(m.m)
            if nm == "sum":
                if not mm.known: return Mat(None, None, mm.get("*"))
                if m.rows: return Mat(mm.r, 1, [self.total([mm.get(i + j * mm.r) for j in range(mm.k)], n, "sum") for i in range(mm.r)])
                return Mat(1, mm.k, [self.total([mm.get(i + j * mm.r) for i in range(mm.r)], n, "sum") for j in range(mm.k)])
            if nm in ("norm", "squaredNorm"):
                if not mm.known: return Mat(None, None, TOPQ)
                e = Fr(1, 2) if nm == "norm" else Fr(1)
                g = lambda xs: U.power(self.norm(Mat(len(xs), 1, xs), n, nm), e)
                if m.rows: return Mat(mm.r, 1, [g([mm.get(i + j * mm.r) for j in range(mm.k)]) for i in range(mm.r)])
                return Mat(1, mm.k, [g([mm.get(i + j * mm.r) for i in range(mm.r)]) for j in range(mm.k)])
            if nm == "reverseInPlace":
                if not isinstance(m.m, (Mat, View)) or not m.m.known: return UNK
                R, K = m.m.r, m.m.k
                v = mm.vals()
                ls = [self.at(m.m, i, j) for j in range(K) for i in range(R)]
                for j in range(K):
                    for i in range(R):
                        src = v[(i) + (K - 1 - j) * R] if m.rows else v[(R - 1 - i) + j * R]
                        self.store(ls[i + j * R], src, n)
                return UNK
            return Mat(None, None, TOPQ)
        if nm in ("size", "rows", "cols"):
            if not m.known: return UNK
            return m.r * m.k if nm == "size" else m.r if nm == "rows" else m.k
        if nm in ("array", "matrix", "eval", "noalias", "derived", "real"): return m
        if re.search("QR$|Qr$|Lu$|lu$|LU$|ldlt$|llt$|completeOrthogonalDecomposition$", nm) and DECT.match((n.get("t") or {}).get("s", "").replace("const ", "")): return Dec(self.clone(self.mat(m)))
        if nm == "asDiagonal":
            mm = self.mat(m)
            if not mm.known: return Mat(None, None, mm.get("*"))
            N = mm.r * mm.k
            return Mat(N, N, [mm.get(i) if i == j else U.ZERO for j in range(N) for i in range(N)])
        if nm in ("transpose", "adjoint"):
            mm = self.mat(m)
            if isinstance(m, View): return View(m.k, m.r, [m.ls[i + j * m.r] for i in range(m.r) for j in range(m.k)])
            if isinstance(m, Mat) and m.known: return View(m.k, m.r, [Cell(m, i + j * m.r) for i in range(m.r) for j in range(m.k)])
            return Mat(None, None, mm.get("*"))
        if nm == "transposeInPlace" and m.known and m.r == m.k:
            v = self.cells(m)
            for i in range(m.r):
                for j in range(m.k): self.store(self.at(m, i, j), v[j + i * m.r], n)
            return UNK
        if nm == "rowwise": return VWise(m, True)
        if nm == "colwise": return VWise(m, False)
        if nm == "norm": return U.power(self.norm(m, n, nm), Fr(1, 2))
        if nm == "squaredNorm": return self.norm(m, n, nm)
        if nm == "stableNorm" or nm == "blueNorm": return U.power(self.norm(m, n, nm), Fr(1, 2))
        if nm == "normalized":
            nn = U.power(self.norm(m, n, nm), Fr(1, 2))
            return self.emap(m, lambda x: U.div(x, nn))
        if nm == "normalize":
            nn = U.power(self.norm(m, n, nm), Fr(1, 2))
            self.massign(m, self.emap(m, lambda x: U.div(x, nn)), n); return UNK
        if nm == "dot":
            x, y = self.mat(m), self.mat(a[0])
            if x.known and y.known and x.r * x.k == y.r * y.k:
                return self.total([U.mul(p, q) for p, q in zip(x.vals(), y.vals())], n, "dot")
            return U.mul(x.summary(), y.summary())
        if nm == "cross":
            x, y = self.mat(m), self.mat(a[0])
            if x.known and y.known and x.r * x.k == 3 == y.r * y.k:
                p, q = x.vals(), y.vals()
                f = lambda i, j: self.add(U.mul(p[i], q[j]), U.neg(U.mul(p[j], q[i])), n, "cross")
                return Mat(3, 1, [f(1, 2), f(2, 0), f(0, 1)])
            return Mat(None, None, TOPQ)
        if nm == "trace":
            mm = self.mat(m)
            if mm.known and mm.r == mm.k: return self.total([mm.get(i + i * mm.r) for i in range(mm.r)], n, "trace")
            return mm.summary()
        if nm == "sum" or nm == "mean":
            mm = self.mat(m)
            return self.total(mm.vals(), n, nm) if mm.known else mm.get("*")
        if nm in ("maxCoeff", "minCoeff"):
            mm = self.mat(m)
            if mm.known and mm.vals():
                s = self.total([Q(x.d, None, x.v) for x in mm.vals()], n, nm)
                return Q(s.d, None)
            return Q(mm.summary().d, None)
        if nm in ("cwiseProduct",): return self.ewise(m, a[0], U.mul)
        if nm in ("cwiseQuotient",): return self.ewise(m, a[0], U.div)
        if nm in ("cwiseAbs", "abs"): return self.emap(m, lambda x: Q(x.d, 0 if x.p is not None else None, abs(x.v) if x.v is not None else None))
        if nm in ("cwiseSqrt", "sqrt"): return self.emap(m, lambda x: U.power(x, Fr(1, 2)))
        if nm in ("cwiseInverse", "inverse") and (nm == "cwiseInverse" or self.is_arr(n.get("obj") or {})): return self.emap(m, U.inv)
        if nm in ("cwiseMax", "cwiseMin"):
            return self.ewise(m, a[0], lambda x, y: self.mathfn("max", [x, y], n)) if isinstance(a[0], (Mat, View)) else self.emap(m, lambda x: self.mathfn("max", [x, self.q(a[0])], n))
        if nm in ("square", "cwiseAbs2"): return self.emap(m, lambda x: U.power(x, Fr(2)))
        if nm == "setZero" or nm == "setOnes" or nm == "setConstant" or nm == "fill":
            q = U.ZERO if nm == "setZero" else U.ONE if nm == "setOnes" else self.q(a[-1])
            if isinstance(m, View):
                for l in m.ls: self.store(l, q, n)
            elif m.known:
                for i in range(m.r * m.k): self.wr(m, i, q)
            else: self.wr(m, "*", q)
            return m
        if nm == "setIdentity" and m.known:
            self.massign(m, Mat(m.r, m.k, [U.ONE if i == j else U.ZERO for j in range(m.k) for i in range(m.r)]), n); return m
        if nm == "setUnit":
            if m.known:
                u = a[-1] if a and isinstance(a[-1], int) else 0 if not a else None
                for i in range(m.r * m.k):
                    x = U.const(int(i == u)) if U.EXACT and u is not None else Q(U.D0, None)
                    if isinstance(m, Mat): self.wr(m, i, x)
                    else: self.store(m.ls[i], x, n)
            return m
        if nm in ("col", "row") and m.known and isinstance(a[0], int): return self.index(m, [ALL, a[0]] if nm == "col" else [a[0], ALL], n)
        if nm in ("head", "tail", "segment") and m.known and all(isinstance(x, int) for x in a) and a:
            N = m.r * m.k
            if nm == "head": return self.index(m, [Seq(0, a[0])], n)
            if nm == "tail": return self.index(m, [Seq(N - a[0], a[0])], n)
            return self.index(m, [Seq(a[0], a[1])], n)
        if nm == "data":
            if isinstance(m, Mat) and m.known: return Ptr(m, 0)
            if isinstance(m, View) and m.ls: return Ptr(m.ls[0].o, m.ls[0].key)
            return UNK
        if nm in ("resize", "conservativeResize") and isinstance(m, Mat):
            ints = [x for x in a if isinstance(x, int)]
            if len(ints) == len(a) and a and m.known:
                r, k = (a[0], 1) if len(a) == 1 else (a[0], a[1])
                if nm == "resize" or k == 1 == m.k:
                    self.wr(m, "r", r); self.wr(m, "k", k)
                    return UNK
            self.wr(m, "r", None); self.wr(m, "k", None); self.wr(m, "*", TOPQ)
            return UNK
        if nm in ("allFinite", "hasNaN", "isZero", "isApprox"): return UNK
        if nm == "determinant":
            mm = self.mat(m)
            if mm.known and mm.r == mm.k and mm.r:
                s = mm.summary()
                return U.power(Q(s.d, None), Fr(mm.r))
            return TOPQ
        if nm.startswith("operator ") : # conversion of a 1x1 product to a scalar
            return self.q(m)
        if nm == "replicate" or nm == "reshaped" or nm == "reverse" or nm == "inverse" or nm == "select":
            return Mat(None, None, TOPQ)
        if not self.P.decls.get(n.get("f"), {}).get("const"): self.havoc(m)
        return TOPQ if (n.get("t") or {}).get("cls") == "float" else (Mat(None, None, TOPQ) if "Eigen::" in (n.get("t") or {}).get("s", "") else UNK)


class UnkSlot(Store):
    """element of a container at an unknown index"""
    kind = "unk"
    def __init__(self, o):
        self.c, self.o, self.q = {}, o, None
    def get(self, key): return self.q if self.q is not None else TOPQ
    def havoc(self, I): I.havoc(self.o)


class OneCell(Store):
    """a scalar variable addressed through a pointer"""
    def __init__(self, l): self.c, self.l = {}, l
    def get(self, key):
        return self.l.o.get(self.l.key) if key == 0 else UNK
