"""Value-provenance analysis: which member, parameter or file column a stored value comes from.

The abstract value of an expression is a constant, a provenance term (member of, element of, call result, file
column, loop index ...), or a set of alternatives where paths join. Loops with constant bounds are expanded, other
loops contribute their body once with the index as an opaque term; calls of functions with a single body are expanded.
A branch on a flag that the caller asks to be distinguished splits the analysis (Fork), all others join."""
from .ir import walk, kids

TOP = ("top",)


class Fork(Exception):
    def __init__(self, term): self.term = term


class Budget(Exception): pass


class Lab(int):
    """a constant that remembers the member it was read from"""
    def __new__(cls, v, term):
        o = int.__new__(cls, v); o.term = term; return o


class Ptr:
    __slots__ = ("loc",)
    def __init__(self, loc): self.loc = loc
    def __eq__(self, o): return isinstance(o, Ptr) and o.loc == self.loc
    def __hash__(self): return hash(("ptr", self.loc))
    def __repr__(self): return "&%r" % (self.loc,)


class Loc(tuple):
    """storage of a class-type value"""
    __slots__ = ()
    def __repr__(self): return "Loc" + tuple.__repr__(self)


class Clo:
    def __init__(self, n, env, this, f): self.n, self.env, self.this, self.f = n, env, this, f


class H:
    """handle of an HDF5 object"""
    def __init__(self, kind, **kw): self.kind = kind; self.__dict__.update(kw)
    def __repr__(self): return "<%s %s>" % (self.kind, getattr(self, "path", ""))


def strip(n):
    while n is not None and n["k"] in ("Cast", "ICast") and n.get("ck") != "UserDefinedConversion": n = n["e"]
    return n


def is_term(v): return isinstance(v, tuple) and not isinstance(v, Loc)


def alt(a, b):
    if a is b or (type(a) == type(b) and a == b): return a
    if isinstance(a, bool) or isinstance(b, bool) or True:
        A = a[1] if is_term(a) and a[:1] == ("alt",) else frozenset([tt(a)])
        B = b[1] if is_term(b) and b[:1] == ("alt",) else frozenset([tt(b)])
        s = A | B
        return next(iter(s)) if len(s) == 1 else ("alt", s)


def tt(v):
    """hashable term of a value"""
    if isinstance(v, Lab): return v.term
    if isinstance(v, Ptr): return addr(lt(v.loc))
    if isinstance(v, Loc): return lt(v)
    if isinstance(v, (int, float, str, bool)) or v is None: return v
    if isinstance(v, tuple): return v
    return ("obj", id(v))


def lt(loc):
    """term of a storage location"""
    r = loc[0]
    t = r[1] if r[0] == "T" else r
    for s in loc[1:]:
        t = step(t, s)
    return t


def step(t, s):
    if s[0] == "f": return ("fld", t, s[1])
    if s[0] == "i": return ("at", t, tt(s[1]))
    return (s[0], t)


def addr(t): return t[1] if isinstance(t, tuple) and t and t[0] == "deref" else ("addr", t)


def deref(v):
    if isinstance(v, Ptr): return v.loc
    if is_term(v) and v and v[0] == "addr": return Loc((("T", v[1]),))
    return Loc((("T", ("deref", tt(v))),))


SCALARISH = ("std::unique_ptr<", "std::shared_ptr<", "H5::", "std::function<", "std::basic_string<", "std::basic_string_view<", "(lambda")


def scalar_type(t):
    s = t["s"]
    while s.startswith("const "): s = s[6:]
    return not (t.get("rec") or "elem" in t or t.get("cls") == "record" or s.startswith(("std::", "hexed::", "Eigen::"))) or s.startswith(SCALARISH) or "ptr" in t or s.endswith("*")


class Flow:
    def __init__(self, P, consts=None, forks=None, dyn=None, flag=None, opaque=(), budget=60000, flagvals=None):
        self.P, self.consts, self.forks, self.dyn = P, consts or {}, forks or {}, dyn or {}
        self.flag = flag or (lambda t: False)
        self.opaque = opaque
        self.mem, self.events, self.guards, self.stack = {}, [], [], []
        self.wguards = {}       # conditions under which a location was last assigned
        self.nframe, self.ntmp, self.steps, self.budget = 0, 0, 0, budget
        self.facts, self.tables = {}, {}

    # ------------------------------------------------------------ memory
    def tmp(self, tag="tmp"):
        self.ntmp += 1
        return Loc(((tag, self.ntmp),))

    def read(self, loc, q=None):
        if q and q in self.consts and self.under(loc): return Lab(self.consts[q], self.term(loc))
        if loc in self.mem: return self.mem[loc]
        for i in range(len(loc) - 1, 0, -1):
            p = Loc(loc[:i])
            if p in self.mem:
                v = self.mem[p]
                if isinstance(v, (Ptr, H, Clo)): break
                t = tt(v)
                for s in loc[i:]: t = step(t, s)
                return self.fact(t)
            if loc[i][0] == "i" and i < len(loc):
                g = self.generic(p, loc[i][1])
                if g is not None:
                    v = g
                    if i + 1 == len(loc): return v
                    t = tt(v)
                    for s in loc[i + 1:]: t = step(t, s)
                    return self.fact(t)
        return self.fact(lt(loc))

    def fact(self, t):
        if t in self.facts: return self.facts[t]
        if t in self.forks: return self.forks[t]
        return t

    def under(self, loc):
        """nothing more specific than a provenance term is known about the location"""
        return loc not in self.mem or is_term(self.mem[loc])

    def generic(self, arr, idx):
        """value of an array cell that no constant index describes"""
        if not isinstance(idx, int):
            ks = self.cells(arr)
            sym = [(k, v) for k, v in ks.items() if not isinstance(k, int) and k != "*"]
            for k, v in sym:
                if tt(k) == tt(idx): return v
            if any(1 for k in ks if isinstance(k, int)):
                cols = {k: v for k, v in ks.items() if isinstance(k, int)}
                c0 = [v for v in cols.values() if is_term(v) and v and v[0] == "col"]
                if len(c0) == len(cols) and len({v[1:3] for v in c0}) == 1:
                    off = {v[3] - k for k, v in cols.items()}
                    if len(off) == 1:
                        o = off.pop()
                        return ("col",) + c0[0][1:3] + (plus(idx, o),)
                if not sym and set(cols) == {0, 1}: return ite(tt(idx), cols[1], cols[0])
                out = None
                for v in cols.values(): out = v if out is None else alt(out, v)
                return out if not sym else TOP
            if len(sym) == 1 and arr[0][0] != "T":
                name = ("table", arr[-1][-1] if len(arr) > 1 else arr[0][-1])
                self.tables[name] = (sym[0][0], sym[0][1])
                return ("at", name, tt(idx))
            if sym: return TOP
        d = self.mem.get(Loc(arr + (("i", "*"),)))
        if d is not None and not any(not isinstance(k, int) and k != "*" for k in self.cells(arr)): return d
        return None

    def cells(self, arr):
        n = len(arr)
        out = {}
        for k in self.mem:
            if len(k) == n + 1 and k[:n] == arr and k[n][0] == "i": out[k[n][1]] = self.mem[k]
        return out

    def write(self, loc, v):
        if isinstance(v, Loc): return self.copy(loc, v)
        n = len(loc)
        for k in [k for k in self.mem if len(k) > n and k[:n] == loc]: del self.mem[k]
        if loc[0][0] == "T": self.events.append({"ev": "store", "loc": loc, "dst": self.dst(loc), "val": v, "g": tuple(self.guards), "d": len(self.stack)})
        self.mem[loc] = v
        self.wguards[loc] = tuple(self.guards)

    def copy(self, dst, src):
        if dst == src: return
        n, m = len(src), len(dst)
        sub = [(k, v) for k, v in self.mem.items() if k[:n] == src]
        for k in [k for k in self.mem if k[:m] == dst]: del self.mem[k]
        if not sub or src[0][0] == "T" or src not in self.mem:
            base = self.term(src)
            if base[0] not in ("tmp", "v"): self.mem[dst] = base
        for k, v in sub: self.mem[Loc(dst + k[n:])] = v
        if dst[0][0] == "T": self.events.append({"ev": "store", "loc": dst, "dst": self.dst(dst), "val": src, "g": tuple(self.guards), "d": len(self.stack), "cells": {k[m:]: v for k, v in self.mem.items() if k[:m] == dst}})

    def dst(self, loc):
        return step(self.term(Loc(loc[:-1])), loc[-1]) if len(loc) > 1 else self.term(loc)

    def term(self, loc):
        """provenance term of a location, looking through locals that alias symbolic storage"""
        for i in range(len(loc), 0, -1):
            p = Loc(loc[:i])
            if p in self.mem:
                v = self.mem[p]
                if is_term(v) and v and v[0] not in ("alt", "top"):
                    t = v
                    for s in loc[i:]: t = step(t, s)
                    return t
        return lt(loc)

    # ------------------------------------------------------------ statements
    def tick(self):
        self.steps += 1
        if self.steps > self.budget: raise Budget()

    def exec(self, n, env):
        """None | ('ret', v) | 'brk' | 'cont' | 'dead'"""
        if n is None: return None
        self.tick()
        k = n["k"]
        if k == "Block":
            for c in kids(n):
                r = self.exec(c, env)
                if r is not None: return r
            return None
        if k == "Decl":
            for c in kids(n): self.exec(c, env)
            return None
        if k == "Var": self.var(n, env); return None
        if k == "If":
            if n.get("init"): self.exec(n["init"], env)
            if n.get("var"): self.exec(n["var"], env)
            c = self.cond(n["cond"], env)
            if c is True: return self.exec(n.get("then"), env)
            if c is False: return self.exec(n.get("else"), env)
            base = dict(self.mem)
            ng = len(self.guards)
            self.guards.append((tt(c), True))
            r1 = self.exec(n.get("then"), env); m1 = self.mem
            self.mem = base
            self.guards[ng:] = [(tt(c), False)]
            r2 = self.exec(n.get("else"), env); m2 = self.mem
            del self.guards[ng:]
            # what follows is executed only if the other branch was taken
            if r1 not in (None, "dead") and r2 is None: self.guards.append((tt(c), False))
            if r2 not in (None, "dead") and r1 is None: self.guards.append((tt(c), True))
            if r1 == "dead" and r2 == "dead": return "dead"
            if r1 == "dead": self.mem = m2; return r2
            if r2 == "dead": self.mem = m1; return r1
            self.mem = self.merge(m1, m2)
            if r1 is None and r2 is None: return None
            rets = [r[1] for r in (r1, r2) if isinstance(r, tuple)]
            if len(rets) == 2: return ("ret", self.join(rets[0], rets[1]))
            if rets:
                env["#rets"].append(rets[0])
                r = r1 if not isinstance(r1, tuple) else r2
                if r is None: self.mem = m2 if isinstance(r1, tuple) else m1
                return r
            return r1 if r1 == r2 else None
        if k == "For":
            self.exec(n.get("init"), env); return self.loop(n, env)
        if k == "RFor": return self.rfor(n, env)
        if k in ("While", "Do"):
            ng = len(self.guards)
            self.guards.append((("loop", n.get("l")), True))
            if n.get("cond"): self.rv(n["cond"], env)
            base = dict(self.mem)
            r = self.exec(n.get("body"), env)
            self.mem = self.merge(base, self.mem)
            del self.guards[ng:]
            if isinstance(r, tuple): env["#rets"].append(r[1])
            return None
        if k == "Return":
            e = n.get("e")
            if e is None: return ("ret", None)
            if env.get("#refret"): return ("ret", Ptr(self.lv(e, env)))
            v = self.rv(e, env)
            return ("ret", v)
        if k == "Break": return "brk"
        if k == "Continue": return "cont"
        if k == "Throw": return "dead"
        if k == "OMP": return self.exec(n.get("body"), env)
        if k == "Try": return self.exec(n.get("body"), env)
        if k == "Switch":
            self.rv(n["cond"], env)
            base = dict(self.mem)
            self.exec(n.get("body"), env)
            self.mem = self.merge(base, self.mem)
            return None
        if k in ("Case", "Default"):
            for c in kids(n):
                r = self.exec(c, env)
                if r is not None: return r
            return None
        try: self.rv(n, env)
        except Dead: return "dead"
        return None

    def join(self, a, b):
        if isinstance(a, Loc) and isinstance(b, Loc) and a != b:
            d = self.tmp()
            m1 = {Loc(d + k[len(a):]): v for k, v in self.mem.items() if k[:len(a)] == a}
            m2 = {Loc(d + k[len(b):]): v for k, v in self.mem.items() if k[:len(b)] == b}
            if not m1: m1 = {d: self.term(a)}
            if not m2: m2 = {d: self.term(b)}
            for k in set(m1) | set(m2):
                self.mem[k] = alt(m1[k], m2[k]) if k in m1 and k in m2 else alt(m1.get(k, TOP), m2.get(k, TOP))
            return d
        return alt(a, b)

    def merge(self, a, b):
        if a is b: return a
        out = {}
        for k in set(a) | set(b):
            if k in a and k in b: x, y = a[k], b[k]
            else:
                have = a if k in a else b
                other = b if k in a else a
                save, self.mem = self.mem, other
                x = have[k]
                try:
                    y = self.read(k) if k[0][0] == "T" or any(Loc(k[:i]) in other for i in range(1, len(k))) else None
                finally: self.mem = save
                if y is None: out[k] = x; continue     # not alive in the other branch
            out[k] = x if (x is y or x == y) else (alt(x, y) if not isinstance(x, (H, Clo)) else x)
        return out

    def loop(self, n, env):
        it, body, inc = 0, n.get("body"), n.get("inc")
        while True:
            c = self.cond(n["cond"], env, nofork=True) if n.get("cond") else True
            if c is True and it < 80:
                ng = len(self.guards)
                r = self.exec(body, env)
                del self.guards[ng:]
                if r == "brk": return None
                if isinstance(r, tuple) or r == "dead": return r
                if inc: self.rv(inc, env)
                it += 1
                continue
            if c is False: return None
            break
        # not decided: one pass with the index opaque
        v = self.index_var(n)
        if v is not None:
            loc = self.bind(v, env)
            start = tt(self.read(loc)) if loc in self.mem else TOP
            b = self.bound(n["cond"], v, env)
            itv = ("it", v, start, b)
            self.mem[loc] = itv
            ind = self.counters(lambda: (self.exec(body, env), inc is not None and self.rv(inc, env)), env, loc)
            self.mem[loc] = itv
            for k, (v0, d) in ind.items(): self.mem[k] = ("havoc", k[-1]) if d is None else plus(v0, mul_k(plus(itv, neg(start)), d))
            base = dict(self.mem)
            ng = len(self.guards)
            self.guards.append((("loop", v, start, b), True))
            r = self.exec(body, env)
            del self.guards[ng:]
            after = {k: x for k, x in self.mem.items() if k not in base or base[k] != x}
            self.mem[loc] = b
            # scalars of the enclosing function that the body changes are not known afterwards
            for k, x in after.items():
                if k in base and k != loc and k not in ind and not any(s[0] == "i" for s in k[1:]): self.mem[k] = alt(base[k], x)
            for k, (v0, d) in ind.items(): self.mem[k] = ("havoc", k[-1]) if d is None else plus(v0, mul_k(plus(b, neg(start)), d))
            if isinstance(r, tuple): env["#rets"].append(r[1])
            return None
        r = self.exec(body, env)
        if isinstance(r, tuple): env["#rets"].append(r[1])
        return None

    def counters(self, run, env, skip=None):
        """variables that every iteration changes by a constant: {location: (value before the loop, step or None)}"""
        before, ev, en, gs, nt = dict(self.mem), len(self.events), dict(env), len(self.guards), len(env.get("#rets", []))
        def again():
            try: run()
            except Dead: pass
            after = self.mem
            self.mem = dict(before)
            del self.events[ev:]; del self.guards[gs:]
            if "#rets" in env: del env["#rets"][nt:]
            for k in list(env):
                if k not in en: del env[k]
            env.update(en)
            return after
        def numeric(v): return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, tuple) and (v[:1] in (("lin",), ("size",), ("it",), ("havoc",)))
        out = {}
        if not any(k != skip and numeric(v) and len(k) == 1 for k, v in before.items()): return out
        after = again()
        for k, v0 in before.items():
            if k == skip or k not in after or after[k] == v0 or not numeric(v0) or any(s[0] == "i" for s in k[1:]): continue
            v1 = after[k]
            if isinstance(v1, tuple) and v1[:1] == ("alt",):
                if any(isinstance(plus(x, neg(v0)), int) for x in v1[1] if x != v0 and (numeric(x))): out[k] = (v0, None)
                continue
            if not numeric(v1): continue
            d = plus(v1, neg(v0))
            if isinstance(d, int): out[k] = (v0, d)
        if not out: return out
        # an assignment of a constant is no step
        for k, (v0, d) in out.items(): self.mem[k] = ("probe", k[-1])
        after = again()
        return {k: (v0, d) for k, (v0, d) in out.items() if d is None or plus(after.get(k, TOP), neg(("probe", k[-1]))) == d}

    def index_var(self, n):
        inc = n.get("inc")
        if inc is not None:
            for x in walk(inc):
                if x["k"] == "Un" and x["op"] in ("++", "--") and strip(x["e"])["k"] == "Ref": return strip(x["e"])["id"]
                if x["k"] == "Asg" and strip(x["a"][0])["k"] == "Ref": return strip(x["a"][0])["id"]
        return None

    def bound(self, c, v, env):
        c = strip(c)
        if c is not None and c["k"] == "Bin" and c["op"] in ("<", "!=", "<="):
            l, r = strip(c["a"][0]), c["a"][1]
            if l["k"] == "Ref" and l.get("id") == v: return tt(self.rv(r, env))
            if strip(r)["k"] == "Ref" and strip(r).get("id") == v: return tt(self.rv(c["a"][0], env))
        return TOP

    def rfor(self, n, env):
        rg = strip(n["range"])
        var = n["var"]
        if rg["k"] in ("Init",) or (rg["k"] == "Ctor" and rg["a"] and strip(rg["a"][0])["k"] == "Init"):
            items = rg["a"] if rg["k"] == "Init" else strip(rg["a"][0])["a"]
            for x in items:
                loc = self.bind(var["id"], env, new=True)
                self.write(loc, self.rv(x, env))
                ng = len(self.guards)
                r = self.exec(n["body"], env)
                del self.guards[ng:]
                if r == "brk": break
                if isinstance(r, tuple) or r == "dead": return r
            return None
        base = self.lv(rg, env)
        sz = self.mem.get(Loc(base + (("size",),)))
        idx = range(sz) if isinstance(sz, int) and sz < 80 else [("it", var["id"], 0, ("size", self.term(base)))]
        ind = {}
        if len(idx) == 1 and not isinstance(idx[0], int):
            def once():
                c = Loc(base + (("i", idx[0]),))
                if var["t"].get("ref"): env[var["id"]] = c
                else: self.write(self.bind(var["id"], env, new=True), self.val(c, var["t"]))
                self.exec(n["body"], env)
            ind = self.counters(once, env)
            for k, (v0, d) in ind.items(): self.mem[k] = ("havoc", k[-1]) if d is None else plus(v0, mul_k(idx[0], d))
        for i in idx:
            c = Loc(base + (("i", i),))
            if var["t"].get("ref"): env[var["id"]] = c
            else: self.write(self.bind(var["id"], env, new=True), self.val(c, var["t"]))
            ng = len(self.guards)
            self.guards.append((("loop", var["id"], 0, tt(sz)), True))
            r = self.exec(n["body"], env)
            del self.guards[ng:]
            if r == "brk": break
            if isinstance(r, tuple):
                if isinstance(i, int): return r
                env["#rets"].append(r[1])
        for k, (v0, d) in ind.items(): self.mem[k] = ("havoc", k[-1]) if d is None else plus(v0, mul_k(idx[0][3], d))
        return None

    def bind(self, vid, env, new=False):
        if new or vid not in env: env[vid] = Loc((("v", env["#frame"], vid),))
        return env[vid]

    def var(self, v, env):
        t, i = v["t"], v.get("init")
        if v.get("static"): return
        if t.get("ref") and i is not None:
            env[v["id"]] = self.lv(i, env)
            return
        loc = self.bind(v["id"], env, new=True)
        for k in [k for k in self.mem if k[:1] == loc[:1]]: del self.mem[k]
        if i is None: return
        if "elem" in t and not t.get("rec"):
            self.init_into(loc, i, t, env); return
        val = self.rv(i, env)
        if isinstance(val, Loc): self.copy(loc, val)
        else: self.mem[loc] = val

    # ------------------------------------------------------------ expressions
    def val(self, loc, t, q=None):
        return self.read(loc, q) if scalar_type(t) else loc

    def cond(self, n, env, nofork=False):
        v = self.rv(n, env)
        return self.truth(v, nofork)

    def truth(self, v, nofork=False):
        if isinstance(v, Ptr): return True
        if isinstance(v, (H, Clo, Loc)): return v
        if v is None: return False
        if isinstance(v, (int, float)): return bool(v)
        if is_term(v):
            v = self.fact(v)
            if isinstance(v, (int, float)): return bool(v)
            if not nofork and self.flag(v):
                raise Fork(v)
            if v[0] == "!":
                x = self.truth(v[1], nofork)
                if isinstance(x, bool): return not x
        return v

    def lv(self, n, env):
        """storage an expression designates"""
        self.tick()
        k = n["k"]
        if k in ("Cast", "ICast"):
            if n.get("ck") in ("UserDefinedConversion", "ConstructorConversion"):
                v = self.rv(n, env)
                return v if isinstance(v, Loc) else self.box(v)
            return self.lv(n["e"], env)
        if k == "Ref":
            if n["id"] in env: return env[n["id"]]
            if n.get("glob") or n["id"].startswith("G:"): return Loc((("T", ("glob", n["id"])),))
            return self.bind(n["id"], env)
        if k == "This": return env["#this"]
        if k == "Mem":
            b = deref(self.rv(n["b"], env)) if n.get("arrow") and n["b"]["k"] != "This" else self.lv(n["b"], env)
            if n["b"]["k"] == "This": b = env["#this"]
            loc = Loc(b + (("f", n["n"]),))
            if n.get("fref") or self.field_is_ref(n):
                v = self.mem.get(loc)
                if isinstance(v, Ptr): return v.loc
                if v is not None and is_term(v): return Loc((("T", v),)) if v[0] not in ("addr",) else Loc((("T", v[1]),))
            return loc
        if k == "Idx":
            b = self.rv(n["b"], env) if "ptr" in n["b"]["t"] and "elem" not in n["b"]["t"] else self.lv(n["b"], env)
            i = self.rv(n["i"], env)
            if isinstance(b, Ptr): b = self.offset(b, i); return b.loc
            if not isinstance(b, Loc): return Loc((("T", tt(b)), ("i", ix(i))))
            return Loc(b + (("i", ix(i)),))
        if k == "Un" and n["op"] == "*": return deref(self.rv(n["e"], env))
        if k == "Un" and n["op"] in ("++", "--"): self.rv(n, env); return self.lv(n["e"], env)
        if k == "Asg": self.rv(n, env); return self.lv(n["a"][0], env)
        if k == "OpCall" and n["op"] in ("[]", "()") and not self.is_fn(n["a"][0]["t"]):
            b = self.lv(n["a"][0], env)
            i = [ix(self.rv(a, env)) for a in n["a"][1:]]
            return Loc(b + (("i", i[0] if len(i) == 1 else tuple(tt(x) for x in i)),))
        if k == "OpCall" and n["op"] in ("->", "*") and len(n["a"]) == 1 and n["a"][0]["t"]["s"].replace("const ", "").startswith(("std::unique_ptr", "std::shared_ptr")):
            return deref(self.rv(n["a"][0], env))
        if k == "OpCall" and n["op"] in ("=", "+=", "-=", "*=", "/="):
            self.rv(n, env); return self.lv(n["a"][0], env)
        if k == "Cond":
            c = self.cond(n["cond"], env)
            if c is True: return self.lv(n["then"], env)
            if c is False: return self.lv(n["else"], env)
            a, b = self.lv(n["then"], env), self.lv(n["else"], env)
            return deref(ite(tt(c), addr(self.term(a)), addr(self.term(b))))
        v = self.rv(n, env, want_ref=True)
        if isinstance(v, Loc): return v
        if isinstance(v, RefTo): return v.loc
        return self.box(v)

    def box(self, v):
        if is_term(v) and v and v[0] not in ("alt", "top", "+", "-", "*"):
            return Loc((("T", v),))
        t = self.tmp(); self.mem[t] = v
        return t

    def field_is_ref(self, n):
        q = n.get("q")
        if q is None: return False
        if not hasattr(self.P, "_reffields"):
            self.P._reffields = {}
            for r in self.P.records.values():
                for f in r["fields"]: self.P._reffields[r.get("q", r["key"]) + "::" + f["n"]] = bool(f["t"].get("ref"))
        return self.P._reffields.get(q, False)

    @staticmethod
    def is_fn(t):
        s = t["s"].replace("const ", "")
        return s.startswith(("std::function<", "(lambda"))

    def offset(self, p, i):
        loc = p.loc
        if loc and loc[-1][0] == "i":
            o = loc[-1][1]
            return Ptr(Loc(loc[:-1] + (("i", ix(plus(o, i))),)))
        if i == 0 and not loc[-1][0] == "i": return p
        return Ptr(Loc(loc + (("i", ix(i)),)))

    def rv(self, n, env, want_ref=False):
        if n is None: return None
        self.tick()
        k = n["k"]
        if k in ("Int", "Float", "Str", "Bool", "Char"): return n.get("v")
        if k == "Null": return None
        if k == "This": return Ptr(env["#this"])
        if k == "Cast" or k == "ICast":
            if n.get("ck") == "UserDefinedConversion" or n.get("ck") == "ConstructorConversion": return self.rv(n["e"], env)
            if "cv" in n and strip(n["e"])["k"] != "Mem": return n["cv"]
            if n.get("ck") == "ArrayToPointerDecay":
                l = self.lv(n["e"], env); return Ptr(Loc(l + (("i", 0),)))
            v = self.rv(n["e"], env)
            t = n.get("t", {}).get("s", "")
            if t == "bool":
                if isinstance(v, Ptr): return True
                if isinstance(v, (int, float)): return bool(v)
                if v is None: return False
            if t in ("int",) and isinstance(v, (bool, float)): return int(v)
            return v
        if k == "Ref":
            if n["id"] in env:
                loc = env[n["id"]]
                if "elem" in n["t"] and "rec" not in n["t"]: return Ptr(Loc(loc + (("i", 0),)))
                return self.val(loc, n["t"])
            if "cv" in n:
                return Lab(n["cv"], ("glob", n["id"])) if n["id"].startswith("G:") else n["cv"]
            loc = self.lv(n, env)
            return self.val(loc, n["t"])
        if k == "Mem":
            loc = self.lv(n, env)
            if "elem" in n["t"] and "rec" not in n["t"]: return Ptr(Loc(loc + (("i", 0),)))
            return self.val(loc, n["t"], n.get("q"))
        if k == "Idx":
            loc = self.lv(n, env)
            if "elem" in n["t"] and "rec" not in n["t"]: return Ptr(Loc(loc + (("i", 0),)))
            return self.val(loc, n["t"])
        if k == "Un":
            op = n["op"]
            if op == "&": return Ptr(self.lv(n["e"], env))
            if op == "*": return self.val(self.lv(n, env), n["t"])
            if op in ("++", "--"):
                loc = self.lv(n["e"], env)
                v = self.read(loc)
                if isinstance(v, Ptr): w = self.offset(v, 1 if op == "++" else -1)
                else: w = plus(v, 1 if op == "++" else -1)
                self.write(loc, w)
                return v if n.get("post") else w
            v = self.rv(n["e"], env)
            if op == "!":
                t = self.truth(v)
                return (not t) if isinstance(t, bool) else ("!", tt(t))
            if op == "-": return -v if isinstance(v, (int, float)) else ("neg", tt(v))
            if op == "+": return v
            return (op, tt(v))
        if k == "Bin":
            op = n["op"]
            if op in ("&&", "||"):
                a = self.truth(self.rv(n["a"][0], env))
                if a is (op == "||"): return a
                b = self.truth(self.rv(n["a"][1], env))
                if isinstance(a, bool): return b
                if isinstance(b, bool): return b if b is (op == "||") else a
                return (op, tt(a), tt(b))
            if op == ",":
                self.rv(n["a"][0], env); return self.rv(n["a"][1], env)
            a, b = self.rv(n["a"][0], env), self.rv(n["a"][1], env)
            return self.bin(op, a, b)
        if k == "Asg":
            op = n["op"]
            r = self.rv(n["a"][1], env)
            loc = self.lv(n["a"][0], env)
            if op != "=": r = self.bin(op[:-1], self.read(loc), r)
            self.write(loc, r)
            return r
        if k == "Cond":
            c = self.cond(n["cond"], env)
            if c is True: return self.rv(n["then"], env)
            if c is False: return self.rv(n["else"], env)
            a, b = self.rv(n["then"], env), self.rv(n["else"], env)
            return self.join(a, b) if isinstance(a, Loc) or isinstance(b, Loc) else ite(tt(c), a, b)
        if k == "Lambda": return Clo(n, dict(env), env.get("#this"), env.get("#f"))
        if k == "Init":
            return self.init(n, env)
        if k == "New":
            i = n.get("init")
            loc = self.tmp("new")
            rec = n["t"].get("ptr", {}).get("rec")
            if i is not None:
                v = self.construct(i, env, loc)
                if isinstance(v, Loc) and v != loc: self.copy(loc, v)
            self.events.append({"ev": "new", "rec": rec or n["t"]["s"], "loc": loc, "g": tuple(self.guards), "l": n.get("l"), "f": env.get("#f"), "d": len(self.stack),
                                "cells": {k[1:]: self.deep(v) for k, v in self.mem.items() if k[:1] == loc}})
            return Ptr(loc)
        if k == "Ctor": return self.construct(n, env, None)
        if k == "OpCall": return self.opcall(n, env, want_ref)
        if k == "MCall": return self.mcall(n, env, want_ref)
        if k == "Call": return self.call(n, env, want_ref)
        if k == "Throw": raise Dead()
        if k in ("Decl", "Var", "If", "For", "Block"): self.exec(n, env); return None
        if "cv" in n: return n["cv"]
        if k == "Sizeof": return ("sizeof",)
        for c in kids(n): self.rv(c, env)
        return TOP

    def bin(self, op, a, b):
        if isinstance(a, Ptr) and op in ("+", "-") and isinstance(b, (int, tuple)): return self.offset(a, b if op == "+" else neg(b))
        if isinstance(b, Ptr) and op == "+" and isinstance(a, (int, tuple)): return self.offset(b, a)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                if op == "+": return a + b
                if op == "-": return a - b
                if op == "*": return a * b
                if op == "/": return (abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)) if isinstance(a, int) and isinstance(b, int) else a / b
                if op == "%": return a - b * int(a / b)
                if op in ("<", ">", "<=", ">=", "==", "!="): return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
                if op == "<<": return a << b
                if op == ">>": return a >> b
                if op == "&": return a & b
                if op == "|": return a | b
                if op == "^": return a ^ b
            except Exception: return TOP
        if op == "+": return plus(a, b)
        if op == "-": return plus(a, neg(b))
        x, y = tt(a), tt(b)
        if op in ("==", "!=") and x == y and x not in (TOP,) and not (isinstance(x, tuple) and x and x[0] == "alt"): return op == "=="
        return (op, x, y)

    # ------------------------------------------------------------ construction
    def init_into(self, loc, i, t, env):
        """initialise a C array"""
        e = strip(i)
        et = t["elem"]
        if e["k"] == "Init":
            for j, x in enumerate(e["a"]):
                c = Loc(loc + (("i", j),))
                if "elem" in et and "rec" not in et: self.init_into(c, x, et, env)
                else:
                    v = self.rv(x, env)
                    if isinstance(v, Loc): self.copy(c, v)
                    else: self.mem[c] = v
            if not et.get("rec"): self.mem[Loc(loc + (("i", "*"),))] = 0
        else:
            v = self.rv(i, env)
            if isinstance(v, Loc): self.copy(loc, v)

    def init(self, n, env):
        t = n["t"]
        if scalar_type(t) and "elem" not in t:
            return self.rv(n["a"][0], env) if n["a"] else 0
        loc = self.tmp()
        rec = t.get("rec")
        if "elem" in t and not rec: self.init_into(loc, n, t, env); return loc
        s = t["s"].replace("const ", "")
        if s.startswith("std::array<"):
            a = n["a"]
            if len(a) == 1 and strip(a[0])["k"] == "Init" and "elem" in strip(a[0])["t"]: a = strip(a[0])["a"]
            for j, x in enumerate(a):
                v = self.rv(x, env); c = Loc(loc + (("i", j),))
                if isinstance(v, Loc): self.copy(c, v)
                else: self.mem[c] = v
            self.mem[Loc(loc + (("i", "*"),))] = 0
            return loc
        if rec in self.P.records:
            r = self.P.records[rec]
            a = list(n["a"])
            for b in r["bases"]:
                if a and a[0]["t"].get("rec") == b.get("rec"):
                    v = self.rv(a.pop(0), env)
                    if isinstance(v, Loc): self.copy(loc, v)
            for f, x in zip(r["fields"], a):
                self.set_field(loc, f, x, env)
            for f in r["fields"][len(a):]:
                if f.get("init"): self.set_field(loc, f, f["init"], env)
            return loc
        if len(n["a"]) == 1: return self.rv(n["a"][0], env)
        for j, x in enumerate(n["a"]):
            v = self.rv(x, env); c = Loc(loc + (("i", j),))
            if isinstance(v, Loc): self.copy(c, v)
            else: self.mem[c] = v
        self.mem[Loc(loc + (("size",),))] = len(n["a"])
        return loc

    def set_field(self, loc, f, x, env):
        c = Loc(loc + (("f", f["n"]),))
        if f["t"].get("ref"):
            e = strip(x)
            while e["k"] == "Init" and len(e["a"]) == 1: e = strip(e["a"][0])
            self.mem[c] = Ptr(self.lv(e, env)); return
        if x["k"] in ("Init", "Ctor") and f["t"].get("rec") and not scalar_type(f["t"]):
            v = self.construct(x, env, c) if x["k"] == "Ctor" else self.rv(x, env)
        elif "elem" in f["t"] and not f["t"].get("rec"): self.init_into(c, x, f["t"], env); return
        else: v = self.rv(x, env)
        if isinstance(v, Loc): self.copy(c, v) if v != c else None
        elif v is not None or scalar_type(f["t"]): self.mem[c] = v

    def construct(self, n, env, loc):
        if n["k"] != "Ctor":
            return self.rv(n, env)
        t = n["t"]; s = t["s"].replace("const ", "")
        args = [a for a in n["a"] if not a.get("def")]
        f = self.P.funcs.get(n.get("f"))
        rec = t.get("rec")
        if s.startswith("H5::"): return self.h5_ctor(s, n, env)
        if s.startswith("std::allocator"): return TOP
        if s.startswith(("std::unique_ptr", "std::shared_ptr", "std::function", "std::basic_string", "(lambda")):
            if not args: return None if "ptr" in s[:20] else ""
            return self.rv(args[0], env)
        if len(args) == 1 and not scalar_type(args[0]["t"]) and args[0]["t"].get("rec") == rec and rec:
            v = self.lv(args[0], env)      # copy or move
            if loc is not None: self.copy(loc, v); return loc
            d = self.tmp(); self.copy(d, v); return d
        if loc is None: loc = self.tmp()
        if s.startswith("std::vector<"):
            if not args: self.mem[Loc(loc + (("size",),))] = 0; return loc
            a0 = strip(args[0])
            if a0["k"] == "Init" or "initializer_list" in a0["t"]["s"]:
                v = self.init(a0, env) if a0["k"] == "Init" else self.rv(a0, env)
                if isinstance(v, Loc):
                    self.copy(loc, v); self.mem[Loc(loc + (("size",),))] = len(a0.get("a", []))
                return loc
            if args[0]["t"].get("cls") in ("int", "uint", "bool") or not (args[0]["t"].get("ptr") or args[0]["t"].get("rec")):
                sz = self.rv(args[0], env)
                self.mem[Loc(loc + (("size",),))] = sz
                if len(args) > 1:
                    v = self.rv(args[1], env)
                    if not isinstance(v, Loc): self.mem[Loc(loc + (("i", "*"),))] = v
                return loc
        if s.startswith("std::array<"):
            return loc
        if f is not None and f.body is not None and rec in self.P.records and f["file"].startswith(("src/", "include/")) and len(self.stack) < 14 and not any(x is f for x in self.stack):
            self.run_ctor(f, n["a"], env, loc)
            return loc
        if f is None and not args and rec in self.P.records:
            for fl in self.P.records[rec]["fields"]:
                if fl.get("init"): self.set_field(loc, fl, fl["init"], env)
            return loc
        vals = [self.rv(a, env) for a in args]
        if not vals and rec: return loc
        self.mem[loc] = ("ctor", s.split("<")[0], *[tt(v) for v in vals])
        return loc

    def run_ctor(self, f, args, env, loc):
        self.stack.append(f)
        ng = len(self.guards)
        try:
            e = self.new_env(f, args, env, loc)
            rec = f.get("cls")
            seen = set()
            for i in f.get("inits", []):
                x = i.get("e")
                if x is None: continue
                if "deleg" in i or "base" in i:
                    v = self.construct(x, e, loc) if x["k"] == "Ctor" else self.rv(x, e)
                    if isinstance(v, Loc) and v != loc: self.copy_into(loc, v)
                    continue
                fl = next((q for q in self.P.fields(rec) if q["n"] == i.get("field")), None)
                if fl is None: continue
                if x["k"] == "DefInit": x = fl.get("init")
                if x is None: continue
                self.set_field(loc, fl, x, e)
            if f.body is not None:
                try: self.exec(f.body, e)
                except Dead: pass
        finally:
            self.stack.pop(); del self.guards[ng:]

    def copy_into(self, dst, src):
        n = len(src)
        for k, v in [(k, v) for k, v in self.mem.items() if k[:n] == src]: self.mem[Loc(dst + k[n:])] = v

    def new_env(self, f, args, env, this):
        self.nframe += 1
        e = {"#frame": self.nframe, "#this": this, "#rets": [], "#f": f}
        for p, a in zip(f["params"], args): self.bind_arg(p, a, env, e)
        return e

    def bind_arg(self, p, a, env, e):
        if p["t"].get("ref"):
            e[p["id"]] = self.lv(a, env)
            return
        loc = Loc((("v", e["#frame"], p["id"]),))
        e[p["id"]] = loc
        v = self.rv(a, env)
        if isinstance(v, Loc): self.copy(loc, v)
        else: self.mem[loc] = v

    # ------------------------------------------------------------ calls
    def inline(self, f, args, env, this):
        self.stack.append(f)
        ng = len(self.guards)
        try:
            e = self.new_env(f, args, env, this)
            e["#refret"] = f.get("ret", {}).get("ref")
            r = self.exec(f.body, e)
            rets = list(e["#rets"])
            if isinstance(r, tuple): rets.append(r[1])
            if r == "dead" and not rets: raise Dead()
            if not rets: return None
            v = rets[0]
            for x in rets[1:]: v = self.join(v, x)
            if e["#refret"] and isinstance(v, Ptr): return RefTo(v.loc)
            if e["#refret"] and is_term(v): return RefTo(Loc((("T", v),)))
            return v
        finally:
            self.stack.pop(); del self.guards[ng:]

    def out(self, v, t, want_ref):
        if isinstance(v, RefTo):
            if want_ref: return v
            return self.val(v.loc, t)
        return v

    def clo_call(self, c, args, env, t):
        n = c.n
        if any(x is n for x in self.stack):
            vals = [self.rv(a, env) for a in args]
            self.events.append({"ev": "rec", "lam": n, "args": vals, "terms": [self.argterm(v) for v in vals], "g": tuple(self.guards)})
            self.havoc(c)
            return ("reccall", *[self.argterm(v) for v in vals])
        self.stack.append(n)
        ng = len(self.guards)
        try:
            self.nframe += 1
            e = dict(c.env)
            e.update({"#frame": self.nframe, "#this": c.this, "#rets": [], "#f": c.f, "#refret": False})
            for p, a in zip(n["params"], args): self.bind_arg(p, a, env, e)
            r = self.exec(n["body"], e)
            rets = list(e["#rets"])
            if isinstance(r, tuple): rets.append(r[1])
            v = None
            for i, x in enumerate(rets): v = x if i == 0 else self.join(v, x)
            self.events.append({"ev": "lamret", "lam": n, "val": v})
            return v
        finally: self.stack.pop(); del self.guards[ng:]

    def havoc(self, c):
        """variables a recursive closure changes are not known after the inner call"""
        w = set()
        for x in walk(c.n["body"]):
            if x["k"] == "Un" and x["op"] in ("++", "--") and strip(x["e"])["k"] == "Ref": w.add(strip(x["e"])["id"])
            if x["k"] == "Asg" and strip(x["a"][0])["k"] == "Ref": w.add(strip(x["a"][0])["id"])
        for v in w:
            if v in c.env: self.mem[c.env[v]] = ("havoc", v)

    def argterm(self, v):
        if isinstance(v, Ptr): return addr(self.term(v.loc))
        if isinstance(v, Loc): return self.term(v)
        return tt(v)

    def dynclass(self, loc, static):
        t = self.term(loc)
        return self.dyn.get(t, static)

    def resolve(self, n, loc):
        fs = self.P.targets(n)
        if len(fs) <= 1: return fs
        d = self.dyn.get(self.term(loc)) if loc is not None else None
        st = d or (n["obj"]["t"].get("rec") or n["obj"]["t"].get("ptr", {}).get("rec"))
        if st:
            chain = [st] + self.P.bases(st)
            mine = [f for c in chain for f in fs if f.get("cls") == c]
            subs = [] if d else [f for f in fs if f.get("cls") in self.P.subclasses(st)]
            if mine and not subs: return mine[:1]
            if subs: return mine[:1] + subs
        return fs

    def mcall(self, n, env, want_ref):
        obj, name, args = n.get("obj"), n["n"], n["a"]
        ot = obj["t"] if obj is not None else {"s": ""}
        s = (ot.get("ptr") or ot)["s"].replace("const ", "")
        if s.startswith("H5::"): return self.h5(n, env, s)
        if s.startswith(("std::unique_ptr", "std::shared_ptr")):
            v = self.rv(obj, env)
            if name in ("get", "release"): return v
            if name == "operator bool": return v if not isinstance(v, Ptr) else True
            if name == "reset":
                self.write(self.lv(obj, env), self.rv(args[0], env) if args else None); return None
            return TOP
        loc = deref(self.rv(obj, env)) if n.get("arrow") and obj["k"] != "This" else (self.lv(obj, env) if obj is not None else env.get("#this"))
        if s.startswith(("std::vector", "std::array", "Eigen::", "std::deque", "std::basic_string", "std::list")):
            return self.std_method(n, loc, name, args, env, s, want_ref)
        if len(loc) == 1 and loc[0][0] == "T" and isinstance(loc[0][1], tuple) and loc[0][1][0] == "deref" and isinstance(loc[0][1][1], tuple) and loc[0][1][1][:1] == ("ite",):
            _, c, a, b = loc[0][1][1]
            base, outs, mems = self.mem, [], []
            for val, tgt in ((True, a), (False, b)):
                self.mem = dict(base)
                ng = len(self.guards)
                self.guards.append((c, val))
                v = self.dispatch(n, deref(tgt), name, args, env, want_ref)
                del self.guards[ng:]
                if isinstance(v, RefTo): v = ("addr", self.term(v.loc)); isref = True
                else: isref = False
                outs.append(v); mems.append(self.mem)
            self.mem = self.merge(*mems)
            if isref: return RefTo(deref(ite(c, outs[0], outs[1])))
            return ite(c, self.argterm(outs[0]), self.argterm(outs[1]))
        return self.dispatch(n, loc, name, args, env, want_ref)

    def dispatch(self, n, loc, name, args, env, want_ref):
        fs = [f for f in self.resolve(n, loc) if f["file"].startswith(("src/", "include/"))]
        if name in ("size",) and not args and loc[0][0] == "T" and not fs: return ("size", self.term(loc))
        if name in self.opaque: fs = []
        elif name in ("size", "operator[]", "begin", "end") and loc[0][0] == "T" and name == "size": return ("size", self.term(loc))
        fs = [f for f in fs if not any(x is f for x in self.stack)]
        if len(fs) == 1 and len(self.stack) < 14:
            return self.out(self.inline(fs[0], args, env, loc), n["t"], want_ref)
        if len(fs) > 1 and len(fs) <= 4 and len(self.stack) < 14:
            vs, save, mems = [], self.mem, []
            for f in fs:
                self.mem = dict(save)
                v = self.inline(f, args, env, loc)
                v = self.out(v, n["t"], False)
                vs.append(self.argterm(v) if isinstance(v, (Loc, Ptr)) else v)
                mems.append(self.mem)
            m = mems[0]
            for x in mems[1:]: m = self.merge(m, x)
            self.mem = m
            v = vs[0]
            for x in vs[1:]: v = alt(v, x)
            return v
        vals = [self.rv(a, env) for a in args]
        terms = [self.argterm(v) for v in vals]
        self.events.append({"ev": "call", "n": name, "f": n.get("f"), "obj": self.term(loc), "args": terms, "vals": vals, "g": tuple(self.guards), "l": n.get("l")})
        return ("call", name, self.term(loc), *terms)

    def std_method(self, n, loc, name, args, env, s, want_ref):
        szl = Loc(loc + (("size",),))
        if name in ("c_str", "str") or (name == "data" and "basic_string" in s): return self.read(loc)
        if name in ("size", "rows"):
            if szl in self.mem: return self.mem[szl]
            return ("size", self.term(loc))
        if name == "empty":
            if szl in self.mem and isinstance(self.mem[szl], int): return self.mem[szl] == 0
            return ("==", ("size", self.term(loc)), 0)
        if name in ("data", "begin", "cbegin"):
            return Ptr(Loc(loc + (("i", 0),)))
        if name in ("back", "front"):
            if name == "back":
                b = Loc(loc + (("back",),))
                if any(k[:len(b)] == b for k in self.mem): return RefTo(b) if want_ref else self.val(b, n["t"])
                sz = self.mem.get(szl)
                i = sz - 1 if isinstance(sz, int) else ("last",)
            else: i = 0
            c = Loc(loc + (("i", i),))
            return RefTo(c) if want_ref else self.val(c, n["t"])
        if name in ("at", "operator[]", "operator()"):
            i = ix(self.rv(args[0], env))
            c = Loc(loc + (("i", i),))
            return RefTo(c) if want_ref else self.val(c, n["t"])
        if name in ("push_back", "emplace_back"):
            v = self.rv(args[0], env) if len(args) == 1 else TOP
            sz = self.mem.get(szl)
            self.events.append({"ev": "append", "obj": self.term(loc), "val": v, "g": tuple(self.guards)})
            if isinstance(sz, int) and loc[0][0] != "T" and not any(g[0][0] == "loop" if isinstance(g[0], tuple) else False for g in self.guards):
                self.put(Loc(loc + (("i", sz),)), v); self.mem[szl] = sz + 1
            else:
                its = [g[0] for g in self.guards if isinstance(g[0], tuple) and g[0][0] == "loop" and len(g[0]) == 4]
                if its and sz == 0:
                    self.put(Loc(loc + (("i", ("it",) + its[-1][1:]),)), v)
                    self.mem[szl] = its[-1][3]
                elif loc[0][0] != "T": self.mem[szl] = TOP
            self.put(Loc(loc + (("back",),)), v)
            return None
        if name == "clear":
            for k in [k for k in self.mem if k[:len(loc)] == loc]: del self.mem[k]
            self.mem[szl] = 0
            return None
        if name in ("resize",):
            self.mem[szl] = self.rv(args[0], env); return None
        if name in ("fill", "setConstant", "assign"):
            return None
        vals = [self.rv(a, env) for a in args]
        return ("call", name, self.term(loc), *[self.argterm(v) for v in vals])

    def put(self, loc, v):
        if isinstance(v, Loc): self.copy(loc, v)
        else: self.mem[loc] = v

    def opcall(self, n, env, want_ref):
        op, a = n["op"], n["a"]
        t0 = a[0]["t"]["s"].replace("const ", "")
        if op == "()" and self.is_fn(a[0]["t"]):
            c = self.rv(a[0], env)
            if isinstance(c, Clo): return self.clo_call(c, a[1:], env, n["t"])
            vals = [self.rv(x, env) for x in a[1:]]
            return ("fcall", self.argterm(c), *[self.argterm(v) for v in vals])
        if op in ("[]", "()"):
            fs = [f for f in self.P.targets(n) if f["file"].startswith(("src/", "include/"))]
            if not fs or not t0.startswith("hexed::") or True:
                loc = self.lv(n, env)
                return RefTo(loc) if want_ref else self.val(loc, n["t"])
        if op in ("->", "*") and len(a) == 1:
            fs = [f for f in self.P.targets(n) if f["file"].startswith(("src/", "include/"))]
            if len(fs) == 1: return self.out(self.inline(fs[0], a[1:], env, self.lv(a[0], env)), n["t"], want_ref)
            v = self.rv(a[0], env)
            if op == "->": return v
            l = deref(v)
            return RefTo(l) if want_ref else self.val(l, n["t"])
        if op == "=":
            loc = self.lv(a[0], env)
            v = self.rv(a[1], env)
            self.write(loc, v)
            return loc if not scalar_type(n["t"]) else v
        if op == "+" and t0.startswith(("std::basic_string", "char")) or op == "+" and "basic_string" in a[-1]["t"]["s"]:
            x, y = self.rv(a[0], env), self.rv(a[1], env)
            if isinstance(x, str) and isinstance(y, str): return x + y
            return ("cat",) + flat(tt(x)) + flat(tt(y))
        fs = [f for f in self.P.targets(n) if f["file"].startswith(("src/", "include/"))]
        if len(fs) == 1 and fs[0].get("kind") != "method" and not any(x is fs[0] for x in self.stack): return self.out(self.inline(fs[0], a, env, None), n["t"], want_ref)
        vals = [self.rv(x, env) for x in a]
        return ("op" + op, *[self.argterm(v) for v in vals])

    def call(self, n, env, want_ref):
        name, args = n.get("n"), n["a"]
        f = self.P.funcs.get(n.get("f"))
        if name == "throw_critical": raise Dead()
        if name in ("move", "forward", "ref", "cref", "as_const") and len(args) == 1:
            l = self.lv(args[0], env)
            return RefTo(l) if want_ref else self.val(l, n["t"])
        if name == "swap" and len(args) == 2:
            x, y = self.lv(args[0], env), self.lv(args[1], env)
            if scalar_type(args[0]["t"]):
                a, b = self.read(x), self.read(y)
                self.write(x, b); self.write(y, a)
            else:
                t = self.tmp(); self.copy(t, x); self.copy(x, y); self.copy(y, t)
            return None
        if name == "size" and len(args) == 1: return ("size", self.term(self.lv(args[0], env)))
        if name in ("pow",) and len(args) == 2 and (f is None or not f["file"].startswith(("src", "include"))):
            a, b = self.rv(args[0], env), self.rv(args[1], env)
            if isinstance(a, (int, float)) and isinstance(b, (int, float)): return a ** b
            return ("pow", tt(a), tt(b))
        if name in ("min", "max") and len(args) == 2:
            a, b = self.rv(args[0], env), self.rv(args[1], env)
            if isinstance(a, (int, float)) and isinstance(b, (int, float)): return min(a, b) if name == "min" else max(a, b)
            return (name, tt(a), tt(b))
        if name in ("fill", "fill_n", "copy", "copy_n"):
            return self.algo(name, args, env)
        if f is not None and f.body is not None and f["file"].startswith(("src/", "include/")) and name not in self.opaque and len(self.stack) < 14 and not any(x is f for x in self.stack):
            return self.out(self.inline(f, args, env, None), n["t"], want_ref)
        if n.get("fe") is not None and n.get("f") is None:
            c = self.rv(n["fe"], env)
            if isinstance(c, Clo): return self.clo_call(c, args, env, n["t"])
        vals = [self.rv(a, env) for a in args]
        terms = [self.argterm(v) for v in vals]
        self.events.append({"ev": "call", "n": name, "f": n.get("f"), "obj": None, "args": terms, "vals": vals, "g": tuple(self.guards), "l": n.get("l")})
        return ("call", name, *terms)

    def algo(self, name, args, env):
        v = [self.rv(a, env) for a in args]
        if name in ("fill", "fill_n") and isinstance(v[0], Ptr):
            p, val = v[0], v[-1]
            cnt = v[1] if name == "fill_n" else (span(v[0], v[1]) if isinstance(v[1], Ptr) else None)
            if isinstance(cnt, int) and cnt < 100:
                for i in range(cnt): self.write(self.offset(p, i).loc, val)
        if name in ("copy", "copy_n") and isinstance(v[0], Ptr) and isinstance(v[2], Ptr):
            cnt = v[1] if name == "copy_n" else span(v[0], v[1])
            if isinstance(cnt, int) and cnt < 100:
                for i in range(cnt): self.write(self.offset(v[2], i).loc, self.read(self.offset(v[0], i).loc))
        return TOP

    # ------------------------------------------------------------ HDF5
    def path(self, base, p):
        if not isinstance(p, str): return p
        if p.startswith("/"): return p[1:].rstrip("/")
        b = getattr(base, "path", "") if isinstance(base, H) else ""
        return ((b + "/") if b else "") + p.rstrip("/")

    def dims(self, p, n):
        if isinstance(p, Ptr) and isinstance(n, int): return tuple(self.plain(self.read(self.offset(p, i).loc)) for i in range(n))
        return None

    @staticmethod
    def plain(v): return int(v) if isinstance(v, int) else tt(v)

    def h5_ctor(self, s, n, env):
        a = [x for x in n["a"]]
        v = [self.rv(x, env) for x in a]
        if s.startswith("H5::H5File"): return H("file", name=tt(v[0]) if v else None, path="", mode=v[1] if len(v) > 1 else None)
        if s.startswith("H5::DataSpace"):
            if len(v) >= 2 and isinstance(v[0], int): return H("space", dims=self.dims(v[1], v[0]), sel=None)
            return H("space", dims=(), sel=None)
        if len(v) == 1 and isinstance(v[0], H): return v[0]
        if len(v) == 1 and is_term(v[0]) and v[0][:1] == ("glob",): return v[0]
        return v[0] if v else H("h5")

    def h5(self, n, env, s):
        name, args = n["n"], n["a"]
        o = self.rv(n["obj"], env)
        if is_term(o) and o and o[0] == "deref": o = TOP
        v = [self.rv(x, env) for x in args]
        rep = lambda kind, **kw: self.events.append(dict({"ev": kind, "g": tuple(self.guards), "l": n.get("l"), "f": env.get("#f")}, **kw))
        if name == "createGroup": return H("group", path=self.path(o, v[0]), file=o)
        if name == "openGroup": return H("group", path=self.path(o, v[0]), file=o)
        if name == "createDataSet":
            sp = v[2] if isinstance(v[2], H) else None
            d = H("dset", path=self.path(o, v[0]), type=ptype(v[1]), file=o, created=True)
            rep("create", path=d.path, type=d.type, dims=sp.dims if sp else None, file=o)
            return d
        if name == "openDataSet": 
            rep("open", path=self.path(o, v[0]), file=o)
            return H("dset", path=self.path(o, v[0]), type=None, file=o, created=False)
        if name == "createAttribute":
            sp = v[2] if len(v) > 2 and isinstance(v[2], H) else None
            return H("attr", path=v[0], type=ptype(v[1]), dims=sp.dims if sp else None, file=o, created=True)
        if name == "openAttribute": return H("attr", path=v[0], type=None, file=o, created=False)
        if name in ("getDataType",): return H("type", of=o) if isinstance(o, H) else TOP
        if name == "getSpace":
            return H("space", dims=tuple(("extent", o.path, i) for i in range(3)), sel=None, of=o) if isinstance(o, H) else TOP
        if name == "getSimpleExtentDims":
            if isinstance(o, H) and isinstance(v[0], Ptr):
                for i in range(len(o.dims or ())): self.write(self.offset(v[0], i).loc, o.dims[i] if o.dims[i] is not None else TOP)
            return TOP
        if name == "selectHyperslab":
            r = 3
            cnt, off = self.hs(v[1]), self.hs(v[2])
            extra = [self.hs(x) for x in v[3:5]]
            if isinstance(o, H): o.sel = (cnt, off, extra)
            return None
        if name == "exists": return ("exists", v[0] if isinstance(v[0], str) else TOP)
        if name in ("write", "read") and isinstance(o, H):
            arg = strip(args[0]) if o.kind == "dset" else strip(args[1])
            cty = pointee(arg["t"])
            if o.kind == "attr":
                p = v[1]
                val = tt(self.read(p.loc)) if isinstance(p, Ptr) else tt(p)
                if isinstance(p, Ptr) and isinstance(self.read(p.loc), Lab): val = self.read(p.loc).term
                rep("attr_" + name, path=o.path, type=o.type, mem=ptype(v[0]), cty=cty, val=val if name == "write" else None, file=o.file, dims=getattr(o, "dims", None))
                if name == "read" and isinstance(p, Ptr): self.write(p.loc, ("attr", o.path))
                return None
            p, mt = v[0], v[1]
            msp, fsp = (v[2] if len(v) > 2 else None), (v[3] if len(v) > 3 else None)
            mdims = msp.dims if isinstance(msp, H) else None
            sel = fsp.sel if isinstance(fsp, H) else None
            cnt = 1
            for d in (mdims or ()): cnt = mul(cnt, d)
            mem = "file" if isinstance(mt, H) else ptype(mt)
            row = sel[1][0] if sel and sel[1] else None
            ev = dict(path=o.path, type=o.type, mem=mem, mdims=mdims, sel=sel, cty=cty, file=o.file, ptr=self.argterm(p), row=row)
            if name == "write":
                cells = None
                if isinstance(p, Ptr) and isinstance(cnt, int) and cnt <= 200:
                    cells = {}
                    for i in range(cnt): cells[i] = self.cellval(self.offset(p, i).loc)
                    base = Loc(p.loc[:-1])
                    o0 = p.loc[-1][1] if p.loc[-1][0] == "i" else 0
                    for kx, vx in self.cells(base).items():
                        if not isinstance(kx, int) and kx != "*": cells[plus(kx, neg(o0))] = self.deep(vx)
                ev["cells"] = cells
                have = set(self.guards)
                ev["conditional"] = {i: [g for g in self.wguards.get(self.offset(p, i).loc, ()) if g not in have and not (isinstance(g[0], tuple) and g[0][:1] == ("loop",))] for i in (cells or {}) if isinstance(i, int)}
                rep("ds_write", **ev)
            else:
                rep("ds_read", **ev)
                if isinstance(p, Ptr):
                    if isinstance(cnt, int) and cnt <= 200:
                        for i in range(cnt): self.write(self.offset(p, i).loc, ("col", o.path, row, i))
                    else: self.write(Loc(p.loc[:-1] + (("i", "*"),)), ("col", o.path, row, "*"))
            return None
        return TOP

    def cellval(self, loc):
        v = self.read(loc)
        return self.deep(v)

    def deep(self, v):
        if isinstance(v, (Ptr, Loc)): return self.argterm(v)
        return tt(v)

    def hs(self, p):
        if not isinstance(p, Ptr): return None
        out = []
        for i in range(4):
            l = self.offset(p, i).loc
            if l in self.mem: out.append(self.plain(self.mem[l]))
            else: break
        return tuple(out)


def ite(c, a, b):
    a, b = tt(a), tt(b)
    if a == b: return a
    return ("ite", c, a, b)


class RefTo:
    def __init__(self, loc): self.loc = loc


class Dead(Exception): pass


def pointee(t):
    for f in ("ptr", "elem"):
        if f in t: return t[f]["s"].replace("const ", "").strip()
    return t["s"]


def ptype(v):
    if is_term(v) and v and v[0] == "glob": return v[1].split("::")[-1]
    if isinstance(v, H) and v.kind == "type": return "file"
    return None


def span(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc[:-1] == b.loc[:-1] and a.loc[-1][0] == "i" and b.loc[-1][0] == "i":
        x, y = a.loc[-1][1], b.loc[-1][1]
        if isinstance(x, int) and isinstance(y, int): return y - x
    return None


def ix(i):
    if isinstance(i, bool): return int(i)
    if isinstance(i, int): return int(i)
    return tt(i)


def flat(t): return t[1:] if isinstance(t, tuple) and t and t[0] == "cat" else (t,)


def lin(t):
    """linear form {term: coefficient}, constant under 1"""
    if isinstance(t, bool): return {1: int(t)}
    if isinstance(t, Lab): return {1: int(t)}
    if isinstance(t, (int, float)): return {1: t}
    if isinstance(t, tuple) and t and t[0] == "lin": return dict(t[1])
    if isinstance(t, tuple) and t and t[0] == "neg": return {k: -v for k, v in lin(t[1]).items()}
    return {t: 1}


def mk(l):
    l = {k: v for k, v in l.items() if v != 0}
    if not l: return 0
    if set(l) == {1}: return l[1]
    if len(l) == 1 and list(l.values()) == [1]: return next(iter(l))
    return ("lin", tuple(sorted(l.items(), key=repr)))


def plus(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)): return a + b
    if TOP in (a, b): return TOP
    a, b = tt(a), tt(b)
    l = lin(a)
    for k, v in lin(b).items(): l[k] = l.get(k, 0) + v
    return mk(l)


def neg(b):
    if isinstance(b, (int, float)): return -b
    if b == TOP: return TOP
    return mk({k: -v for k, v in lin(tt(b)).items()})


def mul_k(a, d):
    """product with a constant"""
    if isinstance(a, (int, float)): return a * d
    return mk({k: v * d for k, v in lin(tt(a)).items()})


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    return ("*", tt(a), tt(b))
