"""Definite assignment: which variables and members certainly hold a value at each point.

Structured forward analysis over the syntax tree.  A unit is a local variable ("L", id), a member of
the object under analysis ("T", field) or a member of a tracked local object ("O", id, field).  The
state is the set of units certainly assigned (None: unreachable).  Loops are taken to run at least
once and elements stand for their aggregate, so only reads that no execution can have preceded by an
assignment on the reported path are reported."""
import re
from .ir import walk, kids

TOP = None
READ_ONLY_METHODS = {"size", "rows", "cols", "empty", "data"}


def unit_kind(t):
    """kind of a type whose default initialisation leaves it without a value"""
    if t.get("ref"): return None
    c, s = t.get("cls"), t["s"].replace("const ", "")
    if "elem" in t and not s.startswith("std::"): return "carray" if leaf_ok(t) else None
    if c in ("int", "uint", "float", "bool", "enum", "char", "ptr"): return "scalar"
    if s.startswith("std::array<"):
        inner = s[len("std::array<"):]
        return "array" if re.match(r"(double|int|bool|char|unsigned|long|float|[\w:<>, -]+ \*)", inner) and not inner.startswith(("std::", "Eigen")) else None
    m = re.match(r"Eigen::(Matrix|Array)<[^,]+, (-?\d+), (-?\d+)", s)
    if m: return "eigfix" if m.group(2) != "-1" and m.group(3) != "-1" else "eigdyn"
    return None


def const_of(n):
    n = strip(n)
    if "cv" in n: return n["cv"]
    if n["k"] in ("Bool", "Int"): return int(n["v"])
    return None


def is_view(t):
    s = t["s"].replace("const ", "")
    return s.startswith("Eigen::") and not re.match(r"Eigen::(Matrix|Array)<", s)


def leaf_ok(t):
    while "elem" in t: t = t["elem"]
    return unit_kind(t) == "scalar"


def strip(n):
    while n is not None and n["k"] in ("Cast", "ICast", "Paren", "ReCast"): n = n["e"]
    return n


def sizes_only(init):
    """an Eigen dynamic matrix constructed from extents only (no values)"""
    return init["k"] == "Ctor" and init["a"] and len(init["a"]) <= 2 and all((a["t"].get("cls") in ("int", "uint", "bool", "enum")) for a in init["a"])


class DefInit:
    def __init__(self, P):
        self.P = P
        self.late_memo = {}
        self.reads = []          # (unit, node, func)
        self.tracked_reads = 0
        self.stats = {}

    # ---------------------------------------------------------------- records
    def fields(self, rec):
        r = self.P.records.get(rec)
        if not r: return []
        out = list(r["fields"])
        return out

    def ctor_of(self, rec, key):
        return self.P.funcs.get(key) if key else None

    def late_after(self, rec, ctor):
        """fields of rec without a value after this constructor (a Func, or None for the implicit one)"""
        k = (rec, ctor["key"] if ctor else None)
        if k in self.late_memo: return self.late_memo[k]
        self.late_memo[k] = frozenset()
        r = self.P.records.get(rec)
        if not r: return frozenset()
        und = set()
        for f in r["fields"]:
            if f.get("static"): continue
            u = unit_kind(f["t"])
            if u and "init" not in f: und.add(f["n"])
        out = set(und)
        if ctor is not None:
            if any("deleg" in i for i in ctor.get("inits", [])):
                self.late_memo[k] = frozenset(); return frozenset()
            sub = Walker(self, ctor, rec, record=False)
            fin = sub.ctor(self)
            st = fin if fin is not None else {("T", f) for f in und}
            out = {f for f in und if ("T", f) not in st}
        for f in list(out):
            ft = next(x["t"] for x in r["fields"] if x["n"] == f)
            if unit_kind(ft) == "eigdyn" and ctor is None: out.discard(f)   # empty matrix: nothing to read
        if ctor is not None:
            for f in list(out):
                ft = next(x["t"] for x in r["fields"] if x["n"] == f)
                if unit_kind(ft) == "eigdyn":
                    ini = next((i for i in ctor.get("inits", []) if i.get("field") == f), None)
                    e = strip(ini["e"]) if ini and ini.get("e") else None
                    if e is None or not (e["k"] == "Ctor" and sizes_only(e)): out.discard(f)
        self.late_memo[k] = frozenset(out)
        return self.late_memo[k]

    def late_from_ctor_node(self, t, init):
        """late fields of a fresh local object of record type t initialised by node init (may be None)"""
        rec = t.get("rec")
        if not rec or rec not in self.P.records or not rec.startswith("hexed::"): return frozenset()
        r = self.P.records[rec]
        init = strip(init)
        if init is not None and init["k"] in ("Init", "Zero"):
            return frozenset()
        if init is not None and init["k"] == "Ctor":
            if init.get("copy") or init.get("move"): return frozenset()
            c = self.P.funcs.get(init.get("f"))
            if c is not None and c.body is not None: return self.late_after(rec, c)
            if not init["a"]:
                # implicit default constructor: value-initialised when written T{} / T()
                if init.get("list") or init.get("zero"): return frozenset()
                return self.late_after(rec, None)
            return frozenset()
        if init is None: return self.late_after(rec, None)
        return frozenset()


class Walker:
    def __init__(self, D, func, rec=None, record=True, depth=0, local0=()):
        self.D, self.P, self.func, self.rec, self.record, self.depth = D, D.P, func, rec, record, depth
        self.tracked = {}       # local unit -> Var node
        self.objs = {}          # local object id -> frozenset of late fields
        self.alias = {}         # reference or view variable -> unit it designates
        self.retn, self.brk, self.cont = [], [], []
        self.viol = []
        self.in_inits, self.fieldset = False, set()
        self.own = {f["n"] for f in D.fields(rec) if unit_kind(f["t"])} if rec else set()

    def ctor(self, D):
        """member initialisers in initialisation order, then the body"""
        s = frozenset()
        self.fieldset = {f["n"] for f in D.fields(self.rec)}
        self.in_inits = True
        for f in D.fields(self.rec):
            if f.get("static"): s |= {("T", f["n"])}
        for i in self.func.get("inits", []):
            e0 = i.get("e")
            if e0 is not None and s is not None: s = self.expr(e0, s)
            if s is None: s = frozenset()
            if not i.get("field"): continue
            self.inits_seen = getattr(self, "inits_seen", 0) + 1
            s |= {("C", i["field"])}
            e = strip(e0)
            if e is None: continue
            if not i.get("written") and e["k"] == "Ctor" and not e["a"]: continue
            if e["k"] == "Ctor" and e["t"]["s"].startswith("Eigen::") and (not e["a"] or sizes_only(e)): continue
            s |= {("T", i["field"])}
        self.in_inits = False
        return self.finish(self.run(self.func.body, s)) if self.func.body else s

    # joins
    @staticmethod
    def join(*ss):
        ss = [s for s in ss if s is not None]
        if not ss: return None
        out = ss[0]
        for s in ss[1:]: out = out & s
        return out

    def finish(self, s): return self.join(s, *self.retn)

    def run(self, node, s): return self.stmt(node, s)

    # ---------------------------------------------------------------- statements
    def stmt(self, n, s):
        if n is None or s is None: return s
        k = n["k"]
        if k == "Block":
            for c in n["c"]:
                s = self.stmt(c, s)
                if s is None: return None
            return s
        if k == "Decl":
            for c in n["c"]:
                if c["k"] == "Var": s = self.var(c, s)
                else: s = self.stmt(c, s)
            return s
        if k == "Var": return self.var(n, s)
        if k == "If":
            if n.get("var"): s = self.var(n["var"], s)
            if n.get("init"): s = self.stmt(n["init"], s)
            cv = const_of(n["cond"]) if n.get("constexpr") else None
            s = self.expr(n["cond"], s)
            if cv is not None:
                return self.stmt(n.get("then") if cv else n.get("else"), s)
            return self.join(self.stmt(n["then"], s), self.stmt(n.get("else"), s) if n.get("else") else s)
        if k in ("For", "While", "Do", "RFor"):
            sb, sc = self.brk, self.cont
            self.brk, self.cont = [], []
            if k == "For":
                s = self.stmt(n.get("init"), s)
                if n.get("cond"): s = self.expr(n["cond"], s)
                b = self.join(self.stmt(n.get("body"), s), *self.cont)
                if n.get("inc") and b is not None: b = self.expr(n["inc"], b)
            elif k == "RFor":
                s = self.expr(n["range"], s)
                if n.get("var"): s = self.var(n["var"], s, loop=True)
                b = self.join(self.stmt(n.get("body"), s), *self.cont)
            elif k == "While":
                if n.get("var"): s = self.var(n["var"], s)
                s = self.expr(n["cond"], s)
                b = self.join(self.stmt(n.get("body"), s), *self.cont)
            else:
                b = self.join(self.stmt(n.get("body"), s), *self.cont)
                b = self.expr(n["cond"], b) if b is not None else None
            out = self.join(b, *self.brk)
            if out is None and k != "Do":
                # the body always leaves the function: the loop ends by its condition
                c = strip(n.get("cond")) if n.get("cond") else None
                endless = k != "RFor" and (c is None or c.get("cv") == 1 or (c["k"] in ("Bool", "Int") and str(c.get("v")) in ("1", "True", "true")))
                out = None if endless else s
            self.brk, self.cont = sb, sc
            return out
        if k == "Switch":
            s = self.expr(n["cond"], s)
            sb = self.brk; self.brk = []
            outs, has_def, cur = [], False, None
            body = n["body"]
            for c in (body["c"] if body["k"] == "Block" else [body]):
                x = c
                while x is not None and x["k"] in ("Case", "Default"):
                    has_def |= x["k"] == "Default"
                    cur = s if cur is None else self.join(cur, s)
                    x = x.get("body")
                cur = self.stmt(x, cur) if x is not None else cur
            out = self.join(cur, *self.brk, *([] if has_def else [s]))
            self.brk = sb
            return out
        if k in ("Case", "Default"): return self.stmt(n.get("body"), s)
        if k == "Break": self.brk.append(s); return None
        if k == "Continue": self.cont.append(s); return None
        if k == "Return":
            if n.get("e"): s = self.expr(n["e"], s)
            self.retn.append(s); return None
        if k == "Throw":
            if n.get("e"): self.expr(n["e"], s)
            return None
        if k == "Try":
            b = self.stmt(n["body"], s)
            outs = [b]
            for h in n["handlers"]: outs.append(self.stmt(h.get("body"), s))
            return self.join(*outs)
        if k == "OMP": return self.stmt(n.get("body"), s)
        return self.expr(n, s)

    def var(self, v, s, loop=False):
        t, i = v["t"], v.get("init")
        if i is not None and (t.get("ref") or is_view(t)) and not loop:
            j = strip(i)
            while j["k"] == "Init" and len(j["a"]) == 1: j = strip(j["a"][0])
            u, _ = self.unit_of(j)
            if u is not None:
                self.alias[v["id"]] = u
                return self.subs(i, s)
        if i is not None: s = self.expr(i, s)
        if s is None: return None
        if loop or v.get("static"): return s
        u = unit_kind(t)
        if u:
            e = strip(i) if i is not None else None
            if e is None: blank = u != "eigdyn"
            elif e["k"] == "Ctor" and t["s"].replace("const ", "").startswith("Eigen::") and e["t"]["s"].replace("const ", "").startswith("Eigen::"):
                blank = (not e["a"] and u != "eigdyn") or (u == "eigdyn" and sizes_only(e))
            elif e["k"] == "Ctor" and not e["a"] and u == "array": blank = True
            else: blank = False
            if blank:
                self.tracked[("L", v["id"])] = v
                return s - {("L", v["id"])}
            return s
        et, ei = t, i
        while "elem" in et and not et["s"].startswith("std::"):
            et = et["elem"]
            ei = strip(ei)
            if ei is not None and ei["k"] == "Init": ei = ei["a"][0] if ei["a"] else ei
        if et.get("rec") and not t.get("ref"):
            late = self.D.late_from_ctor_node(et, ei)
            if late:
                self.objs[v["id"]] = (late, v)
                s = frozenset(x for x in s if not (x[0] == "O" and x[1] == v["id"]))
        return s

    # ---------------------------------------------------------------- expressions
    def obj_id(self, n):
        """the tracked local object (or array of objects) an expression designates"""
        n = strip(n)
        while n["k"] == "Idx": n = strip(n["b"])
        return n["id"] if n["k"] == "Ref" and n.get("id") in self.objs else None

    def unit_of(self, n):
        """the tracked unit an lvalue expression designates (as a whole or an element of it)"""
        n = strip(n)
        whole = True
        while n is not None:
            k = n["k"]
            if k == "Ref":
                if n.get("id") in self.alias: return self.alias[n["id"]], False
                u = ("L", n.get("id"))
                if u in self.tracked: return u, whole
                return None, whole
            if k == "Mem":
                b = strip(n["b"])
                if b["k"] == "This" and n["n"] in self.own and self.rec: return ("T", n["n"]), whole
                oid = self.obj_id(b)
                if oid is not None and n["n"] in self.objs[oid][0]: return ("O", oid, n["n"]), whole
                return None, whole
            if k == "Idx": n = strip(n["b"]); whole = False; continue
            if k == "OpCall" and n["op"] in ("[]", "()") and n["a"]:
                n = strip(n["a"][0]); whole = False; continue
            if k == "MCall" and n.get("obj") is not None and n["n"] in ACC:
                n = strip(n["obj"]); whole = False; continue
            if k == "Un" and n["op"] in ("*", "&"): n = strip(n["e"]); whole = False; continue
            return None, whole
        return None, whole

    def check(self, u, n, s):
        self.D.tracked_reads += 1
        if u not in s: self.viol.append((u, n))

    def use(self, n, s):
        """evaluate n as a value"""
        return self.expr(n, s)

    def expr(self, n, s):
        if n is None or s is None: return s
        k = n["k"]
        if k in ("Block", "Decl", "Var", "If", "For", "While", "Do", "RFor", "Return", "OMP", "Switch", "Try", "Break", "Continue", "Case", "Default"): return self.stmt(n, s)
        if k == "Throw": return self.stmt(n, s)
        if k == "Lambda": return self.lam(n, s)
        if k in ("Ref", "Mem", "Idx") or (k == "OpCall" and n["op"] in ("[]", "()")) or (k == "Un" and n["op"] == "*"):
            u, _ = self.unit_of(n)
            if u is not None:
                s = self.subs(n, s)
                if s is None: return None
                if k in ("Ref", "Mem") and _ and self.kind_of(u) == "carray": return s | {u}   # decays to a pointer through which it may be filled
                self.check(u, n, s)
                return s
            if k == "Mem":
                b = strip(n["b"])
                if self.obj_id(b) is not None: return s
                return self.expr(n["b"], s)
            if n.get("id") in self.objs and k == "Ref":
                late, _ = self.objs[n["id"]]      # the object as a whole goes somewhere else
                return s | {("O", n["id"], f) for f in late}
            return s
        if k == "Cast" and n.get("t", {}).get("s") == "void": return s
        if k == "Asg":
            lhs, rhs = n["a"][0], n["a"][1]
            s = self.expr(rhs, s)
            if s is None: return None
            u, whole = self.unit_of(lhs)
            s = self.subs(lhs, s)
            if u is None: return self.assign_all(lhs, s) or self.expr(lhs, s)
            if n["op"] != "=": self.check(u, n, s)
            return s | {u}
        if k == "OpCall" and n["a"] and n["op"] in ("=", "+=", "-=", "*=", "/=", "<<"):
            s0 = s
            for a in n["a"][1:]: s = self.arg(a, s)
            u, whole = self.unit_of(n["a"][0])
            if u is None:
                b = n["a"][0]
                return (self.assign_all(b, s) if n["op"] == "=" else None) or self.expr(b, s)
            s = self.subs(n["a"][0], s)
            if n["op"] in ("+=", "-=", "*=", "/="): self.check(u, n, s)
            return s | {u}
        if k == "Un" and n["op"] in ("++", "--"):
            u, _ = self.unit_of(n["e"])
            s = self.subs(n["e"], s)
            if u is not None: self.check(u, n, s); return s
            return self.expr(n["e"], s)
        if k == "Un" and n["op"] == "&":
            u, _ = self.unit_of(n["e"])
            s = self.subs(n["e"], s)
            if u is not None: return s | {u}
            return self.expr(n["e"], s)
        if k == "Bin" and n["op"] in ("&&", "||"):
            cs = list(kids(n))
            s = self.expr(cs[0], s)
            self.expr(cs[1], s)
            return s
        if k == "Cond":
            s = self.expr(n["cond"], s)
            cv = const_of(n["cond"])
            if cv is not None:
                return self.expr(n["then"] if cv else n["else"], s)
            return self.join(self.expr(n["then"], s), self.expr(n["else"], s))
        if k == "MCall":
            return self.mcall(n, s)
        if k in ("Call", "Ctor", "OpCall", "New", "Init"):
            ps = self.params(n)
            args = n.get("a") or []
            if k == "Call" and n.get("fe") is not None and n.get("f") is None: s = self.expr(n["fe"], s)
            if k == "New" and n.get("init"): s = self.expr(n["init"], s)
            for i, a in enumerate(args): s = self.arg(a, s, ps[i] if ps and i < len(ps) else None)
            if k == "Call" and n.get("n") == "throw_critical": return None
            if k == "Call" and self.noreturn(n): return None
            return s
        if k == "This": return s
        for c in kids(n): s = self.expr(c, s)
        return s

    def assign_all(self, lhs, s):
        """*this = value / object = value: every member gets a value"""
        x = strip(lhs)
        if x["k"] == "Un" and x["op"] == "*" and strip(x["e"])["k"] == "This" and self.rec: return s | {("T", f) for f in self.own}
        oid = self.obj_id(x)
        if oid is not None: return s | {("O", oid, f) for f in self.objs[oid][0]}
        return None

    def noreturn(self, n):
        f = self.P.funcs.get(n.get("f"))
        if f is None or not f.body: return False
        return f["n"] == "throw_critical"

    def params(self, n):
        d = self.P.decls.get(n.get("f")) or {}
        return d.get("ps")

    def subs(self, n, s):
        """evaluate the index expressions inside a designator"""
        n = strip(n)
        while n is not None and s is not None:
            k = n["k"]
            if k == "Idx": s = self.expr(n["i"], s); n = strip(n["b"])
            elif k == "OpCall" and n["op"] in ("[]", "()"):
                for a in n["a"][1:]: s = self.expr(a, s)
                n = strip(n["a"][0])
            elif k == "MCall" and n.get("obj") is not None:
                for a in n["a"]: s = self.expr(a, s)
                n = strip(n["obj"])
            elif k == "Un": n = strip(n["e"])
            elif k == "Mem": n = strip(n["b"])
            else: break
        return s

    def arg(self, a, s, pt=None):
        """an operand passed to a function or operator"""
        u, whole = self.unit_of(a)
        if u is None: return self.expr(a, s)
        s = self.subs(a, s)
        kind = self.kind_of(u)
        x = strip(a)
        addr = x["k"] == "Un" and x["op"] == "&"
        if pt is None:
            if addr or kind in ("carray", "array"): return s | {u}      # unknown callee given storage
            self.check(u, a, s); return s
        if pt.get("ref"):
            if self.const_ref(pt): self.check(u, a, s); return s
            return s | {u}
        p = pt.get("ptr")
        if p is not None and (addr or (kind != "scalar" and self.rank_left(a))):
            if p.get("const") or p["s"].startswith("const "): self.check(u, a, s); return s
            return s | {u}
        self.check(u, a, s)
        return s

    @staticmethod
    def rank_left(a):
        x = strip(a)
        return "elem" in x["t"] or x["k"] in ("MCall", "Un")

    @staticmethod
    def const_ref(t): return bool(t.get("const")) or t["s"].startswith("const ")

    def kind_of(self, u):
        if u[0] == "L": return unit_kind(self.tracked[u]["t"])
        rec = self.rec
        if u[0] == "O":
            t = self.objs[u[1]][1]["t"]
            while "elem" in t and not t.get("rec"): t = t["elem"]
            rec = t.get("rec")
        for f in self.D.fields(rec):
            if f["n"] == u[-1]: return unit_kind(f["t"])
        return None

    def mcall(self, n, s):
        obj = n.get("obj")
        ps = self.params(n)
        o = strip(obj) if obj is not None else None
        u, whole = self.unit_of(obj) if obj is not None else (None, True)
        name = n["n"]
        if u is not None:
            for i, a in enumerate(n["a"]): s = self.arg(a, s, ps[i] if ps and i < len(ps) else None)
            s = self.subs(obj, s)
            if s is None: return None
            if name in SETTERS: return s | {u}
            if name in ("data", "begin", "rbegin"): return s | {u}     # storage handed out, may be filled through it
            if name in NEUTRAL or name in ACC or name in ("noalias", "operator="): return s
            d = self.P.decls.get(n.get("f")) or {}
            if self.kind_of(u) == "scalar" : return s | {u}
            if d.get("const") or True:
                self.check(u, n, s)
            return s
        for i, a in enumerate(n["a"]): s = self.arg(a, s, ps[i] if ps and i < len(ps) else None)
        if s is None: return None
        fs = self.P.targets(n) if n.get("f") else []
        if self.in_inits and o is not None and o["k"] == "Mem" and strip(o["b"])["k"] == "This" and o["n"] in self.fieldset and ("C", o["n"]) not in s and not o["t"].get("ref"):
            self.viol.append((("T", o["n"]), n))
        if o is not None and o["k"] == "This" and self.rec and fs and self.depth < 8:
            if len(fs) == 1 and fs[0].get("cls") == self.rec:
                return self.inline(fs[0], s, {("T", f): ("T", f) for f in self.own}, n)
            return s
        oid = self.obj_id(obj) if o is not None else None
        if oid is not None and fs:
            late, v = self.objs[oid]
            if len(fs) == 1 and self.depth < 8:
                m = {("O", oid, f): ("T", f) for f in late}
                return self.inline(fs[0], s, m, n, late)
            return s | {("O", oid, f) for f in late}
        if obj is not None: s = self.expr(obj, s)
        return s

    def inline(self, f, s, m, call, late=None):
        """run callee f; m maps caller units to the callee's member units"""
        w = Walker(self.D, f, f.get("cls"), depth=self.depth + 1)
        if late is None: inner = frozenset(v for k, v in m.items() if k in s)
        else:
            inner = frozenset(("T", x) for x in w.own if x not in late) | frozenset(v for k, v in m.items() if k in s)
        out = w.finish(w.run(f.body, inner))
        back = {v: k for k, v in m.items()}
        for (u, nd) in w.viol:
            if u in back: self.viol.append((back[u], dict(call, via=f["q"], inner=nd.get("l"))))
        if out is None: return s if not w.retn else None
        return s | frozenset(back[u] for u in out if u in back)

    def lam(self, n, s):
        add = set()
        for x in walk(n["body"]):
            if x["k"] in ("Asg", "OpCall") and x["a"]:
                u, _ = self.unit_of(x["a"][0])
                if u is not None: add.add(u)
        for x in walk(n["body"]):
            if x["k"] == "Ref" and x.get("id") in self.objs: add |= {("O", x["id"], f) for f in self.objs[x["id"]][0]}
        return s | frozenset(add)


ACC = set("""array matrix transpose col row head tail segment block topRows bottomRows leftCols rightCols middleRows middleCols rowwise colwise diagonal reshaped
 noalias at front back data begin end topLeftCorner bottomRightCorner coeffRef coeff real derived""".split())
SETTERS = set("setZero setOnes setConstant fill setRandom setIdentity setLinSpaced swap assign resize".split())
NEUTRAL = set("rows cols size max_size empty innerStride outerStride".split())
