"""R01: no data race between the iterations of any parallel loop.

For every OpenMP parallel loop, in every instantiation, all code an iteration can reach is
analysed for the memory it may read or write.  A write is harmless when it only touches memory
private to the iteration (locals, the iteration's own element of a container indexed by an
injective function of the loop variable, objects owned by that element), when all accesses to
the cell are atomic, or when every access is made under a common lock.  Everything else that
another iteration may also touch is reported.

Also checked: a reduction variable is only updated with the operator its reduction clause names,
and locks are never nested in a way that can deadlock (no lock acquired while a lock of the same
kind is held, no cyclic order between kinds of lock).

Facts about data structures which the analysis takes as given are listed in FACTS."""
import multiprocessing, os, re
from hx.ir import walk, kids
from hx.effects import Effects, Val, Place, EMPTY

# pointers that lead to distinct objects when they are different pointers: (pattern of the path before the hop, reason)
FACTS = [
    (r"Accessible_mesh::smooth_verts\[\]$", "smooth_verts holds at most one pointer to each vertex (filled from vertices(), one entry each)"),
    (r"Accessible_mesh::boundary_verts\[\]\[\]$", "boundary_verts[i] holds at most one pointer to each vertex (guarded by Vertex::record)"),
    (r"Accessible_mesh::vert_ptrs\[\]$", "vert_ptrs holds one pointer to each vertex"),
    (r"Accessible_mesh::extrude_cons\[\]$", "every extruded connection is listed once"),
    (r"Element::tree$", "Mutual_ptr pairs objects one to one"),
    (r"Tree::elem$", "Mutual_ptr pairs objects one to one"),
]
# (pattern of a whole path) memory behind a hop which belongs to the object before the hop
OWNED = [
    (r"(Refined_connection|Fine_connection|face_connection|bound_connection|Face_connection)<[^|]*(\*|->).*\|(f_nrml|faces)\[\]", "a face of an element (and the data its face pointers refer to) belongs to exactly one connection (Mesh::valid)"),
]
PRIV_CLAUSES = {"private", "firstprivate", "lastprivate", "linear"}


class Region(Effects):
    """runs a function body; records accesses only inside the target construct"""
    def __init__(self, P, f, target):
        super().__init__(P)
        self.f, self.target = f, target
        self.hit = False
        self.entry = None
        self.reds, self.privs = {}, set()

    def go(self):
        f = self.f
        self.fn = f
        self.rets = []
        self.env["this"] = Val([Place(("this",), ())])
        for p in f["params"]:
            if p["t"].get("ref"): self.env[p["id"]] = Val([Place(("sh", p["id"], p.get("n", "")), ())])
        self.callables(f)
        self.stack.append(f["key"])
        self.prefix(f.body)
        return self

    def callables(self, f):
        """what the callers pass for parameters that are callable"""
        for j, p in enumerate(f["params"]):
            if "std::function" not in p["t"]["s"]: continue
            clo = closures(self.P, f["key"], j)
            if not clo: continue
            self.lams = getattr(self, "lams", {})
            c = set()
            for kind, x in clo:
                if kind == "fn": c.add(("fn", x))
                else:
                    self.lams[x["id"]] = x; c.add(("lam", x["id"], frozenset([Place(("this",), ())])))
            self.env[p["id"]] = Val([Place(("sh", p["id"], p.get("n", "")), ())], (), None, False, c)

    def prefix(self, n):
        """walk to the target, binding the locals on the way"""
        k = n["k"]
        if n is self.target: self.region(n); return True
        if not any(x is self.target for x in walk(n)):
            if k in ("Decl", "Var"): self.quiet(lambda: self.run(n))
            elif k == "Asg" and n["a"][0].get("t", {}).get("cls") == "ptr": self.quiet(lambda: self.run(n))
            return False
        for c in kids(n):
            if k == "RFor" and c is n["body"]: self.quiet(lambda: self.range_elem(n))
            if k == "Lambda" and c.get("k") == "Var": self.env[c["id"]] = Val([Place(("sh", c["id"], c["n"]), ())])
            if self.prefix(c): return True
        return False

    def quiet(self, fn):
        save = self.accesses; self.accesses = set()
        fn()
        self.accesses = save

    def region(self, n):
        self.hit = True
        self.entry = set(self.env)
        self.memo = {}
        self.accesses = set(); self.events = []; self.locks = (); self.lock_orders = set()
        for c in n["clauses"]:
            ids = [v["id"] for v in c.get("vars", []) if isinstance(v, dict) and "id" in v]
            if c["n"] == "reduction":
                for i in ids: self.reds[i] = c.get("op")
            elif c["n"] in PRIV_CLAUSES: self.privs |= set(ids)
        for i in list(self.reds) + list(self.privs): self.env[i] = Val([Place(("red", i), ())])
        b = n.get("body")
        self.par(b, n["dir"])

    def par(self, b, dir):
        while b is not None and b["k"] in ("Block",) and len(b["c"]) == 1 and "for" in dir: b = b["c"][0]
        if "for" in dir and b["k"] == "For":
            self.loop(b)
        elif "for" in dir and b["k"] == "RFor":
            for _ in range(2):
                self.range_elem(b, inj=True); self.run(b["body"])
        else:
            self.inner = True
            self.run(b)

    def loop(self, b):
        ini = b.get("init")
        vid = None
        if ini is not None and ini["k"] == "Decl":
            v = ini["c"][0]; vid = v["id"]
            if v.get("init"): self.use(v["init"])
        elif ini is not None and ini["k"] == "Asg" and ini["a"][0]["k"] == "Ref": vid = ini["a"][0]["id"]
        if vid: self.env[vid] = Val([Place(("loopvar", vid), ())], (), "i", True)
        self.entry.discard(vid)
        if b.get("cond"): self.use(b["cond"])
        save = self.assigned
        for _ in range(2): self.run(b["body"])

    def s_OMP(self, n):
        if self.hit and n["dir"] == "for":
            return self.loop(n["body"])
        return super().s_OMP(n)

    # ---- classification ----
    def shared_root(self, p):
        r = p.root
        if r[0] in ("tmp", "loopvar", "red"): return False
        if r[0] == "priv":
            if r[1] in self.privs or r[1] in self.reds: return False
            return r[1] in self.entry
        if r[0] == "sh": return r[1] not in self.privs and r[1] not in self.reds
        return True

    def classify(self, p):
        """-> (kind, key): kind 'P' private, 'X' partitioned by iteration, 'S' may be shared by iterations"""
        if not self.shared_root(p): 
            # memory reached from a private variable through pointers may be shared
            if not any(s[0] == "*" for s in p.steps): return ("P", None)
        steps = p.steps
        hop = max([i for i, s in enumerate(steps) if s[0] == "*" and not distinct(steps, i)], default=-1)
        inj = [i for i, s in enumerate(steps) if s[0] == "[]" and s[2] and i > hop]
        fs = [i for i, s in enumerate(steps) if s[0] == "f" and i > hop]
        # identity: the field (or variable) that holds the memory, and the steps below it
        if fs:
            last = fs[-1]; key = (steps[last][1],); rest = steps[last + 1:]
        elif hop >= 0:
            j = max([i for i, s in enumerate(steps) if s[0] == "f" and i <= hop], default=None)
            key = ("*" + (steps[j][1] if j is not None else str(p.root[1:2])),); rest = steps[hop + 1:]
        else:
            key = ("root:" + ":".join(str(x) for x in p.root),); rest = steps
        tail = tuple(s[0] if s[0] != "[]" else ("[]", s[1]) for s in rest)
        kind = "X" if inj else "S"
        part = tuple((i, steps[i][1]) for i in inj)
        return (kind, (key, tail, tuple(steps[:inj[0] + 1]) if inj else None))


def call_index(P):
    if not hasattr(P, "_callidx"):
        P._callidx = {}
        for f in P.concrete():
            for n in walk(f.body):
                if n["k"] in ("Call", "MCall", "Ctor") and n.get("f") in P.funcs:
                    P._callidx.setdefault(n["f"], []).append((f, n))
    return P._callidx


def closures(P, key, j, seen=None):
    """functions and lambdas passed as the j-th argument of a function anywhere"""
    seen = seen if seen is not None else set()
    if (key, j) in seen: return []
    seen.add((key, j))
    out = []
    for f, n in call_index(P).get(key, []):
        if j >= len(n["a"]): continue
        todo = [n["a"][j]]
        while todo:
            e = todo.pop()
            k = e["k"]
            if k == "Fn": out.append(("fn", e["f"]))
            elif k == "Lambda": out.append(("lam", e))
            elif k in ("ICast", "Cast"): todo.append(e["e"])
            elif k == "Un" and e["op"] == "&": todo.append(e["e"])
            elif k in ("Ctor", "Init"): todo += e["a"]
            elif k == "Call" and P.decls.get(e.get("f"), {}).get("q") == "std::move": todo += e["a"]
            elif k == "Cond": todo += [e["then"], e["else"]]
            elif k == "Ref":
                for m, p in enumerate(f["params"]):
                    if p["id"] == e["id"]: out += closures(P, f["key"], m, seen)
                for x in walk(f.body):
                    if x["k"] == "Var" and x.get("id") == e["id"] and x.get("init"): todo.append(x["init"])
    return out


_pat = [(re.compile(r), why) for r, why in FACTS]
FACEDATA = {"hexed::Element::faces", "hexed::Deformed_element::f_nrml"}
CONN = re.compile(r"(Fine_connection|Refined_connection<.*>|Element_face_connection<.*>|Typed_bound_connection<.*>)::\w+$")
_dcache = {}


def spell(steps):
    out = ""
    for s in steps:
        out += {"f": lambda: "." + s[1], "[]": lambda: "[]", "*": lambda: "->", "u": lambda: "", "b": lambda: ""}[s[0]]()
    return out


def distinct(steps, i):
    """does the pointer hop at position i preserve distinctness"""
    key = (steps, i)
    if key not in _dcache:
        t = spell(steps[:i])
        r = any(p.search(t) for p, _ in _pat)
        if not r and any(s[0] == "f" and s[1] in FACEDATA for s in steps[i + 1:i + 3]):
            # an element's face reached through a connection belongs to that connection
            r = any(s[0] == "f" and CONN.search(s[1]) for s in steps[:i])
        if not r and i > 0 and steps[i - 1] == ("f", "hexed::Refined_connection<hexed::Deformed_element>::Fine_connection::ref_con") or steps[i - 1] == ("f", "hexed::Refined_connection<hexed::Element>::Fine_connection::ref_con"):
            r = any(s[0] == "f" and s[1].endswith("::fine_cons") for s in steps[:i])  # back to the owner
        if not r and re.search(r"extrude_cons\[\]->\.hexed::Element_face_connection<hexed::Deformed_element>::elems\[\]$", t) and steps[i - 1][1] == "0": r = True
        _dcache[key] = r
    return _dcache[key]


def disjoint(a, b):
    """facts that two paths never lead to the same object"""
    ta, tb = spell(a.steps), spell(b.steps)
    for x, y, p, q in ((ta, tb, a, b), (tb, ta, b, a)):
        # elements reached through the tree are never the outer element of an extruded connection
        if re.search(r"extrude_cons\[\]->\.hexed::Element_face_connection<hexed::Deformed_element>::elems\[\]->\.\S+$", x) and outer(p) and re.search(r"Tree::elem->\.[\w:]+$", y): return True
    return False


def outer(p):
    for i, s in enumerate(p.steps):
        if s[0] == "f" and s[1].endswith("Element_face_connection<hexed::Deformed_element>::elems"): return p.steps[i + 1][1] == "0"
    return False


def untyped(steps):
    """a virtual call may be resolved to several instantiations of one template: treat their fields alike"""
    return tuple((s[0], re.sub(r"<[^<>]*>", "", s[1])) if s[0] == "f" else s for s in steps)


def related(a, b):
    """may the two cells overlap: same holder, one a part of the other, indices not provably distinct constants"""
    if a[0] != b[0]: return False
    for x, y in zip(a[1], b[1]):
        if x == y: continue
        xs, ys = isinstance(x, tuple), isinstance(y, tuple)
        if xs and ys:
            if x[1] is not None and y[1] is not None and x[1].lstrip("-").isdigit() and y[1].lstrip("-").isdigit(): return False
            continue
        return False
    return True


def regions(P):
    seen = {}
    for f in P.concrete():
        if f["file"].startswith("/"): continue
        bodies = [f.body] + [i["e"] for i in f.get("inits", []) if i.get("e")]
        for b in bodies:
            stack = [(b, False)]
            while stack:
                n, inside = stack.pop()
                par = n["k"] == "OMP" and "parallel" in n["dir"]
                if par and not inside: yield f, n
                for c in kids(n): stack.append((c, inside or par))


def show_place(p):
    r = {"this": "this", "glob": p.root[1] if len(p.root) > 1 else "", "sh": p.root[-1], "priv": p.root[-1]}.get(p.root[0], p.root[0])
    out = str(r)
    for s in p.steps:
        if s[0] == "f": out += "." + s[1].split("::")[-1]
        elif s[0] == "[]": out += "[%s]" % (s[1] if s[1] is not None and len(str(s[1])) < 20 else "?")
        elif s[0] == "*": out += "->*"
    return out


def common_lock(a, b):
    """a critical section, or a lock belonging to the object accessed"""
    if "critical" in a.locks and "critical" in b.locks: return True
    def own(x):
        for l in x.locks:
            if l == "critical": continue
            for q in l:
                # the lock is a member of the same object as the cell
                if q.steps and any(q.steps[:-1] == x.place.steps[:len(q.steps) - 1] and q.root == x.place.root for _ in (0,)): return True
        return False
    return own(a) and own(b)


def analyse(P, f, n):
    E = Region(P, f, n)
    E.go()
    return E


def conflicts(E):
    accs = {}
    for a in E.accesses:
        c = E.classify(a.place)
        if c[0] == "P": continue
        accs.setdefault(c[1][0], []).append((a, c))
    out = []
    for key, lst in accs.items():
        ws = [x for x in lst if x[0].rw == "W"]
        if not ws: continue
        for w, wc in ws:
            for o, oc in lst:
                if wc[0] == "X" and oc[0] == "X":
                    # both in the iteration's own partition: only a problem when the partitions are shifted
                    if untyped(wc[1][2]) == untyped(oc[1][2]): continue
                    if untyped(wc[1][2][:-1]) != untyped(oc[1][2][:-1]) and not any(s[0] == "*" for s in w.place.steps + o.place.steps): continue
                elif wc[0] == "X" and oc is wc: continue
                if disjoint(w.place, o.place): continue
                if not related(wc[1], oc[1]): continue
                if w.atomic and o.atomic: continue
                if common_lock(w, o): continue
                out.append((w, o, wc, oc))
    return out


# ---- reductions ----
def strip(e):
    while e["k"] in ("ICast", "Cast", "Paren"): e = e["e"]
    return e


def is_var(e, i):
    e = strip(e)
    return e["k"] == "Ref" and e["id"] == i


def minmax_call(P, e, name, i):
    """min/max of the variable and something else: std::min, fmin, a conditional expression"""
    e = strip(e)
    if e["k"] == "Call":
        d = P.decls.get(e.get("f"), {})
        if d.get("n") in (name, "f" + name) and any(is_var(a, i) for a in e["a"]): return True
        if d.get("n") in (name, "f" + name) and any(minmax_call(P, a, name, i) for a in e["a"]): return True
        return any(a["k"] == "Init" and any(is_var(x, i) for x in a["a"]) for a in map(strip, e["a"])) and d.get("n") == name
    if e["k"] == "Cond":
        return guarded(e["cond"], name, i, e["then"], e["else"])
    return False


def guarded(c, name, i, then, els):
    c = strip(c)
    if c["k"] != "Bin" or c["op"] not in ("<", ">", "<=", ">="): return False
    a, b = c["a"]
    less = c["op"][0] == "<"
    if is_var(a, i): less = not less      # v < e  -> the new value is larger
    elif not is_var(b, i): return False
    # `less` now says: under the condition the other value is smaller than the variable
    takes_var_then = is_var(then, i)
    smaller = less != takes_var_then
    return smaller == (name == "min")


OPS = {"operator+": ("+", "+="), "operator-": ("-", "-="), "operator*": ("*", "*="), "operator||": ("||", "|="), "operator&&": ("&&", "&="), "operator|": ("|", "|="), "operator&": ("&", "&=")}


def update_ok(P, n, op, i):
    """is the assignment n of reduction variable i an accumulation with operator op"""
    r = strip(n["a"][1])
    if op in ("min", "max"):
        return n["op"] == "=" and minmax_call(P, r, op, i)
    sym, comp = OPS.get(op, (None, None))
    if n["op"] == comp: return True
    if op in ("operator+", "operator-") and n["op"] in ("+=", "-="): return True
    if n["op"] != "=": return False
    if op == "operator||" and r["k"] in ("Bool", "Int") and r["v"]: return True
    if op == "operator&&" and r["k"] in ("Bool", "Int") and not r["v"]: return True
    def chain(e):
        e = strip(e)
        if is_var(e, i): return True
        if e["k"] == "Bin" and (e["op"] == sym or sym == "||" and e["op"] == "|" or sym == "&&" and e["op"] == "&"):
            return chain(e["a"][0]) or (sym not in ("-",) and chain(e["a"][1]))
        if e["k"] == "Bin" and sym == "+" and e["op"] == "-": return chain(e["a"][0])
        return False
    if chain(r): return True
    # e ? v : true  etc.
    if r["k"] == "Cond" and sym in ("||", "&&"): return is_var(r["then"], i) or is_var(r["else"], i)
    return False


def reductions(P, n):
    """-> list of (ok, line, text)"""
    out = []
    for c in n["clauses"]:
        if c["n"] != "reduction": continue
        for v in c.get("vars", []):
            i = v.get("id"); op = c.get("op", "")
            parents = {}
            for x in walk(n["body"]):
                for y in kids(x): parents[id(y)] = x
            for x in walk(n["body"]):
                if x["k"] == "Asg" and is_var(x["a"][0], i):
                    ok = update_ok(P, x, op, i)
                    if not ok and op in ("min", "max") and x["op"] == "=":
                        p = parents.get(id(x))
                        while p is not None and p["k"] == "Block": p = parents.get(id(p))
                        if p is not None and p["k"] == "If" and not p.get("else"):
                            cond = p["cond"]
                            ok = guarded(cond, op, i, x["a"][1], v)
                    out.append((ok, x["l"], "%s is reduced with %s but updated differently" % (v.get("n"), op)))
                elif x["k"] == "Un" and x["op"] in ("++", "--") and is_var(x["e"], i):
                    out.append((op in ("operator+", "operator-"), x["l"], "%s is reduced with %s but incremented" % (v.get("n"), op)))
    return out


# ---- locks ----
def lock_kind(places):
    out = set()
    for p in places:
        fs = [s[1] for s in p.steps if s[0] == "f"]
        out.add(fs[-1] if fs else ":".join(str(x) for x in p.root))
    return out


class Whole(Region):
    """a whole function as a root (used for lock nesting outside of parallel regions)"""
    def go(self):
        f = self.f
        self.fn = f; self.rets = []
        self.env["this"] = Val([Place(("this",), ())])
        for p in f["params"]:
            self.env[p["id"]] = Val([Place(("sh", p["id"], p.get("n", "")), ())])
        self.stack.append(f["key"])
        self.entry = set(self.env)
        self.run(f.body)
        return self


def find_cycles(edges):
    """edges: {(a, b): where}; returns list of (cycle, where)"""
    out = []
    g = {}
    for (a, b) in edges: g.setdefault(a, set()).add(b)
    for (a, b), w in edges.items():
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x == a: out.append(((a, b), w)); break
            if x in seen: continue
            seen.add(x); todo += list(g.get(x, ()))
    return out


_G = {}


def job(i):
    kind, f, n = _G["jobs"][i]
    P = _G["P"]
    if kind == "locks":
        E = Whole(P, f, None).go()
        return i, [], 0, [(sorted(lock_kind(h) if h != "critical" else {"critical"}), sorted(lock_kind(l)), w, q) for h, l, w, q in E.lock_orders], sorted(E.incomplete), []
    E = analyse(P, f, n)
    bykey = {}
    for w, o, wc, oc in conflicts(E): bykey.setdefault((wc[1][0][0], w.fn, o.fn), (w, o))
    res = [(k, show_place(w.place), w.where, w.fn, o.rw, show_place(o.place), o.where) for k, (w, o) in sorted(bykey.items())]
    lo = [(sorted(lock_kind(h) if h != "critical" else {"critical"}), sorted(lock_kind(l)), w, q) for h, l, w, q in E.lock_orders]
    return i, res, len(E.accesses), lo, sorted(E.incomplete), reductions(P, n)


def run(P, R):
    R.explanation = __doc__
    jobs = [("par", f, n) for f, n in regions(P)]
    nreg = len(jobs)
    seen = set()
    for f in P.concrete():
        if f["file"].startswith("/") or f["key"] in seen: continue
        if any(x["k"] == "Var" and x["t"].get("rec") == "hexed::Lock::Acquire" for x in walk(f.body)):
            seen.add(f["key"]); jobs.append(("locks", f, None))
    _G["P"], _G["jobs"] = P, jobs
    P.targets  # noqa: warm
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        results = pool.map(job, range(len(jobs)), chunksize=4)
    orders = {}
    for i, res, nacc, lo, inc, reds in sorted(results):
        kind, f, n = jobs[i]
        for h, l, w, q in lo:
            for a in h:
                for b in l: orders.setdefault((a, b), "%s (%s)" % (w, q))
        if kind == "locks":
            R.count("functions acquiring locks")
            continue
        where = "%s:%d" % (f["file"], n["l"])
        R.count("parallel regions"); R.count("memory accesses", nacc)
        if not res: R.ok("race", where, f["q"])
        for k, wp, ww, wf, rw, op, ow in res:
            R.bad("race", where, "race:%s:%s:%s:%s" % (f["q"], k[0], k[1], k[2]), "%s: write of %s at %s (%s) races with %s of %s at %s" % (f["q"], wp, ww, wf, {"R": "read", "W": "write"}[rw], op, ow))
        for ok, line, text in reds:
            if ok: R.ok("reduction", "%s:%d" % (f["file"], line), f["q"])
            else: R.bad("reduction", "%s:%d" % (f["file"], line), "reduction:%s:%s" % (f["q"], text), "%s: %s" % (f["q"], text))
    bad = find_cycles(orders)
    for (a, b), w in bad: R.bad("lock-order", w, "lock:%s:%s" % (a, b), "%s is acquired while %s is held: may deadlock" % (b, a))
    for (a, b), w in orders.items():
        if not any(x == (a, b) for x, _ in bad): R.ok("lock-order", w, "%s then %s" % (a, b))
