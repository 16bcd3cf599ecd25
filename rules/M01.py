"""M01: files written to save the mesh and the flow state are read back into what was written.

Every function that opens an HDF5 file is evaluated abstractly (hx/flow.py): the value of each attribute, and of each
column of each dataset row it writes, is the member of the mesh it was taken from; what a reader does with a column is
the member it is stored into (or the constructor argument it becomes).  Writers and readers are paired by the suffix of
the file name, and what is read is compared with what is written column by column."""
import os, re
from hx.ir import walk, kids
from hx.extract import REPO
from hx.flow import Flow, Fork, Budget, Loc, Ptr, Lab, H, TOP, tt, step, addr, lin, mk, plus, is_term

CONSTS = {"row_size": 5, "n_stage": 7, "n_var": 11, "n_forcing": 13}
PRED = {"NATIVE_INT": "int", "NATIVE_DOUBLE": "double", "NATIVE_HBOOL": "bool", "NATIVE_FLOAT": "float", "NATIVE_LONG": "long", "NATIVE_UINT": "unsigned int", "NATIVE_CHAR": "char", "NATIVE_SHORT": "short"}
DOC = "doc/mesh_io.dox"


def dirty(t):
    """a part of the term is not decided"""
    if not isinstance(t, tuple): return False
    if t and t[0] == "it": return False
    if t and t[0] in ("alt", "top", "obj", "havoc", "tmp", "ctor", "*s"): return True
    return any(dirty(x) for x in t[1:])


def sub(t, f):
    """bottom-up rewriting"""
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        if t[0] == "alt": return ("alt", frozenset(sub(x, f) for x in t[1]))
        if t[0] == "lin":
            out = 0
            for k, c in t[1]:
                k2 = 1 if k == 1 else sub(k, f)
                out = plus(out, mk({a: b * c for a, b in lin(k2 if k != 1 else 1).items()}))
            return f(out)
        t = (t[0],) + tuple(sub(x, f) for x in t[1:])
        if t[0] == "addr" and isinstance(t[1], tuple) and t[1][:1] == ("deref",): t = t[1][1]
        elif t[0] == "deref" and isinstance(t[1], tuple) and t[1][:1] == ("addr",): t = t[1][1]
        elif t[0] in ("<", ">", "==", "!=", "<=", ">=", "!") and all(isinstance(x, (int, float)) for x in t[1:]): t = fold(t)
    return f(t) if isinstance(t, tuple) else t


def fold(t):
    o, a = t[0], t[1]
    b = t[2] if len(t) > 2 else None
    return {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b, "!": lambda: not a}[o]()


def contains(t, p):
    if p(t): return True
    if isinstance(t, tuple):
        return any(contains(x, p) for x in (t[1] if t and t[0] == "alt" else t[1:]))
    return False


def cols(t): 
    out = []
    def f(x):
        if isinstance(x, tuple) and x[:1] == ("col",): out.append(x)
        return x
    sub(t, f)
    return out


def pr(t):
    """readable form of a term"""
    if isinstance(t, bool): return str(t).lower()
    if not isinstance(t, tuple): return str(t)
    if not t: return "()"
    k = t[0]
    if len(t) == 1: return str(k)
    if k == "fld": return "%s%s" % ("" if t[1] == ("this",) else pr(t[1]) + ".", t[2])
    if k == "at": return "%s[%s]" % (pr(t[1]), pr(t[2]))
    if k == "deref": return "(*%s)" % pr(t[1])
    if k == "addr": return "&" + pr(t[1])
    if k == "it": return "i"
    if k == "col": return "column %s of %s" % (pr(t[3]), t[1])
    if k == "size": return "size(%s)" % pr(t[1])
    if k == "lin": return " + ".join(pr(a) if c == 1 else str(c) if a == 1 else "%s*%s" % (c, pr(a)) for a, c in t[1])
    if k == "glob": return t[1].split("::")[-1]
    if k == "table": return "local table"
    if k == "alt": return "{%s}" % " | ".join(sorted(pr(x) for x in t[1]))
    return "%s(%s)" % (k, ", ".join(pr(x) for x in t[1:]))


class M:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.openers = []
        for f in P.concrete():
            if f.body is None or not f["file"].startswith(("src/", "include/")): continue
            nodes = list(walk(f.body))
            if any(n["k"] == "Ctor" and n["t"]["s"].replace("const ", "") == "H5::H5File" and [a for a in n["a"] if not a.get("def")] for n in nodes): self.openers.append(f)
        self.opq = {"vertex_inds", "face_vertex_inds", "eat", "set_face", "connect_normal", "create_tree", "add_boundary_condition", "cleanup", "omp_init_lock", "calc_jacobian"}
        self.opq |= {f.q.split("::")[-1] for f in self.openers if not f.get("kind") == "ctor"}
        self.bools = {(r["key"], fl["n"]) for r in P.records.values() for fl in r["fields"] if fl["t"]["s"].replace("const ", "") == "bool" and r["key"].startswith("hexed::Refined_connection<")}
        self.boolnames = {n for _, n in self.bools}

    def flag(self, t): return isinstance(t, tuple) and t[:1] == ("fld",) and t[2] in self.boolnames

    def evaluate(self, f, n_dim, dyn=None):
        """one result per context of the orientation flags"""
        out, todo = [], [{}]
        consts = {"hexed::Storage_params::" + k: v for k, v in dict(CONSTS, n_dim=n_dim).items()}
        while todo:
            forks = todo.pop()
            F = Flow(self.P, consts, forks=forks, flag=self.flag, dyn=dyn, opaque=self.opq, budget=400000)
            F.nframe += 1
            env = {"#frame": F.nframe, "#this": Loc((("T", ("this",)),)), "#rets": [], "#f": f}
            for p in f["params"]: env[p["id"]] = Loc((("T", ("param", p["n"])),))
            F.f, F.forked = f, forks
            try:
                r = F.exec(f.body, env)
                F.ret = F.argterm(r[1]) if isinstance(r, tuple) and r[1] is not None else None
                F.retcells = {k[len(r[1]):]: F.deep(v) for k, v in F.mem.items() if k[:len(r[1])] == r[1]} if isinstance(r, tuple) and isinstance(r[1], Loc) else {}
                out.append(F)
            except Fork as e:
                if len(forks) >= 4: return []
                for v in (False, True): todo.append(dict(forks, **{}) | {e.term: v})
            except (Budget, RecursionError): return []
        return out


def suffix(F):
    """(suffix of the file name, truncates)"""
    out = set()
    for e in F.events:
        h = e.get("file")
        while isinstance(h, H) and h.kind != "file": h = getattr(h, "file", None)
        if isinstance(h, H) and isinstance(h.name, (tuple, str)):
            nm = h.name[-1] if isinstance(h.name, tuple) and h.name[0] == "cat" else h.name
            if isinstance(nm, str): out.add(nm)
    return out


def where(F, e): return "%s:%s" % (F.f["file"], e.get("l") or F.f["line"])


def run(P, R):
    m = M(P, R)
    R.need(m.openers, "functions opening an HDF5 file")
    for nd in (1, 2, 3): one(m, P, R, nd)
    doc(m, P, R)
    R.explanation = __doc__
    R.assumptions += ["HDF5 behaves as documented", "records of elements and vertices (Element::record, Vertex::record) are not changed between the statements of the writer",
                      "a table of pointers filled in the loop over the rows of a dataset is indexed by row number"]


def one(m, P, R, nd):
    W, Rd = {}, {}
    for f in m.openers:
        for F in m.evaluate(f, nd):
            evs = [e["ev"] for e in F.events]
            for s in suffix(F):
                if any(x in ("create", "ds_write", "attr_write") for x in evs): W.setdefault(s, []).append(F)
                if any(x in ("open", "ds_read", "attr_read") for x in evs): Rd.setdefault(s, []).append(F)
    m.last = getattr(m, "last", {}); m.last[nd] = (W, Rd)
    for s in sorted(set(W) | set(Rd)):
        if not s.endswith(".h5"): continue
        ws, rs = W.get(s, []), Rd.get(s, [])
        R.count("evaluations", len(ws) + len(rs))
        R.count("columns_written", sum(len(e["cells"] or ()) for F in ws for e in F.events if e["ev"] == "ds_write"))
        if not ws:
            if W: R.bad("pairing", rs[0].f["file"], "suffix:" + s, "%s reads files named *%s, which no function writes" % (rs[0].f.q, s))
            continue
        if not rs:
            R.notes.append("files *%s are written and never read" % s); continue
        attributes(m, P, R, ws, rs, s)
        datasets(m, P, R, ws, rs, s, nd)
        roundtrip(m, P, R, ws, rs, s, nd)


# ---------------------------------------------------------------- attributes
def attributes(m, P, R, ws, rs, s):
    wr, rd = {}, {}
    for F in ws:
        for e in F.events:
            if e["ev"] == "attr_write": wr.setdefault(e["path"], []).append((F, e)); types(R, F, e, "attribute")
    for F in rs:
        for e in F.events:
            if e["ev"] == "attr_read":
                rd.setdefault(e["path"], []).append((F, e)); types(R, F, e, "attribute")
    for a, l in sorted(rd.items()):
        if not isinstance(a, str): continue
        F, e = l[0]
        if a not in wr:
            if all(isinstance(x, str) for x in wr): R.bad("attributes", where(F, e), "attr:%s:missing" % a, "%s reads the attribute '%s', which the writer of *%s never writes" % (F.f.q, a, s))
        else:
            w = wr[a][0][1]
            if w["type"] and e["mem"] and PRED.get(w["type"]) and PRED.get(e["mem"]) and kind(w["type"]) != kind(e["mem"]):
                R.bad("attributes", where(F, e), "attr:%s:type" % a, "attribute '%s' is written as %s and read as %s" % (a, w["type"], e["mem"]))
            else: R.ok("attributes", F.f.q, "'%s' is written" % a)
    # the member an attribute is taken from is the member it restores
    for F in rs:
        for path, v in F.retcells.items():
            if not (isinstance(v, tuple) and v[:1] == ("attr",)) or v[1] not in wr or not path: continue
            src = wr[v[1]][0][1]["val"]
            name = path[-1][1]
            if isinstance(src, tuple) and src[:1] == ("fld",) and not dirty(src):
                if src[2] != name: R.bad("attributes", F.f.q, "attr:%s:member" % v[1], "%s restores the member %s from the attribute '%s', into which the writer puts %s" % (F.f.q, name, v[1], src[2]))
                else: R.ok("attributes", F.f.q, "member %s <- '%s' <- member %s" % (name, v[1], src[2]))
        if isinstance(F.ret, tuple) and F.ret[:1] == ("attr",) and F.ret[1] in wr:
            restored(m, P, R, F, F.ret[1], wr[F.ret[1]][0][1]["val"])


def restored(m, P, R, F, a, src):
    """a reader that returns one attribute: the constructor parameter it is passed as initialises the member it was taken from"""
    for g in P.concrete():
        if g.get("kind") != "ctor": continue
        for i in g.get("inits", []):
            if "deleg" not in i: continue
            c = strip(i["e"])
            for j, x in enumerate(c.get("a", [])):
                if not any(n["k"] == "Call" and n.get("f") == F.f["key"] for n in walk(x)): continue
                t = P.funcs.get(c.get("f"))
                if t is None or not isinstance(src, tuple) or src[:1] != ("fld",): continue
                pid = t["params"][j]["id"]
                tgt = [q for q in t.get("inits", []) if q.get("e") and strip(q["e"])["k"] == "Ref" and strip(q["e"]).get("id") == pid and q.get("field")]
                if not tgt: continue
                if all(q["field"] != src[2] for q in tgt):
                    R.bad("attributes", g.q, "attr:%s:member" % a, "%s initialises %s from the attribute '%s', into which the writer puts %s" % (g.q, tgt[0]["field"], a, src[2]))
                else: R.ok("attributes", g.q, "member %s <- '%s'" % (src[2], a))


def strip(n):
    while n is not None and (n["k"] in ("Cast", "ICast") or (n["k"] in ("Init", "Ctor") and len(n.get("a", [])) == 1 and not n.get("f"))): n = n["e"] if "e" in n else n["a"][0]
    return n


def kind(p): return "float" if "DOUBLE" in p or "FLOAT" in p else "int"


def types(R, F, e, what):
    """the memory type passed to HDF5 is that of the buffer"""
    mem, cty = e["mem"], e["cty"]
    if mem == "file": mem = e.get("dtype")
    if mem not in PRED or not cty: return
    if cty.startswith("type-parameter") or cty in ("void",): return
    good = PRED[mem] == cty
    if not good: R.bad("types", where(F, e), "type:%s:%s" % (e["ev"], e["path"]), "%s passes a buffer of %s to HDF5 as %s (%s '%s')" % (F.f.q, cty, mem, what, e["path"]))
    else: R.ok("types", F.f.q, "%s '%s': %s as %s" % (what, e["path"], cty, mem))


# ---------------------------------------------------------------- datasets
def datasets(m, P, R, ws, rs, s, nd):
    made, m.made = {}, {}
    for F in ws:
        for e in F.events:
            if e["ev"] == "create" and isinstance(e["path"], str): made.setdefault(e["path"], []).append((F, e))
    if ws[0].f["file"]: m.made = made
    for F in ws + rs:
        for e in F.events:
            if e["ev"] in ("ds_write", "ds_read") and isinstance(e["path"], str) and e["path"] in made:
                c = made[e["path"]][0][1]
                e["dtype"] = c["type"]
                types(R, F, e, "dataset")
                if e["mem"] in PRED and c["type"] in PRED and kind(e["mem"]) != kind(c["type"]):
                    R.bad("types", where(F, e), "type:%s:%s:kind" % (e["ev"], e["path"]), "%s accesses the dataset '%s' (%s) as %s" % (F.f.q, e["path"], c["type"], e["mem"]))
    for F in rs:
        for e in F.events:
            if e["ev"] == "open" and isinstance(e["path"], str):
                if e["path"] not in made: R.bad("datasets", where(F, e), "open:" + e["path"], "%s opens the dataset '%s', which the writer of *%s never creates" % (F.f.q, e["path"], s))
                else: R.ok("datasets", F.f.q, "'%s' is created" % e["path"])
    # the rows and columns written cover the dataset and stay inside
    for path, l in sorted(made.items()):
        F, c = l[0]
        if not c["dims"]: continue
        ds = [e for e in F.events if e["ev"] == "ds_write" and e["path"] == path]
        if not ds:
            R.bad("datasets", where(F, c), "unwritten:" + path, "%s creates the dataset '%s' and writes nothing into it" % (F.f.q, path)); continue
        for e in ds:
            if not e["sel"] or not e["sel"][0]: continue
            cnt, off = e["sel"][0], e["sel"][1]
            for k in range(1, min(len(cnt), len(c["dims"]))):
                d, n, o = c["dims"][k], cnt[k], off[k] if off and len(off) > k else None
                if isinstance(n, int) and isinstance(d, int) and isinstance(o, int):
                    if o != 0 or n != d: R.bad("datasets", where(F, e), "cols:" + path, "'%s' has %d columns (n_dim = %d); %s writes columns %d to %d" % (path, d, nd, F.f.q, o, o + n - 1))
                    else: R.ok("datasets", F.f.q, "'%s': all %d columns are written (n_dim = %d)" % (path, d, nd))
            # a buffer shorter or longer than the selection
            mc = e["mdims"]
            if mc and all(isinstance(x, int) for x in mc) and all(isinstance(x, int) for x in cnt) and prod(mc) != prod(cnt):
                R.bad("datasets", where(F, e), "mem:" + path, "%s selects %d values of '%s' and provides %d" % (F.f.q, prod(cnt), path, prod(mc)))
        tile(R, F, c, path, ds)
    for F in rs:
        for e in F.events:
            if e["ev"] != "ds_read" or not e["sel"] or not e["sel"][0] or not isinstance(e["path"], str) or e["path"] not in made: continue
            d = made[e["path"]][0][1]["dims"]
            cnt, off = e["sel"][0], e["sel"][1]
            for k in range(1, min(len(cnt), len(d or ()))):
                if isinstance(cnt[k], int) and isinstance(d[k], int) and isinstance(off[k], int):
                    if off[k] + cnt[k] > d[k]: R.bad("datasets", where(F, e), "rcols:" + e["path"], "%s reads %d columns of '%s', which has %d (n_dim = %d)" % (F.f.q, off[k] + cnt[k], e["path"], d[k], nd))
                    else: R.ok("datasets", F.f.q, "'%s': columns read exist (n_dim = %d)" % (e["path"], nd))
            extent(R, F, e, made)


def extent(R, F, e, made):
    """the loop over the rows read runs to the row count of a dataset that has as many rows"""
    it = e["row"]
    if not (isinstance(it, tuple) and it[:1] == ("it",)): return
    b = it[3]
    if not (isinstance(b, tuple) and b[:1] == ("extent",) and b[1] in made): return
    a, c = made[b[1]][0][1]["dims"], made[e["path"]][0][1]["dims"]
    if not a or not c: return
    x, y = a[b[2]], c[0]
    if dirty(x) or dirty(y): return
    if x != y: R.bad("datasets", where(F, e), "extent:" + e["path"], "%s reads as many rows of '%s' (%s) as '%s' has in dimension %d (%s)" % (F.f.q, e["path"], pr(y), b[1], b[2], pr(x)))
    else: R.ok("datasets", F.f.q, "'%s': every row is read" % e["path"])


def prod(l):
    r = 1
    for x in l: r *= x
    return r


def tile(R, F, c, path, ds):
    """the rows written by the loops cover the dataset once"""
    total, want = 0, c["dims"][0]
    starts = []
    for e in ds:
        r = e["row"]
        if r is None or dirty(r): return
        its = [k for k in lin(r) if isinstance(k, tuple) and k[:1] == ("it",)]
        if not its and isinstance(r, int): starts.append((r, 1)); continue
        if len(its) != 1 or lin(r)[its[0]] != 1: return
        it = its[0]
        if dirty(it[3]) or not isinstance(it[2], int): return
        starts.append((plus(mk({k: v for k, v in lin(r).items() if k != it}), it[2]), plus(it[3], -it[2])))
    if any(isinstance(g[0], tuple) and g[0][:1] == ("loop",) and len(g[0]) != 4 for e in ds for g in e["g"]): return
    if any(isinstance(want, tuple) and contains(want, lambda x: isinstance(x, tuple) and x[:1] == ("call",)) for _ in (0,)): return
    pos, left = 0, list(starts)
    while left:
        nxt = [x for x in left if x[0] == pos]
        if not nxt:
            if all(comparable(x[0], pos) for x in left):
                R.bad("datasets", where(F, ds[0]), "rows:" + path, "%s leaves row %s of '%s' unwritten (rows written start at %s)" % (F.f.q, pr(pos), path, ", ".join(pr(x[0]) for x in left)))
            return
        left.remove(nxt[0])
        pos = plus(pos, nxt[0][1])
    if dirty(want) or not comparable(pos, want): return
    if pos != want: R.bad("datasets", where(F, ds[0]), "rows:" + path, "'%s' has %s rows; %s writes %s" % (path, pr(want), F.f.q, pr(pos)))
    else: R.ok("datasets", F.f.q, "'%s': %s rows" % (path, pr(want)))


def sizes(t): return {k for k in lin(t) if k != 1}


def comparable(a, b):
    """both are sums of sizes of members of the mesh"""
    return all(isinstance(k, tuple) and k[:1] == ("size",) and not dirty(k) for x in (a, b) for k in sizes(x))


# ---------------------------------------------------------------- round trip
class Book:
    """what the columns of one writer evaluation contain"""
    def __init__(self, F):
        self.F = F
        self.rows = {}
        for e in F.events:
            if e["ev"] == "ds_write": self.rows.setdefault(e["path"], []).append(e)


def inst(t, it, j):
    """t with the loop index replaced"""
    return sub(t, lambda x: j if x == it else x) if t != it else j


def colval(e, k, F=None):
    """term the writer puts into column k (an integer or a term)"""
    cells = e["cells"] or {}
    if k in cells and not symbolic(cells, k): return cells[k]
    for key, v in cells.items():
        if isinstance(key, int): continue
        its = [x for x in lin(key) if isinstance(x, tuple) and x[:1] == ("it",)]
        if len(its) != 1 or lin(key)[its[0]] != 1: continue
        off = mk({x: c for x, c in lin(key).items() if x != its[0]})
        if isinstance(v, int): continue          # filler
        j = plus(k, mk({x: -c for x, c in lin(off).items()}))
        start = its[0][2]
        if isinstance(j, int) and isinstance(start, int) and j < start: continue
        return inst(v, its[0], j)
    return cells.get(k, TOP)


def symbolic(cells, k):
    """constant cells are overwritten by a loop with a symbolic index"""
    for key, v in cells.items():
        if isinstance(key, int) or isinstance(v, int): continue
        its = [x for x in lin(key) if isinstance(x, tuple) and x[:1] == ("it",)]
        if len(its) == 1 and isinstance(its[0][2], int):
            off = mk({x: c for x, c in lin(key).items() if x != its[0]})
            if isinstance(off, int) and k >= off + its[0][2] and (dirty(cells[k]) or unresolved(cells[k])): return True
    return False


def records(t):
    """the number an object was written under denotes the object: at(table, record(E)) -> &E"""
    if isinstance(t, tuple) and t[:1] == ("at",) and isinstance(t[1], tuple) and t[1][:1] == ("table",):
        i = t[2]
        if isinstance(i, tuple) and i[:1] == ("fld",) and i[2] == "record": return addr(i[1])
    if isinstance(t, tuple) and t[:1] == ("addr",) and isinstance(t[1], tuple) and t[1][:1] == ("fld",):
        o = t[1][1]         # &((*p._mine).member) is p for the partner p of a Mutual_ptr
        if isinstance(o, tuple) and o[:1] == ("deref",) and isinstance(o[1], tuple) and o[1][:1] == ("fld",) and o[1][2] == "_mine" and isinstance(o[1][1], tuple) and o[1][1][:1] == ("deref",): return o[1][1][1]
    return t


def resolve(t, e, path, F):
    """replace columns of one dataset by what the writer puts there, tables by the row they were filled from"""
    def f(x):
        if isinstance(x, tuple) and x[:1] == ("col",) and x[1] == path: return tt(colval(e, x[3]))
        if isinstance(x, tuple) and x[:1] == ("at",) and isinstance(x[1], tuple) and x[1][:1] == ("table",) and x[1] in F.tables:
            it, v = F.tables[x[1]]
            v = tt(v) if not isinstance(v, (Ptr, Loc)) else F.argterm(v)
            if isinstance(it, tuple) and contains(v, lambda y: isinstance(y, tuple) and y[:1] == ("col",) and y[1] == path):
                its = [k for k in lin(it) if isinstance(k, tuple) and k[:1] == ("it",)]
                if len(its) == 1 and lin(it) == {its[0]: 1}: return sub(inst(v, its[0], x[2]), f)
        return records(x)
    return sub(t, f)


def primary(P, rec):
    """members a constructor copies from its parameters: {member: parameter}, and members that are copies of another"""
    out, alias = {}, {}
    for g in P.concrete():
        if g.get("kind") != "ctor" or g.get("cls") != rec or not g["params"]: continue
        if len(g["params"]) == 1 and g["params"][0]["t"].get("rec") == rec: continue
        byp = {}
        for i in g.get("inits", []):
            if not i.get("field") or i.get("e") is None: continue
            x = i["e"]
            while True:
                y = strip(x)
                if y["k"] == "Un" and y["op"] == "*": y = strip(y["e"])
                if y["k"] in ("Init", "Ctor") and len([a for a in y["a"] if not a.get("def")]) == 1 and y["t"].get("rec", y["t"]["s"]) == y["a"][0]["t"].get("rec", y["a"][0]["t"]["s"]): x = y["a"][0]; continue
                break
            if y["k"] == "Ref" and any(p["id"] == y.get("id") for p in g["params"]):
                if y["id"] in byp: alias[i["field"]] = byp[y["id"]]
                else: byp[y["id"]] = i["field"]; out[i["field"]] = y["id"]
    return out, alias


def roundtrip(m, P, R, ws, rs, s, nd):
    for F in rs:
        for e in F.events:
            if e["ev"] == "new": construct(m, P, R, ws, F, e, nd)
            elif e["ev"] == "store": store(m, P, R, ws, F, e, nd)
            elif e["ev"] == "ds_read": block(m, P, R, ws, F, e, nd)
            elif e["ev"] == "rec": recursion(m, P, R, ws, F, e, nd)
    for F in rs: guarded(R, ws, F, nd)
    for F in ws: numbering(m, P, R, F)
    for F in rs: indices(m, P, R, ws, F, nd)
    if any(e["ev"] == "new" for F in rs for e in F.events): classes(m, P, R, ws, rs, nd)


def indices(m, P, R, ws, F, nd):
    """a column used to look up a table that has one entry per row of a dataset holds the numbers recorded for those rows"""
    seen = set()
    for ev in F.events:
        ts = list(ev.get("cells", {}).values()) if isinstance(ev.get("cells"), dict) else []
        ts += [x for x in (ev.get("ptr"), ev.get("obj")) if isinstance(x, tuple)]
        if "val" in ev and ev["val"] is not None: ts.append(F.argterm(ev["val"]) if isinstance(ev["val"], (Ptr, Loc)) else tt(ev["val"]))
        for t in ts:
            def f(x):
                if isinstance(x, tuple) and x[:1] == ("at",) and isinstance(x[1], tuple) and x[1][:1] == ("table",) and x[1] in F.tables and isinstance(x[2], tuple) and x[2][:1] == ("col",): seen.add(x)
                return x
            sub(t, f)
    for x in sorted(seen, key=repr):
        it = F.tables[x[1]][0]
        if not (isinstance(it, tuple) and it[:1] == ("it",) and isinstance(it[3], tuple) and it[3][:1] == ("extent",)): continue
        D, k = x[2][1], x[2][3]
        for W in ws:
            for e in Book(W).rows.get(D, []):
                v = colval(e, k)
                if not isinstance(v, tuple) or dirty(v) or unresolved(v): continue
                if contains(v, lambda y: isinstance(y, tuple) and y[:1] == ("fld",) and y[2] == "record"): R.ok("indices", F.f.q, "column %s of '%s' holds recorded numbers (n_dim = %d)" % (pr(k), D, nd))
                else: R.bad("indices", where(W, e), "index:%s:%s" % (D, pr(k)), "%s uses column %s of '%s' as the number of an element; %s writes %s there" % (F.f.q, pr(k), D, W.f.q, pr(v)))


def classes(m, P, R, ws, rs, nd):
    """objects are put into the container of the class that the flag in the file stands for"""
    sels = {}
    for F in rs:
        for e in F.events:
            if e["ev"] != "append" or not isinstance(e["obj"], tuple): continue
            T = container(P, e["obj"])
            if T is None: continue
            for g, pol in e["g"]:
                while isinstance(g, tuple) and g[:1] == ("!",): g, pol = g[1], not pol
                if isinstance(g, tuple) and g[:1] == ("col",) and isinstance(g[1], str) and isinstance(g[3], int): sels.setdefault((g[1], g[3]), {}).setdefault((T, pol), (F, e))
    for (D, k), use in sorted(sels.items()):
        kinds = {T for T, _ in use}
        for W in ws:
            for e in Book(W).rows.get(D, []):
                own = [x for x in W.events if x["ev"] == "store" and isinstance(x["dst"], tuple) and x["dst"][:1] == ("fld",) and x["dst"][2] == "record" and x["val"] == e["row"]]
                if not own: continue
                flag = {}
                for T in kinds:
                    for W2 in m.evaluate(W.f, nd, dyn={own[0]["dst"][1]: T})[:1]:
                        for e2 in Book(W2).rows.get(D, []):
                            v = (e2["cells"] or {}).get(k)
                            if isinstance(v, tuple) and v[:1] == ("!",) and isinstance(v[1], tuple) and v[1][:1] == ("glob",): v = not gval(P, v[1])
                            if isinstance(v, tuple) and v[:1] == ("glob",): v = gval(P, v)
                            if isinstance(v, (bool, int)): flag[T] = bool(v)
                if len(flag) != len(kinds) or len(set(flag.values())) != len(flag): continue
                for (T, pol), (F, a) in sorted(use.items(), key=repr):
                    if flag[T] == pol: R.ok("roundtrip", F.f.q, "'%s' = %s selects %s (n_dim = %d)" % (D, str(pol).lower(), T, nd))
                    else: R.bad("roundtrip", F.f.q, "class:%s:%s" % (D, T.split("::")[-1]), "%s creates a %s for rows where '%s' is %s; %s writes %s there for such an element" % (F.f.q, T, D, str(pol).lower(), W.f.q, str(flag[T]).lower()))
            break


def gval(P, t):
    k = t[1][2:] if t[1].startswith("G:") else t[1]
    for v in (P.vars.values() if isinstance(P.vars, dict) else P.vars):
        if v.get("q") == k or v.get("id") == t[1]:
            i = v.get("init")
            if i is not None and ("cv" in i or "v" in i): return i.get("cv", i.get("v"))
    for f in P.concrete():
        if f.body is None: continue
        for n in walk(f.body):
            if n["k"] == "Ref" and n.get("id") == t[1] and "cv" in n: return n["cv"]
    return t


def container(P, t):
    while isinstance(t, tuple) and t[:1] in (("fld",), ("at",), ("deref",)):
        ty = typeof(P, t)
        for a in tmpl(ty or ""):
            if a in ("hexed::Element", "hexed::Deformed_element"): return a
        t = t[1]
    return None


def used(cells):
    out = set()
    for v in cells: out |= {c[1] for c in cols(v)}
    return out


def generic(rec, e):
    """the object a row of the writer describes: the longest prefix of its terms that selects one object of the container"""
    return None


def construct(m, P, R, ws, F, ev, nd):
    """members given to a constructed object are the members of the object the row was written from"""
    rec = ev["rec"]
    if not isinstance(rec, str) or rec not in P.records: return
    prim, alias = primary(P, rec)
    cells = {}
    for path, v in ev["cells"].items():
        if path and path[0][0] == "f" and path[0][1] in prim:
            if path[-1] in (("size",), ("i", "*"), ("back",)): continue
            cells[path] = v
    ds = [d for d in used(list(cells.values()) + [x for c in cells.values() for x in deepcols(F, c)]) if isinstance(d, str)]
    con = [d for d in ds if d.startswith("connections/")] or ds
    if rec.endswith("lement") and not rec.startswith("hexed::Element_"): return element(m, P, R, ws, F, ev, nd)
    if len(con) != 1: return
    D = con[0]
    for W in ws:
        for e in [x for x in Book(W).rows.get(D, [])]:
            owner = objof(P, W, e, rec, prim)
            if owner is None: continue
            compare(m, P, R, F, W, ev, e, D, rec, prim, cells, owner, nd)


def deepcols(F, t):
    out = []
    def f(x):
        if isinstance(x, tuple) and x[:1] == ("at",) and isinstance(x[1], tuple) and x[1] in F.tables:
            v = F.tables[x[1]][1]
            out.append(F.argterm(v) if isinstance(v, (Ptr, Loc)) else tt(v))
        return x
    sub(t, f)
    return out


def objof(P, W, e, rec, prim):
    """term of the object (of the class the reader constructs) whose members the row holds"""
    best = {}
    for v in (e["cells"] or {}).values():
        def f(x):
            if isinstance(x, tuple) and x[:1] == ("fld",) and x[2] in prim: best[x[1]] = best.get(x[1], 0) + 1
            return x
        sub(v, f)
    its = [k for k in lin(e["row"]) if isinstance(k, tuple) and k[:1] == ("it",)] if e["row"] is not None else []
    c = [o for o in best if its and contains(o, lambda x: x == its[0])]
    if not c: return None
    c.sort(key=lambda o: len(repr(o)))
    o = c[0]
    t = elemtype(P, o)
    if t is not None and t in P.records and t != rec and t not in P.bases(rec): return None
    return o


def elemtype(P, o):
    """class of the object a path designates, by the declared types along it"""
    return typeof(P, o)


def tmpl(s):
    """template arguments of a type name"""
    i = s.find("<")
    if i < 0: return []
    d, cur, out = 0, "", []
    for ch in s[i + 1:s.rindex(">")]:
        if ch == "<": d += 1
        if ch == ">": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    return out + [cur.strip()]


def typeof(P, t):
    """declared type (as a string without references) of a term, or None"""
    if t == ("this",): return "hexed::Accessible_mesh"
    if not isinstance(t, tuple): return None
    if t[0] == "fld":
        o = typeof(P, t[1])
        if o is None: return None
        o = o.replace("const ", "")
        if o not in P.records: return None
        for c in [o] + P.bases(o):
            if c in P.records:
                for fl in P.records[c]["fields"]:
                    if fl["n"] == t[2]: return fl["t"]["s"].replace("const ", "").rstrip(" &")
        return None
    if t[0] in ("at", "deref"):
        o = typeof(P, t[1])
        if o is None: return None
        if o.endswith("*"): return o[:-1].strip().replace("const ", "")
        a = tmpl(o)
        if a and not o.endswith("*"): return a[0].replace("const ", "").rstrip(" &")
    return None


def compare(m, P, R, F, W, ev, e, D, rec, prim, cells, owner, nd):
    short = rec.replace("hexed::", "")
    flips = {}
    for path, v in cells.items():
        if len(path) == 1 and path[0][1] in m.boolnames:
            want = ("fld", owner, path[0][1])
            if want in W.forked:
                got = resolve(v, e, D, F)
                if isinstance(got, (bool, int)): flips[path[0][1]] = (W.forked[want], bool(got))
    sided = any(len(p) == 3 and p[2][0] == "i" for p in cells if p[0][1] in prim and isdir(P, rec, p[0][1]))
    flipped = any(a != b for a, b in flips.values())
    for k, (a, b) in flips.items():
        if a != b and not sided:
            R.bad("roundtrip", F.f.q, "field:%s:%s" % (short, k), "a %s with %s = %s is read back with %s = %s (%s)" % (short, k, str(a).lower(), k, str(b).lower(), D))
        elif a == b: R.ok("roundtrip", F.f.q, "%s.%s (n_dim = %d)" % (short, k, nd))
    for path, v in sorted(cells.items(), key=repr):
        name = path[0][1]
        if name in flips: continue
        exp = ("fld", owner, name)
        for st in path[1:]:
            if st[0] == "i" and flipped and isdir(P, rec, name) and isinstance(st[1], int): st = ("i", 1 - st[1])
            exp = step(exp, st)
        if len(path) > 1 and path[-1][0] == "i" and not isinstance(path[-1][1], int):
            if not isinstance(path[-1][1], tuple) or path[-1][1][:1] != ("it",): continue
            j = ("it", "#j", 0, TOP)
            exp, v = inst(exp, path[-1][1], j), inst(v, path[-1][1], j)
        fl = fieldtype(P, rec, name)
        got = resolve(v, e, D, F)
        if len(path) == 1 and fl is not None and isvector(fl):
            j = ("it", "#j", 0, TOP)
            got = resolve(("at", v, j), e, D, F)
            exp = ("at", exp, j)
        elif len(path) == 1 and fl is not None and fl.get("ref"): exp = ("deref", exp) if False else exp; got = got if not (isinstance(got, tuple) and got[:1] == ("addr",)) else got[1]
        elif len(path) == 1 and got == ("addr", ("deref", exp)): got = exp
        got, exp = canon(got), canon(exp)
        if fl is not None and fl.get("ref") and isinstance(got, tuple) and got[:1] != ("fld",): got = canon(("deref", got)) if canon(("deref", got)) == exp else got
        if dirty(got) or dirty(exp) or cols(got) or unresolved(got): continue
        if got == exp or (isinstance(got, tuple) and got == canon(("addr", exp))):
            R.ok("roundtrip", F.f.q, "%s.%s <- %s (n_dim = %d)" % (short, pr(exp).replace(pr(owner) + ".", ""), D, nd))
        elif isinstance(got, (int, bool)) and constfield(P, rec, name, got, W, owner):
            R.ok("roundtrip", F.f.q, "%s.%s is always %s" % (short, name, got))
        else:
            n = pr(exp).replace(pr(owner) + ".", "")
            R.bad("roundtrip", F.f.q, "field:%s:%s" % (short, n), "%s: reading '%s' gives %s.%s the value that was %s when the file was written (n_dim = %d)" % (F.f.q, D, short, n, pr(got).replace(pr(owner) + ".", ""), nd))


def unresolved(t): return contains(t, lambda x: isinstance(x, tuple) and x[:1] in (("call",), ("ite",), ("v",), ("new",), ("param",), ("reccall",), ("table",)))


def isdir(P, rec, name):
    f = fieldtype(P, rec, name)
    return f is not None and "Con_dir<" in f["s"]


def isvector(t): return t["s"].replace("const ", "").startswith("std::vector<")


def fieldtype(P, rec, name):
    for c in [rec] + P.bases(rec):
        for fl in (P.records.get(c) or {"fields": []})["fields"]:
            if fl["n"] == name: return fl["t"]
    return None


def canon(t): return sub(t, lambda x: x)


def constfield(P, rec, name, val, W, owner):
    """every construction of the class passes the default (or the same constant) for the parameter that becomes the member"""
    prim, _ = primary(P, rec)
    pid = prim.get(name)
    n = 0
    for f in P.concrete():
        if not f["file"].startswith(("src/", "include/")): continue
        for b in [f.body] + [i.get("e") for i in f.get("inits", [])]:
            if b is None: continue
            for x in walk(b):
                if x["k"] != "Ctor" or x["t"].get("rec") != rec: continue
                g = P.funcs.get(x.get("f"))
                if g is None: continue
                for p, a in zip(g["params"], x["a"]):
                    if p["id"] != pid: continue
                    n += 1
                    if a.get("def"): continue
                    vals = [y for y in walk(a) if y["k"] in ("Bool", "Int")]
                    if any(y["k"] in ("Ref", "Mem", "Call", "MCall", "OpCall", "Idx", "This") for y in walk(a)): return False
                    if any(int(y.get("v", 0)) != int(val) for y in vals): return False
    return n > 0


# ---------------------------------------------------------------- elements, vertices, tree
def element(m, P, R, ws, F, ev, nd):
    """an element is created with the position and refinement level on its row"""
    short = ev["rec"].replace("hexed::", "")
    for path, v in ev["cells"].items():
        if not path or path[0][0] != "f": continue
        cs = cols(v)
        if len(cs) != 1 or v != cs[0]: continue
        D = cs[0][1]
        for W in ws:
            for e in Book(W).rows.get(D, []):
                got = colval(e, cs[0][3])
                if dirty(got) or not isinstance(got, tuple): continue
                exp_path = tuple(path)
                tail = tailof(got, len(exp_path))
                if tail is None: continue
                n = "".join("." + s[1] if s[0] == "f" else "[%s]" % s[1] for s in exp_path).lstrip(".")
                if tail == exp_path: R.ok("roundtrip", F.f.q, "%s.%s <- %s (n_dim = %d)" % (short, n, D, nd))
                else: R.bad("roundtrip", F.f.q, "field:Element:" + n, "%s: %s of an element is set from column %s of '%s', which holds %s" % (F.f.q, n, pr(cs[0][3]), D, pr(got)))


def tailof(t, n):
    out = []
    while len(out) < n:
        if isinstance(t, tuple) and t[:1] == ("fld",): out.append(("f", t[2])); t = t[1]
        elif isinstance(t, tuple) and t[:1] == ("at",): out.append(("i", t[2])); t = t[1]
        else: return None
    return tuple(reversed(out))


def store(m, P, R, ws, F, ev, nd):
    """a member that the reader sets from a column is the member the column was taken from"""
    v = ev["val"]
    v = F.argterm(v) if isinstance(v, (Ptr, Loc)) else tt(v)
    ds = {c[1] for c in cols(v)} | {c[1] for x in deepcols(F, v) for c in cols(x)}
    cs = [c for c in cols(v)]
    if len({c[1] for c in cs}) != 1: return
    D = cs[0][1]
    if not isinstance(D, str) or D.startswith("connections/"): return
    dst = ev["dst"]
    if dirty(dst) or contains(dst, lambda x: isinstance(x, tuple) and x[:1] in (("new",), ("v",))): return
    for W in ws:
        for e in Book(W).rows.get(D, []):
            got = canon(resolve(v, e, D, F))
            if dirty(got) or cols(got) or unresolved(got) or isinstance(got, (int, bool)): continue
            d = canon(dst)
            if not contains(got, lambda x: x == ("this",)) or not contains(d, lambda x: x == ("this",)): continue
            if got == d or got == canon(("addr", d)) or got == strip_deref(d): R.ok("roundtrip", F.f.q, "%s <- column of %s (n_dim = %d)" % (pr(d), D, nd))
            elif objpath(got) == objpath(d) and (typeof(P, d) in ("int", "double", "bool") or any(contains(tt(c), lambda x: x == d) for c in (e["cells"] or {}).values())): R.bad("roundtrip", F.f.q, "store:" + pr(d), "%s sets %s from a column of '%s' that holds %s" % (F.f.q, pr(d), D, pr(got)))


def guarded(R, ws, F, nd):
    """a member restored from a column is restored in every row in which the writer stores it"""
    groups = {}
    for e in F.events:
        if e["ev"] != "store": continue
        v = e["val"] if isinstance(e["val"], (Ptr, Loc)) else tt(e["val"])
        if isinstance(v, tuple) and v[:1] == ("col",) and isinstance(v[1], str) and isinstance(v[3], int) and not dirty(e["dst"]): groups.setdefault((e["dst"], v), []).append(e)
    for (dst, v), evs in sorted(groups.items(), key=repr):
        D, row, k = v[1:]
        for W in ws:
            for e in Book(W).rows.get(D, []):
                w = colval(e, k)
                if not isinstance(w, tuple) or dirty(w) or cols(w) or unresolved(w): continue
                lost = None
                for s in evs:
                    out = set()
                    for c, pol in s["g"]:
                        cs = {x for x in cols(c) if x[1] == D and x[2] == row}
                        if len(cs) != 1 or any(x not in cs for x in cols(c)): continue
                        x = next(iter(cs))
                        if x[3] == k or not isinstance(x[3], int): continue
                        if e["conditional"].get(x[3]) and not e["conditional"].get(k): out.add((x[3], c))
                    lost = out if lost is None else lost & out
                if lost: R.bad("roundtrip", F.f.q, "guard:" + pr(dst), "%s restores %s from column %d of '%s' only if %s; %s stores it in every row, also where it leaves column %d empty" % (F.f.q, pr(dst), k, D, pr(sorted(lost, key=repr)[0][1]), W.f.q, sorted(lost, key=repr)[0][0]))
                else: R.ok("roundtrip", F.f.q, "%s is restored in every row of '%s' (n_dim = %d)" % (pr(dst), D, nd))


def strip_deref(t): return t[1] if isinstance(t, tuple) and t[:1] == ("deref",) else t


def objpath(t):
    """the object whose member a term is"""
    while isinstance(t, tuple) and t[:1] in (("fld",), ("at",), ("deref",), ("addr",)) and typeish(t): t = t[1]
    return t


def typeish(t): return not (isinstance(t, tuple) and t[:1] == ("deref",) and isinstance(t[1], tuple) and t[1][:1] == ("fld",) and t[1][2] == "tree" and t[1][1] == ("this",))


def block(m, P, R, ws, F, ev, nd):
    """a row read straight into an object: the object is the one the row was written from"""
    D, ptr, row = ev["path"], ev["ptr"], ev["row"]
    if not isinstance(D, str) or ptr is None: return
    for W in ws:
        for e in Book(W).rows.get(D, []):
            wp, wr = e["ptr"], e["row"]
            if wp is None or dirty(wp): continue
            if D == "vertices/position" or (isinstance(row, tuple) and row[:1] == ("col",)):
                indirect(m, P, R, ws, W, F, ev, e, nd); continue
            its = [k for k in lin(wr) if isinstance(k, tuple) and k[:1] == ("it",)] if wr is not None else []
            if len(its) != 1 or lin(wr) != {its[0]: 1}: continue
            exp = canon(inst(wp, its[0], row))
            if not contains(exp, lambda x: x == ("this",)): continue
            got = ptr
            for D2 in {c[1] for c in cols(ptr)}:
                for e2 in Book(W).rows.get(D2, []):
                    i2 = [k for k in lin(e2["row"]) if isinstance(k, tuple) and k[:1] == ("it",)]
                    if len(i2) != 1 or lin(e2["row"]) != {i2[0]: 1}: continue
                    def f(x):
                        if isinstance(x, tuple) and x[:1] == ("col",) and x[1] == D2: return inst(tt(colval(e2, x[3])), i2[0], x[2])
                        return records(x)
                    got = sub(ptr, f)
            got = canon(got)
            if D == "state" or True:
                if dirty(got) or cols(got) or unresolved(got): continue
                if not contains(got, lambda x: x == ("this",)): continue
            a, b = unit(P, got), unit(P, exp)
            if a == b: R.ok("roundtrip", F.f.q, "rows of '%s' go back to %s (n_dim = %d)" % (D, pr(exp), nd))
            else: R.bad("roundtrip", F.f.q, "block:" + D, "%s reads rows of '%s' into %s; they were written from %s" % (F.f.q, D, pr(a), pr(b)))


def unit(P, t):
    """index variables of different loops with the same range are the same"""
    return sub(t, lambda x: ("it", "#", x[2], TOP) if isinstance(x, tuple) and x[:1] == ("it",) else x)


def indirect(m, P, R, ws, W, F, ev, e, nd):
    """a row looked up through an index column: position of vertex i of an element"""
    row, ptr = ev["row"], ev["ptr"]
    if not (isinstance(row, tuple) and row[:1] == ("col",)): return
    for e2 in Book(W).rows.get(row[1], []):
        w = colval(e2, row[3])
        if dirty(w): continue
        # w names the object by its record; the reader must write into the object reached the same way
        a = owner_of(w); b = owner_of(sub(ptr, lambda x: x) if ptr[:1] != ("addr",) else ptr[1])
        if a is None or b is None: continue
        ta, tb = after(a, "vertices"), after(b, "vertices")
        if ta is None or tb is None or dirty(ta) or dirty(tb): continue
        if ta == tb: R.ok("roundtrip", F.f.q, "'%s' row by '%s' column %s (n_dim = %d)" % (ev["path"], row[1], pr(row[3]), nd))
        else: R.bad("roundtrip", F.f.q, "indirect:%s" % ev["path"], "%s puts the row of '%s' named by column %s of '%s' (%s) into %s" % (F.f.q, ev["path"], pr(row[3]), row[1], pr(w), pr(ptr)))


def owner_of(t):
    """object whose member (or element of a member) the term is"""
    while isinstance(t, tuple) and t[:1] == ("at",): t = t[1]
    return t[1] if isinstance(t, tuple) and t[:1] == ("fld",) else None


def after(t, name):
    """path below the member `name`"""
    out = []
    while isinstance(t, tuple) and t:
        if t[0] == "fld":
            if t[2] == name: return tuple(reversed(out))
            out.append(("f", t[2])); t = t[1]
        elif t[0] == "at": out.append(("i", t[2])); t = t[1]
        elif t[0] == "deref": out.append(("*",)); t = t[1]
        else: return None
    return None


def numbering(m, P, R, W):
    """the number recorded for an object is the row it is written to; rows of a recursively written table are those returned"""
    for e in W.events:
        it, obj, val = None, None, None
        if e["ev"] == "append" and isinstance(e["obj"], tuple) and e["obj"][:1] == ("fld",) and e["obj"][2] == "record": obj, val = e["obj"][1], e["val"]
        if e["ev"] == "store" and isinstance(e["dst"], tuple) and e["dst"][:1] == ("fld",) and e["dst"][2] == "record": obj, val = e["dst"][1], e["val"]
        if obj is None: continue
        val = tt(val) if not isinstance(val, (Ptr, Loc)) else None
        its = [x for x in (obj[2:] if obj[:1] == ("at",) else ())]
        rows = [d for d in W.events if d["ev"] == "ds_write" and d["cells"] and any(contains(c, lambda x: x == obj) for c in d["cells"].values())]
        for d in rows:
            if d["row"] is None or dirty(d["row"]) or val is None or dirty(val): continue
            if not isinstance(d["row"], tuple) or d["row"][:1] != ("it",): continue
            if any(contains(c, lambda x: isinstance(x, tuple) and x[:1] == ("fld",) and x[2] == "record" and x[1] == obj) for c in d["cells"].values()): continue
            if val == d["row"]: R.ok("numbering", W.f.q, "%s is recorded under its row in '%s'" % (pr(obj), d["path"]))
            else: R.bad("numbering", where(W, d), "record:" + d["path"], "%s writes %s to row %s of '%s' and records it as number %s" % (W.f.q, pr(obj), pr(d["row"]), d["path"], pr(val)))
    rets = [e for e in W.events if e["ev"] == "lamret"]
    for r in rets:
        if not any(e["ev"] == "rec" and e["lam"] is r["lam"] for e in W.events): continue
        inl = {id(n) for n in walk(r["lam"]["body"])}
        for d in W.events:
            if d["ev"] != "ds_write" or d["cells"] is None or not any(contains(c, lambda x: isinstance(x, tuple) and x[:1] == ("reccall",)) for c in d["cells"].values()): continue
            v = r["val"]
            v = tt(v) if not isinstance(v, (Ptr, Loc)) else None
            if v is None: continue
            hv = contains(d["row"], lambda x: isinstance(x, tuple) and x[:1] == ("havoc",)) or (isinstance(d["row"], tuple) and d["row"][:1] == ("alt",) and contains(d["row"], lambda x: isinstance(x, tuple) and x[:1] == ("havoc",)))
            hr = contains(v, lambda x: isinstance(x, tuple) and x[:1] == ("havoc",))
            if hv or hr or (not dirty(v) and not dirty(d["row"]) and v != d["row"]):
                R.bad("numbering", where(W, d), "recrow:" + d["path"], "%s: the row of '%s' that a call writes and the row number it returns to its parent differ%s" % (W.f.q, d["path"], " (the counter is changed by the recursive calls in between)" if hv or hr else ""))
            elif isinstance(d["row"], int) and not modifies(r["lam"]) and not any("int" in p["t"]["s"] for p in r["lam"]["params"]):
                R.bad("numbering", where(W, d), "samerow:" + d["path"], "%s: every call of the recursive function writes to row %d of '%s'" % (W.f.q, d["row"], d["path"]))
            elif not dirty(v): R.ok("numbering", W.f.q, "rows of '%s' are numbered as returned" % d["path"])


def modifies(lam):
    """the closure changes a captured variable"""
    own = {n["id"] for n in walk(lam["body"]) if n["k"] == "Var"} | {p["id"] for p in lam["params"]}
    for n in walk(lam["body"]):
        if n["k"] == "Un" and n["op"] in ("++", "--") or n["k"] == "Asg" or n["k"] in ("OpCall",) and n["op"].endswith("="):
            t = strip(n["e"] if n["k"] == "Un" else n["a"][0])
            if t["k"] == "Ref" and t.get("id") not in own or t["k"] == "Mem": return True
        if n["k"] in ("Call", "MCall") and any(strip(a)["k"] == "Ref" and strip(a).get("id") not in own and strip(a)["t"]["s"].replace("const ", "") in ("int",) and a["k"] == "Ref" for a in n["a"]): return True
    return False


def recursion(m, P, R, ws, F, ev, nd):
    """child i is read from the row named in the column where the writer put child i"""
    terms = ev["terms"]
    c = [x for t in terms for x in cols(t)]
    if len(c) != 1: return
    D, k = c[0][1], c[0][3]
    child = [t for t in terms if not cols(t)]
    if len(child) != 1: return
    for W in ws:
        for e in Book(W).rows.get(D, []):
            w = colval(e, k)
            if not (isinstance(w, tuple) and w[:1] == ("reccall",)): continue
            a, b = lastidx(w[1]), lastidx(child[0])
            if a is None or b is None or dirty(a) or dirty(b): continue
            if unit(P, a) == unit(P, b): R.ok("roundtrip", F.f.q, "child %s <- column %s of '%s' (n_dim = %d)" % (pr(b), pr(k), D, nd))
            else: R.bad("roundtrip", F.f.q, "child:" + D, "%s reads child %s from column %s of '%s', where the writer puts child %s" % (F.f.q, pr(b), pr(k), D, pr(a)))
    # the root
    for W in ws:
        first = [r for r in W.events if r["ev"] == "lamret" and any(e["ev"] == "rec" and e["lam"] is r["lam"] for e in W.events)]
        root = [e for e in F.events if e["ev"] == "ds_read" and e["path"] == D]
        if first and root and isinstance(first[-1]["val"], int) and isinstance(root[0]["row"], int):
            if first[-1]["val"] != root[0]["row"]: R.bad("roundtrip", F.f.q, "root:" + D, "%s reads the root from row %d of '%s'; it is written to row %d" % (F.f.q, root[0]["row"], D, first[-1]["val"]))
            else: R.ok("roundtrip", F.f.q, "root in row %d of '%s'" % (root[0]["row"], D))


def lastidx(t):
    if isinstance(t, tuple) and t[:1] == ("at",): return t[2]
    if isinstance(t, tuple) and t[:1] in (("addr",), ("deref",)): return lastidx(t[1])
    return None


# ---------------------------------------------------------------- documentation
def doc(m, P, R):
    """attributes, datasets, shapes and entry numbers in the description of the file format"""
    fn = os.path.join(REPO, DOC)
    if not os.path.exists(fn): R.notes.append("no " + DOC); return
    items = parse_doc(open(fn).read())
    if not items: R.notes.append("no list of file contents found in " + DOC); return
    suf = ".mesh.h5"
    for nd, (W, _) in sorted(m.last.items()):
        ws = W.get(suf)
        if not ws: return
        attrs, dsets = {}, {}
        for F in ws:
            for e in F.events:
                if e["ev"] == "attr_write" and isinstance(e["path"], str): attrs[e["path"]] = (F, e)
                if e["ev"] == "create" and isinstance(e["path"], str): dsets[e["path"]] = (F, e)
        da = {i["path"]: i for i in items if i["kind"] == "attribute"}
        dd = {i["path"]: i for i in items if i["kind"] == "dataset"}
        for have, docd, what in ((attrs, da, "attribute"), (dsets, dd, "dataset")):
            for k, (F, e) in sorted(have.items()):
                if k not in docd: R.bad("documentation", where(F, e), "doc:%s:%s" % (what, k), "the %s '%s' of mesh files is not described in %s" % (what, k, DOC)); continue
                R.ok("documentation", DOC, "%s '%s'" % (what, k))
                t = docd[k]["type"]
                if t and e["type"] in PRED and PRED[e["type"]] != t: R.bad("documentation", DOC, "doc:type:" + k, "%s describes the %s '%s' as %s; it is written as %s" % (DOC, what, k, t, e["type"]))
            paths = [e["path"] for F in ws for e in F.events if e["ev"] in ("attr_write", "create")]
            if not all(isinstance(x, str) for x in paths): continue      # some are written under names that are not known
            for k in sorted(set(docd) - set(have)): R.bad("documentation", DOC, "doc:%s:%s" % (what, k), "%s describes the %s '%s', which is not written" % (DOC, what, k))
        for k, (F, e) in sorted(dsets.items()):
            if k not in dd or not e["dims"]: continue
            sh = dd[k]["shape"]
            ncol = None
            if sh and len(sh) == len(e["dims"]):
                for j, x in enumerate(sh):
                    v = shape_val(x, nd)
                    if v is None or not isinstance(e["dims"][j], int): continue
                    if v != e["dims"][j]: R.bad("documentation", DOC, "doc:shape:" + k, "%s gives dimension %d of '%s' as %s = %d for n_dim = %d; it is %d" % (DOC, j, k, x, v, nd, e["dims"][j]))
                    else: R.ok("documentation", DOC, "shape of '%s' (n_dim = %d)" % (k, nd))
            meaning(P, R, ws, k, dd[k], nd)
            ent = dd[k]["entries"]
            ncol = e["dims"][-1]
            if ent and isinstance(ncol, int):
                over = sorted(x for x in ent if x >= ncol)
                if over: R.bad("documentation", DOC, "doc:entries:" + k, "%s describes entry %s of the rows of '%s', which have %d entries" % (DOC, over[0], k, ncol))
                elif 0 in ent and len(ent) > 2 and not dd[k]["rest"] and sorted(ent) != list(range(ncol)):
                    R.bad("documentation", DOC, "doc:entries:" + k, "%s describes entries %s of the rows of '%s', which have %d entries" % (DOC, sorted(ent), k, ncol))
                else: R.ok("documentation", DOC, "entries of '%s'" % k)


def parse_doc(text):
    i = text.find("Its contents are the following")
    if i < 0: return []
    out, stack, cur = [], [], None
    for ln in text[i:].split("\n")[1:]:
        mm = re.match(r"(\s*)- __(group|attribute|dataset)__ `([^`]+)`(.*)", ln) or re.match(r"()__(group)__ `([^`]+)`(.*)", ln)
        if mm:
            ind, k, name, rest = len(mm.group(1)), mm.group(2), mm.group(3), mm.group(4)
            while stack and stack[-1][0] >= ind: stack.pop()
            if k == "group": stack.append((ind if name != "/" else -1, name.strip("/"))); cur = None; continue
            path = "/".join([n for _, n in stack if n] + [name])
            cur = {"kind": k, "path": path, "text": "", "entries": set(), "rest": False, "type": None, "shape": None}
            sm = re.search(r"\((.*?)\)(?=[:\s]|$)", rest.replace("\\f$", ""))
            if sm:
                body = sm.group(1)
                tm = re.search(r"`(int|double|bool)`\s*$", body)
                if tm: cur["type"] = tm.group(1); body = body[:tm.start()]
                cur["shape"] = [x.strip() for x in body.split("\\times")]
            out.append(cur); entries(cur, rest); continue
        if out and ln.strip() == "" and not stack: break
        if re.match(r"\S", ln) and not ln.startswith("- ") and stack and ln.startswith(("For the", "\\section")): break
        if cur is not None: entries(cur, ln)
    return out


KEYS = [(r"\bsigns?\b|stretched", "flag"), (r"\bdimension\b", "integer"), (r"\bind(?:ex|ices) (?:of|if) the (?:\w+ )?elements?\b", "element"), (r"index of the boundary condition|flood fill", "integer")]


def meaning(P, R, ws, path, d, nd):
    """entries described as elements, dimensions or signs hold those"""
    segs = list(re.finditer(r"\b[Ee]ntr(?:y|ies) (\d+(?:(?:, | and |, and )\d+)*)", d["text"]))
    for j, mm in enumerate(segs):
        end = segs[j + 1].start() if j + 1 < len(segs) else len(d["text"])
        seg = d["text"][mm.end():end].split(". ")[0]
        hit = [(mo.start(), c) for p, c in KEYS for mo in [re.search(p, seg)] if mo]
        if not hit or not re.match(r"\s*(in the row )?(is|are|indicates?)\b", seg): continue
        want = min(hit)[1]
        for W in ws:
            for e in Book(W).rows.get(path, []):
                for n in re.findall(r"\d+", mm.group(1)):
                    v = colval(e, int(n))
                    got = sort_of(P, v)
                    if got is None: continue
                    if got == want or (want == "integer" and got == "flag" and False): R.ok("documentation", DOC, "entry %s of '%s' is a %s (n_dim = %d)" % (n, path, want, nd))
                    else: R.bad("documentation", where(W, e), "doc:meaning:%s:%s" % (path, n), "%s describes entry %s of '%s' as %s (\"%s\"); %s writes %s there" % (DOC, n, path, {"flag": "a sign or flag", "integer": "an index", "element": "an element"}[want], seg.strip()[:60], W.f.q, pr(v)))


def sort_of(P, v):
    if not isinstance(v, tuple) or dirty(v) or unresolved(v): return None
    if v[:1] == ("fld",) and v[2] == "record": return "element"
    t = typeof(P, v)
    if t == "bool": return "flag"
    if t in ("int", "const int"): return "integer"
    return None


def entries(cur, ln):
    cur["text"] += " " + ln.strip()
    for mm in re.finditer(r"\b[Ee]ntr(?:y|ies) (\d+(?:(?:, | and |, and )\d+)*)", ln):
        if "equal to" in ln[mm.end():mm.end() + 20] or "were" in ln[mm.end():mm.end() + 8]: continue
        cur["entries"] |= {int(x) for x in re.findall(r"\d+", mm.group(1))}
    if re.search(r"[Rr]emaining entries|all entries after", ln): cur["rest"] = True


def shape_val(x, nd):
    x = re.sub(r"\\verb\|([^|]*)\|", r"\1", x).replace("`", "").replace("^", "**").replace("{", "(").replace("}", ")").strip()
    if not re.fullmatch(r"(n_dim|row_size|[0-9+*() -])+", x): return None
    try: return eval(x, {"__builtins__": {}}, {"n_dim": nd, "row_size": CONSTS["row_size"]})
    except Exception: return None
