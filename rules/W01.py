"""W01: observing the simulation never changes it.

Entry points are the functions the public interface offers for looking at the simulation: the
output functions of Solver, the query and file-writing functions of the mesh, the output
commands of the case interface, and every implementation of an output variable.  For each of
them, everything it can reach (calls, virtual dispatch, lambdas, the exact kernel named in a
kernel_factory call) is analysed for memory it may write.  Only memory created by the observation
itself may be written, and: bookkeeping which by definition does not belong to the simulation
(stopwatches, Element::record, HIL result variables, output streams and files), face storage when it is recomputed
from the state by the Write_face kernel, and vertex positions which a Reset_vertices object moves
and restores.  For the latter, restore_verts must write back every member of Vertex that
reset_verts changes, and Reset_vertices must call it from its destructor.

Calls of output variables inside other functions are not inlined: each implementation is an entry
point of its own (assume-guarantee)."""
import multiprocessing, os, re
from hx.ir import walk, kids
from hx.effects import Effects, Val, Place, EMPTY
from rules.R01 import show_place

OUT = "hexed::Output_data"
SOLVER = "sample stopwatch_tree iteration_status integral_field integral_surface bounds_field visualize_field visualize_surface vis_cart_surf write_state is_admissible storage_params".split()
MESH = "n_elements valid elem_handles write export_polymesh surface_bc_sn root_size".split()
CASE = "header write_mesh write_state export_polymesh visualize n_elements performance_report integrate_field integrate_surface".split()
SCRATCH = re.compile(r"Element::(record|face_record)$|hexed::Vertex::(record|temp_vector)$|^hexed::Stopwatch|hexed::Solver::stopwatch$|hexed::Case::_inter$|hexed::Case::_output_file$")
# parts of the storage of an element, named by the functions that hand them out
PARTS = {"state", "stage", "residual_cache", "time_step_scale", "bulk_av_coef", "laplacian_av_coef", "art_visc_forcing", "advection_state", "face"}


class Observe(Effects):
    strict_refs = True
    def __init__(self, P):
        super().__init__(P)
        self.outs = set(); self.reset = 0

    def call_fn(self, f, n, this, vals, args):
        c = f.get("cls") or ""
        if self.stack and f["n"] in ("operator()", "n_var", "variable_name") and (c == OUT or OUT in self.P.bases(c)):
            for v, a in zip(vals, args): self.rval(v, a)
            self.outs.add(f["key"])
            return EMPTY
        if c == "hexed::Interpreter" or c == "hexed::Namespace": 
            for v, a in zip(vals, args): self.rval(v, a)
            return EMPTY
        if c == "hexed::Element" and f["n"] in PARTS and this:
            for v, a in zip(vals, args): self.rval(v, a)
            return Val((), [Place(p.root, p.steps + (("f", "hexed::Element::data:" + f["n"]), ("b",))) for p in this])
        return super().call_fn(f, n, this, vals, args)

    def run_ctor(self, f, n, vals, dest):
        if (f.get("cls") or "").endswith("Mesh::Reset_vertices"):
            self.reset += 1
            return Val(dest)
        return super().run_ctor(f, n, vals, dest)

    def method(self, n, obj, objv, name, args, arrow=False):
        k = kernel_of(self.P, obj)
        if k:
            save = self.P.targets
            def targets(m):
                ts = save(m)
                if m is not n: return ts
                t2 = [f for f in ts if not f["cls"].startswith("hexed::Kernel<") and all(re.search(r"\b%s\b" % w, f["cls"]) for w in k)]
                t3 = [f for f in ts if f["cls"].startswith("hexed::Kernel<")]
                return t2 + [f for f in t3 if len(args) > 1]
            self.P.targets = targets
            try: return super().method(n, obj, objv, name, args, arrow)
            finally: self.P.targets = save
        return super().method(n, obj, objv, name, args, arrow)


def kernel_of(P, obj):
    """names in the template argument of kernel_factory when the object is a freshly made kernel"""
    e = obj
    for _ in range(6):
        if e is None: return None
        if e["k"] == "Call" and P.decls.get(e.get("f"), {}).get("q") == "hexed::kernel_factory":
            m = re.match(r".*?kernel_factory<(.*?)#p1", e["f"])
            if not m: return None
            return [w for w in re.findall(r"@([A-Za-z_]\w+)", m.group(1)) if w not in ("hexed", "pde", "ST", "NI", "Vb0", "Vb1")]
        if e["k"] in ("OpCall",) and e["a"]: e = e["a"][0]
        elif e["k"] in ("ICast", "Cast", "Un", "Paren"): e = e.get("e")
        elif e["k"] == "MCall": e = e.get("obj")
        else: return None
    return None


def entries(P):
    out, seen = [], set()
    mesh = {"hexed::Accessible_mesh", "hexed::Mesh"}
    for f in P.concrete():
        if f["file"].startswith("/") or f["key"] in seen: continue
        c = f.get("cls") or ""
        kind = None
        if c == "hexed::Solver" and f["n"] in SOLVER: kind = "solver output"
        elif c in mesh and f["n"] in MESH and f["kind"] == "method": kind = "mesh query"
        elif f["n"] in ("operator()", "n_var", "variable_name") and OUT in P.bases(c): kind = "output variable"
        elif f["q"].startswith("hexed::hil_properties::"): kind = "output variable"
        if kind: seen.add(f["key"]); out.append((kind, f, None, f["q"].replace("hexed::", "")))
        if c == "hexed::Case" and f["kind"] == "ctor":
            for n in walk(f.body):
                if n["k"] == "MCall" and n.get("n") == "create" and n["a"]:
                    names = [x["v"] for x in walk(n["a"][0]) if x["k"] == "Str"]
                    lams = [x for x in walk(n) if x["k"] == "Lambda"]
                    if names and names[0] in CASE and lams: out.append(("case command", f, lams[0], names[0]))
    return out


def analyse(P, f, lam):
    E = Observe(P)
    E.fn = f; E.rets = []
    E.env["this"] = Val([Place(("this",), ())])
    E.stack.append(f["key"])
    if lam is not None:
        E.run(lam["body"])
        return E
    for p in f["params"]:
        t = p["t"]
        if t.get("ref"): E.env[p["id"]] = Val([Place(("sh", p["id"], p["n"]), ())])
        elif t.get("cls") == "ptr": E.env[p["id"]] = Val([Place(("priv", p["id"], p["n"]), ())], [Place(("sh", p["id"], p["n"]), ())])
        else: E.env[p["id"]] = Val([Place(("priv", p["id"], p["n"]), ())])
    E.run(f.body)
    return E


def fields(p): return [s[1] for s in p.steps if s[0] == "f"]


def forbidden(a, kind=None):
    """is this write a change of the simulation; returns the reason it is allowed, or None"""
    p = a.place
    r = p.root[0]
    if r in ("tmp", "loopvar", "red"): return "temporary"
    if r == "priv" and not any(s[0] == "*" for s in p.steps): return "local"
    fs = fields(p)
    if any(SCRATCH.search(x) for x in fs): return "bookkeeping"
    if fs and fs[-1] == "hexed::Accessible_mesh::vert_ptrs" and a.fn == "hexed::erase_if": return "expired vertex pointers dropped"
    if r == "this" and fs and fs[0].startswith("hexed::Case::") and fs[0] != "hexed::Case::_solver_ptr": return "bookkeeping"
    if r == "this" and len(fs) == 1 and kind == "output variable" and not any(s[0] == "*" for s in p.steps): return "own data of the output variable"
    if r == "glob": return "bookkeeping" if "stopwatch" in str(p.root[1]) else None
    if any("data:face" in x or x == "hexed::Element::faces" for x in fs) and "Write_face" in a.fn: return "faces recomputed from the state"
    if p.root[0] == "sh" and not fs and len(p.steps) == 0 and "Xdmf" in a.fn: return "output"
    return None


_G = {}


def job(i):
    P = _G["P"]
    kind, f, lam, name = _G["jobs"][i]
    E = analyse(P, f, lam)
    bad, okk, n = {}, {}, 0
    for a in E.accesses:
        if a.rw != "W": continue
        n += 1
        why = forbidden(a, kind)
        if why: okk[why] = okk.get(why, 0) + 1; continue
        fs = fields(a.place)
        k = (fs[-1] if fs else str(a.place.root[-1]), a.fn)
        w = show_place(a.place)
        if k not in bad or (a.where, w) < bad[k]: bad[k] = (a.where, w)
    return i, sorted((k, v) for k, v in bad.items()), okk, n, len(E.accesses), sorted(E.incomplete), E.reset


def unconditional(P, g, k):
    """places where g writes field k only under a condition or after a jump (empty string: unconditionally)"""
    out = []
    def visit(n, cond):
        if not isinstance(n, dict): return
        kd = n.get("k")
        if kd in ("Asg", "OpCall") and n.get("a") and n["a"][0].get("q") == k and n.get("op", "=").endswith("="):
            out.append("%s:%d" % (g["file"], n["l"]) if cond else "")
        jumped = cond
        if kd == "If":
            if "cv" in n["cond"]: pass
            for b in (n["then"], n.get("else")):
                if b: visit(b, True)
            return
        if kd in ("Switch", "Cond", "Try"): jumped = True
        if kd == "Block":
            for c in n["c"]:
                visit(c, jumped)
                if any(x["k"] in ("Break", "Continue", "Return") for x in walk(c)): jumped = True
            return
        for c in kids(n): visit(c, jumped)
    visit(g.body, False)
    return [] if "" in out else out


def holders(g, w2):
    """fields from which g restores others"""
    out = set()
    for n in walk(g.body):
        if n["k"] in ("Asg", "OpCall") and n.get("op") == "=" and n["a"][0].get("q") in w2:
            out |= {x["q"] for x in walk(n["a"][1]) if x["k"] == "Mem"} - {n["a"][0]["q"]}
    return out


def restore_rule(P, R):
    """Reset_vertices: what the constructor's reset_verts changes, the destructor's restore_verts puts back"""
    rs = [f for f in P.concrete() if f["n"] == "reset_verts" and f.body]
    rt = {f["cls"]: f for f in P.concrete() if f["n"] == "restore_verts" and f.body}
    for f in rs:
        g = rt.get(f["cls"])
        where = "%s:%d" % (f["file"], f["l"])
        if g is None: R.bad("restore", where, "restore:none:%s" % f["cls"], "%s changes the vertices but %s has no restore_verts" % (f["q"], f["cls"])); continue
        def written(h):
            E = analyse(P, h, None)
            w = {}
            for a in E.accesses:
                if a.rw == "W" and not forbidden(a):
                    fs = [x for x in fields(a.place)]
                    if fs: w.setdefault(fs[-1], a.where)
            rd = {fields(a.place)[-1] for a in E.accesses if a.rw == "R" and fields(a.place)}
            return w, rd
        w1, _ = written(f); w2, r2 = written(g)
        for k in sorted(w1):
            cond = [w for w in unconditional(P, g, k) if w]
            if k in w2 and cond: R.bad("restore", cond[0], "restore:cond:%s" % k, "%s puts %s back only under a condition, though every change must be undone" % (g["q"], k))
            elif k in w2: R.ok("restore", w1[k], "%s is written back by restore_verts" % k)
            elif k in holders(g, w2): R.ok("restore", w1[k], "%s holds the value to restore" % k)
            else: R.bad("restore", w1[k], "restore:%s" % k, "reset_verts changes %s, which restore_verts does not put back" % k)
    for f in P.concrete():
        if (f.get("cls") or "").endswith("Mesh::Reset_vertices") and f["kind"] in ("ctor", "dtor"):
            if f.get("implicit") or f.get("defaulted"): continue
            want = "reset_verts" if f["kind"] == "ctor" else "restore_verts"
            got = any(n["k"] == "MCall" and n.get("n") == want for n in walk(f.body)) if f.body else False
            where = "%s:%d" % (f["file"], f["l"])
            if got: R.ok("restore", where, f["q"])
            else: R.bad("restore", where, "restore:%s" % f["kind"], "%s does not call %s" % (f["q"], want))


def run(P, R):
    R.explanation = __doc__
    jobs = entries(P)
    R.need(any(j[0] == "solver output" for j in jobs) and any(j[0] == "output variable" for j in jobs) and any(j[0] == "case command" for j in jobs), "observation entry points")
    missing = [n for n in SOLVER if not any(j[3].endswith("::" + n) and j[0] == "solver output" for j in jobs)]
    if missing: R.notes.append("not present: " + ", ".join(missing))
    _G["P"], _G["jobs"] = P, jobs
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        results = pool.map(job, range(len(jobs)), chunksize=2)
    for i, bad, okk, n, nacc, inc, reset in results:
        kind, f, lam, name = jobs[i]
        where = "%s:%d" % (f["file"], lam["l"] if lam else f["l"])
        R.count(kind + " entry points"); R.count("memory accesses", nacc); R.count("writes classified", n)
        for why, c in okk.items(): R.count("writes: " + why, c)
        if "budget" in inc: R.bad("analysed", where, "budget:%s" % name, "%s is too complex to be analysed" % name)
        if not bad: R.ok("observation", where, "%s (%s)" % (name, kind))
        for (fld, fn), (w, place) in bad:
            R.bad("observation", w, "write:%s:%s:%s" % (name, fld, fn), "%s (%s) may change %s in %s" % (name, kind, place, fn))
    restore_rule(P, R)
