"""K01: kernels and boundary conditions stay inside the storage of their elements and connections.

The constructors and accessors of the element and connection classes are evaluated (hx/absint.py) for every dimension and row size:
what they allocate and where each accessor points are then numbers.  Elements and connections built that way are handed to the kernels and
boundary conditions, which are evaluated with them; every index of an array, matrix, vector or pointer that is known is compared with the
size of what it indexes.  No number of the flow matters: all states are unknown.

 layout   the arrays of an element or connection are disjoint, long enough for what they are documented to hold, and inside the allocation;
          the offsets of pde.hpp agree with the accessors of the element
 wiring   the face and normal pointers of connected elements are those of the connection's own side
 access   every access of a kernel, a boundary condition or a function of the element classes is inside the array it indexes
 shape    operands of a matrix product, sum or assignment have compatible sizes
"""
import itertools
from hx import units as U
from hx.units import Q, atom
from hx.absint import Model, Ptr, Obj, Mat, Vec, Arr, Cell, UNK
from rules import U01, C01
from rules.C01 import amat, strip

MAX_ROW = {"quick": 2, "thorough": 3}
B = "hexed::"
DEF, CAR = B + "Deformed_element", B + "Element"
KERNELS = ("Write_face", "Local", "Reconcile_ldg_flux", "Max_dt", "Neighbor", "Neighbor_reconcile", "Prolong_refined", "Restrict_refined")


class Driver(C01.Driver):
    """evaluates with every known index checked"""
    def __init__(self, P, R):
        C01.Driver.__init__(self, P, R)
        self.count, self.out, self.names, self.mis, self.nshape = {}, {}, {}, {}, 0

    def interp(self):
        I = C01.Driver.interp(self)
        I.bounds, I.shape = self.bounds, self.shape
        return I

    def bounds(self, I, o, i, n=None):
        if not isinstance(i, int) or isinstance(i, bool) or I.maybe: return
        if n is None:
            if isinstance(o, Mat): n = o.r * o.k if o.known else None
            elif isinstance(o, Arr): n = o.size
            elif isinstance(o, Vec): n = o.n
        if not isinstance(n, int): return
        f = I.where()
        q = strip(f["q"]) if f is not None else "?"
        c = self.count.setdefault(q, [0, f, set()])
        c[0] += 1; c[2].add(id(o))
        if 0 <= i < n: return
        name = self.names.get(id(o), ("", None))[0] or ("matrix" if isinstance(o, Mat) else "list" if isinstance(o, Vec) else "array")
        self.out.setdefault((q, name), (f, i, n, self.entry))

    def shape(self, I, op, a, b):
        if I.maybe: return
        self.nshape += 1
        if a == b: return
        f = I.where()
        self.mis.setdefault((strip(f["q"]) if f is not None else "?", op), (f, a, b, self.entry))

    def name(self, o, what):
        if o is not None: self.names[id(o)] = (what, o)

    entry = ""
    part, parts, turn = 0, 1, 0 # one process evaluates every `parts`th entry
    def go(self, entry, th):
        self.turn += 1
        if self.turn % self.parts != self.part: return
        self.entry = entry
        self.run(entry, th)


def where(f): return "%s:%s" % (f["file"], f["l"]) if f is not None else "?"


# ------------------------------------------------------------------------------------------------ a small mesh
def ptrs(*x):
    v = Vec(len(x), list(x)); v.ptrs = True
    return v


def element(D, I, cls, nd, row, level=0):
    o = I.newobj(cls)
    for f in D.ctor(cls):
        if len(f["params"]) == 5:
            I.call(f, o, [U01.params(nd, row), Vec(nd, [0] * nd), atom("h"), level, Mat(nd, 1)])
            for k, what in (("data", "element data"), ("vertex_data", "vertex data of the element"), ("jac_dat", "Jacobian data of the element"), ("node_adj", "node adjustments of the element")):
                if isinstance(o.c.get(k), Mat): D.name(o.c[k], what)
            return o
    return None


def direction(cls, dims, signs):
    o = Obj("%sCon_dir<%s>" % (B, cls))
    if cls == DEF: o.c["i_dim"], o.c["face_sign"] = Vec(2, list(dims)), Vec(2, list(signs))
    else: o.c["i_dim"] = dims[0]
    return o


def build(D, I, cls, args, pick=lambda f: True):
    o = I.newobj(cls)
    for f in D.ctor(cls):
        if len(f["params"]) == len(args) and pick(f):
            I.call(f, o, args)
            for k, what in (("_data", "face data of the connection"), ("pos", "surface positions of the connection"), ("cache", "cache of the connection"), ("coarse_state_data", "coarse face data"), ("coarse_normal", "coarse face normals")):
                if isinstance(o.c.get(k), Mat): D.name(o.c[k], what)
            return o
    return None


def connect(D, I, cls, a, b, dims, signs):
    return build(D, I, "%sElement_face_connection<%s>" % (B, cls), [ptrs(a, b), direction(cls, dims, signs)])


def bound(D, I, cls, a, d, s):
    return build(D, I, "%sTyped_bound_connection<%s>" % (B, cls), [a, d, bool(s), 0])


def enclosed(D, I, cls, nd, row):
    """an element with a boundary on every face"""
    e = element(D, I, cls, nd, row)
    if e is None: return None, []
    return e, [bound(D, I, cls, e, d, s) for d in range(nd) for s in (False, True)]


def refined(D, I, cls, nd, row, rev, dims, signs, stretch):
    c = element(D, I, cls, nd, row)
    n = 2 ** (nd - 1)
    for s in stretch[:nd - 1]: n //= 2 if s else 1
    fine = [element(D, I, cls, nd, row, 1) for _ in range(n)]
    return c, fine, build(D, I, "%sRefined_connection<%s>" % (B, cls), [c, ptrs(*fine), direction(cls, dims, signs), bool(rev), Vec(2, [bool(s) for s in stretch])])


def one(items): return Model("Sequence", {"size": lambda: len(items), "operator[]": lambda i: items[i] if isinstance(i, int) and 0 <= i < len(items) else UNK})


# ------------------------------------------------------------------------------------------------ layout
def region(D, I, o, name, args=()):
    """(storage, offset) of what an accessor returns"""
    f = D.meth(o.rec, name, len(args))
    if f is None: return None
    r = I.rv(I.call(f, o, list(args)))
    if isinstance(r, Ptr) and isinstance(r.off, int): return r.o, r.off, f
    return None


def disjoint(D, R, what, key, regions):
    """regions: (name, (storage, offset, function), length)"""
    bad = False
    for nm, g, ln in regions:
        o, off, f = g
        n = o.r * o.k if isinstance(o, Mat) and o.known else None
        if n is not None and (off < 0 or off + ln > n):
            bad = True
            R.bad("layout", where(f), "%s:%s" % (key, nm), "%s: %s is at [%d, %d) of %d allocated values" % (what, nm, off, off + ln, n))
    for (a, g, la), (b, h, lb) in itertools.combinations(regions, 2):
        if g[0] is h[0] and g[1] < h[1] + lb and h[1] < g[1] + la:
            bad = True
            R.bad("layout", where(h[2]), "%s:%s/%s" % (key, a, b), "%s: %s at [%d, %d) and %s at [%d, %d) overlap" % (what, a, g[1], g[1] + la, b, h[1], h[1] + lb))
    if not bad: R.ok("layout", what, "%s: %s disjoint and inside the allocation" % (what, ", ".join(r[0] for r in regions)))
    R.count("storage regions", len(regions))


def constexpr(D, I, name, nd):
    for f in D.P.concrete():
        if f.q == "hexed::pde::" + name and f.body is not None: return I.rv(I.call(f, None, [nd]))
    return None


def layouts(D, R, rows):
    seen = 0
    for nd in (1, 2, 3):
        for row in rows:
            nq, nfq, nv = row ** nd, row ** (nd - 1), nd + 2
            face = max(2 * nv * nfq, (nd + row) * nfq)
            for cls in (CAR, DEF):
                t = "%s in %dD, row size %d" % (strip(cls), nd, row)
                def th(I):
                    nonlocal seen
                    e = element(D, I, cls, nd, row)
                    if e is None: D.unknown(t); return
                    need = {"state": nv * nq, "time_step_scale": nq, "bulk_av_coef": nq, "laplacian_av_coef": nq, "art_visc_forcing": 4 * nq, "advection_state": row * nq, "residual_cache": max(nv, row) * nq}
                    if cls == DEF: need.update({"reference_level_normals": nd * nd * nq, "jacobian_determinant": nq, "node_adjustments": 2 * nd * nfq})
                    got = {k: region(D, I, e, k) for k in need}
                    if any(v is None for v in got.values()): D.unknown(t)
                    disjoint(D, R, t, strip(cls), [(k, got[k], need[k]) for k in need if got[k] is not None]); seen += 1
                    if got["state"] is None: return
                    for k, a in (("tss_offset", "time_step_scale"), ("bulk_av_offset", "bulk_av_coef"), ("laplacian_av_offset", "laplacian_av_coef"), ("forcing_offset", "art_visc_forcing"), ("advection_offset", "advection_state")):
                        x = constexpr(D, I, k, nd)
                        if not isinstance(x, int) or got[a] is None: D.unknown(t + " " + k); continue
                        d = got[a][1] - got["state"][1]
                        if d != x * nq or got[a][0] is not got["state"][0]:
                            R.bad("layout", where(got[a][2]), "%s:%s" % (strip(cls), k), "%s: %s(%d) is %d, but `%s` is %d values after the state, which is %s arrays" % (t, k, nd, x, a, d, d / nq))
                        else: R.ok("layout", t, "%s: %s agrees with %s" % (t, k, a))
                    for k, m in (("vertex_time_step_scale", 2 ** nd), ("vertex_elwise_av", 2 ** nd)):
                        f = D.meth(cls, k, 1)
                        cs = [I.call(f, e, [i]) for i in range(m)] if f is not None else []
                        if not cs or not all(isinstance(c, Cell) for c in cs): D.unknown(t + " " + k); continue
                        got[k] = [(c.o, c.key) for c in cs]
                    vs = [c for k in ("vertex_time_step_scale", "vertex_elwise_av") for c in got.get(k, [])]
                    if len({(id(o), k) for o, k in vs}) != len(vs): R.bad("layout", where(D.meth(cls, "vertex_elwise_av", 1)), "%s:vertex" % strip(cls), "%s: two vertex values share their storage" % t)
                    elif vs: R.ok("layout", t, "%s: %d vertex values have their own storage" % (t, len(vs)))
                D.go(t, th)
                # connections
                tc = "connection of %s in %dD, row size %d" % (strip(cls), nd, row)
                def tf(I):
                    nonlocal seen
                    a, b = element(D, I, cls, nd, row), element(D, I, cls, nd, row)
                    c = connect(D, I, cls, a, b, (0, 0), (1, 0))
                    if c is None: D.unknown(tc); return
                    regs = [("side %d" % s, region(D, I, c, "state", (s, False)), face) for s in (0, 1)]
                    if cls == DEF: regs += [("normal %d" % s, region(D, I, c, "normal", (s,)), nd * nfq) for s in (0, 1)]
                    if any(r[1] is None for r in regs): D.unknown(tc)
                    disjoint(D, R, tc, "connection<%s>" % strip(cls), [r for r in regs if r[1] is not None]); seen += 1
                    for s in (0, 1):
                        x, y = region(D, I, c, "state", (s, False)), region(D, I, c, "state", (s, True))
                        if x and y and (y[1] - x[1] < nv * nfq or y[1] - x[1] + nv * nfq > face):
                            R.bad("layout", where(y[2]), "connection<%s>:ldg" % strip(cls), "%s: the viscous face data of side %d is %d values after the face state of %d values, in %d" % (tc, s, y[1] - x[1], nv * nfq, face))
                        elif x and y: R.ok("layout", tc, "%s: viscous face data of side %d" % (tc, s))
                D.go(tc, tf)
                tb = "boundary connection of %s in %dD, row size %d" % (strip(cls), nd, row)
                def tg(I):
                    nonlocal seen
                    e = element(D, I, cls, nd, row)
                    c = bound(D, I, cls, e, 0, True)
                    if c is None: D.unknown(tb); return
                    regs = [("inside_face", region(D, I, c, "inside_face", (False,)), face), ("ghost_face", region(D, I, c, "ghost_face", (False,)), face), ("surface_normal", region(D, I, c, "surface_normal"), nd * nfq),
                            ("surface_position", region(D, I, c, "surface_position"), nd * nfq), ("state_cache", region(D, I, c, "state_cache"), nv * nfq), ("flux_cache", region(D, I, c, "flux_cache"), nv * nfq)]
                    if any(r[1] is None for r in regs): D.unknown(tb)
                    disjoint(D, R, tb, "Typed_bound_connection<%s>" % strip(cls), [r for r in regs if r[1] is not None]); seen += 1
                D.go(tb, tg)
                if nd > 1:
                    tr = "refined connection of %s in %dD, row size %d" % (strip(cls), nd, row)
                    def tq(I):
                        nonlocal seen
                        c, fine, r = refined(D, I, cls, nd, row, False, (0, 0), (1, 0), (0, 0))
                        if r is None: D.unknown(tr); return
                        g = region(D, I, r, "coarse_state")
                        if g is None: D.unknown(tr); return
                        disjoint(D, R, tr, "Refined_connection<%s>" % strip(cls), [("coarse_state", g, face)]); seen += 1
                        h = region(D, I, c, "face_normal", (1,)) if cls == DEF else None
                        if h is not None: disjoint(D, R, tr, "Refined_connection<%s>:normal" % strip(cls), [("normal of the coarse face", h, nd * nfq)])
                    D.go(tr, tq)
    R.need(seen, "element and connection classes")


# ------------------------------------------------------------------------------------------------ wiring
def wiring(D, R, row):
    for nd in (1, 2, 3):
        for cls in (CAR, DEF):
            dd = [((i, j), (a, b)) for i in range(nd) for j in range(nd) for a in (0, 1) for b in (0, 1)] if cls == DEF else [((i, i), (1, 0)) for i in range(nd)]
            for dims, signs in dd:
                t = "connection of %s in %dD, dimensions %s, signs %s" % (strip(cls), nd, dims, signs)
                def th(I):
                    a, b = element(D, I, cls, nd, row), element(D, I, cls, nd, row)
                    c = connect(D, I, cls, a, b, dims, signs)
                    if c is None: D.unknown(t); return
                    for s, e in enumerate((a, b)):
                        own = region(D, I, c, "state", (s, False))
                        i = 2 * dims[s] + signs[s]
                        for l in (False, True):
                            f, w = region(D, I, e, "face", (i, l)), region(D, I, c, "state", (s, l))
                            if own is None or f is None or w is None: D.unknown(t); continue
                            if f[0] is not w[0] or f[1] != w[1]: R.bad("wiring", where(w[2]), "face:%s" % strip(cls), "%s: face %d of element %d is not side %d of the connection" % (t, i, s, s))
                            else: R.ok("wiring", t, "%s: face of element %d%s" % (t, s, " (viscous)" if l else ""))
                        if cls == DEF:
                            g, w = region(D, I, e, "kernel_face_normal", (i,)), region(D, I, c, "normal", (s,))
                            if g is None or w is None: D.unknown(t + " normal"); continue
                            if g[0] is not w[0] or g[1] != w[1]: R.bad("wiring", where(w[2]), "normal:%s" % strip(cls), "%s: the normal of face %d of element %d is not that of side %d of the connection" % (t, i, s, s))
                            else: R.ok("wiring", t, "%s: normal of element %d" % (t, s))
                D.go(t, th)
            for d in range(nd):
                for s in (False, True):
                    t = "boundary connection of %s in %dD, face %d" % (strip(cls), nd, 2 * d + s)
                    def tb(I):
                        e = element(D, I, cls, nd, row)
                        c = bound(D, I, cls, e, d, s)
                        if c is None: D.unknown(t); return
                        for l in (False, True):
                            f, w = region(D, I, e, "face", (2 * d + s, l)), region(D, I, c, "inside_face", (l,))
                            if f is None or w is None: D.unknown(t); continue
                            if f[0] is not w[0] or f[1] != w[1]: R.bad("wiring", where(w[2]), "boundary face:%s" % strip(cls), "%s: the face of the element is not the inside face of the connection" % t)
                            else: R.ok("wiring", t, "%s: inside face" % t)
                        if cls == DEF:
                            g, w = region(D, I, e, "kernel_face_normal", (2 * d + s,)), region(D, I, c, "surface_normal")
                            if g is None or w is None: D.unknown(t + " normal"); return
                            if g[0] is not w[0] or g[1] != w[1]: R.bad("wiring", where(w[2]), "boundary normal:%s" % strip(cls), "%s: the normal of the face of the element is not that of the connection" % t)
                            else: R.ok("wiring", t, "%s: normal" % t)
                    D.go(t, tb)


def refined_wiring(D, R, row):
    """mortar i of the coarse face is connected to the fine element at the same place, in every orientation"""
    vi = next((f for f in D.P.concrete() if f.q == B + "vertex_inds" and f.body is not None), None)
    R.need(vi is not None, "vertex_inds")
    for nd in (2, 3):
        for cls in (CAR, DEF):
            dd = [((i, j), (a, b)) for i in range(nd) for j in range(nd) for a in (0, 1) for b in (0, 1)] if cls == DEF else [((i, i), (1, 0)) for i in range(nd)]
            for (dims, signs), rev in itertools.product(dd, (0, 1)):
                t = "refined connection of %s in %dD, dimensions %s, signs %s%s" % (strip(cls), nd, dims, signs, ", fine first" if rev else "")
                def th(I):
                    c, fine, r = refined(D, I, cls, nd, row, rev, dims, signs, (0, 0))
                    if r is None: D.unknown(t); return
                    f0 = D.ctor(r.rec)[0]
                    g, h = region(D, I, c, "face", (2 * dims[rev] + signs[rev], False)), region(D, I, r, "coarse_state")
                    rf = r.c.get("refined_face")
                    if g is None or h is None or not isinstance(rf, Obj): D.unknown(t); return
                    co = I.rv(rf.c.get("coarse"))
                    if g[0] is not h[0] or g[1] != h[1] or not isinstance(co, Ptr) or co.o is not g[0] or co.off != g[1]:
                        R.bad("wiring", where(f0), "coarse face:%s" % strip(cls), "%s: the face of the coarse element is not the coarse state of the connection" % t)
                    else: R.ok("wiring", t, "%s: coarse face" % t)
                    # which fine element lies where on the coarse face
                    v = I.rv(I.call(vi, None, [nd, direction(DEF, dims, signs)]))
                    try:
                        vs = [[I.rv(I.rv(v.get(s)).get(k)) for k in range(2 ** (nd - 1))] for s in (0, 1)]
                        pos = [{x: k for k, x in enumerate(sorted(y))} for y in vs]
                        place = {pos[rev][a]: pos[1 - rev][b] for a, b in zip(vs[rev], vs[1 - rev])}
                        cons = [I.rv(r.c["fine_cons"].get(k)) for k in range(len(fine))]
                        mort = [I.rv(I.rv(rf.c["fine"]).get(k)) for k in range(len(fine))]
                    except Exception: D.unknown(t); return
                    if not all(isinstance(k, Obj) for k in cons) or not all(isinstance(m, Ptr) for m in mort): D.unknown(t); return
                    for i in range(len(fine)):
                        k = [x for x in cons if (lambda w: w is not None and w[0] is mort[i].o and w[1] == mort[i].off)(region(D, I, x, "state", (rev, False)))]
                        if len(k) != 1: R.bad("wiring", where(f0), "mortar:%s" % strip(cls), "%s: the data of mortar %d is that of %d connections on the coarse side" % (t, i, len(k))); return
                        fe = I.rv(k[0].c.get("fine_elem"))
                        if isinstance(fe, tuple): fe = I.rv(fe[1])
                        j = [x for x in range(len(fine)) if fine[x] is fe]
                        if not j: D.unknown(t); return
                        if j[0] != place[i]: R.bad("wiring", where(f0), "fine place:%s" % strip(cls), "%s: mortar %d is connected to fine element %d, but it lies at %d" % (t, i, j[0], place[i])); return
                        w, q = region(D, I, k[0], "state", (1 - rev, False)), region(D, I, fe, "face", (2 * dims[1 - rev] + signs[1 - rev], False))
                        if w is None or q is None: D.unknown(t); return
                        if w[0] is not q[0] or w[1] != q[1]: R.bad("wiring", where(f0), "fine face:%s" % strip(cls), "%s: the face of fine element %d is not the fine side of its connection" % (t, j[0])); return
                        if cls == DEF:
                            w, q = region(D, I, k[0], "normal", (1 - rev,)), region(D, I, fe, "kernel_face_normal", (2 * dims[1 - rev] + signs[1 - rev],))
                            if w is None or q is None: D.unknown(t + " normal"); return
                            if w[0] is not q[0] or w[1] != q[1]: R.bad("wiring", where(f0), "fine normal:%s" % strip(cls), "%s: the normal of fine element %d is not the fine side of its connection" % (t, j[0])); return
                    R.ok("wiring", t, "%s: %d mortars" % (t, len(fine)))
                D.go(t, th)


# ------------------------------------------------------------------------------------------------ access
def kernels(D, R):
    for pde, visc, dfm, name, nd, row, cls in D.classes:
        if name not in KERNELS or row < 2: continue
        if name in ("Prolong_refined", "Restrict_refined") and nd == 1: continue
        op = D.meth(cls, "operator()", 1)
        if op is None: continue
        D.row = row
        E = DEF if dfm else CAR
        t = "%s<%d, %d> %s%s%s" % (name, nd, row, "deformed " if dfm else "", pde, " viscous" if visc else "")
        bs = C01.basis(row)
        diff = visc or pde in ("Fix_therm_admis", "Smooth_art_visc")
        opts = {"Write_face": [[bs]], "Local": [[bs, atom("dt"), st, res, filt] for st in (False, True) for res in (False, True) for filt in (False, True) if not (st and (res or diff)) and not (res and pde != "Navier_stokes")],
                "Reconcile_ldg_flux": [[bs, atom("dt"), 0, res, False] for res in (False, True) if not (res and pde != "Navier_stokes")], "Max_dt": [[bs, loc, UNK, atom("a"), atom("b")] for loc in (False, True)],
                "Neighbor": [[False], [True]], "Neighbor_reconcile": [[]], "Prolong_refined": [[bs, sc, of] for sc in (False, True) for of in (False, True)], "Restrict_refined": [[bs, sc, of] for sc in (False, True) for of in (False, True)]}[name]
        if name == "Reconcile_ldg_flux" and not diff: continue
        for o in opts:
            def make(I):
                if not o and not D.ctor(cls): return I.newobj(cls)
                k = D.make(I, cls, o + ([] if "refined" in name else D.pde_args(I, pde, visc)))
                if k is None and not o: k = I.newobj(cls)
                if k is None: D.skipped.append(t + " (constructor)")
                return k
            if name in ("Write_face", "Local", "Reconcile_ldg_flux", "Max_dt"):
                def th(I):
                    k = make(I)
                    e, cs = enclosed(D, I, E, nd, row)
                    if k is not None and e is not None: I.call(op, k, [one([e])])
                D.go(t, th)
            elif name in ("Neighbor", "Neighbor_reconcile"):
                if name == "Neighbor_reconcile" and not diff: continue
                dd = [((i, j), (a, b)) for i in range(nd) for j in range(nd) for a in (0, 1) for b in (0, 1)] if dfm else [((i, i), (1, 0)) for i in range(nd)]
                for dims, signs in dd:
                    def th(I):
                        k = make(I)
                        c = connect(D, I, E, element(D, I, E, nd, row), element(D, I, E, nd, row), dims, signs)
                        if k is not None and c is not None: I.call(op, k, [one([c])])
                    D.go(t, th)
            else:
                for stretch in itertools.product((0, 1), repeat=nd - 1):
                    def th(I):
                        k = make(I)
                        c, fine, r = refined(D, I, E, nd, row, False, (0, 0), (1, 0), tuple(stretch) + (0,) * (2 - len(stretch)))
                        if k is not None and r is not None: I.call(op, k, [one([r.c["refined_face"]])])
                    D.go(t, th)


FUNCS = {"position": lambda nq, nfq, nd, b: [[b, q] for q in range(nq)], "face_position": lambda nq, nfq, nd, b: [[b, f, q] for f in range(2 * nd) for q in range(nfq)],
         "set_jacobian": lambda nq, nfq, nd, b: [[b]], "jacobian": lambda nq, nfq, nd, b: [[i, j, q] for i in range(nd) for j in range(nd) for q in range(nq)],
         "jacobian_determinant": lambda nq, nfq, nd, b: [[q] for q in range(nq)]}


def elements(D, R, row):
    for nd in (1, 2, 3):
        nq, nfq = row ** nd, row ** (nd - 1)
        for cls in (CAR, DEF):
            for fn, args in FUNCS.items():
                for a in args(nq, nfq, nd, C01.basis(row)):
                    f = D.meth(cls, fn, len(a))
                    if f is None: continue
                    def th(I):
                        e, cs = enclosed(D, I, cls, nd, row)
                        if e is not None: I.call(f, e, list(a))
                    D.go("%s::%s in %dD" % (strip(cls), fn, nd), th)


def solver(D, R, row):
    """functions of the solver that go through the elements"""
    from hx.ir import walk
    kern = [d["n"] for d in D.P.decls.values() if (d.get("n") or "").startswith(("compute_", "max_dt_")) and (d.get("q") or "").count("::") == 1]
    n = 0
    for f in D.cls.get(B + "Solver", []):
        if f.body is None or not any(x.get("k") == "MCall" and x.get("n") in ("elements", "state", "time_step_scale", "residual_cache") for x in walk(f.body)): continue
        for nd in (1, 2, 3):
            for E in (CAR, DEF):
                t = "%s in %dD, %s" % (strip(f.q), nd, strip(E))
                def th(I):
                    e, cs = enclosed(D, I, E, nd, row)
                    o = I.newobj(B + "Solver")
                    def view(): return Model("View", {"elements": lambda: one([e]), "cons": lambda: UNK, "face_connections": lambda: UNK, "boundary_connections": lambda: UNK})
                    mesh = Model("Accessible_mesh", {"elements": lambda: one([e]), "cartesian": lambda: Model("View", {"elements": lambda: one([e] if E == CAR else [])}), "deformed": lambda: Model("View", {"elements": lambda: one([e] if E == DEF else [])}),
                                                     "boundary_connections": lambda: one(cs)})
                    o.c.update({"params": U01.params(nd, row), "basis": C01.basis(row), "acc_mesh": mesh, "_namespace": U01.variables(I, nd, {"av_advect_iters": 1, "av_diff_iters": 1, "n_cheby_av": 1, "fix_admis_max_safety": 1}), "stopwatch": UNK})
                    for k in kern + ["set_uncertainty", "_kernel_mesh", "share_vertex_data"]: I.hooks_call[k] = lambda *a: UNK
                    I.call(f, o, [atom("arg", i) if (p["t"] or {}).get("cls") == "float" else UNK for i, p in enumerate(f["params"])])
                D.budget = 200000
                D.go(t, th); n += 1
                del D.budget
    R.need(n, "functions of the solver")
    R.count("solver evaluations", n)


def boundaries(D, R, row):
    from rules import B01
    bases = [c for c in sorted(D.cls, key=str) if c and (c.startswith(B) and "Flow_bc" in " ".join(D.P.bases(c)) or "Mesh_bc" in " ".join(D.P.bases(c) if c else []))]
    n = 0
    for cls in bases:
        for nd in (1, 2, 3):
            for sign in (False, True):
                for E in (CAR, DEF):
                    for m in ("apply_state", "apply_flux", "apply_advection", "init_cache"):
                        f = D.meth(cls, m, 1)
                        if f is None: continue
                        def th(I):
                            e = element(D, I, E, nd, row)
                            c = bound(D, I, E, e, nd - 1, sign)
                            o = I.newobj(cls)
                            o.c["state"] = o.c["_state"] = o.c["fs"] = Mat(nd + 2, 1)
                            I.call(f, o, [c])
                        D.go("%s::%s in %dD" % (strip(cls), m, nd), th); n += 1
    R.need(n, "boundary conditions")


POOL = {}
PARTS = 8


def work(i):
    D, R = POOL["D"], POOL["R"]
    D.part, D.parts, R.cov = i, PARTS, {}
    kernels(D, R)
    elements(D, R, 2)
    boundaries(D, R, 2)
    solver(D, R, 2)
    return ({k: (where(f), i, n, e) for k, (f, i, n, e) in D.out.items()}, {k: (where(f), a, b, e) for k, (f, a, b, e) in D.mis.items()},
            {q: (n, where(f)) for q, (n, f, _) in D.count.items()}, D.nshape, D.runs, D.funcs, D.undecided, D.skipped, R.cov)


def run(P, R):
    import multiprocessing as mp
    U.EXACT = False
    D = Driver(P, R)
    rows = [r for r in range(2, 9)] if R.tier == "thorough" else [2, 3, 8]
    POOL.update(D=D, R=R)
    with mp.get_context("fork").Pool(PARTS) as pool:
        parts = pool.map_async(work, range(PARTS), chunksize=1)
        layouts(D, R, rows)
        wiring(D, R, 2)
        refined_wiring(D, R, 2)
        parts = parts.get()
    out = {k: (where(f), i, n, e) for k, (f, i, n, e) in D.out.items()}
    mis = {k: (where(f), a, b, e) for k, (f, a, b, e) in D.mis.items()}
    count = {q: (n, where(f)) for q, (n, f, _) in D.count.items()}
    nshape, runs, funcs, undecided, skipped = D.nshape, D.runs, set(D.funcs), list(D.undecided), list(D.skipped)
    for o, m, c, ns, rn, fs, un, sk, cov in parts:
        for k, v in o.items(): out.setdefault(k, v)
        for k, v in m.items(): mis.setdefault(k, v)
        for q, (n, w) in c.items(): count[q] = (n + count.get(q, (0, w))[0], w)
        nshape += ns; runs += rn; funcs |= fs; undecided += un; skipped += sk
    for k, v in parts[0][8].items(): R.count(k, v)
    for (q, name), (w, i, n, entry) in sorted(out.items()):
        R.bad("access", w, "%s:%s" % (q, name), "%s: index %d of %s of length %d (evaluating %s)" % (q, i, name, n, entry))
    for (q, op), (w, a, b, entry) in sorted(mis.items()):
        R.bad("shape", w, "%s:%s" % (q, op), "%s: operands of `%s` of sizes %d and %d (evaluating %s)" % (q, op, a, b, entry))
    bad = {q for q, _ in out}
    for q, (n, w) in sorted(count.items()):
        if q not in bad: R.ok("access", w, "%s: %d indices inside their arrays" % (q, n))
        R.count("indices checked", n)
    R.ok("shape", "matrix operations", "%d matrix operations with operands of known sizes" % nshape)
    R.count("matrix operations checked", nshape)
    R.count("entry evaluations", runs)
    R.count("functions evaluated", len(funcs))
    if undecided: R.notes.append("not decided: " + "; ".join(sorted(set(undecided))[:40]))
    if skipped: R.notes.append("cut short: %d: %s" % (len(skipped), ", ".join(sorted(set(skipped))[:8])))
    R.explanation = __doc__
    R.assumptions += ["indices that the evaluator does not know (they depend on data) are not checked", "matrices of the basis have the size of the basis"]
