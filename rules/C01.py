"""C01: the discretization is conservative.

The kernels are evaluated abstractly (hx/absint.py) with every input an independent symbol and every value kept as an exact normal form
(hx/forms.py): a polynomial over the inputs and over applications of functions that are not interpreted.  Conservation is an equality
of such forms, so that it is decided for all states, geometries and parameters at once; nothing depends on how the formulas are written."""
import itertools
import re
from fractions import Fraction as Fr
from hx import units as U, forms as F
from hx.units import Q, atom, ex
from hx.absint import Interp, Model, Arr, Ptr, Obj, Mat, Vec, UNK, Budget, Cell
from rules import U01
from rules.U01 import Mem, seq, strip

SP = re.compile(r"hexed::Spatial<hexed::pde::(\w+)(<(?:true|false)?>::Pde)?, (true|false)>::(\w+)<(\d), (\d)>$")
ELEM_MAX = {}
MAX_ROW = {"quick": 2, "thorough": 3}


def amem(name, *tag): return Mem(name, read=lambda i: atom(name, *tag, i))
def amat(name, r, c): return Mat(r, c, [atom(name, i, j) for j in range(c) for i in range(r)])


def basis(row):
    m = lambda name, r, c: (lambda *a: amat(name + "".join(map(str, a)), r, c))
    s = lambda name: (lambda *a: atom(name, *a))
    return Model("Basis", {"node": s("node"), "nodes": m("node", row, 1), "node_weights": m("w", row, 1), "diff_mat": m("D", row, row), "boundary": m("B", 2, row), "orthogonal": m("orth", row, 1),
        "filter": m("filt", row, row), "prolong": m("P", row, row), "restrict": m("R", row, row), "max_cfl": s("cfl"), "min_eig_diffusion": s("eigd"), "min_eig_convection": s("eigc"), "quadratic_safety": s("qs"),
        "step_ratio": s("sr"), "interpolate": lambda *a: UNK}, {"row_size": row})


class Driver(U01.Driver):
    budget = 3000000
    def __init__(self, P, R):
        U01.Driver.__init__(self, P, R)
        self.classes = []
        for c in self.cls:
            m = SP.match(c or "")
            if m: self.classes.append((m.group(1), m.group(2) == "<true>::Pde", m.group(3) == "true", m.group(4), int(m.group(5)), int(m.group(6)), c))
        self.classes.sort()
        self.undecided = []
    def report(self, *a): pass
    def unknown(self, t): self.undecided.append(t)
    def interp(self):
        I = U01.Driver.interp(self)
        I.hooks_global = {}
        I.hooks_call = {k: v for k, v in I.hooks_call.items() if k == "throw_critical"}
        I.hooks_call["nodes"] = lambda I, n, ob, args: amat("gl_node", self.row, 1) if not isinstance(ob, Model) and str(n.get("f")).startswith("c:@N@hexed@S@Basis@F@nodes#") else None
        return I

    def pde_args(self, I, pde, visc):
        if pde == "Navier_stokes": return [self.transport(I, "mu"), self.transport(I, "kappa")] if visc else []
        if pde == "Smooth_art_visc": return [atom("diff_time"), atom("cheby")]
        if pde == "Advection": return [atom("advect_length")]
        return []

    def transport(self, I, name):
        f = next(f for f in self.cls.get("hexed::Transport_model", []) if f.q.endswith("::sutherland"))
        return I.call(f, None, [atom(name), atom(name + "_temp"), atom(name + "_offset")])


def n_ext(pde, nd, row): return {"Navier_stokes": nd + 2, "Fix_therm_admis": nd + 2, "Smooth_art_visc": 3, "Advection": nd + row}[pde]
def n_upd(pde, nd, row): return row if pde == "Advection" else n_ext(pde, nd, row)


def val(m, key):
    q = m.get(key)
    return ex(q) if isinstance(q, Q) else None


def directions(nd, deformed):
    if not deformed: return [((i, i), (True, False)) for i in range(nd)]
    return [((i, j), (a, b)) for i in range(nd) for j in range(nd) for a in (True, False) for b in (True, False) if i != j or a != b]


def con_model(nd, row, dd):
    mem = {(s, l): amem("face%d%s" % (s, "v" if l else "")) for s in (0, 1) for l in (False, True)}
    fn = amem("normal")
    def direction():
        o = Obj("hexed::Connection_direction")
        o.c["i_dim"] = Vec(2, list(dd[0])); o.c["face_sign"] = Vec(2, list(dd[1]))
        return o
    return mem, Model("Kernel_connection", {"get_direction": direction, "state": lambda s, l: Ptr(mem[(s, bool(l))], 0) if isinstance(s, int) else UNK, "normal": lambda: Ptr(fn, 0)})


def eq(a, b):
    """True, False or None (unknown) for two forms"""
    if a is None or b is None: return None
    r = differs(F.add(a, F.neg(b)))
    return None if r is None else not r


def differs(d):
    """whether a form is not zero: by normal form, then by its values at random points"""
    if not d: return False
    r = F.nonzero(d)
    if r is not None: return r
    return None if F.clear(d) else False


def matching(out, get, n, nfq, other):
    """the permutation s such that get(0, v, q) == other(v, s[q]) for all variables v: list, None if unknown, or the q without partner"""
    s = []
    for q in range(nfq):
        c = [p for p in range(nfq) if all(eq(get(v, q), other(v, p)) is not False for v in range(n))]
        if any(get(v, q) is None for v in range(n)) or any(other(v, p) is None for v in range(n) for p in range(nfq)): return None, None
        if len(c) != 1: return None, (q, c)
        s.append(c[0])
    if sorted(s) != list(range(nfq)): return None, ("twice", s)
    return s, None


# ------------------------------------------------------------------------------------------------ faces between elements
def vertex_matching(D, nd, dd):
    """which face vertex of element 1 each face vertex of element 0 is identified with, from `vertex_inds`"""
    f = next((f for f in D.P.concrete() if f.q == "hexed::vertex_inds" and f.body is not None), None)
    if f is None: return None
    out = []
    def th(I):
        o = Obj("hexed::Con_dir<hexed::Deformed_element>")
        o.c["i_dim"] = Vec(2, list(dd[0])); o.c["face_sign"] = Vec(2, list(dd[1]))
        v = I.rv(I.call(f, None, [nd, o]))
        if isinstance(v, Vec) and v.n == 2:
            for s in (0, 1):
                x = I.rv(v.get(s))
                if not (isinstance(x, Vec) and isinstance(x.n, int)): return
                out.append([I.rv(x.get(i)) for i in range(x.n)])
    D.run("vertex_inds", th)
    if len(out) != 2 or any(not isinstance(i, int) or isinstance(i, bool) for x in out for i in x): return None
    def pos(i, d):  # index of a vertex of the element among the vertices of its face
        bits = [(i >> (nd - 1 - k)) & 1 for k in range(nd)]
        return sum(b << (nd - 2 - j) for j, b in enumerate(bits[:d] + bits[d + 1:]))
    a, b = ([pos(i, dd[0][s]) for i in out[s]] for s in (0, 1))
    m = {}
    for x, y in zip(a, b): m[x] = y
    return [m.get(i) for i in range(2 ** (nd - 1))] if len(m) == 2 ** (nd - 1) else None


def extend(vm, nd, row):
    """the permutation of quadrature points that goes with one of vertices"""
    if nd == 1: return [0]
    def co(i, r): return [(i // r ** (nd - 2 - k)) % r for k in range(nd - 1)]
    o = co(vm[0], 2)
    cols = [[x - y for x, y in zip(co(vm[1 << (nd - 2 - k)], 2), o)] for k in range(nd - 1)]
    s = []
    for q in range(row ** (nd - 1)):
        c = co(q, row)
        p = [o[j] * (row - 1) + sum(c[k] * cols[k][j] for k in range(nd - 1)) for j in range(nd - 1)]
        s.append(sum(x * row ** (nd - 2 - j) for j, x in enumerate(p)))
    return s


def neighbor(D, R, tag, cls, pde, nd, row, dfm, diff, conv, visc):
    op = D.meth(cls, "operator()", 1)
    nfq, nu, ne = row ** (nd - 1), n_upd(pde, nd, row), n_ext(pde, nd, row)
    where = "%s:%s" % (op["file"], op["l"])
    for dd in directions(nd, dfm):
        mem, con = con_model(nd, row, dd)
        t = "%s, dimensions %d,%d, signs %d,%d" % (tag, dd[0][0], dd[0][1], dd[1][0], dd[1][1])
        def th(I):
            o = D.make(I, cls, [0] + D.pde_args(I, pde, visc))
            if o is None: D.skipped.append(t + " (constructor)"); return
            I.call(op, o, [seq(con)])
        D.run(t, th)
        vm = vertex_matching(D, nd, dd)
        want = extend(vm, nd, row) if vm and None not in vm else None
        if not dfm: want = list(range(nfq))
        if conv: balance(D, R, where, "flux", t, cls, mem, False, nu, nfq, dd, want, True)
        if diff: balance(D, R, where, "average", t, cls, mem, True, ne, nfq, dd, want, False)


def balance(D, R, where, what, t, cls, mem, ldg, n, nfq, dd, want, flux, corr=None):
    """what is written for the two sides of a face: fluxes out of the two elements cancel, averages agree, at the points that coincide"""
    key = "%s:%s:%s" % (strip(cls), what, "x".join(map(str, dd[0])) + "".join("-+"[x] for x in dd[1]))
    def get(s):
        def g(v, q):
            i = v * nfq + q
            if i not in mem[(s, ldg)].c: return None
            x = val(mem[(s, ldg)], i)
            if x is None: return None
            if corr: x = F.add(x, corr(s, v, q))
            if flux and not dd[1][s]: x = F.neg(x)
            return F.neg(x) if flux and s else x
        return g
    a, b = get(0), get(1)
    missing = [(s, v, q) for s in (0, 1) for v in range(n) for q in range(nfq) if v * nfq + q not in mem[(s, ldg)].c]
    if missing:
        if len(missing) < 2 * n * nfq: R.bad("face", where, key, "%s: the %s of side %d, variable %d, point %d is not written" % ((t, what) + missing[0]))
        else: D.unknown(t)
        return
    if want is None: D.unknown(t); return
    unknown = False
    for v in range(n):
        for q in range(nfq):
            e = eq(a(v, q), b(v, want[q]))
            if e is None: unknown = True
            elif not e:
                R.bad("face", where, key, "%s: %s of variable %d at point %d is not what element 1 gets at the same point (%d): %s against %s" % (t, "flux out of element 0" if flux else what, v, q, want[q], F.show(a(v, q), 4), F.show(b(v, want[q]), 4)))
                return
    if unknown: D.unknown(t)
    else: R.ok("face", where, "%s: %s of %d variables at %d points" % (t, what, n, nfq)); R.count("face values compared", n * nfq)



# ------------------------------------------------------------------------------------------------ inside an element
def turned(i, n, nd, rot):
    """where and with which sign entry i of a Cartesian element is in the rotated one"""
    v = i // n
    return (rot[0][v] * n + i % n, rot[1][v]) if v < nd else (i, 1)


def rotate(m, n, nd, rot):
    read, back = m.read, {a: (v, s) for v, (a, s) in enumerate(zip(*rot))}
    def get(i):
        v = i // n
        if not 0 <= v < nd: return read(i)
        w, s = back[v]
        x = read(w * n + i % n)
        return x if s > 0 else U.neg(x)
    m.read = get


ROT = {2: ((1, 0), (1, -1)), 3: ((1, 2, 0), (1, -1, -1))}


class Element:
    def __init__(self, nd, row, identity=False, vectors=False):
        """identity: a rotation (axes, signs) of a Cartesian element, or True for the Cartesian element itself; vectors: rotate the first `nd` variables along"""
        self.nd, self.row, self.nq, self.nfq = nd, row, row ** nd, row ** (nd - 1)
        nq = self.nq
        self.state, self.cache = amem("state"), amem("cache")
        self.faces = {(i, l): amem("face" + ("v" if l else ""), i) for i in range(2 * nd) for l in (False, True)}
        nrm, det, vt = amem("level_normal"), amem("det"), amem("vertex_tss")
        fn = [amem("face_normal", i) for i in range(2 * nd)]
        if identity: # the shape of a Cartesian element
            axes, signs = identity if isinstance(identity, tuple) else (tuple(range(nd)), (1,) * nd)
            delta = lambda i, j: (U.ONE if signs[i] > 0 else U.neg(U.ONE)) if j == axes[i] else U.ZERO
            nrm.read = lambda i: delta(i // nq // nd, i // nq % nd)
            det.read = lambda i: U.ONE
            if vectors:
                for m, n in [(self.state, nq), (self.cache, nq)] + [(m, self.nfq) for m in self.faces.values()]: rotate(m, n, nd, identity)
            for f in range(2 * nd): fn[f].read = lambda i, f=f: delta(f // 2, i // self.nfq)
        self.model = Model("Kernel_element", {
            "state": lambda: Ptr(self.state, 0), "residual_cache": lambda: Ptr(self.cache, 0),
            "time_step_scale": lambda: Ptr(self.state, (nd + 2) * nq), "nominal_size": lambda: atom("h"),
            "vertex_time_step_scale": lambda i: Cell(vt, i if isinstance(i, int) else 0),
            "face": lambda i, l: Ptr(self.faces[(i, bool(l))], 0) if isinstance(i, int) and (i, bool(l)) in self.faces else UNK,
            "reference_level_normals": lambda: Ptr(nrm, 0), "jacobian_determinant": lambda: Ptr(det, 0),
            "kernel_face_normal": lambda i: Ptr(fn[i], 0) if isinstance(i, int) and 0 <= i < 2 * nd else UNK, "deformed": lambda: UNK, "uncert": lambda: atom("uncert")})

    def co(self, q, n=None): return [(q // self.row ** (self.nd - 1 - d)) % self.row for d in range(self.nd)]
    def weight(self, c):
        m = ()
        for x in c: m = F.mmul(m, ((F.atom_id(("w", x, 0)), 1),))
        return {m: 1.}
    def fco(self, q): return [(q // self.row ** (self.nd - 2 - d)) % self.row for d in range(self.nd - 1)]


def basis_rules(row):
    """sum_i w_i D_ij = B_1j - B_0j: differentiation is exact for the polynomials of the basis"""
    last = row - 1
    rules = {}
    for j in range(row):
        p = F.add(F.atom("B", 1, j), F.neg(F.atom("B", 0, j)))
        for i in range(last): p = F.add(p, F.neg(F.mul(F.atom("w", i, 0), F.atom("D", i, j))))
        rules[F.atom_id(("D", last, j))] = F.mul(p, F.power(F.atom("w", last, 0), Fr(-1)))
    # sum_j B_sj = 1: extrapolation is exact for constants
    one = {}
    for k in (0, 1):
        p = F.const(1)
        for j in range(last): p = F.add(p, F.neg(F.atom("B", k, j)))
        one[F.atom_id(("B", k, last))] = p
    return rules, one


def net_flux(E, v, get):
    """integral over all faces of the flux out of the element; get(face, index) -> form"""
    t = {}
    for d in range(E.nd):
        for sgn in (0, 1):
            for q in range(E.nfq):
                x = get(2 * d + sgn, v * E.nfq + q)
                if x is None: return None
                F.into(t, F.scale(F.mul_full(E.weight(E.fco(q)), x), 1. if sgn else -1.))
    return t


def integral(E, v, get, dfm, dt):
    """integral over the element of the change of a variable per time; get(index) -> form"""
    t = {}
    for q in range(E.nq):
        x = get(v * E.nq + q)
        if x is None: return None
        m = F.power(F.mul(dt, F.atom("state", (E.nd + 2) * E.nq + q)), Fr(-1))
        m = F.mul(F.mul(m, F.atom("h")), E.weight(E.co(q)))
        if dfm: m = F.mul(m, F.atom("det", q))
        F.into(t, F.mul_full(x, m))
    return t


def compare(D, R, rule, where, key, t, what, pairs, E, n):
    """pairs: variable -> (integral, expected)"""
    rules = basis_rules(E.row)
    for v in range(n):
        a, b = pairs(v)
        if a is None or b is None: D.unknown(t); return
        d = F.add(a, F.neg(b))
        for r in rules: d = F.subst(d, r)
        r = differs(d)
        if r is None: D.unknown(t); return
        if r:
            R.bad(rule, where, key, "%s: %s of variable %d: the difference is %s" % (t, what, v, F.show(d, 4))); return
    R.ok(rule, where, "%s: %s of %d variables" % (t, what, n)); R.count("element balances", n)


def change(mem, name):
    """new minus old contents of an array"""
    def g(i):
        if i not in mem.c: return {}
        x = val(mem, i)
        return None if x is None else F.add(x, F.neg(F.atom(name, i)))
    return g


def local(D, R, tag, cls, pde, nd, row, dfm, diff, conv, visc):
    op = D.meth(cls, "operator()", 1)
    where = "%s:%s" % (op["file"], op["l"])
    n = nd + 2
    for stage in (False, True):
        for res in (False, True):
            if stage and (res or diff or not conv): continue
            E = Element(nd, row)
            t = "%s%s%s" % (tag, ", second stage" if stage else "", ", residual only" if res else "")
            key = lambda what: "%s:%s%s%s" % (strip(cls), what, ":stage" if stage else "", ":residual" if res else "")
            old = {k: dict(m.c) for k, m in E.faces.items()}
            def th(I):
                o = D.make(I, cls, [basis(row), atom("dt"), stage, res, False] + D.pde_args(I, pde, visc))
                if o is None: D.skipped.append(t + " (constructor)"); return
                # the faces are overwritten with the extrapolated state in the end; what the update used is the flux given
                I.call(op, o, [seq(E.model)])
            D.run(t, th)
            dt = F.atom("dt")
            if stage: dt = F.mul(dt, F.atom("sr"))
            given = lambda f, i: F.atom("face", f, i)
            visc_w = lambda f, i: val(E.faces[(f, True)], i) if i in E.faces[(f, True)].c else None
            def expected(v):
                x = net_flux(E, v, given) if conv else {}
                if diff:
                    y = net_flux(E, v, visc_w)
                    if y is None: return None
                    x = F.add(x, y)
                if stage:
                    for q in range(E.nq): x = F.add(x, F.mul_full(E.weight(E.co(q)), F.atom("cache", v * E.nq + q)))
                return F.neg(x)
            target = E.cache if res else E.state
            if not any(v * E.nq + q in target.c for v in range(n) for q in range(E.nq)): D.unknown(t); continue
            got = (lambda i: val(E.cache, i)) if res else change(E.state, "state")
            compare(D, R, "element", where, key("balance"), t, "change of the integral, minus the flux in through the faces,", lambda v: (integral(E, v, got, dfm, dt), expected(v)), E, n)
            if conv and not stage and not res:
                def cached(v):
                    s = {}
                    for q in range(E.nq):
                        x = val(E.cache, v * E.nq + q)
                        if x is None: return None, None
                        s = F.add(s, F.mul_full(E.weight(E.co(q)), x))
                    return s, F.neg(net_flux(E, v, given))
                compare(D, R, "element", where, key("cache"), t, "cached rate for the second stage, minus the flux in through the faces,", cached, E, n)
            if res:
                chg = [i for i in range(n * E.nq) if i in E.state.c and eq(val(E.state, i), F.atom("state", i)) is False]
                if chg: R.bad("element", where, key("state"), "%s: the state changes while only the residual is computed" % t)


def sources(D, R, tag, cls, pde, nd, row, dfm, diff, conv, visc):
    """equations with a source term: the rate of change is what the faces bring in and the source, weighted with the volume"""
    op = D.meth(cls, "operator()", 1)
    where = "%s:%s" % (op["file"], op["l"])
    E, n = Element(nd, row), n_upd(pde, nd, row)
    t = tag + ", source"
    def th(I):
        o = D.make(I, cls, [basis(row), atom("dt"), False, True, False] + D.pde_args(I, pde, visc))
        if o is None: D.skipped.append(t + " (constructor)"); return
        I.call(op, o, [seq(E.model)])
    D.run(t, th)
    if not any(v * E.nq + q in E.cache.c for v in range(n) for q in range(E.nq)): D.unknown(t); return
    def source(v, q):
        if pde == "Advection": return F.scale(F.power(F.atom("advect_length"), Fr(-1)), 2.)
        x = F.fn("abs", F.atom("state", (SLOT[pde](v, nd) - 1) * E.nq + q))
        return F.mul(F.power(x, Fr(1, 2)) if v == 1 else x, F.power(F.atom("diff_time"), Fr(-1)))
    def expected(v):
        x = net_flux(E, v, lambda f, i: F.atom("face", f, i)) if conv else {}
        if diff:
            y = net_flux(E, v, lambda f, i: val(E.faces[(f, True)], i) if i in E.faces[(f, True)].c else None)
            if y is None: return None
            x = F.add(x, y)
        x = F.neg(x)
        for q in range(E.nq):
            m = F.mul(F.atom("h"), E.weight(E.co(q)))
            if dfm: m = F.mul(m, F.atom("det", q))
            F.into(x, F.mul_full(m, source(v, q)))
        return x
    compare(D, R, "element", where, "%s:source" % strip(cls), t, "change of the integral, minus the flux in through the faces and the integral of the source,",
            lambda v: (integral(E, v, lambda i: val(E.cache, i), dfm, F.atom("dt")), expected(v)), E, n)


def reconcile(D, R, tag, cls, pde, nd, row, dfm, visc):
    op = D.meth(cls, "operator()", 1)
    where = "%s:%s" % (op["file"], op["l"])
    for res in (False, True):
        E = Element(nd, row)
        t = tag + (", residual only" if res else "")
        def th(I):
            o = D.make(I, cls, [basis(row), atom("dt"), 0, res, False] + D.pde_args(I, pde, visc))
            if o is None: D.skipped.append(t + " (constructor)"); return
            I.call(op, o, [seq(E.model)])
        D.run(t, th)
        given = lambda f, i: F.atom("facev", f, i)
        target, nm = (E.cache, "cache") if res else (E.state, "state")
        if not target.c: D.unknown(t); continue
        compare(D, R, "element", where, "%s:balance%s" % (strip(cls), ":residual" if res else ""), t, "correction of the integral, minus the flux correction in through the faces,",
                lambda v: (integral(E, v, change(target, nm), dfm, F.atom("dt")), F.neg(net_flux(E, v, given))), E, nd + 2)



# ------------------------------------------------------------------------------------------------ faces of different size
def tensor(names, q, c, row, nd):
    """product over the dimensions of a face of interpolation weights; names[d] None: no interpolation in that dimension"""
    t = F.const(1)
    for d in range(nd - 1):
        i, j = (q // row ** (nd - 2 - d)) % row, (c // row ** (nd - 2 - d)) % row
        if names[d] is None:
            if i != j: return {}
        else: t = F.mul(t, F.atom(names[d], i, j))
    return t


def refined(D, R, tag, cls, pde, nd, row, name):
    op = D.meth(cls, "operator()", 1)
    where = "%s:%s" % (op["file"], op["l"])
    nfq, n = row ** (nd - 1), n_ext(pde, nd, row)
    down = name == "Prolong_refined"
    for code in range(2 ** (nd - 1)):
        stretch = [bool(code >> d & 1) for d in range(nd - 1)] + [False] * (3 - nd)
        for scale in (False, True):
            for offset in (False, True):
                free = [d for d in range(nd - 1) if not stretch[d]]
                nf = 2 ** len(free)
                coarse, fine = amem("coarse"), [amem("fine", i) for i in range(4)]
                o = Obj("hexed::Refined_face")
                o.c["coarse"], o.c["fine"], o.c["stretch"] = Ptr(coarse, 0), Vec(4, [Ptr(f, 0) for f in fine]), Vec(2, stretch[:2] + [False] * (2 - len(stretch[:2])))
                t = "%s, stretching %s%s%s" % (tag, "".join("01"[x] for x in stretch[:nd - 1]), ", area scaling" if scale else "", ", LDG storage" if offset else "")
                def th(I):
                    k = D.make(I, cls, [basis(row), scale, offset])
                    if k is None: D.skipped.append(t + " (constructor)"); return
                    I.call(op, k, [seq(o)])
                D.run(t, th)
                base = offset * (nd + 2) * nfq
                def names(f):
                    r = [None] * (nd - 1)
                    for k, d in enumerate(free): r[d] = "%s%d" % ("P" if down else "R", (f >> (len(free) - 1 - k)) & 1)
                    return r
                factor = 2. ** (sum(stretch[:nd - 1]) if scale else 0)
                key = "%s:%s%s%s" % (strip(cls), "".join("01"[x] for x in stretch[:nd - 1]), ":area" if scale else "", ":ldg" if offset else "")
                bad = None; unknown = False
                for f in range(nf) if down else (0,):
                    tgt = fine[f] if down else coarse
                    for v in range(n):
                        for q in range(nfq):
                            i = base + v * nfq + q
                            got = val(tgt, i) if i in tgt.c else None
                            want = {}
                            if down:
                                for c in range(nfq): F.into(want, F.mul(F.scale(tensor(names(f), q, c, row, nd), factor), F.atom("coarse", base + v * nfq + c)))
                            else:
                                for g in range(nf):
                                    for c in range(nfq): F.into(want, F.mul(F.scale(tensor(names(g), q, c, row, nd), 1 / factor), F.atom("fine", g, base + v * nfq + c)))
                            e = eq(got, want)
                            if e is None:
                                if i not in tgt.c and tgt.c: bad = bad or (v, q, f, "nothing", F.show(want))
                                else: unknown = True
                            elif not e: bad = bad or (v, q, f, F.show(got), F.show(want))
                if bad: R.bad("refined", where, key, "%s: variable %d, point %d%s gets %s; %s requires %s" % (t, bad[0], bad[1], " of fine face %d" % bad[2] if down else "", bad[3], "interpolation" if down else "conservation", bad[4]))
                elif unknown: D.unknown(t)
                else: R.ok("refined", where, "%s: %d values" % (t, n * nfq)); R.count("face values compared", n * nfq * (nf if down else 1))


# ------------------------------------------------------------------------------------------------ consistency
def euler_flux(st, n, nd):
    """flux of the Euler equations of an ideal gas through a surface with normal n"""
    rho, en = st[nd], st[nd + 1]
    inv = F.power(rho, Fr(-1))
    mn, mm = {}, {}
    for d in range(nd): F.into(mn, F.mul(st[d], n[d])); F.into(mm, F.mul(st[d], st[d]))
    p = F.scale(F.add(en, F.neg(F.scale(F.mul(mm, inv), .5))), 1.4 - 1)
    vol = F.mul(mn, inv)
    return [F.add(F.mul(st[d], vol), F.mul(p, n[d])) for d in range(nd)] + [mn, F.mul(F.add(en, p), vol)]


def consistency(D, R, tag, cls, pde, nd, row, dfm, visc, diff, conv, what):
    """between equal states the numerical flux is the flux of the equations and the average is the state; between equal viscous fluxes there is no correction"""
    op = D.meth(cls, "operator()", 1)
    where = "%s:%s" % (op["file"], op["l"])
    nfq, ne, nu = row ** (nd - 1), n_ext(pde, nd, row), n_upd(pde, nd, row)
    for dd in directions(nd, dfm):
        vm = vertex_matching(D, nd, dd)
        s = extend(vm, nd, row) if vm and None not in vm else None
        if not dfm: s = list(range(nfq))
        t = "%s, dimensions %d,%d, signs %d,%d, equal states" % (tag, dd[0][0], dd[0][1], dd[1][0], dd[1][1])
        if s is None: D.unknown(t); continue
        mem, con = con_model(nd, row, dd)
        back = {s[q]: q for q in range(nfq)}
        def same(name, sign): return lambda i: F.mul(F.const(sign), F.atom(name, i // nfq * nfq + back[i % nfq])) if isinstance(i, int) else F.atom(name + "?", i)
        mem[(1, False)].read = lambda i: atom("face0", i // nfq * nfq + back[i % nfq]) if isinstance(i, int) else atom("face1", i)
        if what == "corr":
            sgn1 = 1 if not dfm or dd[1][0] != dd[1][1] else -1
            one = same("face0v", sgn1)
            mem[(1, True)].read = lambda i: Q(None, None, None, one(i))
        def th(I):
            o = D.make(I, cls, [0] + D.pde_args(I, pde, visc)) if what != "corr" else I.newobj(cls)
            if o is None: D.skipped.append(t + " (constructor)"); return
            I.call(op, o, [seq(con)])
        D.run(t, th)
        checks = []
        for q in range(nfq):
            if what == "corr":
                checks += [("correction of flux %d" % v, (sd, True), v * nfq + q, F.const(0)) for v in range(nu) for sd in (0, 1)]
                continue
            if conv and pde == "Navier_stokes":
                st = [F.atom("face0", v * nfq + q) for v in range(nd + 2)]
                n = [F.atom("normal", d * nfq + q) if dfm else F.const(d == dd[0][0]) for d in range(nd)]
                checks += [("flux of variable %d" % v, (0, False), v * nfq + q, w) for v, w in enumerate(euler_flux(st, n, nd))]
            if diff: checks += [("average of variable %d" % v, (sd, True), v * nfq + q, F.atom("face0", v * nfq + (q if sd == 0 else back[q]))) for v in range(ne) for sd in (0, 1)]
        res = True
        for name, m, i, w in checks:
            e = eq(val(mem[m], i) if i in mem[m].c else None, w)
            if e is None: res = None
            elif not e and res is not False:
                res = False
                R.bad("consistency", where, "%s:%s:%s" % (strip(cls), "x".join(map(str, dd[0])) + "".join("-+"[x] for x in dd[1]), name.split()[0]), "%s: %s is %s, not %s" % (t, name, F.show(val(mem[m], i)), F.show(w)))
        if res: R.ok("consistency", where, "%s: %d values" % (t, len(checks)))
        elif res is None: D.unknown(t)


SLOT = {"Navier_stokes": lambda v, nd: v, "Fix_therm_admis": lambda v, nd: v, "Smooth_art_visc": lambda v, nd: nd + 6 + v, "Advection": lambda v, nd: v if v < nd else nd + 9 + v - nd}


def write_face(D, R, tag, cls, pde, nd, row, visc):
    op = D.meth(cls, "operator()", 1)
    where = "%s:%s" % (op["file"], op["l"])
    E = Element(nd, row)
    def th(I):
        o = D.make(I, cls, [basis(row)] + D.pde_args(I, pde, visc))
        if o is None: D.skipped.append(tag + " (constructor)"); return
        I.call(op, o, [seq(E.model)])
    D.run(tag, th)
    for d in range(nd):
        for s in (0, 1):
            m = E.faces[(2 * d + s, False)]
            res = True
            for v in range(n_ext(pde, nd, row)):
                for q in range(E.nfq):
                    i = v * E.nfq + q
                    want = {}
                    for k in range(row):
                        c = E.fco(q); c[d:d] = [k]
                        F.into(want, F.mul(F.atom("B", s, k), F.atom("state", SLOT[pde](v, nd) * E.nq + sum(x * row ** (nd - 1 - j) for j, x in enumerate(c)))))
                    if i not in m.c:
                        if m.c and res is not False: res = False; R.bad("extrapolation", where, "%s:%d%d" % (strip(cls), d, s), "%s: face %d, variable %d, point %d is not written" % (tag, 2 * d + s, v, q))
                        elif not m.c: res = None
                        continue
                    e = eq(val(m, i), want)
                    if e is None: res = None if res else res
                    elif not e and res is not False:
                        res = False
                        R.bad("extrapolation", where, "%s:%d%d" % (strip(cls), d, s), "%s: face %d, variable %d, point %d is %s, not %s" % (tag, 2 * d + s, v, q, F.show(val(m, i)), F.show(want)))
            if res: R.ok("extrapolation", where, "%s, face %d" % (tag, 2 * d + s))
            elif res is None: D.unknown(tag)


# ------------------------------------------------------------------------------------------------ deformed and Cartesian elements
def agree(D, R, tag, name, cls, pde, nd, row, visc, diff, conv, rot=None):
    """a deformed element (or connection) with the shape of a Cartesian one gets the same results, also if it is rotated together with the flow"""
    other = next((c[6] for c in D.classes if c[:6] == (pde, visc, False, name, nd, row)), None)
    if other is None: return
    where = "%s:%s" % (D.meth(cls, "operator()", 1)["file"], D.meth(cls, "operator()", 1)["l"])
    vectors = bool(rot) and pde != "Smooth_art_visc"
    def result(c, dfm, flags, dd):
        if name == "Neighbor":
            mem, con = con_model(nd, row, dd)
            nfq = row ** (nd - 1)
            one = U.ONE if not (dfm and rot) or rot[1][dd[0][0]] > 0 else U.neg(U.ONE)
            axis = rot[0][dd[0][0]] if dfm and rot else dd[0][0]
            con.methods["normal"] = lambda: Ptr(Mem("unit normal", read=lambda i: one if i // nfq == axis else U.ZERO), 0)
            if dfm and rot and vectors:
                for m in mem.values(): rotate(m, nfq, nd, rot)
            arg, args = con, [0]
            out = {"face %d%s" % (k[0], " (LDG)" if k[1] else ""): m for k, m in mem.items()}
        else:
            E = Element(nd, row, rot if dfm and rot else dfm, vectors)
            arg, args = E.model, [basis(row), atom("dt")] + ([False] if name == "Local" else [0]) + list(flags)
            if name == "Local" and flags[0] == "stage": args = [basis(row), atom("dt"), True, False, False]
            out = {"state": E.state, "residual": E.cache}
            out.update({"face %d%s" % (k[0], " (LDG)" if k[1] else ""): m for k, m in E.faces.items()})
        def th(I):
            o = D.make(I, c, args + D.pde_args(I, pde, visc))
            if o is None: D.skipped.append(tag + " (constructor)"); return
            I.call(D.meth(c, "operator()", 1), o, [seq(arg)])
        D.run(tag + (" rotated" if rot else "") + " against Cartesian", th)
        return out
    runs = [((), dd) for dd in directions(nd, False)] if name == "Neighbor" else [((res, filt), None) for res in (False, True) for filt in (False, True)]
    if name == "Local" and conv and not diff: runs.append((("stage",), None))
    for flags, dd in runs:
        a, b = result(cls, True, flags, dd), result(other, False, flags, dd)
        n, unknown, bad = 0, False, None
        for k in a:
            size = row ** (nd if k in ("state", "residual") else nd - 1)
            ind = set(b[k].c) | ({j for j in range(size * (nd + 2)) if turned(j, size, nd, rot)[0] in a[k].c} if vectors else set(a[k].c))
            for i in sorted(ind):
                j, s = turned(i, size, nd, rot) if vectors else (i, 1)
                x, y = val(a[k], j), val(b[k], i)
                if s < 0 and y is not None: y = F.neg(y)
                e = eq(x, y)
                if e is None: unknown = True
                elif not e: bad = bad or (k, j, x, y)
                else: n += 1
        t = "%s%s, %s" % (tag, " rotated" if rot else "", "dimension %d" % dd[0][0] if dd else "stage 1" if flags[0] == "stage" else "residual" * flags[0] + " filter" * flags[1])
        if bad: R.bad("shape", where, "%s:%s:%s" % (strip(cls), pde, bad[0]), "%s: entry %d of %s is %s in a deformed element of Cartesian shape%s, %s in a Cartesian element" % (t, bad[1], bad[0], F.show(bad[2]), " that is rotated with its flow" if rot else "", F.show(bad[3])))
        elif unknown or not n: D.unknown(t + " against Cartesian")
        else: R.ok("shape", where, "%s: %d values" % (t, n)); R.count("values of deformed and Cartesian kernels compared", n)


# ------------------------------------------------------------------------------------------------ walls
WALLS = {"hexed::Nonpenetration": ("mass", "energy"), "hexed::No_slip": ("mass",)}


def walls(D, R, nd, row):
    """no mass (and no energy, where the wall does not exchange heat) is exchanged with a wall"""
    nfq = row ** (nd - 1)
    nb = next((c[6] for c in D.classes if c[:6] == ("Navier_stokes", False, True, "Neighbor", nd, row)), None)
    for cls, kept in sorted(WALLS.items()):
        if cls not in D.P.records: continue
        for th in sorted(U01.THERMAL) if cls.endswith("No_slip") else [None]:
            for sign in (False, True):
                mem = {k: amem(k) for k in ("in_s", "in_f", "gh_s", "gh_f", "sc", "fc", "n", "x")}
                pt = lambda k: Ptr(mem[k], 0)
                face = lambda a, b: (lambda l: pt(b if l else a) if isinstance(l, (bool, int)) else UNK)
                bf = Model("Boundary_face", {"storage_params": lambda: U01.params(nd, row), "inside_face": face("in_s", "in_f"), "ghost_face": face("gh_s", "gh_f"),
                    "inside_face_sign": lambda: sign, "i_dim": lambda: nd - 1, "surface_normal": lambda: pt("n"), "surface_position": lambda: pt("x"), "state_cache": lambda: pt("sc"), "flux_cache": lambda: pt("fc")})
                for m, what in (("apply_state", "convective"), ("apply_flux", "viscous")):
                    f = D.meth(cls, m, 1)
                    if f is None: continue
                    where = "%s:%s" % (f["file"], f["l"])
                    t = "%s%s in %dD, %s flux" % (cls.split("::")[-1], " with " + th.split("::")[-1] if th else "", nd, what)
                    def go(I):
                        o = I.newobj(cls)
                        if th:
                            h = I.newobj(th)
                            for g in D.ctor(th): I.call(g, h, [atom("th", k) for k in range(len(g["params"]))])
                            for k in U01.THERMAL[th]: h.c[k] = atom("th_" + k)
                            o = D.make(I, cls, [h, atom("coercion")]) or o
                        I.call(f, o, [bf])
                    D.run(t, go)
                    if m == "apply_state":
                        cm, con = con_model(nd, row, ((nd - 1, nd - 1), (sign, not sign)))
                        cm[(0, False)].read = lambda i: atom("in_s", i)
                        cm[(1, False)].read = lambda i: mem["gh_s"].get(i)
                        con.methods["normal"] = lambda: pt("n")
                        if nb is None: continue
                        D.run(t, lambda I: I.call(D.meth(nb, "operator()", 1), D.make(I, nb, [0]), [seq(con)]))
                        flux = lambda v, q: val(cm[(0, False)], v * nfq + q)
                    else:
                        flux = lambda v, q: (lambda a: None if a is None else F.add(a, F.atom("in_f", v * nfq + q)))(val(mem["gh_f"], v * nfq + q))
                    for name in kept:
                        v = nd + (name == "energy")
                        res = True
                        for q in range(nfq):
                            x = flux(v, q)
                            if x is None: res = None
                            elif differs(x) is None: res = None
                            elif differs(x):
                                R.bad("wall", where, "%s:%s:%s" % (cls, m, name), "%s: %s passes through the wall: %s" % (t, name, F.show(x))); res = False
                            if res is not True: break
                        if res: R.ok("wall", where, "%s: no %s" % (t, name))
                        elif res is None: D.unknown(t)


def task(D, R, c):
    pde, visc, dfm, name, nd, row, cls = c
    if name == "walls": D.row = row; walls(D, R, nd, row); return
    if name == "orientation": orientation(D, R, nd); return
    if name == "sequence": sequence(D, R); kernel_mesh(D, R); return
    diff = visc or pde in ("Fix_therm_admis", "Smooth_art_visc")
    conv = pde in ("Navier_stokes", "Advection")
    tag = "%s %s%s, %dD, row size %d" % ("deformed" if dfm else "Cartesian", pde, " viscous" if visc else "", nd, row)
    D.row = row
    physical = pde in ("Navier_stokes", "Fix_therm_admis")
    if dfm and (name in ("Local", "Neighbor") or name == "Reconcile_ldg_flux" and diff):
        agree(D, R, tag, name, cls, pde, nd, row, visc, diff, conv)
        if nd > 1 and pde != "Advection": agree(D, R, tag, name, cls, pde, nd, row, visc, diff, conv, ROT[nd])
    if name == "Local" and physical: local(D, R, tag, cls, pde, nd, row, dfm, diff, conv, visc)
    elif name == "Local" and pde in ("Advection", "Smooth_art_visc"): sources(D, R, tag, cls, pde, nd, row, dfm, diff, conv, visc)
    elif name == "Reconcile_ldg_flux" and physical and diff: reconcile(D, R, tag, cls, pde, nd, row, dfm, visc)
    elif name == "Neighbor":
        neighbor(D, R, tag, cls, pde, nd, row, dfm, diff, conv, visc)
        if diff or pde == "Navier_stokes": consistency(D, R, tag, cls, pde, nd, row, dfm, visc, diff, conv, "state")
    elif name == "Neighbor_reconcile" and diff:
        neighbor_reconcile(D, R, tag, cls, pde, nd, row, dfm)
        consistency(D, R, tag, cls, pde, nd, row, dfm, visc, diff, conv, "corr")
    elif name in ("Prolong_refined", "Restrict_refined") and nd > 1: refined(D, R, tag, cls, pde, nd, row, name)
    elif name == "Write_face": write_face(D, R, tag, cls, pde, nd, row, visc)


KERNEL = re.compile(r"@F@kernel_factory<#@N@hexed@S@Spatial>#@N@hexed@N@pde@(?:S@|ST>2#NI#NI@)(\w+)(.*?)#Vb([01])@ST>2#NI#NI@(?!Pde#)(\w+)")
PARAMS = {"Neighbor": ["stage"], "Neighbor_reconcile": [], "Restrict_refined": ["basis", "scale", "offset"], "Prolong_refined": ["basis", "scale", "offset"],
          "Local": ["basis", "dt", "stage", "residual", "filter"], "Reconcile_ldg_flux": ["basis", "dt", "stage", "residual", "filter"]}
DEFAULT = {"Restrict_refined": (True, False), "Prolong_refined": (False, False)}
FIELDS = ("car_cons", "def_cons", "car_elems", "def_elems", "elems", "ref_faces")


def defaults(D, name):
    """default values of `scale` and `offset`"""
    for fs in D.cls.values():
        for f in fs:
            if f.get("kind") == "ctor" and re.search(r"::%s<\d, \d>::%s$" % (name, name), f.q) and len(f["params"]) == 3:
                v = [(p.get("init") or {}).get("v") for p in f["params"][1:]]
                if all(isinstance(x, (bool, int)) for x in v): return tuple(map(bool, v))
    return DEFAULT[name]


class Phase:
    """what is stored at the faces: of coarse elements (C) and at the places where elements meet (F); `c`: extrapolated state or convective flux, `v`: storage for viscous terms"""
    def __init__(self, conv, diff):
        self.conv, self.diff = conv, diff
        self.s = {"cF": "state", "cC": "state", "vF": "old", "vC": "old"}
        self.done, self.err, self.half = [], None, None

    def need(self, slot, what, t):
        if self.s[slot] != what and not self.err: self.err = "%s uses the %s of %s, but what is stored there is %s" % (t, what, "element faces" if slot[1] == "C" else "the places where elements meet", self.s[slot])

    def both(self, name, dfm, seqn, t):
        """kernels that come in two kinds: True when the second one is done"""
        want = ("def_" if dfm else "car_") + ("cons" if name.startswith("Neighbor") else "elems")
        if isinstance(seqn, str) and seqn != want and not self.err: self.err = "%s is applied to %s" % (t, seqn)
        if self.half is None: self.half = (name, dfm); return False
        if self.half == (name, not dfm): self.half = None; return True
        if not self.err: self.err = "%s follows %s %s, which was not applied to all elements or connections before" % (t, "deformed" if self.half[1] else "Cartesian", self.half[0])
        self.half = None
        return True

    def do(self, name, dfm, seqn, a):
        t = "%s %s" % ("deformed" if dfm else "Cartesian", name)
        if name in ("Restrict_refined", "Prolong_refined"):
            t = "%s(scale %s, offset %s)" % (name, a["scale"], a["offset"])
            if self.half and not self.err: self.err = "%s comes before both kinds of %s are done" % (t, self.half[0])
            k = "v" if a["offset"] else "c"
            src, to = (k + "F", k + "C") if name[0] == "R" else (k + "C", k + "F")
            x = self.s[src]
            good = {"state": False, "average": False, "old": a["scale"], "flux": name[0] == "R", "viscous flux": True, "correction": True}.get(x)
            if name[0] == "R" and x in ("state",): self.s[to] = "state"
            else: self.s[to] = x if good == a["scale"] else "badly scaled " + x
            return
        if name == "Neighbor":
            if self.half is None:
                if self.conv: self.need("cF", "state", t)
                else: self.need("cF", "state", t)
            if self.both(name, dfm, seqn, t):
                if self.conv: self.s["cF"] = "flux"
                if self.diff: self.s["vF"] = "average"
        elif name == "Local":
            if self.conv: self.need("cC", "flux", t)
            if self.diff: self.need("vC", "average", t)
            if self.both(name, dfm, seqn, t):
                self.done.append("Local")
                self.s["cC"] = "state"
                if self.diff: self.s["vC"] = "viscous flux"
                if self.diff: self.s["vF"] = "old"
                self.s["cF"] = "old"
        elif name == "Neighbor_reconcile":
            self.need("vF", "viscous flux", t)
            if self.both(name, dfm, seqn, t): self.s["vF"] = "correction"
        elif name == "Reconcile_ldg_flux":
            self.need("vC", "correction", t)
            if self.both(name, dfm, seqn, t):
                self.done.append("Reconcile_ldg_flux")
                self.s["cC"], self.s["cF"] = "state", "old"


def sequence(D, R):
    """every complete update applies the kernels in an order in which each finds what it needs, to all elements and connections, with the options it was given"""
    fs = [f for f in D.P.concrete() if f.q in ("hexed::compute_euler", "hexed::compute_advection", "hexed::compute_navier_stokes", "hexed::compute_smooth_av", "hexed::compute_fix_therm_admis") and f.body is not None]
    for f in fs:
        where, nm = "%s:%s" % (f["file"], f["l"]), f.q.split("compute_")[1]
        diff, conv = nm not in ("euler", "advection"), nm in ("euler", "advection", "navier_stokes")
        for stage in ((0, 1) if not diff else (0,)):
            for residual, filt in ((False, False), (True, False), (False, True)):
                if stage and residual: continue
                events, bad = [], []
                def th(I):
                    def factory(I, n, ob, args):
                        m = KERNEL.search(str(n.get("f")))
                        if not m: return None
                        pde, visc, dfm, name = m.group(1), "Vb1" in (m.group(2) or ""), m.group(3) == "1", m.group(4)
                        a = [I.rv(x) for x in args[2:]]
                        names = PARAMS.get(name)
                        if names is None: return UNK
                        vals = dict(zip(names, a))
                        if name in DEFAULT:
                            for k, d in zip(("scale", "offset"), defaults(D, name)): vals.setdefault(k, d)
                        def apply(seqn=None, *rest):
                            events.append((pde, visc, name, dfm, getattr(seqn, "tok", None), vals)); return UNK
                        return Model("Kernel", {"operator()": apply})
                    I.hooks_call["kernel_factory"] = factory
                    mesh = Obj("hexed::Kernel_mesh")
                    mesh.c["n_dim"], mesh.c["row_size"] = 2, 2
                    mesh.c["basis"] = Model("Basis", {})
                    for k in FIELDS:
                        mesh.c[k] = Model(k, {}); mesh.c[k].tok = k
                    o = Obj("hexed::Kernel_options")
                    for k in ("sw_car", "sw_def", "sw_pr"): o.c[k] = Model(k, {})
                    o.c.update({"dt": atom("dt"), "i_stage": stage, "compute_residual": residual, "use_filter": filt})
                    args = [mesh, o]
                    for p in f["params"][2:]:
                        args.append(Model("function", {"operator()": lambda *a: events.append("bc") or UNK}) if "function<" in str(p["t"].get("s")) else atom(p["n"]) if p["t"].get("cls") == "float" else UNK)
                    I.call(f, None, args)
                D.run("compute_%s stage %d" % (nm, stage), th)
                t = "compute_%s, stage %d%s%s" % (nm, stage, ", residual" if residual else "", ", filter" if filt else "")
                if not any(e != "bc" and e[2] == "Local" for e in events): D.unknown(t); continue
                if any(e != "bc" and (e[4] is None or any(not isinstance(e[5].get(k, False), (bool, int)) for k in ("scale", "offset", "stage", "residual", "filter"))) for e in events): D.unknown(t); continue
                ph = Phase(conv, diff)
                for e in events:
                    if e == "bc": continue
                    pde, visc, name, dfm, tok, a = e
                    for k, w in (("stage", stage), ("residual", residual), ("filter", filt)):
                        if k in a and bool(a[k]) != bool(w): bad.append("%s is given %s = %s" % (name, k, bool(a[k])))
                    if "dt" in a and eq(ex(a["dt"]) if isinstance(a["dt"], Q) else None, F.atom("dt")) is False: bad.append("%s is given another time step" % name)
                    if name in DEFAULT:
                        if tok != "ref_faces": bad.append("%s is applied to %s" % (name, tok))
                        a = {k: bool(v) for k, v in a.items() if k in ("scale", "offset")}
                    ph.do(name, dfm, tok, a)
                if ph.err: bad.append(ph.err)
                elif ph.half: bad.append("only the %s kind of %s is applied" % ("deformed" if ph.half[1] else "Cartesian", ph.half[0]))
                elif diff and "Reconcile_ldg_flux" not in ph.done: bad.append("the correction of the viscous flux is never added")
                elif ph.s["cF"] != "state": bad.append("finer faces are left with %s instead of the updated state" % ph.s["cF"])
                if bad: R.bad("sequence", where, "sequence:%s:%d:%s" % (nm, stage, bad[0][:40]), "%s: %s" % (t, bad[0]), "; ".join(bad[1:]))
                else: R.ok("sequence", where, "%s: %d kernels" % (t, len(events)))


def kernel_mesh(D, R):
    f = next((f for f in D.P.concrete() if f.q == "hexed::Solver::_kernel_mesh" and f.body is not None), None)
    if f is None: return
    where = "%s:%s" % (f["file"], f["l"])
    out = []
    def th(I):
        def tok(t):
            m = Model(t, {}); m.tok = t
            return m
        def part(k): return Model(k, {"kernel_connections": lambda: tok(k + "_cons"), "kernel_elements": lambda: tok(k + "_elems")})
        acc = Model("Accessible_mesh", {"cartesian": lambda: part("car"), "deformed": lambda: part("def"), "kernel_elements": lambda: tok("elems"), "refined_faces": lambda: tok("ref_faces")})
        o = Obj("hexed::Solver")
        o.c["acc_mesh"] = acc
        o.c["params"] = Obj("hexed::Storage_params")
        o.c["params"].c.update({"n_dim": 2, "row_size": 4})
        o.c["basis"] = Model("Basis", {})
        out.append(I.rv(I.call(f, o, [])))
    D.run("Solver::_kernel_mesh", th)
    m = out[0] if out else None
    for k in FIELDS:
        got = getattr(m.c.get(k), "tok", None) if isinstance(m, Obj) else None
        if got is None: D.unknown("Kernel_mesh::" + k)
        elif got == k: R.ok("sequence", where, "Kernel_mesh::%s" % k)
        else: R.bad("sequence", where, "kernel_mesh:" + k, "Kernel_mesh::%s is set to %s" % (k, got))


def orientation(D, R, nd):
    """faces are identified the same from both sides, and without reflecting an element"""
    f = next((f for f in D.P.concrete() if f.q == "hexed::vertex_inds" and f.body is not None), None)
    if f is None: return
    where = "%s:%s" % (f["file"], f["l"])
    for dd in directions(nd, True):
        vm = vertex_matching(D, nd, dd)
        if vm is None: continue
        t = "%dD, dimensions %d,%d, signs %d,%d" % (nd, dd[0][0], dd[0][1], dd[1][0], dd[1][1])
        key = "orientation:%d:%s" % (nd, dd)
        if None in vm or sorted(vm) != list(range(len(vm))):
            R.bad("orientation", where, key, "vertex_inds pairs the vertices of two faces with each other not one to one", t)
            continue
        back = vertex_matching(D, nd, (dd[0][::-1], dd[1][::-1]))
        if back is not None:
            if [back[i] if i is not None and i < len(back) else None for i in vm] == list(range(len(vm))): R.ok("orientation", where, t + ": same from both sides")
            else: R.bad("orientation", where, key + ":sides", "vertex_inds identifies other vertices when the two sides of the connection trade places", t)
        def co(i): return [(i >> (nd - 2 - k)) & 1 for k in range(nd - 1)]
        m = [[0] * nd for _ in range(nd)]  # where each axis of element 0 goes
        r0, r1 = ([k for k in range(nd) if k != dd[0][s]] for s in (0, 1))
        for k in range(nd - 1):
            for j, (x, y) in enumerate(zip(co(vm[1 << (nd - 2 - k)]), co(vm[0]))): m[r0[k]][r1[j]] = x - y
        m[dd[0][0]][dd[0][1]] = -1 if dd[1][0] == dd[1][1] else 1
        det = round(sum(sgn(p) * prod(m[i][p[i]] for i in range(nd)) for p in itertools.permutations(range(nd))))
        if det == 1: R.ok("orientation", where, t + ": element not reflected")
        else: R.bad("orientation", where, key + ":det", "vertex_inds glues two faces of equally oriented elements with a reflection: no mesh without inverted elements has such faces", t)


def sgn(p): return prod(-1 if p[i] > p[j] else 1 for i in range(len(p)) for j in range(i + 1, len(p)))


def prod(it):
    x = 1
    for i in it: x *= i
    return x


def neighbor_reconcile(D, R, tag, cls, pde, nd, row, dfm):
    op = D.meth(cls, "operator()", 1)
    nfq, nu = row ** (nd - 1), n_upd(pde, nd, row)
    where = "%s:%s" % (op["file"], op["l"])
    for dd in directions(nd, dfm):
        mem, con = con_model(nd, row, dd)
        t = "%s, dimensions %d,%d, signs %d,%d" % (tag, dd[0][0], dd[0][1], dd[1][0], dd[1][1])
        D.run(t, lambda I: I.call(op, I.newobj(cls), [seq(con)]))
        vm = vertex_matching(D, nd, dd)
        want = extend(vm, nd, row) if vm and None not in vm else None
        if not dfm: want = list(range(nfq))
        balance(D, R, where, "corrected viscous flux", t, cls, mem, True, nu, nfq, dd, want, True, lambda s, v, q: F.atom("face%dv" % s, v * nfq + q))


POOL = {}


def work(i):
    P, tier, tasks = POOL["P"], POOL["tier"], POOL["tasks"]
    from hx.report import Report
    R = Report("C01", tier)
    D = POOL["D"]
    D.R, D.undecided, D.skipped, D.runs, D.funcs = R, [], [], 0, set()
    U.EXACT = True
    task(D, R, tasks[i])
    return R.obligations, R.violations, R.cov, D.undecided, D.skipped, D.runs, D.funcs


def cost(c): return (c[4] ** 3) * (3 if c[1] else 1) * (3 if c[3] in ("Local", "Neighbor") else 1) * (2 if c[2] else 1) * c[5] ** 2


def run(P, R):
    import multiprocessing as mp
    U.EXACT = True
    D = Driver(P, R)
    tasks = [c for c in D.classes if c[5] == 2 or R.tier == "thorough" and c[5] == 3 and (c[4] < 3 or c[3] != "Local")]
    R.need(any(c[3] == "Neighbor" for c in tasks) and any(c[3] == "Local" for c in tasks), "kernels of Spatial")
    tasks += [("Navier_stokes", False, True, "walls", nd, 2, "") for nd in (1, 2, 3)]
    tasks += [("", False, True, "orientation", nd, 2, "") for nd in (2, 3)]
    tasks += [("", False, True, "sequence", 2, 2, "")]
    tasks.sort(key=cost, reverse=True)
    POOL.update(P=P, tier=R.tier, tasks=tasks, D=D)
    undecided, skipped, runs, funcs = [], [], 0, set()
    with mp.get_context("fork").Pool(8) as pool:
        for ob, vi, cov, un, sk, rn, fs in pool.imap(work, range(len(tasks)), chunksize=1):
            for o in ob:
                if o[3]: R.obligations.append(o)
            for v in vi: R.bad(v["rule"], v["where"], v["key"], v["msg"], v["detail"])
            for k, v in cov.items(): R.count(k, v)
            undecided += un; skipped += sk; runs += rn; funcs |= fs
    R.count("entry evaluations", runs)
    R.count("functions evaluated", len(funcs))
    R.count("not decided", len(undecided))
    if undecided: R.notes.append("not decided: " + "; ".join(sorted(set(undecided))[:40]))
    if skipped: R.notes.append("cut short: %d: %s" % (len(skipped), ", ".join(skipped[:6])))
    R.explanation = __doc__
    R.assumptions += ["the matrices of the basis have their documented meaning: differentiation, extrapolation to the boundary and interpolation are exact for polynomials of the basis, restriction is the orthogonal projection",
                      "the nominal size of a fine element is half that of its coarse neighbor", "functions that are not interpreted (max, roots of sums) have the same value for equal arguments only by accident",
                      "real arithmetic: rounding is not considered"]
