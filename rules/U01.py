"""U01: the physics formulas are dimensionally homogeneous and reflection-invariant.

Every formula that turns flow states into fluxes, updates, time steps, ghost states, outputs or reference conditions is
evaluated abstractly (hx/absint.py) in the algebra of physical dimensions (exponents of kg, m, s, K) and of parities under
reflection of each coordinate axis (hx/units.py).  What each storage slot holds in each phase of the algorithm is the
specification; adding, comparing or storing quantities that cannot be equal is the violation."""
import re
from hx import units as U
from hx.units import Q, dim, DLESS, TOPQ
from hx.absint import Interp, Model, Arr, Ptr, Obj, Mat, Vec, UNK, ABSENT, Budget, View, Cell, Store

MAX_ROW = {"quick": 2, "thorough": 3}
VEL = dim(m=1, s=-1)


def strip(q):
    """name of a function without template arguments"""
    out, d = [], 0
    for i, c in enumerate(q):
        if c == "<" and not q.startswith("operator<", max(0, i - 8)): d += 1
        elif c == ">" and d: d -= 1
        elif not d: out.append(c)
    return "".join(out)


def state_q(i, nd, par=True):
    """quantity of conserved variable i"""
    if i < nd: return Q(dim(kg=1, m=-2, s=-1), (1 << i) if par else None)
    p = 0 if par else None
    return Q(dim(kg=1, m=-3), p) if i == nd else Q(dim(kg=1, m=-1, s=-2), p)


def flux_q(i, nd, par=True):
    s = state_q(i, nd, par)
    return Q(tuple(x + y + z for x, y, z in zip(s.d, VEL, area(nd, par))), s.p)


def area(nd, par): return dim(J=nd - 1) if par else U.D0
def volume(nd, par): return dim(J=nd) if par else U.D0


def even(q, par=True): return Q(q.d, 0 if par else None)
def S(par=True, **kw): return Q(dim(**kw), 0 if par else None)


CONSTANTS = {
    "boltzmann": S(kg=1, m=2, s=-2, K=-1), "avogadro": S(), "atmosphere": S(kg=1, m=-1, s=-2), "specific_gas_air": S(m=2, s=-2, K=-1), "room_temperature": S(K=1),
    "light_speed": S(m=1, s=-1), "plank": S(kg=1, m=2, s=-1), "stefan_boltzmann": S(kg=1, s=-3, K=-4), "std_grav": S(m=1, s=-2), "earth_radius": S(m=1), "universal_gas": S(kg=1, m=2, s=-2, K=-1), "degree": S()}


class Mem(Arr):
    """array with a role: what may be read from it before it is written, and what has to be written into it"""
    def __init__(self, name, read=None, typ=None):
        Arr.__init__(self, read=read or (lambda i: TOPQ), typ=typ, name=name)
    def get(self, key):
        if key is UNK: return TOPQ
        if key in self.c and self.typ is not None:
            t = self.typ(key)
            if t is not None: return t
        return Arr.get(self, key)


class Driver:
    budget = 600000

    def __init__(self, P, R):
        self.P, self.R = P, R
        self.bad, self.sites, self.unkn, self.funcs, self.skipped = {}, {}, {}, set(), []
        self.runs = 0
        self.cls = {}
        for f in P.concrete():
            self.cls.setdefault(f.get("cls") or "", []).append(f)

    def report(self, n, where, what, a, b, kind):
        f = strip((where or {}).get("q", "?"))
        da = (U.show(a.d), U.show(b.d)) if kind == "dimension" else (U.axes(a.p), U.axes(b.p))
        key = "%s:%s:%s" % (f, what.split(" in ")[0], " vs ".join(sorted(da)) if what in ("+", "-", "*", "+=", "-=") else " vs ".join(da))
        self.bad.setdefault(key, (n, where, what, a, b, kind, da, self.entry))

    def interp(self):
        I = Interp(self.P, self.report)
        for k, q in CONSTANTS.items(): I.hooks_global["hexed::constants::" + k] = q
        I.budget = self.budget
        t = Vec(None); t.c["*"] = Vec(2, [S(m=1), S(K=1)])
        I.hooks_global["hexed::alt_temp"] = t
        def interpolated(I, n, ob, args):
            m, v = I.mat(args[0]).summary(), I.mat(args[-1]).summary()
            return Mat(None, None, v if m.d == U.D0 or m.v is not None else TOPQ)
        I.hooks_call["hypercube_matvec"] = interpolated
        I.hooks_call["pow_outer"] = lambda I, n, ob, args: Mat(None, None, DLESS if I.mat(args[0]).summary().d == U.D0 else TOPQ)
        I.hooks_call["throw_critical"] = lambda *a: UNK
        I.hooks_call["nodes"] = lambda I, n, ob, args: Mat(None, None, DLESS) if str(n.get("f")).startswith("c:@N@hexed@S@Basis@F@nodes#") and not isinstance(ob, Model) else None
        return I

    def run(self, entry, thunk):
        self.entry = entry
        I = self.interp()
        try: thunk(I)
        except Budget: self.skipped.append(entry)
        except (KeyError, TypeError, ValueError, AttributeError, IndexError, AssertionError, RecursionError, ZeroDivisionError) as e:
            # a construct the evaluator does not model ends this evaluation; what it checked before that stands
            self.skipped.append("%s (%s)" % (entry, type(e).__name__))
        self.runs += 1
        self.sites.update({k: v for k, v in I.sites.items()})
        self.funcs |= I.funcs_seen
        for k, v in I.unkn.items(): self.unkn.setdefault(k, v + (entry,))
        return I

    def ctor(self, cls):
        return [f for f in self.cls.get(cls, []) if f.get("kind") == "ctor" and f.body is not None]

    def make(self, I, cls, args, pick=None):
        o = I.newobj(cls)
        for f in self.ctor(cls):
            if pick and not pick(f): continue
            if len(f["params"]) == len(args):
                I.call(f, o, args); return o
        return None

    def meth(self, cls, name, npar=None, base=True):
        for c in [cls] + (self.P.bases(cls) if base else []):
            for f in self.cls.get(c, []):
                if f.q.split("::")[-1] == name and f.body is not None and (npar is None or len(f["params"]) == npar): return f
        return None


# ------------------------------------------------------------------------------------------------ kernels
def basis(row):
    d = lambda *a: DLESS
    m = lambda r, c: (lambda *a: Mat(r, c, [DLESS] * (r * c)))
    return Model("Basis", {"node": d, "nodes": m(row, 1), "node_weights": m(row, 1), "diff_mat": m(row, row), "boundary": m(2, row), "orthogonal": m(row, 1),
        "filter": m(row, row), "prolong": m(row, row), "restrict": m(row, row), "max_cfl": d, "min_eig_diffusion": d, "min_eig_convection": d, "quadratic_safety": d, "step_ratio": d, "interpolate": lambda *a: UNK},
        {"row_size": row})


def seq(item): return Model("Sequence", {"size": lambda: 1, "operator[]": lambda i: item})


def transport(D, I, d_ref, which):
    """a Transport_model made by the public factories"""
    nm = {"sutherland": [Q(d_ref, 0), Q(dim(K=1), 0), Q(dim(K=1), 0)], "constant": [Q(d_ref, 0)], "inviscid": []}[which]
    f = next(f for f in D.cls.get("hexed::Transport_model", []) if f.q.endswith("::" + which))
    return I.call(f, None, nm)

MU, KAPPA = dim(kg=1, m=-1, s=-1), dim(kg=1, m=1, s=-3, K=-1)


def pde_args(D, I, visc, which):
    return [transport(D, I, MU, which), transport(D, I, KAPPA, which)] if visc else []


def slot_typ(nd, row, nq, par):
    n = nd + 2
    def f(i):
        if not isinstance(i, int): return None
        s = i // nq
        if s < n: return state_q(s, nd, par)
        if s == n: return S(par, s=1)
        if s <= n + 2: return S(par, m=2, s=-1)
        return None
    return f


class Eqs:
    """what the storage of one of the equation systems of pde.hpp holds"""
    def __init__(self, name, nd, row, par):
        self.name, self.nd, self.row, self.par = name, nd, row, par
        P = lambda p: p if par else None
        veloc = lambda i: Q(U.D0, P(1 << i))
        smooth = [dim(m=2, s=-2), dim(m=2, s=-2), VEL, VEL]
        self.n_ext = {"Navier_stokes": nd + 2, "Fix_therm_admis": nd + 2, "Smooth_art_visc": 3, "Advection": nd + row}[name]
        self.n_upd = row if name == "Advection" else self.n_ext
        if name in ("Navier_stokes", "Fix_therm_admis"):
            self.ext = lambda i: state_q(i, nd, par)
            self.slot = lambda s: state_q(s, nd, par) if s < nd + 2 else S(par, m=2, s=-1) if nd + 2 < s <= nd + 4 else None
        elif name == "Smooth_art_visc":
            self.ext = lambda i: Q(smooth[i + 1], P(0))
            self.slot = lambda s: Q(smooth[s - nd - 5], P(0)) if nd + 5 <= s < nd + 9 else None
        else:
            self.ext = lambda i: veloc(i) if i < nd else Q(U.D0, None)
            self.slot = lambda s: veloc(s) if s < nd else Q(U.D0, None) if nd + 9 <= s < nd + 9 + row else None
        self.time = {"Navier_stokes": dim(s=1), "Fix_therm_admis": dim(m=2), "Smooth_art_visc": dim(m=2), "Advection": dim(m=1)}[name]
        # flux of an updated variable: the variable times length per time, through an area
        def flux(i):
            x = Q(U.D0, None) if name == "Advection" else self.ext(i)
            return Q(tuple(p + l - t + c for p, l, t, c in zip(x.d, dim(m=1), self.time, area(nd, par))), x.p)
        self.flux = flux

    def storage(self, nq):
        def f(i):
            if not isinstance(i, int): return None
            s = i // nq
            return Q(self.time, 0 if self.par else None) if s == self.nd + 2 else self.slot(s)
        return f

    def face(self, what, nfq):
        """role of a face array: the extrapolated variables, the flux of the updated ones, or unspecified"""
        if what is None: return lambda i: None
        g, n = (self.ext, self.n_ext) if what == "state" else (self.flux, self.n_upd)
        return lambda i: g(i // nfq) if isinstance(i, int) and 0 <= i // nfq < n else None

    def args(self, D, I, which):
        if self.name == "Navier_stokes": return pde_args(D, I, bool(which), which)
        if self.name == "Smooth_art_visc": return [Q(self.time, 0 if self.par else None), S(self.par)]
        if self.name == "Advection": return [S(self.par, m=1)]
        return []


def or_top(f): return lambda i: f(i) or TOPQ


class Elem:
    def __init__(self, E, read="state", write="state", ldg_read=None, ldg_write=None):
        nd, row, par = E.nd, E.row, E.par
        nq, nfq = row ** nd, row ** (nd - 1)
        st = E.storage(nq)
        self.state = Mem("element state", read=or_top(st), typ=st)
        self.cache = Mem("residual cache")
        self.faces = {(i, l): Mem("face storage", read=or_top(E.face(ldg_read if l else read, nfq)), typ=E.face(ldg_write if l else write, nfq)) for i in range(2 * nd) for l in (False, True)}
        nrm = Mem("level normals", read=lambda i: Q(area(nd, par), 1 << ((i // nq) % nd) if par else None))
        fn = Mem("face normals", read=lambda i: Q(area(nd, par), 1 << (i // nfq) if par else None))
        det = Mem("jacobian determinant", read=lambda i: Q(volume(nd, par), 0 if par else None))
        vt = Mem("vertex time step scale", read=lambda i: S(par, m=1), typ=lambda i: S(par, m=1))
        cell = lambda a, i: Cell(a, i)
        self.model = Model("Kernel_element", {
            "state": lambda: Ptr(self.state, 0), "residual_cache": lambda: Ptr(self.cache, 0),
            "time_step_scale": lambda: Ptr(self.state, (nd + 2) * nq), "nominal_size": lambda: S(par, m=1, J=-1 if par else 0),
            "vertex_time_step_scale": lambda i: cell(vt, i if isinstance(i, int) else 0),
            "face": lambda i, l: Ptr(self.faces[(i, bool(l))], 0) if isinstance(i, int) and (i, bool(l)) in self.faces else UNK,
            "reference_level_normals": lambda: Ptr(nrm, 0), "jacobian_determinant": lambda: Ptr(det, 0),
            "kernel_face_normal": lambda i: Ptr(fn, 0), "deformed": lambda: UNK, "uncert": lambda: TOPQ})


def connection(E, read, write, lread, lwrite, dirs):
    nd, par = E.nd, E.par
    nfq = E.row ** (nd - 1)
    mem = {(s, l): Mem("face storage", read=or_top(E.face(lread if l else read, nfq)), typ=E.face(lwrite if l else write, nfq)) for s in (0, 1) for l in (False, True)}
    fn = Mem("face normals", read=lambda i: Q(area(nd, par), 1 << (i // nfq) if par else None))
    def direction():
        o = Obj("hexed::Connection_direction")
        o.c["i_dim"] = Vec(2, list(dirs[0])); o.c["face_sign"] = Vec(2, list(dirs[1]))
        return o
    return Model("Kernel_connection", {"get_direction": direction, "state": lambda s, l: Ptr(mem[(s, bool(l))], 0) if isinstance(s, int) else UNK, "normal": lambda: Ptr(fn, 0)})


def kernels(D, nds, rows):
    n = 0
    base = {}
    for c in D.cls:
        m = re.match(r"hexed::Spatial<hexed::pde::(\w+)(<(?:true|false)?>::Pde)?, (true|false)>::(\w+)<(\d), (\d)>$", c or "")
        if m: base[(m.group(1), m.group(2) == "<true>::Pde", m.group(3) == "true", m.group(4), int(m.group(5)), int(m.group(6)))] = c
    for (pde, visc, dfm, name, nd, row), cls in sorted(base.items()):
        if nd not in nds or row not in rows: continue
        if pde not in ("Navier_stokes", "Fix_therm_admis", "Smooth_art_visc", "Advection"): continue
        par = dfm
        E = Eqs(pde, nd, row, par)
        diff = visc or pde in ("Fix_therm_admis", "Smooth_art_visc")
        conv = pde in ("Navier_stokes", "Advection")
        models = ["sutherland", "constant"] if visc else [None]
        op = D.meth(cls, "operator()", 1)
        if op is None: continue
        for w in models:
            tag = "%s<%d,%d> %s%s%s" % (name, nd, row, pde, " viscous" if visc else "", " deformed" if dfm else " Cartesian") + (" " + w if w else "")
            def go(args, elem, tag=tag, cls=cls, op=op, w=w):
                def th(I):
                    o = D.make(I, cls, args(I) + E.args(D, I, w))
                    if o is None: D.skipped.append(tag + " (constructor)"); return
                    I.call(op, o, [seq(elem)])
                D.run(tag, th)
            B = basis(row)
            if name == "Write_face":
                go(lambda I: [B], Elem(E).model); n += 1
            elif name == "Local":
                for filt in (True, False):
                    for res in (True, False):
                        e = Elem(E, "flux" if conv else None, "state", "state" if diff else None, "flux" if diff else None)
                        go(lambda I: [B, S(par), False, res, filt], e.model)
                        if conv and not visc and not res:
                            e2 = Elem(E, "flux", "state")
                            e2.cache = e.cache
                            go(lambda I: [B, S(par), True, False, filt], e2.model)
                n += 1
            elif name == "Reconcile_ldg_flux" and diff:
                for res in (True, False):
                    go(lambda I: [B, S(par), 0, res, UNK], Elem(E, ldg_read="flux").model)
                n += 1
            elif name == "Max_dt":
                for loc in (True, False):
                    go(lambda I: [B, loc, UNK, DLESS, DLESS], Elem(E).model)
                n += 1
            elif name in ("Neighbor", "Neighbor_reconcile"):
                ds = [((i, j), (a, b)) for i in range(nd) for j in range(nd) for a in (True, False) for b in (True, False)] if dfm else [((i, i), (True, False)) for i in range(nd)]
                for dd in ds:
                    if name == "Neighbor":
                        go(lambda I: [0], connection(E, "state", "flux" if conv else None, None, "state" if diff else None, dd))
                    elif diff:
                        c = connection(E, None, None, "flux", "flux", dd)
                        D.run(tag, lambda I, cls=cls, op=op, c=c: I.call(op, I.newobj(cls), [seq(c)]))
                n += 1
    return n


# ------------------------------------------------------------------------------------------------ boundary conditions
def params(nd, row):
    o = Obj("hexed::Storage_params")
    o.c.update({"n_stage": 2, "n_var": nd + 2, "n_dim": nd, "row_size": row, "n_forcing": 4})
    return o


def by_slot(g, nfq, nd, n=None):
    n = nd + 2 if n is None else n
    return lambda i: g(i // nfq, nd) if isinstance(i, int) and 0 <= i // nfq < n else None


def role(name, read, write, nfq, nd, n=None):
    rd, wt = read and by_slot(read, nfq, nd, n), write and by_slot(write, nfq, nd, n)
    return Mem(name, read=(lambda i: rd(i) or TOPQ) if rd else None, typ=wt)


def normal_q(i, nd): return Q(area(nd, True), 1 << i)
def pos_q(i, nd): return Q(dim(m=1), 1 << i)


def boundary_face(nd, row, sign, idim, cache_full):
    nfq = row ** (nd - 1)
    mem = {"in_s": role("inside state", state_q, state_q, nfq, nd), "in_f": role("inside flux", flux_q, flux_q, nfq, nd),
           "gh_s": role("ghost state", None, state_q, nfq, nd), "gh_f": role("ghost flux", None, flux_q, nfq, nd),
           "sc": role("state cache", state_q, state_q, nfq, nd), "fc": role("flux cache", flux_q, flux_q, nfq, nd),
           "n": role("surface normal", normal_q, None, nfq, nd, nd), "x": role("surface position", pos_q, None, nfq, nd, nd)}
    pt = lambda k: Ptr(mem[k], 0)
    face = lambda a, b: (lambda l: pt(b if l else a) if isinstance(l, (bool, int)) else UNK)
    return Model("Boundary_face", {"storage_params": lambda: params(nd, row), "inside_face": face("in_s", "in_f"), "ghost_face": face("gh_s", "gh_f"),
        "inside_face_sign": lambda: sign, "i_dim": lambda: idim, "surface_normal": lambda: pt("n"), "surface_position": lambda: pt("x"),
        "state_cache": lambda: pt("sc"), "flux_cache": lambda: pt("fc")})


def svec(nd, g=state_q): return Mat(nd + 2, 1, [g(i, nd) for i in range(nd + 2)])

J_KG, W_M2 = dict(m=2, s=-2), dict(kg=1, s=-3)
THERMAL = {"hexed::Prescribed_energy": {"energy_per_mass": J_KG}, "hexed::Prescribed_heat_flux": {"heat_flux": W_M2},
    "hexed::Thermal_equilibrium": {"emissivity": {}, "heat_transfer_coef": dict(kg=1, s=-3, K=-1), "temperature": dict(K=1)}}
CTOR = {"hexed::Freestream": lambda nd: [svec(nd)], "hexed::Riemann_invariants": lambda nd: [svec(nd)], "hexed::Pressure_outflow": lambda nd: [S(kg=1, m=-1, s=-2)]}


def thermal(D, I, cls):
    o = I.newobj(cls)
    for f in D.ctor(cls): I.call(f, o, [TOPQ] * len(f["params"]))
    for k, v in THERMAL[cls].items(): o.c[k] = S(**v)
    return o


def flow_bcs(D, nds):
    n = 0
    for cls in sorted(D.P.subclasses("hexed::Flow_bc")):
        ms = [(m, f) for m in ("apply_state", "apply_flux") for f in [D.meth(cls, m, 1)] if f is not None]
        for nd in nds:
            for sign in (False, True):
                for th in (sorted(THERMAL) if cls.endswith("::No_slip") else [None]):
                    for m, f in ms:
                        def go(I):
                            o = I.newobj(cls)
                            if cls in CTOR: o = D.make(I, cls, CTOR[cls](nd)) or o
                            elif th: o = D.make(I, cls, [thermal(D, I, th), S()]) or o
                            I.call(f, o, [boundary_face(nd, 2, sign, nd - 1, True)])
                        D.run("%s::%s in %dD%s" % (cls.split("::")[-1], m, nd, " with " + th.split("::")[-1] if th else ""), go)
                        n += 1
    return n


# ------------------------------------------------------------------------------------------------ output functions
PRES, ART = dict(kg=1, m=-1, s=-2), dict(m=2, s=-1)
def all_(**kw): return lambda i, nd: S(**kw)
def odd(**kw): return lambda i, nd: Q(dim(**kw), 1 << i)
def resid(i, nd):
    q = state_q(i, nd)
    return Q(tuple(a - b for a, b in zip(q.d, dim(s=1))), q.p)

OUTPUT = {"Pressure": all_(**PRES), "Stag_pres": all_(**PRES), "Velocity": odd(m=1, s=-1), "Mach": all_(), "Mass": all_(kg=1, m=-3), "State_variables": state_q,
    "Pressure_stress": odd(**PRES), "Outward_normal": normal_q, "Viscous_stress": odd(**PRES), "Heat_flux": all_(**W_M2), "Art_visc_coef": all_(**ART), "Fix_admis_coef": all_(**ART),
    "Physical_residual": resid, "Time_step_scale_func": all_(s=1), "Jacobian_det_func": lambda i, nd: S(J=nd), "Jac_inv_det_func": lambda i, nd: S(J=-nd), "Position_func": odd(m=1)}


def element(nd, row):
    nq = row ** nd
    st = slot_typ(nd, row, nq, True)
    state = Mem("element state", read=lambda i: st(i) or TOPQ, typ=st)
    cache = Mem("residual cache", read=lambda i: state_q(i // nq, nd) if isinstance(i, int) and i // nq < nd + 2 else TOPQ)
    at = lambda k: (lambda: Ptr(state, (nd + 2 + k) * nq))
    vert = Model("Vertex", {}, {"pos": Mat(3, 1, [Q(dim(m=1), 1 << i) for i in range(3)])})
    return Model("Element", {"storage_params": lambda: params(nd, row), "state": lambda: Ptr(state, 0), "residual_cache": lambda: Ptr(cache, 0),
        "time_step_scale": at(0), "bulk_av_coef": at(1), "laplacian_av_coef": at(2), "nominal_size": lambda: S(m=1, J=-1), "refinement_level": lambda: UNK,
        "jacobian_determinant": lambda *a: S(J=nd), "position": lambda *a: Vec(nd, [pos_q(i, nd) for i in range(nd)]), "vertex": lambda i: vert,
        "face_position": lambda *a: Vec(nd, [pos_q(i, nd) for i in range(nd)])}, {"uncertainty": TOPQ, "tree": UNK, "snapping_problem": UNK})


def returned(D, I, f, v, want, nd):
    """every element of a returned vector is a `want`"""
    if not isinstance(v, (Vec, Mat)): return
    n = v.n if isinstance(v, Vec) else (v.r * v.k if v.known else None)
    I.fn.append(f)
    for i in range(n if isinstance(n, int) else 1):
        q = v.get(i) if isinstance(n, int) else v.get("*")
        if isinstance(q, Q) and (want is not odd or i < nd): I.chk(q, want(i, nd), f.body, "result")
    I.fn.pop()


def outputs(D, nds):
    P, n = D.P, 0
    subs = sorted(set(c for b in ("Qpoint_func", "Boundary_func", "Surface_func", "Domain_func", "Element_func") for c in P.subclasses("hexed::" + b)))
    for cls in subs:
        for c in [cls]:
            for f in D.cls.get(c, []):
                if f.q.split("::")[-1] != "operator()" or f.body is None: continue
                for nd in nds:
                    want = OUTPUT.get(cls.split("::")[-1])
                    vec = lambda g: Vec(nd, [g(i, nd) for i in range(nd)])
                    if want is None and cls.split("::")[-1] not in ("Stab_indicator",): continue
                    def go(I):
                        o = D.make(I, cls, [S()]) or D.make(I, cls, []) or I.newobj(cls)
                        args, k = [], 0
                        for p in f["params"]:
                            s = p["t"]["s"]
                            if "Boundary_connection" in s: args.append(boundary_face(nd, 2, True, nd - 1, True))
                            elif "Element" in s: args.append(element(nd, 2))
                            elif "Basis" in s: args.append(basis(2))
                            elif "vector" in s:
                                args.append([vec(pos_q), Vec(nd + 2, [state_q(i, nd) for i in range(nd + 2)]), vec(normal_q)][k] if k < 3 else UNK); k += 1
                            elif p["t"].get("cls") == "int": args.append(0)
                            else: args.append(S(s=1))
                        v = I.call(f, o, args)
                        if want: returned(D, I, f, v, want, nd)
                    D.run("%s in %dD" % (cls.split("::")[-1], nd), go); n += 1
    return n


HIL = {"nom_sz": all_(m=1, J=-1), "center": odd(m=1), "pos": odd(m=1), "momentum": odd(kg=1, m=-2, s=-1), "density": all_(kg=1, m=-3), "energy": all_(**PRES), "bulk_art_visc": all_(**ART),
    "laplacian_art_visc": all_(**ART), "tss": all_(s=1), "normal": odd(), "visc_stress": odd(**PRES), "mass_flux": all_(kg=1, m=-2, s=-1), "heat_flux": all_(**W_M2)}


def named(I, n, name, val):
    """a value is made available to the user under a name with a documented unit"""
    m = re.match(r"([a-z_]*?)(\d?)$", name) if isinstance(name, str) else None
    want = m and HIL.get(m.group(1))
    if want and isinstance(val, Q): I.chk(val, want(int(m.group(2) or 0), 3), n, "value of HIL variable `%s`" % m.group(1))


def namespace(I):
    ns = Model("Namespace", {})
    def assign(I_, n, ob, args):
        if ob is not ns: return None
        named(I, n, I.rv(args[0]) if args else None, I.rv(args[1]) if len(args) > 1 else None)
        return UNK
    I.hooks_call["assign"] = assign
    return ns


def hil(D, nds):
    n = 0
    for f in sorted(D.P.concrete(), key=lambda f: f.q):
        if not f.q.startswith("hexed::hil_properties::") or f.body is None or f.get("kind") == "lambda": continue
        for nd in nds:
            def go(I):
                args = []
                for p in f["params"]:
                    s = p["t"]["s"]
                    args.append(namespace(I) if "Namespace" in s else boundary_face(nd, 2, True, nd - 1, True) if "Boundary" in s else element(nd, 2) if "Element" in s else basis(2) if "Basis" in s else 0)
                I.call(f, None, args)
            D.run("%s in %dD" % (f.q, nd), go); n += 1
    return n


_N = lambda **kw: (lambda i, nd: Q(dim(**kw), 0))
INPUT = {"freestream": lambda i, nd: state_q(i, nd) if i < nd + 2 else U.ZERO, "freestream_density": _N(kg=1, m=-3), "freestream_pressure": _N(**PRES), "freestream_temperature": _N(K=1),
    "freestream_sound_speed": _N(m=1, s=-1), "freestream_speed": _N(m=1, s=-1), "freestream_mach": _N(), "freestream_velocity": odd(m=1, s=-1), "freestream_direction": odd(),
    "altitude": _N(m=1), "temperature_offset": _N(K=1), "heat_flux_coercion": _N(), "heat_flux": _N(**W_M2), "emissivity": _N(), "heat_transfer_coef": _N(kg=1, s=-3, K=-1), "temperature": _N(K=1),
    "av_advect_max_safety": _N(), "av_diff_ratio": _N(), "av_visc_mult": _N(), "av_unscaled_max": _N(), "av_diff_max_safety": _N(), "elementwise_art_visc_diff_ratio": _N(), "max_safety": _N(),
    "art_visc_width": _N(m=1), "elementwise_art_visc": None, "art_visc_constant": _N(**ART), "flow_time": _N(s=1)}


def input_q(name, nd):
    m = re.match(r"(\w*?)(\d?)$", name) if isinstance(name, str) else None
    f = m and INPUT.get(m.group(1))
    return f(int(m.group(2) or 0), nd) if f and (bool(m.group(2)) == (m.group(1) in ("freestream", "freestream_velocity", "freestream_direction"))) else None


def variables(I, nd, ints=None, given=None):
    """the HIL variables of a case: what each named quantity is measured in"""
    ints = dict({"n_dim": nd, "row_size": 2}, **(ints or {}))
    def lookup(*a):
        name = a[0] if a and isinstance(a[0], str) else None
        if name in ints: return ints[name]
        if have is not None and name and re.match("freestream|altitude$", name) and name not in have: return ABSENT
        return input_q(name, nd) or TOPQ
    have = None if given is None else set(given)
    I.optionals = given is not None
    ns = Model("Namespace", {"lookup": lookup})
    def assign(I_, n, ob, args):
        if ob is not ns or len(args) < 2: return None
        name, val = I.rv(args[0]), I.rv(args[1])
        want = input_q(name, nd)
        if have is not None and isinstance(name, str): have.add(name)
        if want is not None and isinstance(val, Q): I.chk(val, want, n, "value of HIL variable `%s`" % re.sub(r"\d$", "", name))
        return UNK
    I.hooks_call["assign"] = assign
    return ns


def case(D, nds):
    """the commands of a case, which convert the user's parameters"""
    n = 0
    from hx import ir
    lams = []
    for f in D.ctor("hexed::Case"):
        for x in ir.walk(f.body):
            if x.get("k") == "Lambda" and not x.get("params"): lams.append((f, x))
    fs = [(f, None) for f in D.cls.get("hexed::Case", []) if f.body is not None and f.get("kind") != "ctor" and f.q.endswith("::_make_bc")]
    D.budget = 60000
    vec = lambda s, n: [s + str(i) for i in range(n)]
    def scenarios(nd):
        yield None
        yield vec("freestream", nd + 2)
        fs = lambda *a: ["freestream_" + x for x in a]
        for st in (fs("density", "pressure"), fs("density", "temperature"), fs("pressure", "temperature"), ["altitude"]):
            for sp in (vec("freestream_velocity", nd), fs("speed"), fs("mach"), fs("speed") + vec("freestream_direction", nd)): yield st + sp
    heat = re.compile("freestream")
    todo = []
    for f, x in lams + fs:
        body = x["body"] if x is not None else f.body
        sets = any(y.get("k") == "Str" and heat.match(str(y.get("v"))) for y in ir.walk(body))
        for nd in nds:
            for sc in scenarios(nd):
                if sc is None or (sets and x is not None): todo.append((f, x, nd, sc))
    for f, x, nd, sc in todo:
        if True:
            def go(I):
                o = I.newobj("hexed::Case")
                inter = I.newobj("hexed::Interpreter")
                inter.c["variables"] = variables(I, nd, None, sc)
                o.c["_inter"] = inter
                I.hooks_call["make_sub"] = lambda I_, n_, ob, args: inter
                if x is None: I.call(f, o, [UNK] * len(f["params"])); return
                from hx.absint import Frame, Lam
                I.fn.append(f)
                I.fr = Frame(); I.fr.this, I.fr.rets, I.fr.f = o, [], None
                I.calllam(Lam(x, I.fr), [])
                I.fn.pop()
            D.run("%s in %dD" % (f.q + (" command" if x is not None else ""), nd) + (" given " + ", ".join(sc) if sc else ""), go); n += 1
    D.budget = Driver.budget
    return n


def art_visc(D, nds):
    """assembly of the artificial viscosity by the solver"""
    n = 0
    kern = [d["n"] for d in D.P.decls.values() if re.match(r"(compute|max_dt)_\w+$", d.get("n") or "") and (d.get("q") or "").count("::") == 1]
    for name in ("update_art_visc_smoothness", "update_art_visc_elwise", "set_art_visc_constant", "diffuse_art_visc"):
        f = D.meth("hexed::Solver", name)
        if f is None: continue
        for nd in nds:
            def go(I):
                row, nq = 2, 2 ** nd
                st = slot_typ(nd, row, nq, True)
                state = Mem("element state", read=or_top(st))
                coef = lambda k: Mem(k, read=lambda i: S(**ART), typ=lambda i: S(**ART))
                bulk, lap = coef("bulk artificial viscosity"), coef("Laplacian artificial viscosity")
                sm = [S(m=2, s=-2), S(m=2, s=-2), S(m=1, s=-1), S(m=1, s=-1)]
                ft = lambda i: sm[i // nq] if isinstance(i, int) and 0 <= i // nq < 4 else None
                forcing = Mem("artificial viscosity forcing", read=or_top(ft), typ=ft) if name == "update_art_visc_smoothness" else Mem("forcing")
                adv = Mem("advection state", read=lambda i: DLESS)
                e = element(nd, row)
                e.methods.update({"state": lambda: Ptr(state, 0), "bulk_av_coef": lambda: Ptr(bulk, 0), "laplacian_av_coef": lambda: Ptr(lap, 0), "art_visc_forcing": lambda: Ptr(forcing, 0), "advection_state": lambda: Ptr(adv, 0)})
                o = I.newobj("hexed::Solver")
                ns = variables(I, nd, {"av_advect_iters": 1, "av_diff_iters": 1, "n_cheby_av": 1})
                mesh = Model("Accessible_mesh", {"elements": lambda: seq(e)})
                o.c.update({"params": params(nd, row), "basis": basis(row), "acc_mesh": mesh, "_namespace": ns, "stopwatch": UNK})
                for k in kern + ["apply_avc_diff_bcs", "apply_avc_diff_flux_bcs", "set_uncertainty", "_kernel_mesh", "share_vertex_data"]: I.hooks_call[k] = lambda *a: UNK
                arg = {"update_art_visc_smoothness": [S(m=1)], "update_art_visc_elwise": [S(m=1), UNK], "set_art_visc_constant": [S(**ART)], "diffuse_art_visc": [S(m=2)]}[name]
                if len(f["params"]) != len(arg): return
                I.call(f, o, arg)
            D.run("%s in %dD" % (name, nd), go); n += 1
    # the shock indicator kernel
    for cls in sorted(c for c in D.cls if re.match(r"hexed::Stab_art_visc<[123], 2>$", c or "")):
        nd = int(cls.split("<")[1][0])
        op = D.meth(cls, "operator()", 1)
        if op is None or nd not in nds: continue
        def go(I):
            o = D.make(I, cls, [basis(2), Q(VEL, 0)])
            E = Eqs("Navier_stokes", nd, 2, True)
            m = Elem(E).model
            un = Mem("uncertainty", typ=lambda i: S(m=2, s=-1, J=-1))
            m.methods["uncert"] = lambda: Cell(un, 0)
            if o is not None: I.call(op, o, [seq(m)])
        D.run("Stab_art_visc in %dD" % nd, go); n += 1
    return n


def atmosphere(D):
    n = 0
    table = lambda: Vec(None)
    for f in D.P.concrete():
        if not re.match(r"hexed::standard_atmosphere", f.q) or f.body is None: continue
        def go(I):
            v = I.call(f, None, [S(m=1), S(K=1)])
            if isinstance(v, Vec) and v.n == 2: returned(D, I, f, v, lambda i, nd: [S(kg=1, m=-3), S(**PRES)][i], 2)
        D.run(f.q, go); n += 1
    return n


def constants(D):
    """the named physical constants that are defined by formulas of other constants"""
    leaf = {k: CONSTANTS[k] for k in CONSTANTS}
    n = 0
    for k in sorted(CONSTANTS):
        g = D.P.vars.get("G:hexed::constants::" + k)
        if not g or not g.get("init"): continue
        def go(I):
            I.fn.append({"q": "hexed::constants::" + k, "file": g.get("file", "include/constants.hpp"), "key": k})
            I.fr = __import__("hx.absint").absint.Frame(); I.fr.this, I.fr.rets, I.fr.f = None, [], None
            v = I.rv(I.ev(g["init"]))
            if isinstance(v, Q): I.chk(v, Q(CONSTANTS[k].d, None), g["init"], "definition")
            I.fn.pop()
        D.run("constant " + k, go); n += 1
    return n


def run(P, R):
    D = Driver(P, R)
    thorough = R.tier == "thorough"
    nk = kernels(D, (1, 2, 3), (2, 3) if thorough else (2,))
    R.need(nk, "kernel instantiations of Spatial with Navier_stokes")
    nb = flow_bcs(D, (1, 2, 3))
    no = outputs(D, (1, 2, 3))
    nh = hil(D, (1, 2, 3))
    nc = case(D, (1, 2, 3))
    nv = art_visc(D, (1, 2, 3))
    na = atmosphere(D)
    constants(D)
    finish(D, R)


def finish(D, R):
    for key, (n, where, what, a, b, kind, da, entry) in sorted(D.bad.items()):
        R.bad("homogeneity", "%s:%s" % ((where or {}).get("file", "?"), n.get("l", "?")), key,
              "%s: operands of `%s` differ in %s: %s and %s (evaluating %s)" % (strip((where or {}).get("q", "?")), what, kind, da[0], da[1], entry))
    by = {}
    for n, where, what in D.sites.values():
        k = strip((where or {}).get("q", "?"))
        by.setdefault(k, set()).add((n.get("l"), what))
    for k in sorted(by): R.ok("homogeneity", k, "%d sums, comparisons and stores with both dimensions known" % len(by[k]))
    R.count("entry evaluations", D.runs)
    R.count("functions evaluated", len(D.funcs))
    R.count("checked sites", sum(len(v) for v in by.values()))
    if D.skipped:
        why = {}
        for e in D.skipped: why.setdefault(re.sub(r"\s.*|<.*", "", e), []).append(e)
        R.notes.append("%d evaluations cut short (what they checked before stands): %s" % (len(D.skipped), ", ".join("%s x%d" % (k, len(v)) for k, v in sorted(why.items()))))
    R.explanation = __doc__
    R.assumptions += ["what each storage slot holds in each phase of the algorithm is as specified in rules/U01.py",
                      "quantities whose dimension the evaluator cannot follow (user functions, unmodelled library calls, data merged from incompatible paths) are compatible with everything",
                      "a literal constant may have any dimension where it multiplies, and only 0 has any dimension where it is added",
                      "interpolation, quadrature and differentiation matrices of the basis are dimensionless"]
