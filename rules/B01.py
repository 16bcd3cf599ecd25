"""B01: boundary conditions impose what they are documented to.

Every boundary condition is evaluated abstractly for a face whose state, flux, normal, position and cached values are independent
symbols (hx/absint.py with exact forms; values that depend on a condition are gated forms).  The ghost state or flux it writes is
compared with the documented one as a form, at every point of the face, in 1, 2 and 3 dimensions and for both signs of the face.

 prescribed   Freestream, Function_bc and Cache_bc: the ghost state is the specified one
 copy         Copy and Outflow: the ghost state is the inside state; Freestream, Function_bc, Cache_bc and Copy: the ghost viscous flux is the inside flux
 reflect      Nonpenetration: velocity (or advection velocity) mirrored in the wall, everything else as inside
 wall         No_slip: velocity reversed, mass as inside; energy or heat flux as specified by the thermal condition
 outflow      Outflow and Pressure_outflow: no viscous flux; Pressure_outflow: the specified pressure where the outflow is subsonic
 invariants   Riemann_invariants: inside state where all waves leave, freestream where all enter, and between the two each wave by its direction
 advection    ghost values of the advection velocity and of every advected scalar (there are more scalars than variables for large row sizes)
 diffusion    no flux of the smoothness indicator through the boundary
"""
import random
from hx import units as U, forms as F
from hx.units import Q, atom, ex
from hx.absint import Frame, Model, Ptr, Obj, Mat, Vec, UNK
from rules import U01, C01
from rules.C01 import Mem, amem, val, strip

ROW = 2
B = "hexed::"


class Flow(F.Sample):
    """random admissible states: positive mass and pressure, velocities on both sides of the speed of sound, any normal"""
    nd = 3
    nfq = 4
    def ev_atom(self, k):
        if isinstance(k[0], str) and k[0] in ("in_s", "fs", "sc", "fn_state") and len(k) == 2 and isinstance(k[1], int):
            v = k[1] if k[0] == "fs" else k[1] // self.nfq
            h = random.Random(repr((self.seed, "speed", k[1] % self.nfq if k[0] != "fs" else 0))).choice((.2, 1., 3.))  # subsonic or supersonic
            if v < self.nd: return h * F.pseudo(self.seed, k) * (1 if F.pseudo(self.seed, "sign", k) > .65 else -1)
            if v == self.nd: return .5 + F.pseudo(self.seed, k)
            q, at = (k[1] % self.nfq, self.nfq) if k[0] != "fs" else (0, 1)
            return .5 * sum(self.ev_atom((k[0], d * at + q)) ** 2 for d in range(self.nd)) / self.ev_atom((k[0], self.nd * at + q)) + F.pseudo(self.seed, k) ** 2
        if k[0] == "n": return 2 * F.pseudo(self.seed, k) - 1.3
        return F.Sample.ev_atom(self, k)


class Check:
    def __init__(self, D, R, cls, nd, sign, row=None):
        self.D, self.R, self.cls, self.nd, self.sign, self.row = D, R, cls, nd, sign, row or ROW
        self.nfq = self.row ** (nd - 1)
        self.reset()

    def reset(self):
        self.mem = {k: amem(k) for k in ("in_s", "in_f", "gh_s", "gh_f", "sc", "fc", "n", "x")}
        pt = lambda k: Ptr(self.mem[k], 0)
        def face(a, b): # the advected scalars start where the momentum does and continue into the part of the face with the flux
            if self.row == ROW: return lambda l: pt(b if l else a) if isinstance(l, (bool, int)) else UNK
            return lambda l: Ptr(self.mem[a], (self.nd + 2) * self.nfq if l else 0) if isinstance(l, (bool, int)) else UNK
        self.bf = Model("Boundary_face", {"storage_params": lambda: U01.params(self.nd, self.row), "inside_face": face("in_s", "in_f"), "ghost_face": face("gh_s", "gh_f"),
            "inside_face_sign": lambda: self.sign, "i_dim": lambda: self.nd - 1, "surface_normal": lambda: pt("n"), "surface_position": lambda: pt("x"), "state_cache": lambda: pt("sc"), "flux_cache": lambda: pt("fc")})

    def at(self, name, v, q): return F.atom(name, v * self.nfq + q)
    def wrote(self, name, v, q):
        i = v * self.nfq + q
        return val(self.mem[name], i) if i in self.mem[name].c else None

    def apply(self, method, build):
        D = self.D
        self.reset()
        f = D.meth(self.cls, method, 1)
        if f is None: return None
        self.f = f
        self.t = "%s::%s in %dD, %s%s face" % (strip(self.cls), method, self.nd, "row size %d, " % self.row if self.row != ROW else "", "positive" if self.sign else "negative")
        self.ran = False
        def th(I):
            o = build(I)
            if o is None: return
            I.call(f, o, [self.bf]); self.ran = True
        D.run(self.t, th)
        if not self.ran: D.unknown(self.t); return None
        return f

    def expect(self, rule, what, name, want, nv):
        """want(v, q): form, or None where nothing is specified"""
        f, D, R = self.f, self.D, self.R
        where = "%s:%s" % (f["file"], f["l"])
        Flow_nd = type("Flow_nd", (Flow,), {"nd": self.nd, "nfq": self.nfq})
        n = 0
        for v in nv:
            for q in range(self.nfq):
                a = self.wrote(name, v, q) if isinstance(name, str) else name(v, q)
                w = want(v, q)
                if w is None: continue
                if isinstance(name, str) and v * self.nfq + q not in self.mem[name].c and not self.mem[name].c.get("*") and self.complete(name):
                    R.bad(rule, where, "%s:%s:unset" % (strip(self.cls), rule), "%s does not set %s: variable %d" % (self.t, what, v)); return
                if a is None: D.unknown(self.t + ": " + what); return
                d = F.add(a, F.neg(w))
                r = False if not d else F.nonzero(d, 60, 40, Flow_nd)
                if r is None: D.unknown(self.t + ": " + what); return
                if r:
                    R.bad(rule, where, "%s:%s:%s" % (strip(self.cls), rule, what), "%s: %s of variable %d is %s where %s is documented" % (self.t, what, v, F.show(a), F.show(w))); return
                n += 1
        if n: R.ok(rule, where, "%s: %s, %d values" % (self.t, what, n)); R.count("values", n)

    def complete(self, name): return all(isinstance(k, int) for k in self.mem[name].c)

    # forms of the flow
    def vec(self, name, q, m=None): return [self.at(name, d, q) for d in range(m or self.nd)]
    def normal(self, q): return [self.at("n", d, q) for d in range(self.nd)]
    def dot(self, a, b):
        t = {}
        for x, y in zip(a, b): t = F.add(t, F.mul(x, y))
        return t
    def inv(self, p): return F.power(p, F.Fr(-1))
    def root(self, p): return F.power(p, F.Fr(1, 2))
    def kinetic(self, name, q):
        m = self.vec(name, q)
        return F.scale(F.mul(self.dot(m, m), self.inv(self.at(name, self.nd, q))), .5)
    def pressure(self, name, q): return F.scale(F.add(self.at(name, self.nd + 1, q), F.neg(self.kinetic(name, q))), .4)
    def sound(self, name, q): return self.root(F.scale(F.mul(self.pressure(name, q), self.inv(self.at(name, self.nd, q))), 1.4))
    def outward(self, name, q):
        n = self.normal(q)
        v = F.mul(F.mul(self.dot(self.vec(name, q), n), self.inv(self.at(name, self.nd, q))), self.inv(self.root(self.dot(n, n))))
        return F.scale(v, 1. if self.sign else -1.)
    def mirror(self, vec, q):
        n = self.normal(q)
        k = F.scale(F.mul(self.dot(vec, n), self.inv(F.opaque(self.dot(n, n)))), 2.)
        return [F.add(x, F.neg(F.mul(k, y))) for x, y in zip(vec, n)]


def ite(c, a, b): return F.fn("ite", c, a, b)


def heat(C, th, q):
    """heat flux into the wall, out of the domain, that a thermal condition specifies; `sc` has the state at the wall"""
    if th.endswith("Prescribed_heat_flux"): return F.atom("th_heat_flux")
    if th.endswith("Thermal_equilibrium"):
        return None
    return None


def conditions(D, R, nd, sign):
    C = lambda cls: Check(D, R, B + cls, nd, sign)
    flow, allv = range(nd), range(nd + 2)
    nv = nd + 2
    # specified states
    c = C("Freestream")
    fs = lambda: Mat(nv, 1, [atom("fs", i) for i in range(nv)])
    if c.apply("apply_state", lambda I: D.make(I, c.cls, [fs()])): c.expect("prescribed", "ghost state", "gh_s", lambda v, q: F.atom("fs", v), allv)

    def func(*args):
        """an arbitrary function of position, time, state and normal"""
        forms = []
        for a in args:
            if isinstance(a, (Vec, Mat)):
                n = a.n if isinstance(a, Vec) else (a.r or 0) * (a.k or 0)
                if not isinstance(n, int): return UNK
                for i in range(n):
                    x = a.get(i)
                    x = ex(x) if isinstance(x, Q) else None
                    if x is None: return UNK
                    forms.append(x)
        return Vec(nv, [Q(None, None, None, F.fn("surface function %d" % v, *forms)) for v in range(nv)])
    surf = Model("Surface_func", {"operator()": func})
    given = lambda c: (lambda v, q: F.fn("surface function %d" % v, *(c.vec("x", q) + c.vec("in_s", q, nv) + c.normal(q))))
    c = C("Function_bc")
    if c.apply("apply_state", lambda I: D.make(I, c.cls, [surf])): c.expect("prescribed", "ghost state", "gh_s", given(c), allv)
    c = C("Cache_bc")
    if c.apply("init_cache", lambda I: D.make(I, c.cls, [surf])): c.expect("prescribed", "cached state", "sc", given(c), allv)
    if c.apply("apply_state", lambda I: D.make(I, c.cls, [surf])): c.expect("prescribed", "ghost state", "gh_s", lambda v, q: c.at("sc", v, q), allv)
    # copies
    for name in ("Copy", "Outflow"):
        c = C(name)
        if c.apply("apply_state", lambda I: I.newobj(c.cls)): c.expect("copy", "ghost state", "gh_s", lambda v, q: c.at("in_s", v, q), allv)
    for name, args in (("Copy", ()), ("Freestream", (fs,)), ("Function_bc", (lambda: surf,)), ("Cache_bc", (lambda: surf,))):
        c = C(name)
        if c.apply("apply_flux", lambda I: D.make(I, c.cls, [a() for a in args]) if args else I.newobj(c.cls)): c.expect("copy", "ghost flux", "gh_f", lambda v, q: c.at("in_f", v, q), allv)
    # equations of the smoothness indicator: no flux
    for name in sorted(D.cls, key=str):
        if not name or not name.startswith(B) or "Flow_bc" not in " ".join(D.P.bases(name)): continue
        c = C(strip(name))
        if c.apply("apply_diffusion", lambda I: I.newobj(c.cls)): c.expect("diffusion", "ghost state", "gh_s", lambda v, q: c.at("in_s", v, q), allv)
        if c.apply("flux_diffusion", lambda I: I.newobj(c.cls)): c.expect("diffusion", "ghost flux", "gh_f", lambda v, q: F.neg(c.at("in_f", v, q)), allv)
    # walls
    c = C("Nonpenetration")
    if c.apply("apply_state", lambda I: I.newobj(c.cls)):
        c.expect("reflect", "ghost state", "gh_s", lambda v, q: c.mirror(c.vec("in_s", q), q)[v] if v < nd else c.at("in_s", v, q), allv)
    if c.apply("apply_flux", lambda I: I.newobj(c.cls)):
        # tangential stress, mass and heat flux vanish in the average; normal stress is that of the inside
        c.expect("reflect", "ghost flux", "gh_f", lambda v, q: F.neg(c.mirror(c.vec("in_f", q), q)[v]) if v < nd else F.neg(c.at("in_f", v, q)), allv)
    wall = C("No_slip")
    for th in sorted(U01.THERMAL):
        if th not in D.P.records: continue
        name = th.split("::")[-1]
        def build(I, coercion):
            h = I.newobj(th)
            for g in D.ctor(th): I.call(g, h, [atom("th", k) for k in range(len(g["params"]))])
            for k in U01.THERMAL[th]: h.c[k] = atom("th_" + k)
            return D.make(I, wall.cls, [h, U.const(coercion)])
        if wall.apply("apply_state", lambda I: build(I, 2.)):
            wall.t += " with " + name
            wall.expect("wall", "ghost momentum and mass", "gh_s", lambda v, q: F.neg(wall.at("in_s", v, q)) if v < nd else wall.at("in_s", v, q), range(nd + 1))
            if name == "Prescribed_energy":  # the geometric mean of inside and ghost energy is the prescribed one
                wall.expect("wall", "energy at the wall (squared)", lambda v, q: (lambda g: None if g is None else F.mul(g, wall.at("in_s", nd + 1, q)))(wall.wrote("gh_s", v, q)),
                    lambda v, q: F.power(F.mul(F.atom("th_energy_per_mass"), wall.at("in_s", nd, q)), F.Fr(2)), [nd + 1])
            else: wall.expect("wall", "ghost energy", "gh_s", lambda v, q: wall.at("in_s", v, q), [nd + 1])
            if name == "Thermal_equilibrium":
                wall.expect("wall", "state for the heat flux", "sc", lambda v, q: F.scale(F.add(wall.at("in_s", v, q), wall.wrote("gh_s", v, q) or {}), .5), allv)
        for coercion in (1., 2.):
            if not wall.apply("apply_flux", lambda I: build(I, coercion)): continue
            wall.t += " with %s, coercion %g" % (name, coercion)
            wall.expect("wall", "ghost momentum flux", "gh_f", lambda v, q: wall.at("in_f", v, q), flow)
            wall.expect("wall", "ghost mass flux", "gh_f", lambda v, q: F.neg(wall.at("in_f", v, q)), [nd])
            def spec(q):
                n = wall.normal(q)
                area = F.scale(wall.root(wall.dot(n, n)), 1. if sign else -1.)
                if name == "Prescribed_energy": return wall.at("in_f", nd + 1, q)
                if name == "Prescribed_heat_flux": return F.mul(F.atom("th_heat_flux"), area)
                R_AIR = constant(D, "specific_gas_air"); SB = constant(D, "stefan_boltzmann")
                if R_AIR is None or SB is None: return None
                T = F.scale(F.mul(wall.at("sc", nd + 1, q), wall.inv(wall.at("sc", nd, q))), .4 / R_AIR)
                return F.mul(F.add(F.scale(F.mul(F.atom("th_emissivity"), F.power(T, F.Fr(4))), SB), F.mul(F.atom("th_heat_transfer_coef"), F.add(T, F.neg(F.atom("th_temperature"))))), area)
            # coercion 2 makes the average of both sides the specified flux, 1 the ghost flux itself
            wall.expect("wall", "heat flux", "gh_f", lambda v, q: (lambda s, i: None if s is None else F.add(i, F.scale(F.add(s, F.neg(i)), coercion)))(spec(q), wall.at("in_f", v, q)), [nd + 1])
    # outflow
    for name in ("Outflow", "Pressure_outflow"):
        c = C(name)
        if c.apply("apply_flux", lambda I: D.make(I, c.cls, [atom("pres")]) if name[0] == "P" else I.newobj(c.cls)):
            c.expect("outflow", "ghost flux", "gh_f", lambda v, q: F.neg(c.at("in_f", v, q)), allv)
    c = C("Pressure_outflow")
    if c.apply("apply_state", lambda I: D.make(I, c.cls, [atom("pres")])):
        c.expect("outflow", "ghost momentum and mass", "gh_s", lambda v, q: c.at("in_s", v, q), range(nd + 1))
        c.expect("outflow", "ghost energy", "gh_s", lambda v, q: ite(F.add(c.sound("in_s", q), F.neg(c.outward("in_s", q))), F.add(F.scale(F.atom("pres"), 2.5), c.kinetic("in_s", q)), c.at("in_s", v, q)), [nd + 1])
    # characteristics
    c = C("Riemann_invariants")
    if c.apply("apply_state", lambda I: D.make(I, c.cls, [fs()])):
        def pure(v, q):
            u, a = c.outward("in_s", q), c.sound("in_s", q)
            leaves, enters = F.add(u, F.neg(a)), F.neg(F.add(u, a))
            given = F.atom("fs", v)
            if v == nd: given = F.fmax("max", given, F.scale(c.at("in_s", nd, q), .5))
            if v == nd + 1: given = c.wrote("gh_s", v, q)
            return ite(leaves, c.at("in_s", v, q), ite(enters, given, c.wrote("gh_s", v, q)))
        if all(c.wrote("gh_s", v, q) is not None for v in allv for q in range(c.nfq)): c.expect("invariants", "ghost state", "gh_s", pure, allv)
        else: D.unknown(c.t)
        # every wave is set from the side it comes from (where the state is not limited)
        def waves(U, q):
            """amplitudes of the two sound waves, the entropy wave and the shear waves in a state, linearized about the inside state"""
            n = c.normal(q)
            size = c.inv(c.root(c.dot(n, n)))
            n = [F.scale(F.mul(x, size), 1. if sign else -1.) for x in n]
            rho = c.at("in_s", nd, q)
            vel = [F.mul(x, c.inv(rho)) for x in c.vec("in_s", q)]
            m, r, E = U[:nd], U[nd], U[nd + 1]
            p = F.scale(F.add(F.add(E, F.neg(c.dot(vel, m))), F.scale(F.mul(c.dot(vel, vel), r), .5)), .4)
            un = F.add(c.dot(n, m), F.neg(F.mul(c.dot(n, vel), r)))
            a = c.sound("in_s", q)
            shear = [F.add(F.add(x, F.neg(F.mul(y, r))), F.neg(F.mul(z, un))) for x, y, z in zip(m, vel, n)]
            return [F.add(p, F.mul(a, un)), F.add(p, F.neg(F.mul(a, un))), F.add(F.mul(r, F.mul(a, a)), F.neg(p))] + shear
        def state(name, q): return [F.atom("fs", v) if name == "fs" else c.wrote("gh_s", v, q) if name == "gh" else c.at("in_s", v, q) for v in allv]
        memo = {}
        def amplitude(v, q):
            if q not in memo:
                memo[q] = [waves([F.opaque(x) for x in state(k, q)], q) for k in ("in", "fs", "gh")]
            return memo[q]
        def limited(q):
            g = state("gh", q)
            e = lambda U: F.add(U[nd + 1], F.neg(F.scale(F.mul(c.dot(U[:nd], U[:nd]), c.inv(F.opaque(U[nd]))), .5)))
            return F.add(F.add(g[nd], F.scale(c.at("in_s", nd, q), -.5)), F.const(-1e-6)), F.add(F.add(e(g), F.scale(e(state("in", q)), -.5)), F.const(-1e-6))
        def by_wave(w, q):
            u, a = c.outward("in_s", q), c.sound("in_s", q)
            speed = {0: F.add(u, a), 1: F.add(u, F.neg(a))}.get(w, u)
            i, f, g = (x[w] for x in amplitude(w, q))
            x, y = limited(q)
            return ite(x, ite(y, ite(speed, i, f), g), g)
        if all(c.wrote("gh_s", v, q) is not None for v in allv for q in range(c.nfq)):
            c.expect("invariants", "wave", lambda w, q: amplitude(w, q)[2][w], by_wave, range(3 + nd))
        c.expect("invariants", "cached state", "sc", lambda v, q: c.at("in_s", v, q), allv)
    if c.apply("apply_flux", lambda I: D.make(I, c.cls, [fs()])):
        def flux(v, q):
            u, a = c.outward("sc", q), c.sound("sc", q)
            return ite(F.add(u, F.neg(a)), F.const(0), ite(F.neg(F.add(u, a)), c.at("in_f", v, q), c.wrote("gh_f", v, q)))
        if all(c.wrote("gh_f", v, q) is not None for v in allv for q in range(c.nfq)): c.expect("invariants", "ghost flux", "gh_f", flux, allv)
        else: D.unknown(c.t)
    advection(D, R, nd, sign, ROW)


def advection(D, R, nd, sign, row):
    """ghost values of the advection velocity and the `row` advected scalars, whose number exceeds that of the flow variables if the row size is large"""
    C = lambda cls: Check(D, R, B + cls, nd, sign, row)
    flow, scal = range(nd), range(nd, nd + row)
    def check(name, velocity, scalar):
        c = C(name)
        f = D.meth(c.cls, "apply_advection", 1)
        if f is None or not c.apply("apply_advection", lambda I: I.newobj(c.cls)): return
        c.expect("advection", "ghost advection velocity", "gh_s", lambda v, q: velocity(c, v, q), flow)
        c.expect("advection", "ghost advected scalar", "gh_s", lambda v, q: scalar(c, v, q), scal)
    same = lambda c, v, q: c.at("in_s", v, q)
    check("Nonpenetration", lambda c, v, q: c.mirror(c.vec("in_s", q), q)[v], same)
    check("No_slip", lambda c, v, q: F.neg(c.at("in_s", v, q)), same)
    check("Copy", same, same)
    for name in ("Freestream", "Outflow", "Riemann_invariants", "Pressure_outflow", "Function_bc", "Cache_bc"):
        f = D.meth(B + name, "apply_advection", 1)
        if f is not None and f.q.startswith("hexed::Flow_bc"): check(name, same, lambda c, v, q: F.add(F.const(2), F.neg(c.at("in_s", v, q))))



def constant(D, name):
    if name not in D.__dict__.setdefault("consts", {}):
        D.consts[name] = None
        def th(I):
            v = D.P.vars.get("G:hexed::constants::" + name)
            if v is not None:
                I.fr = Frame(); I.fr.this, I.fr.rets, I.fr.f = None, [], None
                x = I.rv(I.ev(v["init"])) if v.get("init") is not None else None
                if isinstance(x, Q) and x.v is not None: D.consts[name] = x.v
        D.run("constants::" + name, th)
    return D.consts[name]


def run(P, R):
    U.EXACT = True
    D = C01.Driver(P, R)
    R.need(any(c in P.records for c in (B + "Freestream", B + "Nonpenetration", B + "No_slip")), "boundary conditions")
    for nd in (1, 2, 3):
        for sign in (False, True):
            D.row = ROW
            conditions(D, R, nd, sign)
            for row in ((8,) if nd == 1 else (8,) if nd == 2 or R.tier == "thorough" else ()):
                D.row = row
                advection(D, R, nd, sign, row)
    R.count("entry evaluations", D.runs)
    R.count("functions evaluated", len(D.funcs))
    R.count("not decided", len(D.undecided))
    if D.undecided: R.notes.append("not decided: " + "; ".join(sorted(set(D.undecided))[:40]))
    if D.skipped: R.notes.append("cut short: %d: %s" % (len(D.skipped), ", ".join(D.skipped[:8])))
    R.explanation = __doc__
    R.assumptions += ["states at the boundary have positive mass and pressure", "two forms that have the same value at random points are equal", "real arithmetic: rounding is not considered"]
