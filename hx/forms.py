"""Normal forms of exact values: polynomials (with integer exponents of either sign) over atoms.  Atoms are inputs of the analysed
code and applications of functions that are not interpreted (sqrt of a sum, max, ...), identified by the normal form of their arguments,
so that two values with the same normal form are equal whatever the inputs are."""
from fractions import Fraction as Fr

ATOMS, IDS = [], {}
LIMIT = 400


def atom_id(key):
    i = IDS.get(key)
    if i is None:
        i = IDS[key] = len(ATOMS); ATOMS.append(key)
    return i


def atom(*key): return {((atom_id(key), 1),): 1.}
def const(v): return {(): float(v)} if v else {}


def canon(p): return frozenset((m, float("%.11g" % c)) for m, c in p.items())


def add(a, b, s=1.):
    if len(a) < len(b) and s == 1.: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        c *= s
        o = r.get(m)
        if o is None: r[m] = c
        else:
            t = o + c
            if abs(t) <= 1e-12 * (abs(o) + abs(c)): del r[m]
            else: r[m] = t
    return r


def scale(a, s): return {m: c * s for m, c in a.items()} if s else {}
def neg(a): return {m: -c for m, c in a.items()}


def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n:
        t = d.get(a, 0) + e
        if t: d[a] = t
        else: d.pop(a, None)
    return tuple(sorted(d.items()))


def opaque(p):
    """a polynomial as one atom (scaled by its leading coefficient)"""
    if len(p) < 2: return p
    c = p[min(p)]
    return {((atom_id(("sum", canon(scale(p, 1 / c)))), 1),): c}


def mul(a, b):
    if not a or not b: return {}
    if len(a) > 1 and len(b) > 1 and len(a) * len(b) > LIMIT:
        a, b = opaque(a), opaque(b)
    if len(a) == 1 and () in a: return scale(b, a[()])
    if len(b) == 1 and () in b: return scale(a, b[()])
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0.) + c * d
    top = max(abs(c) for c in r.values())
    r = {m: c for m, c in r.items() if abs(c) > 1e-13 * top}
    return roots(r)


def roots(p):
    """sqrt(x)^2 -> x"""
    for m in p:
        for a, e in m:
            k = ATOMS[a]
            if k[0] == "root" and e > 1 or k[0] == "root" and e < -1:
                out = {}
                for m, c in p.items():
                    t = {(): c}
                    for a, e in m:
                        k = ATOMS[a]
                        if k[0] == "root" and abs(e) > 1:
                            q, rest = int(e / 2), e - 2 * int(e / 2)
                            t = mul(t, power(dict(k[1]), Fr(q)))
                            if rest: t = mul(t, {((a, rest),): 1.})
                        else: t = mul(t, {((a, e),): 1.})
                    out = add(out, t)
                return out
    return p


def power(p, e):
    if e == 1: return p
    if e == 0: return const(1)
    if not p: return {} if e > 0 else None
    if e.denominator == 1:
        if len(p) == 1:
            (m, c), = p.items()
            try: return roots({tuple((a, x * int(e)) for a, x in m): c ** int(e)})
            except (OverflowError, ZeroDivisionError): return None
        if 0 < e <= 4:
            r = p
            for _ in range(int(e) - 1): r = mul(r, p)
            return r
        if e < 0:
            c = p[min(p)]
            return {((atom_id(("sum", canon(scale(p, 1 / c)))), int(e)),): c ** int(e)}
    if e.denominator == 2:
        r = {((atom_id(("root", canon(p))), 1),): 1.}
        return power(r, Fr(e.numerator)) if e.numerator != 1 else r
    return {((atom_id(("pow", canon(p), e)), 1),): 1.}


def fn(name, *args): return {((atom_id((name,) + tuple(canon(a) for a in args)), 1),): 1.}
def fmax(name, a, b):
    if canon(a) == canon(b): return a
    return {((atom_id((name, frozenset((canon(a), canon(b))))), 1),): 1.}


def clear(p, depth=6):
    """expand sums that were kept as atoms, clearing denominators: zero iff p is zero (as far as the rules go)"""
    for _ in range(depth):
        low = {}
        for m in p:
            for a, e in m:
                if ATOMS[a][0] == "sum": low[a] = min(low.get(a, 0), e)
        if not low or not p: return p
        for a in low:
            inner = dict(ATOMS[a][1])
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(a, 0) - min(low[a], 0)
                t = {tuple(sorted(d.items())): c}
                for _ in range(e): t = mul_full(t, inner)
                into(out, t)
            p = out
            if len(p) > 20000: return p
    return p


def mul_full(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n); o = r.get(k)
            t = c * d if o is None else o + c * d
            if o is not None and abs(t) <= 1e-12 * (abs(o) + abs(c * d)): del r[k]
            else: r[k] = t
    return roots(r)


def subst(p, rules):
    """replace atoms (with positive exponents) by polynomials"""
    out = {}
    for m, c in p.items():
        t, keep = None, []
        for a, e in m:
            if a in rules and e > 0:
                for _ in range(e): t = rules[a] if t is None else mul_full(t, rules[a])
            else: keep.append((a, e))
        into(out, {m: c} if t is None else mul_full(t, {tuple(keep): c}))
    return out


def into(out, p):
    """out += p"""
    for m, c in p.items():
        o = out.get(m)
        if o is None: out[m] = c
        else:
            t = o + c
            if abs(t) <= 1e-12 * (abs(o) + abs(c)): del out[m]
            else: out[m] = t


def zero(p, tol=1e-9, size=1.):
    return all(abs(c) <= tol * size for c in p.values())


def atoms(p):
    """input atoms a value depends on, through functions"""
    seen, todo, out = set(), [p], set()
    while todo:
        for m in todo.pop():
            for a, _ in m:
                if a in seen: continue
                seen.add(a)
                k = ATOMS[a]
                def sub(x):
                    if isinstance(x, frozenset):
                        for y in x:
                            if isinstance(y, frozenset): sub(y)
                            elif isinstance(y, tuple) and isinstance(y[0], tuple): todo.append({y[0]: 1.})
                if k[0] in ("sum", "root", "pow", "max", "min", "fn") or any(isinstance(x, frozenset) for x in k):
                    for x in k[1:]: sub(x)
                else: out.add(k)
    return out


def show(p, n=6):
    def at(a):
        k = ATOMS[a]
        if k[0] in ("sum",): return "(" + show(dict(k[1]), 3) + ")"
        if k[0] == "root": return "sqrt(" + show(dict(k[1]), 3) + ")"
        if any(isinstance(x, frozenset) for x in k): return k[0] + "(..)"
        return k[0] + "[" + ",".join(map(str, k[1:])) + "]"
    if not p: return "0"
    t = ["%.4g" % c + "".join("*" + at(a) + ("^%d" % e if e != 1 else "") for a, e in m) for m, c in sorted(p.items(), key=lambda x: str(x[0]))[:n]]
    return " + ".join(t) + (" + ..." if len(p) > n else "")


# ------------------------------------------------------------------------------------------------ identity testing
import hashlib, math


def pseudo(*key):
    h = int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=6).digest(), "big")
    return .3 + .7 * h / 2 ** 48


def near(v): return float("%.8g" % v)


class Sample:
    """values of forms at one random point of the inputs; functions that are not known have values that depend on their arguments only"""
    FN = {"sqrt": math.sqrt, "exp": math.exp, "log": math.log, "abs": abs, "fabs": abs, "tanh": math.tanh, "sin": math.sin, "cos": math.cos, "atan": math.atan, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x)}
    def __init__(self, seed): self.seed, self.c = seed, {}

    def atom(self, a):
        v = self.c.get(a)
        if v is None: v = self.c[a] = self.ev_atom(ATOMS[a])
        return v

    def canon(self, s): return sum(self.mono(m) * c for m, c in s)

    def mono(self, m):
        x = 1.
        for a, e in m: x *= self.atom(a) ** e
        return x

    def ev_atom(self, k):
        if k[0] == "sum": return self.canon(k[1])
        if k[0] == "root": return math.sqrt(self.canon(k[1]))
        if k[0] == "pow": return self.canon(k[1]) ** float(k[2])
        if k[0] in ("max", "min") and len(k) == 2 and isinstance(k[1], frozenset):
            return (max if k[0] == "max" else min)(self.canon(x) for x in k[1])
        if k[0] == "ite": return self.canon(k[2] if self.canon(k[1]) > 0 else k[3])
        if len(k) > 1 and all(isinstance(x, frozenset) for x in k[1:]):
            v = [self.canon(x) for x in k[1:]]
            f = self.FN.get(k[0])
            return f(*v) if f and len(v) == 1 else pseudo(self.seed, k[0], *map(near, v))
        return pseudo(self.seed, k)

    def poly(self, p):
        t = [self.mono(m) * c for m, c in p.items()]
        return sum(t), sum(map(abs, t))


def nonzero(p, tries=12, want=2, sample=Sample):
    """whether a form differs from zero at random points: True, False, or None where it cannot be evaluated"""
    seen = 0
    for s in range(tries):
        try: v, size = sample(s).poly(p)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError): continue
        if isinstance(v, complex) or v != v or size == float("inf"): continue
        if abs(v) > 1e-6 * size: return True
        seen += 1
        if seen >= want: return False
    return None
