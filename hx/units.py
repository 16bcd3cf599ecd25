"""The value domain of the dimension/parity analysis: physical quantities.

A quantity is (d, p, v): `d` = exponents of kg, m, s, K and of J, the ratio of physical to
reference length of a deformed element (None = unknown), `p` = bit mask of the axes under whose reflection
the quantity changes sign (None = unknown), `v` = its value if it is a numeric constant of the program (else None).
Zero is compatible with everything; other constants may take the dimension of whatever they are added to or compared with.
"""
from fractions import Fraction as Fr
from . import forms as F

BASE = ("kg", "m", "s", "K", "J")
D0 = (Fr(0),) * 5


def dim(**kw):
    return tuple(Fr(kw.get(b, 0)) for b in BASE)


class Q:
    __slots__ = ("d", "p", "v", "e") # e: normal form of the exact value (forms.py), None if it is not known
    def __init__(self, d=None, p=None, v=None, e=None):
        self.d, self.p, self.v, self.e = d, p, v, e
    def __eq__(self, o): return isinstance(o, Q) and (self.d, self.p, self.v) == (o.d, o.p, o.v) and (self.e is o.e or self.e == o.e)
    def __hash__(self): return hash((self.d, self.p, self.v))
    def __repr__(self): return "Q(%s%s%s)" % (show(self.d), "" if self.p is None else "|" + bin(self.p)[2:], "" if self.v is None else "=%g" % self.v)


TOPQ = Q()


EXACT = False # are exact values tracked?


def ex(q):
    if q.v is not None: return F.const(q.v)
    return q.e


def atom(*key): return Q(None, None, None, F.atom(*key))


def form2(fn, a, b):
    if not EXACT: return None
    x, y = ex(a), ex(b)
    return None if x is None or y is None else fn(x, y)


def withe(q, e):
    if e is None: return q
    if q.v is None and len(e) <= 1 and (not e or () in e): return const(e.get((), 0.))
    return Q(q.d, q.p, q.v, e)


def const(v):
    return Q(D0, 0, float(v))


def show(d):
    if d is None: return "?"
    s = " ".join("%s^%s" % (b, e) if e != 1 else b for b, e in zip(BASE, d) if e)
    return s or "1"


def axes(p):
    return "even" if not p else "odd in " + ",".join("xyz"[i] for i in range(3) if p >> i & 1)


ZERO, ONE = const(0), const(1)
DLESS = Q(D0, 0)


def mul(a, b):
    if a.v == 0 or b.v == 0: return ZERO
    v = a.v * b.v if a.v is not None and b.v is not None else None
    d = None if a.d is None or b.d is None else tuple(x + y for x, y in zip(a.d, b.d))
    p = None if a.p is None or b.p is None else a.p ^ b.p
    return Q(d, p, v, None if not EXACT or v is not None else form2(F.mul, a, b))


def inv(a):
    v = None
    if a.v: v = 1 / a.v
    elif a.v == 0: return TOPQ
    return Q(None if a.d is None else tuple(-x for x in a.d), a.p, v, F.power(a.e, Fr(-1)) if EXACT and a.e is not None and v is None else None)


def div(a, b):
    if a.v == 0: return ZERO
    return mul(a, inv(b))


def power(a, e):
    """a**e, e a Fraction"""
    if a.v is not None:
        if a.v == 0 and e > 0: return ZERO
        try:
            v = a.v ** float(e)
            if isinstance(v, float): return const(v)
        except (OverflowError, ZeroDivisionError): pass
        return TOPQ
    d = None if a.d is None else tuple(x * e for x in a.d)
    p = None
    if a.p is not None:
        if a.p == 0: p = 0
        elif e.denominator == 1: p = a.p if e.numerator % 2 else 0
    return Q(d, p, None, F.power(a.e, Fr(e)) if EXACT and a.e is not None else None)


def neg(a):
    return Q(a.d, a.p, -a.v if a.v else a.v, F.neg(a.e) if a.e is not None else None)


def join(a, b):
    if a is b or a == b: return a
    if a.v == 0: return Q(b.d, b.p)
    if b.v == 0: return Q(a.d, a.p)
    if a.v is not None and b.v is not None: return Q(D0, 0, None) if False else Q(None, None)
    if a.v is not None: return Q(b.d, b.p)
    if b.v is not None: return Q(a.d, a.p)
    return Q(a.d if a.d == b.d else None, a.p if a.p == b.p else None)


def mismatch(a, b):
    """(dimension mismatch, parity mismatch) of two quantities that are added or compared"""
    if a.v is not None or b.v is not None: return False, False
    return (a.d is not None and b.d is not None and a.d != b.d), (a.p is not None and b.p is not None and a.p != b.p)


def merge(a, b):
    """result of a sum"""
    if a.v is not None and b.v is not None: return const(a.v + b.v)
    e = form2(F.add, a, b)
    if e is not None and not e: return ZERO
    if a.v is not None: return withe(Q(b.d, b.p), e)
    if b.v is not None: return withe(Q(a.d, a.p), e)
    md, mp = mismatch(a, b)
    d = None if md else (a.d if a.d is not None else b.d)
    # an unknown operand keeps the sum unknown: it must not be blamed later for what the known operand says
    if a.d is None or b.d is None: d = None
    p = None if mp or a.p is None or b.p is None else a.p
    return withe(Q(d, p), e)
