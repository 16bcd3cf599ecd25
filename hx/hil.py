"""Abstract interpretation of Hexed Interface Language (HIL) source text.

Values are finite sets of atoms:  ('i', n|None)  ('d', x|None)  ('s', text|None).
N stands for an unknown run of digits inside a name or a text (`{case} + i`), W for an unknown identifier fragment.
Variables are flow-insensitive: the value of a name is the join of everything assigned to it. A macro substitution `$x` executes
every text that x may hold. Identifiers that are read are recorded with the statement that reads them."""
import math, re

N, W = "\x01", "\x02"
INT, DBL, STR = frozenset([("i", None)]), frozenset([("d", None)]), frozenset([("s", None)])
EMPTY = frozenset()
MAXNUM, MAXTXT, MAXLEN = 4, 48, 20000

UN_WORDS = {"sqrt", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "round", "floor", "ceil", "abs", "read", "print", "println", "shell"}
MATH = {"sqrt": math.sqrt, "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan}
INTRES = {"round", "floor", "ceil"}
BIN = {"^": 1, "#": 1, "%": 2, "/": 2, "*": 2, "-": 3, "+": 3, "==": 4, "!=": 4, ">=": 4, "<=": 4, "<": 4, ">": 4, "&": 5, "|": 5}
ASSIGN, STMT, PAREN = 10 ** 6 - 2, 10 ** 6 - 1, 10 ** 6


class HilError(Exception):
    pass


def name_rx(name):
    return "".join("[0-9]+" if c == N else "[A-Za-z0-9_]+" if c == W else re.escape(c) for c in name)


def pure(name):
    return N not in name and W not in name


def match(a, b):
    """may two name patterns denote the same name?"""
    if a == b: return True
    if pure(a) and pure(b): return False
    if pure(a): return re.fullmatch(name_rx(b), a) is not None
    if pure(b): return re.fullmatch(name_rx(a), b) is not None
    s = lambda x: x.replace(N, "7").replace(W, "w7")
    return re.fullmatch(name_rx(a), s(b)) is not None or re.fullmatch(name_rx(b), s(a)) is not None


def kinds(v):
    return {k for k, _ in v}


def texts(v):
    """(known texts, some text unknown)"""
    return [t for k, t in v if k == "s" and t is not None], ("s", None) in v


def widen(v):
    for k in "id":
        xs = [a for a in v if a[0] == k]
        if (k, None) in v or len(xs) > MAXNUM: v = frozenset(a for a in v if a[0] != k) | {(k, None)}
    ts = [a for a in v if a[0] == "s" and a[1] is not None]
    if len(ts) > MAXTXT or any(len(t) > MAXLEN for _, t in ts):
        keep = sorted((t for t in ts if len(t[1]) <= MAXLEN), key=lambda a: (len(a[1]), a[1]))[:MAXTXT]
        v = frozenset(a for a in v if a[0] != "s") | frozenset(keep) | {("s", None)}
    return v


def to_text(a):
    k, v = a
    if k == "s": return v
    if v is None: return N if k == "i" else N
    return (str(v) if v >= 0 else N) if k == "i" else "%g" % v


class Use:
    def __init__(self, name, file, macro, own): self.name, self.file, self.macro, self.own = name, file, macro, own


class Machine:
    """env: name pattern -> value. defs: list of (name, value, file, macro, order, level)."""

    def __init__(self, read_file=None):
        self.env, self.uses, self.defs, self.errors = {}, {}, {}, {}
        self.done = {}
        self.read_file = read_file
        self.first = {}      # name -> (order, value, file) for statements at the top level of a file
        self.local = {}      # extra names (pattern -> value) of a local context
        self.scope = None    # when set, assignments go to this environment instead of the global one
        self.stack = []
        self.changed = False
        self.order = 0

    # ---- environment
    def define(self, name, val, file, macro, top, selfref=False):
        """selfref: the assigned expression reads the variable itself, so it does not bring it into existence"""
        val = widen(val)
        env = self.env if self.scope is None else self.scope
        old = env.get(name, EMPTY)
        new = widen(old | val)
        if new != old or name not in env: env[name] = new; self.changed = True
        if self.scope is None: self.defs.setdefault(name, set()).add((file, macro, frozenset(kinds(val)), selfref))
        if top and name not in self.first:
            self.order += 1
            self.first[name] = (self.order, val, file)

    def add(self, name, val):
        self.env[name] = widen(self.env.get(name, EMPTY) | val)

    def lookup(self, name):
        out, hit = EMPTY, False
        envs = ([] if self.scope is None else [self.scope]) + [self.local, self.env]
        for env in envs:
            if name in env and pure(name):
                return env[name], True
        for env in envs:
            for k, v in env.items():
                if match(k, name): out |= v; hit = True
        return widen(out), hit

    # ---- execution
    def run(self, text, file, macro=None, own=None):
        """execute a text; returns the value of its last statement."""
        key = (text, file if macro is None else None)
        if key in self.stack or len(self.stack) > 60: return EMPTY
        self.stack.append(key)
        try:
            if macro is not None and self.done.get(key) == self.gen: return self.memo.get(key, EMPTY)
            self.done[key] = self.gen
            p = Parser(self, text, file, macro)
            p.own = own
            try: v = p.eval(STMT)
            except HilError as e:
                self.errors[(file, macro, str(e))] = True
                v = EMPTY
            self.memo[key] = v
            return v
        finally: self.stack.pop()

    def fixpoint(self, roots, limit=40):
        """roots: list of callables executed until nothing changes."""
        self.memo = {}
        for self.gen in range(limit):
            self.changed = False
            for r in roots: r()
            if not self.changed: return True
        return False


class Parser:
    def __init__(self, M, text, file, macro):
        self.M, self.s, self.i, self.file, self.macro = M, text, 0, file, macro
        self.own = None
        self.depth = 0
        self.selfref = False

    def front(self, k=0):
        return self.s[self.i + k] if self.i + k < len(self.s) else "\0"

    def skip(self):
        while self.front() == " ": self.i += 1

    def more(self):
        return self.i < len(self.s)

    def name(self):
        j = self.i
        while self.front() != "\0" and (self.front().isalnum() or self.front() in "_" + N + W): self.i += 1
        return self.s[j:self.i]

    def use(self, n):
        if n == self.own: self.selfref = True
        self.M.uses.setdefault(n, {})[(self.file, self.macro, self.own)] = True

    def substitute(self, v):
        """value of executing every text in v"""
        ts, unknown = texts(v)
        out = EMPTY
        nm = getattr(self, "last_name", None)
        for t in ts:
            out |= self.M.run(t, self.file, nm or self.macro or "?", self.own)
        if unknown or not ts: out |= frozenset([("i", None), ("d", None), ("s", None)])
        return widen(out)

    def rhs(self, n):
        old, oldr = self.own, self.selfref
        self.own, self.selfref = n, False
        self.depth += 1
        val = self.eval(ASSIGN)
        self.depth -= 1
        sr = self.selfref
        self.own, self.selfref = old, oldr
        return val, sr

    def eval(self, prec):
        M = self.M
        val = EMPTY
        while self.more():
            self.skip()
            if not self.more(): break
            c = self.front()
            if c in "\n;":
                self.i += 1
            elif c == "$":
                self.i += 1
                self.last_name = None
                v = self.eval(0)
                nm = self.last_name
                if not any(k == "s" for k in kinds(v)) and v: raise HilError("`$` applied to a number")
                val = self.substitute(v)
                self.last_name = None
                # the substituted text can be the name of a variable to assign
                self.skip()
                if self.front() == "=" and self.front(1) != "=" :
                    self.i += 1
                    ts, unk = texts(v)
                    names = [t.strip() for t in ts if re.fullmatch(r"[\s]*[A-Za-z_\x01\x02][A-Za-z0-9_\x01\x02]*[\s]*", t)]
                    val, sr = self.rhs(names[0] if names else self.own)
                    for n in names: M.define(n, val, self.file, self.macro, self.macro is None, sr)
            elif c == "(":
                self.i += 1
                self.depth += 1
                val = self.eval(PAREN)
                self.depth -= 1
            elif c == ")":
                if prec == PAREN: self.i += 1; break
                raise HilError("unmatched `)`")
            elif c.isdigit() or c == "." or c == N:
                j = self.i
                isint = True
                while True:
                    c = self.front()
                    if c.isdigit() or c == "." or c == N or c in "eE" or (c in "+-" and self.s[self.i - 1] in "eE" and self.i > j):
                        isint = isint and (c.isdigit() or c == N)
                        self.i += 1
                    else: break
                t = self.s[j:self.i]
                if N in t: val = INT | DBL
                else:
                    try: val = frozenset([("i", int(t)) if isint else ("d", float(t))])
                    except ValueError: raise HilError("failed to parse numeric literal `%s`" % t)
            elif c == "{":
                self.i += 1
                d, bs, out = 1, False, []
                while d:
                    if not self.more(): raise HilError("input ended while parsing a string literal")
                    c = self.front(); self.i += 1
                    if c == "{" and not bs: d += 1
                    if c == "}" and not bs: d -= 1
                    bs = (not bs) if c == "\\" else False
                    if d and not bs: out.append(c)
                val = frozenset([("s", "".join(out))])
                self.last_name = None
            elif c.isalpha() or c in "_" + W:
                n = self.name()
                if n in UN_WORDS: val = self.unary(n, self.eval(0))
                else:
                    self.skip()
                    if self.front() == "=" and self.front(1) != "=":
                        self.i += 1
                        val, sr = self.rhs(n)
                        M.define(n, val, self.file, self.macro, self.macro is None, sr)
                    else:
                        self.use(n)
                        val, hit = M.lookup(n)
                        self.last_name = n
                        if n == self.own and "s" in kinds(val):
                            val = frozenset(a for a in val if a[0] != "s") | {("s", "")} # x = x + {...}: the pieces are kept separately
            elif c in "-!#":
                self.i += 1
                val = self.unary(c, self.eval(0))
            else: raise HilError("failed to parse value starting with `%s`" % c)
            self.skip()
            while True:
                op = ""
                for o in BIN:
                    if self.s.startswith(o, self.i) and len(o) > len(op): op = o
                if not op: break
                if BIN[op] < prec:
                    self.i += len(op)
                    rhs = self.eval(BIN[op])
                    val = self.binary(op, val, rhs)
                    self.skip()
                else: break
            if prec < STMT: break
        return val

    def unary(self, op, v):
        ks = kinds(v)
        if op in "-":
            if ks == {"s"}: raise HilError("unary `-` applied to a string")
            return frozenset((k, None if x is None else -x) for k, x in v if k != "s")
        if op == "!":
            if ks and "i" not in ks: raise HilError("`!` applied to a non-integer")
            return frozenset(("i", None if x is None else int(not x)) for k, x in v if k == "i") or INT
        if op == "#":
            if ks and "s" not in ks: raise HilError("`#` applied to a number")
            return INT
        if op == "read":
            if ks and "s" not in ks: raise HilError("`read` applied to a number")
            ts, unk = texts(v)
            out = EMPTY
            for t in ts:
                r = self.M.read_file(t) if self.M.read_file else None
                out |= frozenset([("s", r)])
            return out or STR
        if op in ("print", "println"): return frozenset([("s", "")])
        if op == "shell":
            if ks and "s" not in ks: raise HilError("`shell` applied to a number")
            return INT
        if ks == {"s"}: raise HilError("unary `%s` applied to a string" % op)
        if op in INTRES: return INT
        if op == "abs": return frozenset((k, None if x is None else abs(x)) for k, x in v if k != "s")
        out = set()
        for k, x in v:
            if k == "s": continue
            try: out.add(("d", None if x is None else MATH[op](x)))
            except (ValueError, OverflowError): out.add(("d", None))
        return frozenset(out) or DBL

    def binary(self, op, a, b):
        ka, kb = kinds(a), kinds(b)
        if op == "#" :
            if (ka and "s" not in ka) or (kb and "i" not in kb): raise HilError("operands of binary `#` have the wrong type")
            return STR
        if op in ("==", "!="):
            if ka and kb and (ka == {"s"}) != (kb == {"s"}) and not ("s" in ka and "s" in kb): raise HilError("`%s` compares a string with a number" % op)
            return INT
        if op == "+" and ("s" in ka or "s" in kb):
            out = set()
            for x in a:
                for y in b:
                    if x[0] == "s" or y[0] == "s":
                        tx, ty = to_text(x), to_text(y)
                        out.add(("s", None if tx is None or ty is None else tx + ty))
                    else: out |= self.arith(op, x, y)
            return widen(frozenset(out))
        if ka == {"s"} or kb == {"s"}: raise HilError("`%s` applied to a string" % op)
        if op in (">=", "<=", "<", ">", "&", "|"): return INT
        if op == "%":
            if (ka and "i" not in ka) or (kb and "i" not in kb): raise HilError("`%` applied to a non-integer")
        out = set()
        for x in a:
            for y in b:
                if x[0] != "s" and y[0] != "s": out |= self.arith(op, x, y)
        return widen(frozenset(out))

    def arith(self, op, x, y):
        k = "i" if x[0] == "i" and y[0] == "i" else "d"
        p, q = x[1], y[1]
        if p is None or q is None: return {(k, None)}
        try:
            if op == "+": r = p + q
            elif op == "-": r = p - q
            elif op == "*": r = p * q
            elif op == "/": r = (abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)) if k == "i" else p / q
            elif op == "%": r = int(math.fmod(p, q))
            elif op == "^":
                r = float(p) ** float(q) if k == "d" else p ** q if q >= 0 else 0
            else: return {(k, None)}
            if isinstance(r, complex): return {(k, None)}
        except (ZeroDivisionError, OverflowError, ValueError): return {(k, None)}
        return {(k, int(r) if k == "i" else float(r))}
