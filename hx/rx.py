"""Language inclusion for the small regular-expression dialect used in validation guards
(ECMAScript subset: literals, escapes, classes, ., groups, alternation, * + ? {m,n})."""
import string

ALPHA = [chr(i) for i in range(1, 127)] + ["\xff"]     # \xff stands for every other character
DIG, WORD = set(string.digits), set(string.ascii_letters + string.digits + "_")


class Unsupported(Exception): pass


class _P:
    def __init__(self, s): self.s, self.i = s, 0
    def peek(self): return self.s[self.i] if self.i < len(self.s) else None
    def next(self):
        if self.i >= len(self.s): raise Unsupported("truncated")
        self.i += 1; return self.s[self.i - 1]
    def alt(self):
        items = [self.cat()]
        while self.peek() == "|": self.next(); items.append(self.cat())
        return items[0] if len(items) == 1 else ("alt", items)
    def cat(self):
        out = []
        while self.peek() is not None and self.peek() not in "|)": out.append(self.rep())
        return ("cat", out)
    def rep(self):
        a = self.atom()
        while self.peek() is not None and self.peek() in "*+?{":
            c = self.next()
            if c == "*": a = ("star", a)
            elif c == "+": a = ("cat", [a, ("star", a)])
            elif c == "?": a = ("alt", [a, ("cat", [])])
            else:
                num = ""
                while self.peek() != "}": num += self.next()
                self.next()
                lo, _, hi = num.partition(",")
                lo = int(lo); hi2 = lo if "," not in num else (int(hi) if hi else None)
                parts = [a]*lo
                if hi2 is None: parts.append(("star", a))
                else: parts += [("alt", [a, ("cat", [])])]*(hi2 - lo)
                a = ("cat", parts)
        return a
    def esc(self):
        c = self.next()
        if c == "d": return DIG
        if c == "D": return set(ALPHA) - DIG
        if c == "w": return WORD
        if c == "W": return set(ALPHA) - WORD
        if c == "s": return set(" \t\n\r\f\v")
        if c == "n": return {"\n"}
        if c == "t": return {"\t"}
        if c.isalnum(): raise Unsupported("escape \\" + c)
        return {c}
    def atom(self):
        c = self.next()
        if c == "(":
            if self.peek() == "?":
                self.next()
                if self.next() != ":": raise Unsupported("group")
            a = self.alt()
            if self.next() != ")": raise Unsupported("unbalanced")
            return a
        if c == "[": return ("set", frozenset(self.cls()))
        if c == ".": return ("set", frozenset(set(ALPHA) - set("\n\r")))
        if c == "\\": return ("set", frozenset(self.esc()))
        if c in "^$": raise Unsupported("anchor")
        return ("set", frozenset(c))
    def cls(self):
        neg = False
        if self.peek() == "^": self.next(); neg = True
        out = set()
        while True:
            c = self.next()
            if c == "]": break
            s = self.esc() if c == "\\" else {c}
            if self.peek() == "-" and self.i + 1 < len(self.s) and self.s[self.i + 1] != "]" and len(s) == 1:
                self.next(); d = self.next()
                if d == "\\": d = next(iter(self.esc()))
                s = {chr(x) for x in range(ord(next(iter(s))), ord(d) + 1)}
            out |= s
        return set(ALPHA) - out if neg else out


class NFA:
    def __init__(self, text):
        p = _P(text); tree = p.alt()
        if p.peek() is not None: raise Unsupported("trailing")
        self.eps, self.tr = [], []
        s, e = self.build(tree)
        self.start, self.end = s, e
    def new(self):
        self.eps.append([]); self.tr.append([]); return len(self.eps) - 1
    def build(self, t):
        k = t[0]
        s, e = self.new(), self.new()
        if k == "set": self.tr[s].append((t[1], e))
        elif k == "cat":
            c = s
            for x in t[1]:
                a, b = self.build(x); self.eps[c].append(a); c = b
            self.eps[c].append(e)
        elif k == "alt":
            for x in t[1]:
                a, b = self.build(x); self.eps[s].append(a); self.eps[b].append(e)
        elif k == "star":
            a, b = self.build(t[1])
            self.eps[s] += [a, e]; self.eps[b] += [a, e]
        return s, e
    def close(self, S):
        S = set(S); todo = list(S)
        while todo:
            for y in self.eps[todo.pop()]:
                if y not in S: S.add(y); todo.append(y)
        return frozenset(S)
    def move(self, S, c):
        return self.close({e for s in S for (cs, e) in self.tr[s] if c in cs})


def included(text, start, step, accepting):
    """Is every string of regex `text` accepted by the deterministic automaton (start, step(state, char), accepting(state))?
    -> None if yes, else a counterexample string."""
    n = NFA(text)
    init = (n.close({n.start}), start)
    seen, todo = {init: ""}, [init]
    while todo:
        S, q = todo.pop(0)
        w = seen[(S, q)]
        if n.end in S and not accepting(q): return w
        for c in ALPHA:
            S2 = n.move(S, c)
            if not S2: continue
            st = (S2, step(q, c))
            if st not in seen: seen[st] = w + c; todo.append(st)
    return None


def printf_dfa(kinds):
    """Automaton accepting format texts whose conversions are exactly `kinds` ('float64', 'int32', 'str')."""
    FL = set("aAeEfFgG"); IN = set("dic"); UN = set("uoxX")
    def step(q, c):
        if q == "dead": return q
        n, st = q
        if st == "txt": return (n, "pct") if c == "%" else q
        if st == "pct" and c == "%": return (n, "txt")
        if c in "-+ #0'" and st in ("pct", "flag"): return (n, "flag")
        if c in DIG and st in ("pct", "flag", "width"): return (n, "width")
        if c == "." and st in ("pct", "flag", "width"): return (n, "prec")
        if c in DIG and st == "prec": return q
        if c == "l" and st in ("pct", "flag", "width", "prec", "l"): return (n, "l") if st != "l" else "dead"
        if n >= len(kinds): return "dead"
        k = kinds[n]
        if k == "float64" and c in FL: return (n + 1, "txt")
        if st != "l" and (k == "int32" and c in IN or k == "uint32" and c in UN or k == "str" and c == "s"): return (n + 1, "txt")
        return "dead"
    return (0, "txt"), step, lambda q: q != "dead" and q[0] == len(kinds) and q[1] == "txt"
