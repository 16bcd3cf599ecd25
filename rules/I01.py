"""I01: text supplied by the user (HIL programs, structured expressions, CSV files, case variables)
cannot drive the interpreter into undefined behaviour.

Rules, decided by a path-condition dataflow (facts established by branches, assertions, early exits,
checking helpers and class invariants; killed by anything that may modify what they mention):
  engaged      every dereference of a std::optional is reached only where it holds a value
  divisor      every integer division / remainder by a non-constant has a divisor proven nonzero
  nonempty     front / back / pop on a text or list is reached only when it is not empty
  bounds       text subscripts and iterator arithmetic stay in range
  sentinel     the parser's character list keeps its terminating null: characters are only removed
               where another character is proven to follow, and it is never left unterminated
  hil-error    a failed check in the interpreter raises the HIL exception type"""
from hx.ir import walk, kids
from hx.guards import Guards, deref, is_optional, is_string, entails, nonzero, at_most, not_empty, linear, eq_class, substitute, subterms, contains, cmp_fact

SCRIPT = {"src/Interpreter.cpp", "include/Interpreter.hpp", "include/Namespace.hpp", "src/Struct_expr.cpp", "include/Struct_expr.hpp", "src/Case.cpp",
          "include/Case.hpp", "src/read_csv.cpp", "include/read_csv.hpp", "src/History_monitor.cpp", "include/History_monitor.hpp"}
LOOKUP, ASSIGN = "hexed::Namespace::lookup", "hexed::Namespace::assign"


def strip(n):
    while n["k"] in ("Cast", "ICast", "Paren"): n = n["e"]
    return n


def const(n):
    while True:
        if "cv" in n: return n["cv"]
        if n["k"] in ("Int", "Char", "Bool"): return int(n["v"])
        if n["k"] not in ("Cast", "ICast"): return None
        n = n["e"]


def is_iter(t):
    s = t["s"]
    return "iterator" in s.lower() and not s.startswith("std::istream") and not s.startswith("std::filesystem")


def is_textlike(t):
    s = t["s"].replace("const ", "")
    return s.startswith(("std::basic_string<", "std::list<", "std::vector<", "std::deque<", "std::__cxx11"))


class Domain:
    """after assign<T>(name, v), lookup<T>(name) finds a value (variables are never removed)"""
    def __init__(self, P, G):
        self.P, self.G = P, G
        self.lookup = {}
        for k, d in P.decls.items():
            if d.get("q") == LOOKUP:
                g = P.funcs.get(k)
                r = (d.get("ret") or {}).get("s", "") if isinstance(d.get("ret"), dict) else (g or {}).get("disp", "")
                self.lookup[k] = r
        self.anylook = {k for k in self.lookup}

    def kind(self, s):
        if "basic_string" in s or "std::string" in s: return "s"
        if "double" in s: return "d"
        if "int" in s: return "i"
        return "?"

    def lookups(self, kind):
        out = []
        for k in self.anylook:
            g = self.P.funcs.get(k)
            inst = k.split("lookup<")[1].split(">")[0] if "lookup<" in k else ""
            kk = "s" if "basic_string" in inst else "d" if inst == "#d" else "i" if inst == "#I" else "?"
            if kk == kind: out.append(k)
        return out

    def after(self, n, st):
        if n["k"] != "MCall": return ()
        d = self.P.decls.get(n.get("f"), {})
        if d.get("q") != ASSIGN or len(n["a"]) < 2: return ()
        G = self.G
        o = G.canon(n["obj"], G.env) if n.get("obj") else ("this",)
        if n.get("arrow"): o = deref(o)
        key = G.canon(n["a"][0], G.env)
        k = self.kind(d["ps"][1]["s"])
        kinds = {"s": ("s",), "d": ("d",), "i": ("d",)}.get(k, ())
        return [(("truth", ("c", f, o, key)), True) for kk in kinds for f in self.lookups(kk)]


def class_invariant(P, G, cls):
    """facts over fields that every constructor establishes and no other member modifies"""
    meths = [f for f in P.by_cls.get(cls, []) if f.body and not f.get("dep") and not f.get("implicit") and not f.get("defaulted")]
    ctors = [f for f in meths if f["kind"] == "ctor"]
    if not ctors: return frozenset()
    mod = set()
    for m in meths:
        if m["kind"] not in ("ctor", "dtor"): mod |= G.fields_modified(m["key"])
    acc = []
    for c in ctors:
        for end in G.analyse(c, lambda n, s: None):
            eq = {}
            for f in end:
                if len(f) == 2 and f[1] is True and f[0][0] == "==":
                    for a, b in ((f[0][1], f[0][2]), (f[0][2], f[0][1])):
                        if a[0] == "v" and b[0] == "m": eq.setdefault(a, b)
            fs = set()
            for f in end:
                g = substitute(f, eq)
                if g[0] in ("or", "alias"): continue
                ts = list(subterms(g))
                if any(t[0] in ("v", "uniq", "elem") for t in ts): continue
                ms = [t for t in ts if t[0] == "m"]
                if ms and not any(t[1] in mod for t in ms): fs.add(g)
            acc.append(frozenset(fs))
    return frozenset.intersection(*acc) if acc else frozenset()


def run(P, R):
    R.explanation = __doc__
    R.assumptions = ["variables are never removed from a Namespace, so a lookup that succeeded keeps succeeding",
                     "member functions are called on fully constructed objects", "signed overflow of HIL integer arithmetic is not covered",
                     "standard library calls (stoi, stod, find, getline) behave as specified"]
    G = Guards(P)
    dom = Domain(P, G)
    G.after_call = dom.after
    R.need(dom.anylook, "Namespace::lookup")
    fs = [f for f in P.concrete() if not f["file"].startswith("/")]
    R.need(any(f["file"] in SCRIPT for f in fs), "interpreter sources")
    optionals(P, R, G, fs)
    text = Sentinel(P, R, G)
    G.precise = True
    inv = {}
    for f in sorted((f for f in fs if f["file"] in SCRIPT), key=lambda f: (f["file"], f["l"])):
        cls = f.get("clsb")
        init = frozenset()
        if cls and f["kind"] not in ("ctor",) and not f.get("static"):
            if cls not in inv: inv[cls] = class_invariant(P, G, cls)
            init = inv[cls]
        checks(P, R, G, f, init, text)
    text.finish()
    R.count("functions_analysed_for_optionals", len(fs))
    R.count("functions_analysed_for_script_safety", sum(1 for f in fs if f["file"] in SCRIPT))
    hil_errors(P, R, fs)


def optionals(P, R, G, fs):
    for f in fs:
        def visit(x, st):
            o = None
            if x["k"] == "OpCall" and x["op"] in ("*", "->") and is_optional(x["a"][0]["t"]): o = x["a"][0]
            if o is None: return
            where = "%s:%d" % (f["file"], x["l"])
            if G.engaged(o, st): R.ok("engaged", where, f["q"])
            else: R.bad("engaged", where, "engaged:%s:%s:%s" % (f["file"], f["q"], render(G.canon(o, G.env), P)), "%s dereferences an optional (%s) that is not proven to hold a value" % (f["q"], render(G.canon(o, G.env), P)))
        G.analyse(f, visit)


def render(c, P):
    if not isinstance(c, tuple): return str(c)
    h = c[0]
    if h == "m": return c[1].split("::")[-1] if c[2] in (("*", ("this",)), ("this",)) else render(c[2], P) + "." + c[1].split("::")[-1]
    if h == "v": return "local"
    if h == "*": return render(c[1], P)
    if h == "c": return "%s(%s)" % ((P.decls.get(c[1], {}).get("q") or c[1]).split("::")[-1], ", ".join(render(x, P) for x in c[3:]))
    if h in ("i", "d", "s"): return repr(c[1])
    if h == "this": return "this"
    return h + "(" + ", ".join(render(x, P) for x in c[1:] if isinstance(x, tuple)) + ")"


def in_range_iter(F, it):
    """iterator known to point at an element"""
    if it[0] == "c" and it[1] in ("begin", "cbegin"): return not_empty(F, it[2])
    for x in eq_class(F, it) | {it}:
        for f in F:
            a = f[0]
            if a[0] == "==" and f[1] is False and x in a[1:]:
                o = a[2] if a[1] == x else a[1]
                if is_end(F, o) : return True
            if a[0] == "<" and f[1] is True and a[1] == x: return True
    return False


def is_end(F, o):
    return any(x[0] == "c" and x[1] in ("end", "cend") for x in eq_class(F, o) | {o})


def iter_sum(c):
    """container.begin() + offset -> (container, offset expression)"""
    if c[0] == "c" and c[1] in ("begin", "cbegin"): return c[2], ("i", 0)
    if c[0] == "op+" and len(c) == 3:
        b = iter_sum(c[1])
        if b: return b[0], ("+", b[1], c[2])
    return None


def checks(P, R, G, f, init, text):
    ok_first = {}
    def judge(good, rule, x, what):
        where = "%s:%d" % (f["file"], x["l"])
        if good: R.ok(rule, where, f["q"])
        else: R.bad(rule, where, "%s:%s:%s:%s" % (rule, f["file"], f["q"], what), "%s: %s" % (f["q"], what))
    def visit(x, st):
        k = x["k"]
        C = lambda n: G.canon(n, G.env)
        d = P.decls.get(x.get("f"), {})
        text.visit(f, x, st)
        if k == "Bin" and x["op"] in ("/", "%") and x["t"].get("cls") in ("int", "uint") or k == "Asg" and x["op"] in ("/=", "%=") and x["t"].get("cls") in ("int", "uint"):
            den = x["a"][1]
            if den.get("cv"): return
            c = C(den)
            judge(entails(st, lambda F: nonzero(F, c)), "divisor", x, "integer %s by %s, which is not proven nonzero" % (x["op"], render(c, P)))
        elif k == "MCall" and not d.get("repo") and x.get("obj") and x["n"] in ("front", "back", "pop_back", "pop_front") and is_textlike(x["obj"]["t"]):
            o = C(x["obj"]); o = deref(o) if x.get("arrow") else o
            if text.is_text(o): return
            judge(entails(st, lambda F: not_empty(F, o)), "nonempty", x, "%s() of %s, which may be empty" % (x["n"], render(o, P)))
        elif k == "OpCall" and x["op"] == "[]" and is_string(x["a"][0]["t"]):
            o, i = C(x["a"][0]), C(x["a"][1])
            sz = ("c", "size", o)
            lo = entails(st, lambda F: at_most(F, ("i", 0), i)) or x["a"][1]["t"].get("cls") == "uint" and i[0] == "v"
            hi = entails(st, lambda F: at_most(F, ("+", i, ("i", 1)), sz))
            judge(lo and hi, "bounds", x, "subscript %s of %s is not proven in range" % (render(i, P), render(o, P)))
        elif k == "OpCall" and x["op"] in ("-", "+") and len(x["a"]) == 2 and is_iter(x["a"][0]["t"]) and x["a"][1]["t"].get("cls") in ("int", "uint"):
            it, off = C(x["a"][0]), C(x["a"][1])
            if x["op"] == "-":
                good = it[0] == "c" and it[1] in ("end", "cend") and entails(st, lambda F: at_most(F, off, ("c", "size", it[2])) or off == ("i", 1) and not_empty(F, it[2]))
            else:
                b = iter_sum(("op+", it, off))
                if b: good = entails(st, lambda F: at_most(F, b[1], ("c", "size", b[0])) or b[1] == ("+", ("i", 0), ("i", 1)) and not_empty(F, b[0]))
                else: good = off == ("i", 1) and entails(st, lambda F: in_range_iter(F, it))
            judge(good, "bounds", x, "iterator %s %s %s may leave its container" % (render(it, P), x["op"], render(off, P)))
        elif k == "OpCall" and x["op"] in ("++", "*", "->") and is_iter(x["a"][0]["t"]):
            it = C(x["a"][0])
            good = entails(st, lambda F: in_range_iter(F, it))
            judge(good, "bounds", x, "iterator used by %s is not proven to be before the end" % x["op"])
    G.analyse(f, visit, init=init)


class Sentinel:
    """the list of characters being parsed always ends with a null character"""
    def __init__(self, P, R, G):
        self.P, self.R, self.G = P, R, G
        self.field = None
        for r in P.records.values():
            if r.get("q", r["key"]) in ("hexed::Interpreter",) or r["key"] == "hexed::Interpreter":
                for fl in r["fields"]:
                    if fl["t"]["s"].startswith("std::list<char"): self.field = "hexed::Interpreter::" + fl["n"].split("::")[-1]
        R.need(self.field, "character list of the interpreter")
        self.loc = ("m", self.field, ("*", ("this",)))
        G.nonempty_always.append(self.loc)
        # functions that remove a character without knowing that another follows: their callers must know
        self.poppers = {}
        self.counted = {}
        self.fns = [f for f in P.concrete() if any(x["k"] == "Mem" and x["q"] == self.field for x in walk(f.body))]
        self.changed = True
        self.pre_pass()
        self.terminated()

    def is_text(self, o): return o[0] == "m" and o[1] == self.field

    def front_nonnull(self, F, st_loc=None):
        fr = [("c", "front", self.loc), ("*", ("c", "begin", self.loc))]
        for c in fr:
            for f in F:
                a = f[0]
                if f[1] is True and a[0] == "==" and any(self.front_of(x, c) for x in a[1:]):
                    o = a[2] if self.front_of(a[1], c) else a[1]
                    if o[0] == "i" and o[1] != 0: return True
                if f[1] is False and a[0] == "==" and c in a[1:] and ("i", 0) in a[1:]: return True
                if f[1] is True and a[0] == "truth":
                    t = a[1]
                    if t == c: return True
                    if t[0] == "c" and t[1] in ("isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "ispunct", "isprint", "isgraph") and t[-1] == c: return True
                    # an operator table has no entry for the null character
                    if t[0] == "c" and t[1] in ("count", "contains") and len(t) == 4 and t[2][0] == "m" and self.is_one_char(t[3], c): return self.no_null_key(t[2][1])
        return False

    def front_of(self, x, c):
        return x == c or x[0] == "c" and x[1] in ("tolower", "toupper") and x[-1] == c

    def is_one_char(self, t, c):
        return t[0] == "ctor" and len(t) == 4 and t[2] == ("i", 1) and t[3] == c

    def no_null_key(self, field):
        """every key of the table is a literal without null characters"""
        ok = getattr(self, "_keys", {}).get(field)
        if ok is not None: return ok
        good, seen = True, 0
        for f in self.P.by_cls.get("hexed::Interpreter", []):
            if f.get("implicit") or f.get("defaulted"): continue
            for i in f.get("inits", []):
                if i.get("field") and (field.endswith("::" + i["field"]) or i["field"] == field):
                    for x in walk(i["e"]):
                        if x["k"] in ("Ctor", "Init") and x.get("t", {}).get("s", "").replace("const ", "").startswith("std::pair<std::basic_string") and len(x["a"]) == 2:
                            lit = next((y for y in walk(x["a"][0]) if y["k"] == "Str"), None) 
                            if lit is None or not lit["v"] or "\0" in lit["v"]: good = False
                            else: seen += 1
        self._keys = getattr(self, "_keys", {}); self._keys[field] = good and seen > 0
        return self._keys[field]

    def removable(self, st):
        one = ("<", ("i", 1), ("c", "size", self.loc))
        return entails(st, lambda F: (one, True) in F or self.front_nonnull(F) or at_most(F, ("i", 2), ("c", "size", self.loc)))

    def removal(self, x):
        """does this call remove the first character?"""
        d = self.P.decls.get(x.get("f"), {})
        if x["k"] == "MCall" and x.get("obj") and not d.get("repo"):
            o = self.G.canon(x["obj"], self.G.env)
            if not self.is_text(o): return False
            if x["n"] == "pop_front": return True
            if x["n"] == "erase" and len(x["a"]) == 1: return self.G.canon(x["a"][0], self.G.env) == ("c", "begin", o)
        return x["k"] in ("MCall", "Call") and x.get("f") in self.poppers

    def pre_pass(self):
        """functions whose own removals are not justified locally pass the duty on to their callers"""
        G = self.G
        save = G.precise; G.precise = True
        for _ in range(4):
            new = {}
            for f in self.fns:
                if f["key"] in self.poppers or f["kind"] == "ctor": continue
                private = self.is_private(f)
                if not private: continue
                count = [0]; first = [True]
                bad = []
                def visit(x, st):
                    if self.removal(x) and not self.removable(st) and not self.count_loop(f, x, st): bad.append(x)
                G.analyse(f, visit)
                # only a function that removes exactly one character, unconditionally, can pass the duty on
                if len(bad) == 1 and self.straight(f, bad[0]): new[f["key"]] = f
            if not new: break
            self.poppers.update(new)
        G.precise = save

    def is_private(self, f):
        r = next((r for r in self.P.records.values() if r["key"] == f.get("cls") or r["key"] == f.get("clsb")), None)
        for m in (r or {}).get("methods", []):
            if m["f"] == f["key"]: return m.get("access", 0) != 0
        return True

    def straight(self, f, x):
        """x is evaluated at most once: not inside a loop"""
        def inside(n, lp):
            if n is x: return lp
            for c in kids(n):
                r = inside(c, lp or n["k"] in ("For", "While", "Do", "RFor", "Lambda"))
                if r is not None: return r
            return None
        return inside(f.body, False) is False

    def count_loop(self, f, x, st):
        """for (i < t.size()) remove(): safe when t.size() < text.size() on entry"""
        for n in walk(f.body):
            if n["k"] != "For" or not n.get("cond") or not n.get("inc"): continue
            if not any(y is x for y in walk(n["body"])): continue
            if sum(1 for y in walk(n["body"]) if self.removal(y)) != 1 or any(y["k"] in ("For", "While", "Do", "RFor") for y in walk(n["body"])): return False
            muts = [y for y in walk(n["body"]) if y["k"] in ("MCall", "Call", "OpCall", "Asg") and not self.removal(y) and y["k"] != "Decl" and self.field in (self.G.fields_modified(y["f"]) if y.get("f") else ())]
            if muts: return False
            return self.counted.get(id(n)) is True
        return False

    def note_loops(self, f):
        """first evaluation of each counted loop's condition: is the bound smaller than the text?"""

    def visit(self, f, x, st):
        if f not in self.fns: return
        G = self.G
        # entry of a counted loop
        loops = self._loops(f)
        if id(x) in loops:
            n, var, bound = loops[id(x)]
            v = ("v", var)
            if (("==",) + tuple(sorted((v, ("i", 0)), key=repr)), True) in st:
                b = G.canon(bound, G.env)
                self.counted[id(n)] = self.counted.get(id(n), True) and entails(st, lambda F: at_most(F, ("+", b, ("i", 1)), ("c", "size", self.loc)))
        if self.removal(x):
            if f["key"] in self.poppers and not (x.get("f") in self.poppers): return
            if f["key"] in self.poppers: return
            good = self.removable(st) or self.count_loop(f, x, st)
            where = "%s:%d" % (f["file"], x["l"])
            if good: self.R.ok("sentinel", where, f["q"])
            else: self.R.bad("sentinel", where, "sentinel:%s:%s" % (f["q"], self.nth(f, x)), "%s removes a character of the program text where it is not proven that another one follows" % f["q"])

    def nth(self, f, x):
        return [i for i, y in enumerate([y for y in walk(f.body) if self.removal_syntactic(y)]) if y is x][:1]

    def removal_syntactic(self, y):
        return y["k"] in ("MCall", "Call") and (y.get("f") in self.poppers or y.get("n") in ("pop_front", "erase"))

    def _loops(self, f):
        c = self.__dict__.setdefault("_lc", {})
        if f["key"] in c: return c[f["key"]]
        out = {}
        for n in walk(f.body):
            if n["k"] == "For" and n.get("cond") and n["cond"]["k"] == "Bin":
                op, (a, b) = n["cond"]["op"], n["cond"]["a"]
                a, b = strip(a), strip(b)
                if op == ">": a, b, op = b, a, "<"
                inc = n.get("inc")
                if op in ("<", "!=") and a["k"] == "Ref" and inc and inc["k"] == "Un" and inc["op"] == "++" and strip(inc["e"]).get("id") == a["id"]:
                    out[id(n["cond"])] = (n, a["id"], b)
        c[f["key"]] = out
        return out

    # ---- termination of the list: assigned text must be terminated before anything else looks at it ----
    def terminated(self):
        P, R, G = self.P, self.R, self.G
        SHRINK = {"pop_back", "resize", "swap", "remove", "remove_if", "unique", "splice", "merge", "reverse", "sort", "operator="}
        for f in self.fns:
            entry = not self.is_private(f)
            self.term_fn(f, f.body, not entry, f["q"])
            for x in walk(f.body):
                pass
        for f in P.concrete():
            if f in self.fns: continue

    def term_fn(self, f, body, start, name):
        R = self.R
        P = self.P
        field = self.field
        where = lambda x: "%s:%d" % (f["file"], x["l"])
        uses = {g["key"] for g in self.fns}
        def onfield(o):
            o = strip(o) if o else None
            return o is not None and o["k"] == "Mem" and o["q"] == field
        def text_call(x):
            k = x.get("f")
            g = P.funcs.get(k)
            if k in uses and g["key"] != f["key"]: return g
            return None
        def walk_e(n, s):
            if n["k"] == "Lambda":
                e = stm(n["body"], True)
                if e is False: R.bad("sentinel", where(n), "unterminated:%s:closure" % name, "%s: a closure leaves the program text without its terminating null" % name)
                return s
            for c in kids(n): s = walk_e(c, s)
            if n["k"] == "MCall" and onfield(n.get("obj")):
                m = n["n"]
                a = n["a"]
                if m == "assign":
                    if len(a) == 2 and (const(a[0]) or 0) >= 1 and const(a[1]) == 0:
                        R.ok("sentinel", where(n), "assign leaves one null character"); return True
                    return False
                if m == "push_back" or m == "emplace_back":
                    if a and const(a[0]) == 0:
                        R.ok("sentinel", where(n), "terminated"); return True
                    if s: R.bad("sentinel", where(n), "append:%s" % name, "%s appends a character after the terminating null" % name)
                    return s
                if m == "clear": return False
                if m in ("pop_back", "resize", "swap", "remove", "remove_if", "unique", "splice", "merge", "reverse", "sort"):
                    R.bad("sentinel", where(n), "mutate:%s:%s" % (name, m), "%s applies %s to the program text, which may drop the terminating null" % (name, m)); return s
                if m == "erase" and not (len(a) == 1):
                    R.bad("sentinel", where(n), "mutate:%s:%s" % (name, m), "%s erases a range of the program text, which may drop the terminating null" % name); return s
                if m in ("front", "back", "pop_front", "insert", "erase"):
                    if not s: R.bad("sentinel", where(n), "unterminated:%s" % name, "%s uses the program text before it is terminated with a null character" % name)
                    elif m == "insert":
                        p = strip(a[0])
                        at_end = any(y["k"] == "MCall" and y.get("n") in ("end", "cend") for y in walk(a[0]))
                        if at_end: R.bad("sentinel", where(n), "insert-end:%s" % name, "%s inserts characters after the terminating null" % name)
                    return s
                return s
            if n["k"] == "OpCall" and n["op"] == "=" and onfield(n["a"][0]): return False
            g = text_call(n) if n["k"] in ("Call", "MCall") else None
            if g is not None and self.is_private(g):
                if not s: R.bad("sentinel", where(n), "unterminated:%s:%s" % (name, g["n"]), "%s calls %s before the program text is terminated with a null character" % (name, g["q"]))
                return s
            return s
        def stm(n, s):
            if n is None: return s
            k = n["k"]
            if k == "Block":
                for c in n["c"]: s = stm(c, s)
                return s
            if k == "If":
                s = walk_e(n["cond"], s)
                if n.get("then") and any(y["k"] == "Call" and self.G.noreturn(y) for y in walk(n["then"], False)) and not n.get("else"): stm(n["then"], s); return s
                a, b = stm(n["then"], s), stm(n.get("else"), s)
                return a and b
            if k in ("For", "While", "Do", "RFor"):
                for part in ("init", "var", "cond", "range"):
                    if isinstance(n.get(part), dict): s = stm(n[part], s)
                e = stm(n["body"], s)
                if n.get("inc"): e = walk_e(n["inc"], e)
                return s and e
            if k == "Try":
                e = stm(n["body"], s)
                for h in n["handlers"]: e = stm(h["body"], s) and e
                return e
            if k in ("Return", "Decl", "Var", "Switch", "Case", "Default", "OMP", "Throw", "Label"):
                for c in kids(n): s = stm(c, s)
                return s
            if k in ("Break", "Continue", "Null"): return s
            return walk_e(n, s)
        for i in f.get("inits", []):
            if i.get("e"): walk_e(i["e"], True)
        e = stm(body, start)
        if start and e is False and f["kind"] != "ctor": R.bad("sentinel", "%s:%d" % (f["file"], f["l"]), "unterminated-exit:%s" % name, "%s leaves the program text without its terminating null" % name)

    def finish(self):
        # the list must not be reachable from outside
        n = sum(1 for o in self.R.obligations if o[0] == "sentinel")
        self.R.need(n >= 5, "character removals in the interpreter")


def hil_errors(P, R, fs):
    """checks that fail while evaluating a program raise the HIL exception type, so HIL's `except` can handle them"""
    for f in fs:
        if f["file"] not in ("src/Interpreter.cpp", "include/Interpreter.hpp"): continue
        for x in list(walk(f.body)) + [y for i in f.get("inits", []) for y in walk(i["e"])]:
            if x["k"] == "Call" and P.decls.get(x.get("f"), {}).get("q", "").endswith("assert::throw_critical"):
                where = "%s:%d" % (f["file"], x["l"])
                if "Hil_exception" in x["f"] or "Hil_unhandled" in x["f"]: R.ok("hil-error", where, f["q"])
                else: R.bad("hil-error", where, "hil-error:%s" % f["q"], "a failed check in %s raises an exception that HIL's `except` cannot catch" % f["q"])
