"""H01: the case interface is complete and consistent.

Facts: the HIL library (include/*.hil) is interpreted abstractly (hx/hil.py), every use of the variable namespace by the C++ code
is collected with the name evaluated as a pattern (hx/nspace.py), and the documented variables are read from the user
documentation (doc/parameters.dox, doc/hil.dox, doc/boundary_conditions.dox).

 U1  every variable that the C++ code demands (a value that must be present, with no test for its presence) is defined
     with a compatible type by the library, the C++ code or - if documented to be required - the user
 U2  every variable that built-in HIL code reads is defined; output expressions only use what the context that evaluates them
     provides, in order
 U3  every documented variable exists with the documented type and default
 U4  documented option names select the documented thing
 U5  every documented input is read by something
 U6  whichever permitted combination of quantities the user specifies, all derived quantities that anything reads are defined
 U7  the documented operators exist with the documented precedence
 U8  no built-in assignment changes the type of a variable
"""
import itertools, os, re
from hx import hil, extract
from hx.hil import N, W, match, kinds, Machine
from hx.ir import walk, kids
from hx.nspace import Collector, strip, struct_statements, struct_names, WRITES, NS

FILES = ["include/builtin.hil", "include/Case.hil", "include/interactive.hil"]
MAIN = ["start", "mesh", "init_state", "run"]
KIND = {"integer": "i", "int": "i", "float": "d", "string": "s", "double": "d"}
WORDS = {"i": "integer", "d": "float", "s": "string", "?": "?"}


def read(rel):
    return open(os.path.join(extract.REPO, rel)).read()


# ---------------------------------------------------------------- documentation
class Doc:
    def __init__(self, name, file, line, text, section):
        self.name, self.file, self.line, self.text, self.section = name, file, line, text, section
        m = re.search(r"__type:__[ ]*(.*?)[ ]*(?:\\n)?[ ]*$", text, re.M)
        self.type = m.group(1).strip() if m else None
        self.heis = bool(self.type and self.type.startswith("Heisenberg"))
        self.macro = bool(self.type and "macro" in self.type)
        w = re.sub(r"Heisenberg|\(macro\)", "", self.type or "").strip()
        self.kind = KIND.get(w)
        m = re.search(r"__default:__[ ]*(.*)$", text, re.M)
        self.default = None
        if m:
            d = re.sub(r"\s*\\n\s*$", "", m.group(1)).strip()
            if not d:
                b = re.search(r"__default:__\s*\n~~~.*?\n(.*?)\n~~~", text, re.S)
                d = b.group(1) if b else None
            self.default = d


def documented(file):
    src = read(file)
    out, section = [], None
    pat = re.compile(r"^\\(section|subsection|subsubsection)[ ]+(\S+)[ ]*(.*)$", re.M)
    ms = list(pat.finditer(src))
    for i, m in enumerate(ms):
        if m.group(1) == "section": section = m.group(2); continue
        if m.group(1) == "subsection": sub = m.group(2); continue
        text = src[m.end():ms[i + 1].start() if i + 1 < len(ms) else len(src)]
        if "__type:__" not in text and section not in ("commands",): continue
        line = src[:m.start()].count("\n") + 1
        names = [x.strip() for x in m.group(3).split(",")] if m.group(3) else []
        if not names or not all(re.fullmatch(r"\w+", x) for x in names): names = [m.group(2)]
        for j, nme in enumerate(names):
            d = Doc(nme, file, line, text, section)
            if d.default and len(names) > 1:
                parts = [p.strip() for p in d.default.split(",")]
                if len(parts) == len(names): d.default = parts[j]
            out.append(d)
    return out


def clean_expr(s):
    s = re.sub(r"\\ref\s+(\w+)(\s+\"[^\"]*\")?", r"\1", s).strip()
    return s.strip("`").strip()


# ---------------------------------------------------------------- presence analysis
class Stop(Exception):
    pass


class Presence:
    """Forward analysis of one function body over the set of defined variables. Conditions on presence are decided, everything else forks."""
    def __init__(self, C, f, tracked, consts):
        self.C, self.P, self.f, self.tracked, self.consts = C, C.P, f, tracked, consts
        self.missing, self.reads = {}, set()
        self.steps = 0

    def norm(self, name):
        return re.sub(r"(\d|%s)+$" % N, "#", name)

    def names(self, f, n, env):
        v, d = self.C.S.eval(f, n, env)
        return {self.norm(x) for x in v} if v and all(W not in x for x in v) else None

    # value: True/False/int/None, or ('opt', {names})
    def ev(self, f, n, env, st):
        n = strip(n)
        if n is None: return None
        k = n["k"]
        if k == "MCall" or k == "Call":
            q = self.P.decls.get(n.get("f"), {}).get("q", "")
            if q == NS + "lookup":
                nm = self.names(f, n["a"][0], env)
                self.reads |= nm or set()
                return ("opt", nm) if nm else None
            if q in (NS + "exists", NS + "exists_recursive"):
                nm = self.names(f, n["a"][0], env)
                return self.present(nm, st)
            if k == "MCall" and n.get("n") in ("has_value", "operator bool"):
                o = self.ev(f, n["obj"], env, st)
                return self.present(o[1], st) if isinstance(o, tuple) else None
            if k == "MCall" and n.get("n") == "value": return self.deref(f, n, self.ev(f, n["obj"], env, st), st)
            ts = self.P.targets(n)
            if len(ts) == 1:
                rets = [r for r in walk(ts[0].body, False) if r["k"] == "Return" and r.get("e")]
                if len(rets) == 1 and ts[0]["key"] != f["key"] and len(list(walk(ts[0].body))) < 60:
                    return self.ev(ts[0], rets[0]["e"], {p["id"]: ("expr", f, a, env) for p, a in zip(ts[0]["params"], n["a"])}, st)
            return None
        if k == "OpCall" and n["op"] == "*" and len(n["a"]) == 1: return self.deref(f, n, self.ev(f, n["a"][0], env, st), st)
        if k == "Ref":
            if env and n["id"] in env and env[n["id"]][0] == "expr":
                e = env[n["id"]]; return self.ev(e[1], e[2], e[3], st)
            decl, wr, _ = self.C.S._fn_index(f)
            d = decl.get(n["id"])
            if d and d.get("init") and not wr.get(n["id"]): return self.ev(f, d["init"], env, st)
            return None
        if k == "Un" and n["op"] == "!":
            v = self.truth(self.ev(f, n["e"], env, st), st)
            return None if v is None else not v
        if k == "Int": return n["v"]
        if k == "Bool": return n["v"]
        if k == "Bin":
            if n["op"] in ("&&", "||"):
                a = self.truth(self.ev(f, n["a"][0], env, st), st)
                if n["op"] == "&&" and a is False: return False
                if n["op"] == "||" and a is True: return True
                b = self.truth(self.ev(f, n["a"][1], env, st), st)
                if n["op"] == "&&": return False if b is False else (None if a is None or b is None else True)
                return True if b is True else (None if a is None or b is None else False)
            a, b = self.ev(f, n["a"][0], env, st), self.ev(f, n["a"][1], env, st)
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                ops = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b}
                if n["op"] in ops: return ops[n["op"]]()
            return None
        return None

    def truth(self, v, st):
        if isinstance(v, tuple): return self.present(v[1], st)
        if isinstance(v, (int, bool)): return bool(v)
        return None

    def present(self, nm, st):
        if not nm: return None
        out = set()
        for x in nm: out.add((x in st) if x in self.tracked else None)
        return out.pop() if len(out) == 1 else None

    def deref(self, f, n, o, st):
        if isinstance(o, tuple):
            for x in o[1] or ():
                if x in self.tracked and x not in st:
                    self.missing.setdefault(x, []).append(("%s:%d" % (f["file"], n["l"]), f["q"], self.flags))
                    raise Stop()
            if o[1] and len(o[1]) == 1 and next(iter(o[1])) in self.consts: return self.consts[next(iter(o[1]))]
        return None

    def scan(self, f, n, env, st, depth):
        """effects of an expression: demands and assignments, in order"""
        k = n["k"]
        if k == "Lambda": return {st}
        if k in ("Bin",) and n["op"] in ("&&", "||"):
            a = self.truth(self.ev(f, n["a"][0], env, st), st)
            out = set()
            for s in self.scan(f, n["a"][0], env, st, depth):
                if not (n["op"] == "&&" and a is False or n["op"] == "||" and a is True):
                    out |= self.scan(f, n["a"][1], env, s, depth)
                if a is None or (n["op"] == "&&") == (a is False): out.add(s)
            return out
        if k == "Cond":
            out = set()
            c = self.truth(self.ev(f, n["cond"], env, st), st)
            for s in self.scan(f, n["cond"], env, st, depth):
                if c is not False: out |= self.scan(f, n["then"], env, s, depth)
                if c is not True: out |= self.scan(f, n["else"], env, s, depth)
            return out
        states = {st}
        for c in kids(n):
            states = set().union(*[self.scan(f, c, env, s, depth) for s in states]) if states else states
        if k in ("MCall", "Call", "OpCall"):
            q = self.P.decls.get(n.get("f"), {}).get("q", "")
            if q.startswith(NS) and n.get("n") in WRITES:
                nm = self.names(f, n["a"][0], env)
                if nm and len(nm) == 1: return {s | nm for s in states}
                pats, _ = self.C.S.eval(f, n["a"][0], env)     # not exactly known: assume the best
                return {s | {x for x in self.tracked if not pats or any(match(p, x.replace("#", N)) for p in pats)} for s in states}
            if k == "MCall" and n.get("n") == "value" or k == "OpCall" and n["op"] == "*" and len(n["a"]) == 1:
                out = set()
                for s in states:
                    try: self.ev(f, n, env, s); out.add(s)
                    except Stop: pass
                return out
            if n.get("f") and k != "OpCall":
                for g in self.P.targets(n)[:1]:
                    if g["key"] in self.C.closure() | self.C.direct and depth < 4 and (g.get("cls") or "").startswith("hexed::Case") or g["key"] in self.C.closure() and depth < 4 and not (g.get("cls") or "").startswith(("hexed::Interpreter", "hexed::Namespace", "hexed::Struct_expr")):
                        e2 = {p["id"]: ("expr", f, a, env) for p, a in zip(g["params"], n["a"])}
                        return set().union(*[self.block(g, g.body, e2, s, depth + 1, True) for s in states]) if states else states
        return states

    def block(self, f, n, env, st, depth, fn=False):
        """states after statement n; returned paths are kept in self.rets"""
        save = getattr(self, "rets", None)
        if fn: self.rets = set()
        out = self.stmt(f, n, env, st, depth)
        if fn:
            out = out | self.rets
            self.rets = save
        return out

    def stmt(self, f, n, env, st, depth):
        self.steps += 1
        if n is None: return {st}
        k = n["k"]
        if k == "Block":
            cur = {st}
            for c in n["a"] if "a" in n else kids(n):
                nxt = set()
                for s in cur: nxt |= self.stmt(f, c, env, s, depth)
                cur = nxt
                if not cur: break
            return cur
        if k == "If":
            states = {st}
            if n.get("init"): states = self.stmt(f, n["init"], env, st, depth)
            out = set()
            for s0 in states:
                for s in self.scan(f, n["cond"], env, s0, depth):
                    try: c = self.truth(self.ev(f, n["cond"], env, s), s)
                    except Stop: continue
                    if c is not False: out |= self.stmt(f, n["then"], env, s, depth)
                    if c is not True: out |= self.stmt(f, n.get("else"), env, s, depth)
            return out
        if k in ("For", "RFor", "While", "Do"):
            cur = {st}
            for part in ("init", "range", "cond", "body"):
                if n.get(part) is not None:
                    nxt = set()
                    for s in cur: nxt |= self.stmt(f, n[part], env, s, depth)
                    cur = nxt
            return cur
        if k == "Return":
            out = self.scan(f, n["e"], env, st, depth) if n.get("e") else {st}
            self.rets |= out
            return set()
        if k in ("Throw", "Break", "Continue"): return set() if k == "Throw" else {st}
        if k in ("Call",) and self.P.decls.get(n.get("f"), {}).get("n") in ("throw_critical", "exit", "abort") or k == "Call" and n.get("n") in ("throw_critical",): return set()
        if k in ("Decl", "Expr"):
            cur = {st}
            for c in kids(n):
                nxt = set()
                for s in cur: nxt |= self.stmt(f, c, env, s, depth)
                cur = nxt
            return cur
        if k == "Switch":
            return self.scan(f, n["cond"], env, st, depth) | self.stmt(f, n["body"], env, st, depth)
        if k in ("Case", "Default", "Label", "OMP", "Try", "Catch", "Attr"):
            cur = {st}
            for c in kids(n):
                nxt = set()
                for s in cur: nxt |= self.stmt(f, c, env, s, depth)
                cur = nxt
            return cur
        return self.scan(f, n, env, st, depth)


# ---------------------------------------------------------------- the check
def run(P, R):
    C = Collector(P).run()
    docs = documented("doc/parameters.dox") + documented("doc/hil.dox")
    R.need(len(docs) > 60, "documented variables")
    T = {f: read(f) for f in FILES}
    consts = {v["q"].split("::")[-1]: v for v in P.vars.values() if v.get("q", "").startswith("hexed::constants::")}
    R.need(len(consts) > 20 and len(C.events) > 100, "constants and namespace accesses")

    def base_machine(evs):
        M = Machine(read_file=lambda p: None)
        M.consts = set()
        for i, c in enumerate(sorted(consts)):
            M.env[c] = frozenset([("d", 1.0 + 0.6180339887498949 * (i + 1))]); M.consts.add(c)
        for e in evs:
            if e.method in WRITES and e.ns == "global" and e.ty in "ids":
                for nm in e.names:
                    if nm.strip(W): M.add(nm, frozenset([e.val if e.val else (e.ty, None)]))
        return M

    mac = [d.name for d in docs if d.macro or (d.section == "commands" and not d.type) or (d.file.endswith("hil.dox") and "acro which" in d.text)]

    def roots(M):
        rs = [lambda f=f: M.run(T[f], f) for f in FILES]
        def macros():
            for nm in mac:
                for k, v in M.env.get(nm, ()):
                    if k == "s" and v: M.run(v, "include/Case.hil", nm)
            for nm, (o, v, file) in sorted(M.first.items()):
                for k, t in v:
                    if k == "s" and t and ("$" in t or "{" in t) and re.search(r"(?<![=!<>])=(?!=)", t) and not struct_like(t): M.run(t, file, nm)
            for vs, r, u, loc, fn in C.execs:
                for t in vs:
                    if t.startswith("$") and W not in t:
                        M.scope = M.local_exec.setdefault(u if r != "global" else None, {}) if r != "global" else None
                        M.run(t, loc.split(":")[0], "exec in " + fn.split("::")[-1])
                        M.scope = None
        return rs + [macros]

    def analyse():
        M = base_machine(C.events)
        M.local_exec = {}
        ok = M.fixpoint(roots(M), 14)
        return M, ok

    M, ok = analyse()
    # second round: names taken from structured expressions are now known
    C.S.text_of = lambda name: [t for k, t in M.lookup(name)[0] if k == "s"] if all(t is not None for k, t in M.lookup(name)[0] if k == "s") else None
    C.run()
    M, ok = analyse()
    if not ok: R.notes.append("HIL fixpoint not reached")
    R.count("HIL texts executed abstractly", len(M.done)); R.count("HIL names defined", len(M.defs)); R.count("namespace accesses in C++", len(C.events))

    # what exists without any of the optional macros
    M0 = base_machine(C.events)
    M0.local_exec = {}
    def main_macros():
        for nm in MAIN:
            for k, v in M0.env.get(nm, ()):
                if k == "s" and v: M0.run(v, "include/Case.hil", nm)
        for vs, r, u, loc, fn in C.execs:
            for t in vs:
                if t.startswith("$") and W not in t and r != "global":
                    M0.scope = M0.local_exec.setdefault(u, {}); M0.run(t, loc.split(":")[0], "exec in " + fn.split("::")[-1]); M0.scope = None
    M0.fixpoint([lambda f=f: M0.run(T[f], f) for f in FILES] + [main_macros], 14)
    R.need(all(any(match(d, x) for d in M.defs) for x in MAIN if x != "init_state"), "macros that run a case")

    ev = C.events
    gdef = {}     # global names defined by C++ -> list of events
    for e in ev:
        if e.method in WRITES and e.ns == "global":
            for nm in e.names:
                if nm.strip(W) or not e.alias and not (e.fn.startswith("hexed::Interpreter") or e.fn.startswith("hexed::Struct_expr")): gdef.setdefault(nm, []).append(e)
    ldef = {}     # unit -> {name: kinds}
    for e in ev:
        if e.method in WRITES and e.ns == "local":
            for nm in e.names:
                if nm.strip(W): ldef.setdefault(e.unit, {}).setdefault(nm, set()).add(e.ty)
    required = {d.name: d for d in docs if d.section == "inputs" and d.default is None and "ot defined until" not in d.text}

    def gkinds(name):
        """kinds of the global definitions that may define name; empty if none"""
        out = set()
        for d, l in M.defs.items():
            if match(d, name):
                for file, macro, ks, selfref in l:
                    if not selfref: out |= ks or {"?"}
        for d, l in gdef.items():
            if match(d, name): out |= {e.ty if W not in d else "?" for e in l if not e.alias}
        if not out:        # only assigned through the names of a structured expression
            for d, l in gdef.items():
                if match(d, name): out |= {"?" for e in l}
        if name in consts: out.add("d")
        return out

    # names the user may provide: tested for presence in C++ before use
    tested = {}
    for e in ev:
        if e.dem == "test" and e.ns == "global":
            for nm in e.names: tested.setdefault(e.unit, set()).add(nm)
    all_tested = set().union(*tested.values()) if tested else set()

    # ---- U1
    sub_defs = {}
    for u, l in ldef.items():
        for nm, ks in l.items(): sub_defs.setdefault(nm, set()).update(ks)
    struct_all = set()
    for nm, v in list(M.env.items()):
        for k, t in v:
            if k == "s" and t and "=" in t: struct_all |= struct_names([t])
    for u, l in M.local_exec.items():
        for nm, v in l.items(): sub_defs.setdefault(nm, set()).update(kinds(v))
    for vs, r, u, loc, fn in C.execs:
        for t in vs:
            m = re.match(r"\s*([A-Za-z_]\w*)\s*=(?!=)", t)
            if m: sub_defs.setdefault(m.group(1), set()).add("?")
    for e in ev:
        if e.method != "lookup" or e.dem not in ("demand", "weak"): continue
        for nm in e.names:
            if not nm.strip(W): continue
            if e.dem == "demand" and any(match(nm, t) for t in tested.get(e.unit, ())) and e.ns == "global": continue
            ks = gkinds(nm)
            if e.ns == "local":
                for d, k2 in sub_defs.items():
                    if match(d, nm): ks |= k2
                if not ks and any(match(nm, s) for s in struct_all): ks = {"?"}
                guarded = any(x.unit == e.unit and x.method.startswith("exists") for x in ev)
                if not ks and guarded: ks = {"?"}
            if not ks and any(match(r, nm) for r in required): ks = {required[r].kind for r in required if match(r, nm)}
            show = nm.replace(N, "<i>").replace(W, "<name>")
            if ks and e.ns == "global" and e.dem == "demand" and not any(match(r, nm) for r in required) and not any(match(d, nm) for d in gdef) and nm not in consts \
               and not any(match(d, nm) and any(not x[3] for x in l) for d, l in M0.defs.items()):
                R.bad("U1", e.loc, "U1o:%s:%s" % (e.fn, show), "%s needs the HIL variable `%s`, which only optional macros define" % (e.fn, show))
                continue
            if not ks:
                R.bad("U1", e.loc, "U1:%s:%s" % (e.fn, show), "%s needs the HIL variable `%s`, which nothing defines" % (e.fn, show))
                continue
            want = {"i": {"i"}, "d": {"i", "d"}, "s": {"s"}}[e.ty] if e.ty in "ids" else None
            if want and "?" not in ks and not (ks & want):
                R.bad("U1", e.loc, "U1t:%s:%s" % (e.fn, show), "%s reads the HIL variable `%s` as %s but it is defined as %s" % (e.fn, show, WORDS[e.ty], "/".join(WORDS[k] for k in sorted(ks))))
            elif want and "?" not in ks and not ks <= want and e.ns == "global" and e.ty == "i":
                R.bad("U1", e.loc, "U1t:%s:%s" % (e.fn, show), "%s reads the HIL variable `%s` as %s but some definitions are %s" % (e.fn, show, WORDS[e.ty], "/".join(WORDS[k] for k in sorted(ks - want))))
            else: R.ok("U1", e.loc, "`%s` demanded by %s is defined" % (show, e.fn))

    # ---- U2: built-in code
    user = set(required) | {t for t in all_tested if t.strip(W)}
    for nm, uses in sorted(M.uses.items()):
        if not nm.strip(W): continue
        where = sorted(uses, key=str)
        ks = gkinds(nm)
        okn = bool(ks) or any(match(nm, u) for u in user)
        if not okn:
            # names local to a sub-interpreter in which the text is executed
            rest = []
            for file, macro, own in where:
                if macro and macro.startswith("exec in"):
                    if any(match(nm, d) for d in sub_defs): continue
                rest.append((file, macro, own))
            where = rest
            okn = not where
        show = nm.replace(N, "<i>").replace(W, "<name>")
        if okn: R.ok("U2", "%s" % where[0][0] if where else "HIL", "`%s` read by built-in code is defined" % show)
        else:
            file, macro, own = where[0]
            R.bad("U2", "%s%s" % (file, " (macro `%s`)" % macro if macro else ""), "U2:%s" % show, "built-in HIL code reads `%s`, which nothing defines" % show)
    for file, macro, msg in M.errors:
        if macro is None: R.bad("U2", file, "U2e:%s:%s" % (file, msg), "HIL file cannot be interpreted: " + msg)

    # ---- U2: structured expressions in their contexts
    ctx_of_class = {}
    for u, l in ldef.items():
        f = P.funcs.get(u)
        if f and f.get("cls"): ctx_of_class.setdefault(f["cls"], {}).update(l)
    R.need(len(ctx_of_class) >= 3, "classes that evaluate structured expressions")
    anyctx = {}
    for l in ldef.values(): anyctx.update(l)

    def read_names(text, local, file, macro):
        """names read when evaluating an expression text"""
        save = M.uses, M.local, M.scope, dict(M.done), dict(M.memo), M.gen
        M.uses, M.local, M.scope, M.gen = {}, {k: frozenset((x if x in "ids" else "d", None) for x in v) for k, v in local.items()}, {}, M.gen + 1
        try:
            M.run(text, file, macro)
            return set(M.uses)
        finally: M.uses, M.local, M.scope, M.done, M.memo, M.gen = save

    checked = 0
    for_ctx = []
    for f, n, a, env, unit, loc in C.structs:
        holders = class_contexts(P, C, f, n, ctx_of_class)
        if not holders: holders = [(None, {})]
        for cls, bind in holders:
            env2 = dict(env or {}); env2.update({k: ("const", v) for k, v in bind.items()})
            names = C.S.var_names(f, a, env2)
            if names is None:
                v, _ = C.S.eval(f, a, env2)
                for t in v or ():
                    if W not in t: for_ctx.append((cls, ldef.get(unit, {}), "constant", t, loc))
                continue
            for nm in names:
                for k, t in M.lookup(nm)[0]:
                    if k == "s" and t is not None: for_ctx.append((cls, ldef.get(unit, {}), nm, t, loc))
    seen = set()
    for cls, unitdefs, nm, t, loc in for_ctx:
        key = (cls, nm, t)
        if key in seen: continue
        seen.add(key)
        local = dict(ctx_of_class.get(cls, {})) if cls else dict(unitdefs)
        have = {}
        for lhs, rhs in struct_statements(t):
            lc = dict(local); lc.update(have)
            for x in sorted(read_names(rhs, lc, "include/Case.hil", nm)):
                if not x.strip(W): continue
                ok2 = any(match(x, d) for d in lc) or bool(gkinds(x)) or any(match(x, u) for u in user)
                ctx = cls.split("::")[-1] if cls else "the namespace"
                if ok2: R.ok("U2", loc, "`%s` available to `%s` in %s" % (x, lhs, ctx)); checked += 1
                else:
                    x2 = x.replace(N, "<i>")
                    R.bad("U2", loc, "U2s:%s:%s:%s" % (nm, lhs, x2), "`%s` of `%s` uses `%s`, which is not defined where %s evaluates it" % (lhs, nm, x2, ctx))
            have[lhs] = {"?"}
    R.count("structured expression reads checked", checked)
    # texts of variables that C++ executes
    exec_read = {}
    nexec = 0
    for vs, r, u, loc, fn in C.execs:
        for t in sorted(vs):
            if W in t or t.startswith("$"): continue
            nexec += 1
            local = ldef.get(u, {}) if r != "global" else {}
            try: names = read_names(t, local, "include/Case.hil", "exec in " + fn.split("::")[-1])
            except hil.HilError as e:
                R.bad("U2", loc, "U2x:%s:%s" % (u.split("::")[-1], t[:40]), "executed text `%s` cannot be interpreted: %s" % (t[:60], e)); continue
            for x in sorted(names):
                if not x.strip(W): continue
                exec_read[x] = loc
                if any(match(x, d) for d in local) or gkinds(x) or any(match(x, v) for v in user): R.ok("U2", loc, "`%s` available to text executed by %s" % (x, u.split("::")[-1]))
                else: R.bad("U2", loc, "U2x:%s:%s" % (u.split("::")[-1], x), "text executed by `%s` uses `%s`, which is not defined there" % (u.split("::")[-1].strip("<>"), x.replace(N, "<i>")))
    R.count("executed texts checked", nexec)
    # expressions that the library offers but does not evaluate itself
    offered = 0
    evaluated = {t for _, _, _, t, _ in for_ctx}
    for nm, (o, v, file) in sorted(M.first.items()):
        for k, t in v:
            if k != "s" or not t or t in evaluated: continue
            if (t, None) in M.done or any(kk[0] == t for kk in M.done): continue
            if not (re.search(r"(?<![=!<>])=(?!=)", t) or "$" in t or t.lstrip().startswith("(")): continue
            offered += 1
            stm = struct_statements(t) if struct_like(t) else [(None, t)]
            for lhs, rhs in stm:
                for x in sorted(read_names(rhs, anyctx, file, nm)):
                    if not x.strip(W): continue
                    ok2 = any(match(x, d) for d in anyctx) or bool(gkinds(x)) or any(match(x, u) for u in user) or any(x == s for s in provided_by_structs(M, nm, x))
                    if ok2: R.ok("U2", file, "`%s` used by `%s` is available" % (x, nm))
                    else:
                        x2 = x.replace(N, "<i>")
                        R.bad("U2", "%s (variable `%s`)" % (file, nm), "U2o:%s:%s" % (nm, x2), "`%s` uses `%s`, which nothing defines" % (nm, x2))
    R.count("offered expressions checked", offered)

    # ---- U3, U5: documentation
    readers = {}
    for e in ev:
        if e.method in ("lookup", "exists", "exists_recursive"):
            for nm in e.names:
                if nm.strip(W): readers.setdefault(nm, e.loc)
    for x, loc in exec_read.items(): readers.setdefault(x, loc)
    for nm, uses in M.uses.items():
        if any(own != nm for _, _, own in uses): readers.setdefault(nm, "HIL")
    for d in docs:
        if d.name in ("hil_constants",): continue
        where = "%s:%d" % (d.file, d.line)
        ks, heis = gkinds(d.name), None
        for p, l in gdef.items():
            if match(p, d.name):
                for e in l:
                    if e.method == "create": heis = e
        if not ks:
            if d.section == "inputs" and d.name in required and any(match(r, d.name) for r in readers):
                rk = {e.ty for e in ev if e.method == "lookup" and any(match(x, d.name) for x in e.names)}
                if d.kind and rk and d.kind not in rk: R.bad("U3", where, "U3t:" + d.name, "`%s` is documented as %s but read as %s" % (d.name, d.type, "/".join(WORDS[k] for k in sorted(rk))))
                else: R.ok("U3", where, "`%s` is a required input" % d.name)
            else: R.bad("U3", where, "U3:" + d.name, "documented variable `%s` does not exist" % d.name)
            continue
        if d.kind and "?" not in ks and ks - {d.kind} and not (d.kind == "d" and d.name not in () and "d" in ks and ks <= {"d", "i"}):
            R.bad("U3", where, "U3t:" + d.name, "`%s` is documented as %s but defined as %s" % (d.name, d.type, "/".join(WORDS[k] for k in sorted(ks))))
        elif d.heis and not (heis and heis.heis): R.bad("U3", where, "U3h:" + d.name, "`%s` is documented as a Heisenberg variable but is an ordinary one" % d.name)
        elif d.type and not d.heis and heis and heis.heis: R.bad("U3", where, "U3h:" + d.name, "`%s` is documented as an ordinary variable but is a Heisenberg variable" % d.name)
        else: R.ok("U3", where, "`%s` exists with type %s" % (d.name, d.type))
        if d.default is not None and d.section == "inputs":
            got = initial(M, gdef, d.name)
            try: want = M_eval(M, clean_expr(d.default)) if not d.default.startswith("{state0") else None
            except hil.HilError as e: want = None
            if got is None or want is None or any(v is None for k, v in got) or any(v is None for k, v in want):
                R.notes.append("default of `%s` is not a constant" % d.name)
            elif same(got, want): R.ok("U3", where, "default of `%s`" % d.name)
            else: R.bad("U3", where, "U3d:" + d.name, "default of `%s` is documented as %s but is %s" % (d.name, clean_expr(d.default)[:60], show_val(got)))
        if d.section == "inputs":
            if any(match(r, d.name) for r in readers): R.ok("U5", where, "`%s` is read" % d.name)
            else: R.bad("U5", where, "U5:" + d.name, "documented input `%s` is not read by anything" % d.name)

    # ---- U4
    options(P, C, R, ev)
    # ---- U6
    presence(P, C, R, ev, gdef, M, readers, docs)
    # ---- U7
    operators(P, R)
    # ---- U8: types
    for nm, (o, v, file) in sorted(M.first.items()):
        k0 = kinds(v)
        if len(k0) != 1: continue
        k0 = next(iter(k0))
        for d, l in M.defs.items():
            if d != nm: continue
            for f2, macro, ks, selfref in l:
                if len(ks) != 1: continue
                k = next(iter(ks))
                if k != k0 and not (k0 == "d" and k == "i"):
                    R.bad("U8", "%s%s" % (f2, " (macro `%s`)" % macro if macro else ""), "U8:%s" % nm, "assignment of %s to `%s`, which is created as %s in %s" % (WORDS[k], nm, WORDS[k0], file))
                else: R.ok("U8", f2, "type of `%s`" % nm)
        for p, l in gdef.items():
            if W not in p and match(p, nm):
                for e in l:
                    if e.ty in "ids" and not e.alias and e.ty != k0 and not (k0 == "d" and e.ty == "i"):
                        R.bad("U8", e.loc, "U8:%s" % nm, "assignment of %s to `%s`, which is created as %s in %s" % (WORDS[e.ty], nm, WORDS[k0], file))
    R.assumptions.append("the user does not redefine variables with other types or unset them; user-provided HIL code is outside the analysis")
    R.assumptions.append("values of HIL variables are analysed flow-insensitively, so a variable that is defined somewhere in built-in code that runs only later counts as defined")
    R.explanation = "abstract interpretation of the HIL library, name-pattern evaluation of all namespace accesses in C++, comparison with the user documentation, and a presence (definite-assignment) analysis of the ways to specify a case"


def struct_like(t):
    if "{" in t: return False
    st = [s for s in re.split(r"[;\n]", t) if s.strip()]
    return bool(st) and all(re.match(r"\s*[A-Za-z_]\w*\s*=(?!=)", s) for s in st)


def provided_by_structs(M, nm, x):
    out = set()
    for n2, v in M.env.items():
        for k, t in v:
            if k == "s" and t and n2 != nm and struct_like(t):
                for lhs, rhs in struct_statements(t):
                    if lhs == x and not re.search(r"\b%s\b" % re.escape(x), rhs): out.add(lhs)
    return out


def class_contexts(P, C, f, ctor, classes):
    """classes that are given the structured expression constructed at `ctor`, with the loop variables fixed by enclosing conditions"""
    var = None
    par = C.par(f)
    x = ctor
    while id(x) in par:
        p = par[id(x)]
        if p["k"] == "Var": var = p["id"]; break
        if p["k"] == "Ctor" and p["t"].get("rec") in classes or p["k"] == "Ctor" and p["t"]["s"] in classes:
            return [(p["t"]["s"], {})]
        if p["k"] in ("Block", "Decl"): break
        x = p
    out = []
    if var is None: return out
    for n in walk(f.body):
        if n["k"] == "Ctor" and n["t"]["s"] in classes and not n.get("copy") and not n.get("move"):
            if any(r["k"] == "Ref" and r["id"] == var for a in n["a"] for r in walk(a)):
                bind, x = {}, n
                while id(x) in par:
                    p = par[id(x)]
                    if p["k"] == "If" and p.get("then") is x:
                        for c in conj(p["cond"]):
                            if c["k"] == "OpCall" and c["op"] == "==":
                                r, s = strip(c["a"][0]), strip(c["a"][1])
                                if r["k"] == "Str": r, s = s, r
                                if r["k"] == "Ref" and s["k"] == "Str": bind[r["id"]] = {s["v"]}
                    x = p
                out.append((n["t"]["s"], bind))
    return out


def conj(c):
    c = strip(c)
    if c["k"] == "Bin" and c["op"] == "&&": return conj(c["a"][0]) + conj(c["a"][1])
    return [c]


def initial(M, gdef, name):
    """value of a variable before the user changes it"""
    out = {e.val for e in gdef.get(name, ()) if e.method == "assign_default"}
    top = any(macro is None for file, macro, ks, selfref in M.defs.get(name, ()))
    if len(out) == 1 and None not in out and not top: return frozenset(out)
    if name in M.first: return M.first[name][1] or None
    vals = frozenset()
    for p, (o, v, f) in M.first.items():
        if match(p, name): vals |= v
    if vals: return vals
    for p, v in M.env.items():
        if not hil.pure(p) and p.strip(W) and match(p, name) and p in M.defs: vals |= v
    if vals: return vals
    if name in M.defs: return M.env.get(name)
    out = set()
    for p, l in gdef.items():
        if p == name:
            for e in l:
                if e.method == "assign_default": out.add(e.val)
    if len(out) == 1 and None not in out: return frozenset(out)
    return None


def M_eval(M, text):
    p = hil.Parser(M, text, "doc", "doc")
    return p.eval(hil.STMT)


def norm(a):
    k, v = a
    if k == "s":
        v = re.sub(r"(?<![\w.])(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)(?![\w.])", lambda m: "%.10g" % float(m.group(1)), v)
        return ("s", re.sub(r"\s*;\s*$", "", re.sub(r"\s*([=;])\s*", r"\1", re.sub(r"\s+", " ", v))).strip())
    return ("n", "inf" if v == float("inf") else "%.10g" % v)


def same(got, want):
    g, w = {norm(a) for a in got}, {norm(a) for a in want}
    return g == w or (w <= g and len(g) <= 2 and len(got) == 2)


def show_val(v):
    return " or ".join(sorted(str(x) if k != "s" else "{" + x[:40] + "}" for k, x in v))


# ---------------------------------------------------------------- options
def options(P, C, R, ev):
    src = read("doc/boundary_conditions.dox")
    secs = re.split(r"^\\section ", src, flags=re.M)[1:]
    bc = []
    for s in secs:
        m = re.search(r"^`\{(\w+)\}`", s, re.M)
        if m: bc.append((s.split("\n")[0].strip(), m.group(1), s))
    R.need(len(bc) >= 4, "documented boundary conditions")
    # string comparisons that select the construction of a boundary condition
    sel = {}
    flow = set(P.subclasses("hexed::Flow_bc")) | {"hexed::Flow_bc"}
    R.need(len(flow) > 4, "boundary condition classes")
    for f in P.concrete():
        for n in walk(f.body):
            if n["k"] in ("If", "Cond"):
                for c in disj(n["cond"]):
                    if c["k"] == "OpCall" and c["op"] == "==":
                        s = next((strip(x)["v"] for x in c["a"] if strip(x)["k"] == "Str"), None)
                        if s is None: continue
                        made = {x["t"]["ptr"]["s"] for x in walk(n["then"]) if x["k"] == "New" and x["t"].get("ptr") and x["t"]["ptr"]["s"] in flow}
                        for x in walk(n["then"]):
                            if x["k"] == "Call" and x.get("n") in ("make_unique", "make_shared"):
                                for fl in flow:
                                    if fl + ">" in x["t"]["s"]: made.add(fl)
                        sel.setdefault(s, []).append((f, n, made))
    # a table of constructors keyed by name also selects
    for title, opt, text in bc:
        hits = sel.get(opt, [])
        made = set().union(*[m for _, _, m in hits]) if hits else set()
        if not hits:
            if any(x["k"] == "Str" and x["v"] == opt for f in P.concrete() for x in walk(f.body)):
                R.notes.append("boundary condition `%s` is selected by something other than a comparison" % opt); continue
            R.bad("U4", "doc/boundary_conditions.dox", "U4:bc:" + opt, "documented boundary condition `%s` is not recognized" % opt)
            continue
        f, n, _ = hits[0]
        where = "%s:%d" % (f["file"], n["l"])
        if made:
            words = lambda s: re.sub(r"[^a-z]", "", s.lower())
            okc = any(words(m.split("::")[-1]) in words(text) or words(m.split("::")[-1]).startswith(words(opt)) for m in made)
            # the class must be described by this section better than by another one
            own = [m.split("::")[-1] for m in made]
            exact = [o for _, o, _ in bc if any(words(o) == words(x) for x in own)]
            if exact and opt not in exact: okc = False
            if okc: R.ok("U4", where, "`%s` constructs %s" % (opt, "/".join(own)))
            else: R.bad("U4", where, "U4:bcc:" + opt, "boundary condition `%s` constructs %s" % (opt, "/".join(own)))
        else: R.ok("U4", where, "`%s` is recognized" % opt)
    # values named in the documentation of parameters
    cmp_all = set(sel)
    for f in P.concrete():
        if not f["file"].startswith(("src/", "include/")): continue
        for n in walk(f.body):
            if n["k"] == "OpCall" and n["op"] in ("==", "!="):
                for x in n["a"]:
                    if strip(x)["k"] == "Str": cmp_all.add(strip(x)["v"])
            if n["k"] == "Init" or n["k"] == "Ctor":
                pass
    strs = {x["v"] for f in P.concrete() for x in walk(f.body) if x["k"] == "Str"}
    dp = read("doc/parameters.dox")
    m = re.search(r"\\subsubsection add_geom(.*?)\\subsubsection", dp, re.S)
    exts = re.findall(r"`\.(\w+)`", m.group(1)) if m else []
    R.need(len(exts) >= 3, "documented geometry formats")
    for e in exts:
        if e in cmp_all or e in strs and e not in sel: R.ok("U4", "doc/parameters.dox", "geometry format .%s is recognized" % e)
        else: R.bad("U4", "doc/parameters.dox", "U4:ext:" + e, "documented geometry format .%s is not recognized" % e)
    m = re.search(r"\\subsubsection thermal_bc(.*?)\\subsubsection", dp, re.S)
    keys = set(re.findall(r"[{;]\s*(\w+) = [a-z]\b", m.group(1))) if m else set()
    R.need(len(keys) >= 3, "documented thermal boundary condition keys")
    option_paths(P, C, R)
    looked = {nm for e in ev if e.ns == "local" and e.method in ("lookup", "exists") for nm in e.names}
    for k in sorted(keys):
        if k in looked: R.ok("U4", "doc/parameters.dox", "thermal_bc key `%s` is read" % k)
        else: R.bad("U4", "doc/parameters.dox", "U4:thermal:" + k, "documented key `%s` of `thermal_bc` is not read by anything" % k)


THERMAL = [("heat_flux",), ("temperature",), ("internal_energy",), ("emissivity",), ("heat_transfer_coef", "temperature"), ("emissivity", "heat_transfer_coef", "temperature")]


def option_paths(P, C, R):
    """every documented combination of thermal boundary condition keys is accepted and all its keys are read"""
    n_paths = 0
    for f in P.concrete():
        if not f["file"].startswith(("src/", "include/")): continue
        for b in walk(f.body):
            if b["k"] != "Block": continue
            ex = [c for c in kids(b) for x in walk(c, False) if C.is_exec(x) and "$thermal_bc" in (C.S.eval(f, x["a"][0], None)[0] or ())]
            if not ex or any(k["k"] == "Block" and any(y is e for y in walk(k) for e in ex) for k in walk(b) if k is not b): continue
            keys = set().union(*THERMAL)
            for K in THERMAL:
                A = Presence(C, f, keys, {}); A.flags = frozenset(K); A.rets = set()
                try: outs = A.block(f, b, None, frozenset(K), 0, True)
                except RecursionError: continue
                n_paths += 1
                where, what = "%s:%d" % (f["file"], b["l"]), "; ".join(k + " = x" for k in K)
                if not outs: R.bad("U4", where, "U4r:" + "+".join(K), "documented thermal boundary condition {%s} is rejected" % what)
                elif set(K) - A.reads: R.bad("U4", where, "U4p:" + "+".join(K), "thermal boundary condition {%s} is accepted but %s is not read" % (what, ", ".join(sorted(set(K) - A.reads))))
                else: R.ok("U4", where, "thermal boundary condition {%s} is accepted and read" % what)
    R.count("thermal boundary condition paths", n_paths)


def disj(c):
    c = strip(c)
    if c["k"] == "Bin" and c["op"] in ("||", "&&"): return disj(c["a"][0]) + disj(c["a"][1])
    return [c]


# ---------------------------------------------------------------- presence
def presence(P, C, R, ev, gdef, M, readers, docs):
    nrm = lambda s: re.sub(r"(\d|%s)+$" % N, "#", s)
    units = {}
    for e in ev:
        if e.ns != "global": continue
        for nm in e.names:
            if W in nm: continue
            u = units.setdefault(e.unit, {"test": set(), "def": set(), "node": e})
            if e.dem == "test" and e.ty in "ds": u["test"].add(nrm(nm))
            if e.method in WRITES: u["def"].add(nrm(nm))
    done = 0
    for unit, u in sorted(units.items()):
        both = u["test"] & u["def"]
        if len(both) < 2 or not unit.endswith(">"): continue
        cmd = unit.split("<")[-1].strip(">")
        # body of the unit
        body = f = None
        for g in P.concrete():
            for n in walk(g.body):
                if n["k"] == "Lambda" and C.unit(g, n["body"] if n.get("body") else n) == unit:
                    f, body = g, n["body"]; break
            if body: break
        if not body: continue
        hil_def = {nrm(d) for d, l in M.defs.items() if any(not x[3] for x in l)}
        choose = sorted(x for x in u["test"] if x not in hil_def)
        # something the user may or may not give; `n_dim` is always required
        req = {nrm(d.name) for d in docs if d.section == "inputs" and d.default is None}
        choose = [x for x in choose if x not in req][:11]
        tracked = set(choose) | u["def"]
        want = set()
        for x in u["def"]:
            for r in readers:
                if W not in r and nrm(r) == x: want.add(x)
        for d in docs:
            if nrm(d.name) in u["def"]: want.add(nrm(d.name))
        for e in ev:
            if e.dem == "demand" and e.unit != unit:
                for nm in e.names:
                    if nrm(nm) in u["def"]: want.add(nrm(nm))
        n_acc = 0
        for bits in itertools.product((0, 1), repeat=len(choose)):
            st0 = frozenset(x for x, b in zip(choose, bits) if b)
            A = Presence(C, f, tracked, {})
            A.flags = st0
            A.rets = set()
            try: outs = A.block(f, body, None, st0, 0, True)
            except RecursionError: outs = set()
            given = ", ".join(sorted(st0)) or "nothing"
            for x, l in A.missing.items():
                loc, fn, _ = l[0]
                R.bad("U6", loc, "U6m:%s:%s" % (cmd, x), "`%s` reads `%s` when it is not defined (the user gives %s)" % (cmd, x, given))
            if outs: n_acc += 1
            for x in sorted(want):
                if any(x not in s for s in outs):
                    R.bad("U6", "%s:%d" % (f["file"], body["l"]), "U6:%s:%s" % (cmd, x), "after `%s`, `%s` is not defined when the user gives %s, although other code reads it" % (cmd, x, given))
            done += 1
        R.count("ways to specify a case analysed", 2 ** len(choose)); R.count("of which accepted", n_acc)
        for x in sorted(want): R.ok("U6", "%s:%d" % (f["file"], body["l"]), "`%s` is defined after `%s` in every accepted specification" % (x, cmd))
        if n_acc == 0: R.bad("U6", "%s:%d" % (f["file"], body["l"]), "U6none:" + cmd, "`%s` accepts no combination of the quantities %s" % (cmd, ", ".join(choose)))
    R.need(done > 0, "a command that accepts alternative specifications")


# ---------------------------------------------------------------- operators
def operators(P, R):
    src = read("doc/hil.dox")
    m = re.search(r"^Syntax \|.*?\n[-|]+\n(.*?)\n\n", src, re.S | re.M)
    R.need(m, "documented operator table")
    doc, syn, prec = {}, None, None
    for row in m.group(1).split("\n"):
        cells = [c.strip() for c in re.split(r"(?<!\\)\|", row)]
        if len(cells) < 5: continue
        if cells[0] != "^": syn = cells[0]
        if cells[1] != "^": prec = int(cells[1])
        op = cells[2].replace("\\|", "|").strip("`").strip()
        doc.setdefault(syn, {})[op] = prec
    code = {}
    for f in P.concrete():
        if f["q"] != "hexed::Interpreter::Interpreter": continue
        for i in f.get("inits", []):
            if i.get("field") not in ("_un_ops", "_bin_ops") or not i.get("e"): continue
            tab = {}
            for n in walk(i["e"], False):
                if n["k"] == "Ctor" and "std::pair<" in n["t"]["s"] and len([a for a in n["a"] if not a.get("def")]) == 2:
                    s = next((x["v"] for x in walk(n["a"][0], False) if x["k"] == "Str"), None)
                    p = next((x["v"] for x in walk(n["a"][1], False) if x["k"] == "Int"), None)
                    if s is not None: tab[s] = (p, n["l"])
            if tab: code[i["field"]] = (tab, f)
    if len(code) < 2:
        R.notes.append("operator tables are not initializer lists; U7 not decided"); return
    for syn, field in (("unary", "_un_ops"), ("binary", "_bin_ops")):
        tab, f = code[field]
        for op, p in doc[syn].items():
            if op in ("$", "="): continue
            key = "U7:%s:%s" % (syn, op)
            if op not in tab: R.bad("U7", f.loc, key, "documented %s operator `%s` does not exist" % (syn, op)); continue
            where = "%s:%d" % (f["file"], tab[op][1])
            if syn == "binary" and tab[op][0] != p: R.bad("U7", where, key, "binary operator `%s` has precedence %s but is documented with %d" % (op, tab[op][0], p))
            else: R.ok("U7", where, "%s operator `%s`" % (syn, op))
        for op in tab:
            if op not in doc[syn]: R.notes.append("operator `%s` is not documented" % op)
