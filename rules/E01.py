"""E01: failures to open, read or write a file are reported.

 open     a file stream that was opened is tested, and the failing branch throws, before it is used
 finish   after the last reading or writing (and, for output, after the data was flushed or the file closed) it is tested again
 status   the result of a library function that returns whether it succeeded decides about a throw
 handler  an exception handler around code that uses files ends with an exception

Typestate over every body that creates a file stream (function, constructor, lambda), followed into functions it passes the stream
to; other file access (HDF5, std::filesystem) throws by itself and needs only not to be caught."""
import re
from hx.ir import walk, kids
from hx.guards import Guards
from hx.definit import strip

STREAM = re.compile(r"^(const )?(std::)?(__cxx11::)?basic_([io]?)fstream<|^(const )?std::([io]?)fstream\b")
TEST = {"good", "is_open", "fail", "bad", "eof", "rdstate", "operator!", "operator bool"}
OPENTEST = TEST - {"eof", "bad"} # failing to open a file sets neither
STATUS = {("V3d_View", "Dump"), ("XSControl_Reader", "ReadFile"), ("XSControl_Reader", "ReadStream"), ("RWStl", "WriteAscii"), ("StlAPI_Writer", "Write")}
ANY = object()
CSTATUS = re.compile(r"^(remove|rename|mkdir|fwrite|fread|fclose|fputs|fprintf_s|symlink|unlink|system|H5[A-Z][A-Za-z]+_?\w*|tec[A-Z]\w+)$")
FILES = re.compile(r"^(H5::|std::filesystem::|std::basic_[io]?fstream|fopen$)")


def rec(t):
    t = t or {}
    while t.get("ptr"): t = t["ptr"]
    return t.get("rec") or t.get("s") or ""


def is_stream(t): return bool(STREAM.match(rec(t)))


class Walker:
    def __init__(self, P, R):
        self.P, self.R, self.G = P, R, Guards(P)
        self.depth = 0
        self.bad = {}
        self.good = 0

    def throws(self, n, void):
        """does this branch end the operation with an exception (or give the caller a result that says so)?"""
        if n is None or self.G.completes(n): return False
        for x in walk(n, False):
            if x["k"] == "Return" and (void or x.get("e") is None): return False
            if x["k"] == "Return":
                t = x["e"].get("t") or {}
                if t.get("cls") not in ("bool", "int", "uint", "enum") and "optional" not in (t.get("s") or ""): return False
            if x["k"] in ("Break", "Continue"): return False
        return True

    # which object does an expression designate?
    def var(self, n):
        n = strip(n)
        while n is not None:
            if n["k"] == "Ref": return n.get("id")
            if n["k"] == "Un" and n.get("op") in ("*", "&"): n = strip(n["e"]); continue
            if n["k"] == "OpCall" and n.get("op") in ("*", "->") and n["a"]: n = strip(n["a"][0]); continue
            if n["k"] == "OpCall" and n.get("op") in ("<<", ">>") and n["a"]: n = strip(n["a"][0]); continue
            if n["k"] == "MCall" and n.get("n") in ("get", "operator*", "operator->") and n.get("obj") is not None: n = strip(n["obj"]); continue
            if n["k"] == "Mem":
                b = strip(n["b"]) if n.get("b") is not None else None
                return ("M", n["n"]) if b is not None and b["k"] == "This" else None
            if n["k"] in ("Cast", "Base", "Conv") and n.get("e") is not None: n = strip(n["e"]); continue
            if n["k"] == "Call" and n.get("n") in ("move", "forward") and n["a"]: n = strip(n["a"][0]); continue
            return None
        return None

    def same(self, n, v):
        if v is ANY: return "stream" in rec(strip(n).get("t")) if n is not None else False
        return self.var(n) == v

    def tested(self, c, v, truth=None, depth=0):
        """tests of the state of stream `v` that make condition `c` evaluate to `truth` whenever the stream has failed
        (truth None: any)"""
        if truth is None: return self.tested(c, v, True) | self.tested(c, v, False)
        if c is None or depth > 20: return set()
        rest = lambda x, t=truth: self.tested(x, v, t, depth + 1)
        k = c["k"]
        if k == "Un" and c.get("op") == "!": return rest(c["e"], not truth)
        if k == "OpCall" and c.get("op") == "!" and c["a"]:
            if self.same(c["a"][0], v): return {"fail"} if truth else set()
            return rest(c["a"][0], not truth)
        if k == "Bin" and c.get("op") in ("&&", "||", "&", "|"):
            x, y = rest(c["a"][0]), rest(c["a"][1])
            return x | y if (c["op"][0] == "|") == truth else x & y
        if k == "Bin" and c.get("op") in ("==", "!="):
            for i in (0, 1):
                o = strip(c["a"][1 - i])
                if o["k"] in ("Int", "Bool", "Lit") and o.get("v") is not None:
                    return rest(c["a"][i], truth == ((c["op"] == "==") == bool(o["v"])))
            return set()
        if k == "Cond":
            return rest(c["then"]) & rest(c["else"]) if isinstance(c.get("then"), dict) else set()
        if k == "MCall":
            n = c.get("n") or ""
            if c.get("obj") is not None and self.same(c["obj"], v):
                if n in ("good", "is_open") or "operator" in n and "bool" in n: return {"good" if n != "is_open" else n} if not truth else set()
                if n == "eof": return {n} if not truth else set()
                if n in ("fail", "bad", "operator!", "rdstate"): return {n} if truth else set()
        if k == "Ref" and c.get("id") in self.alias:
            u, init = self.alias[c["id"]]
            if u == v or v is ANY: return rest(init)
        if k in ("Call", "MCall"):
            # a function of this program that returns the state of a stream
            out = set()
            for i, a in enumerate(c.get("a") or []):
                if not self.same(a, v): continue
                for g in self.P.targets(c):
                    if i < len(g["params"]):
                        r = [self.tested(y["e"], g["params"][i]["id"], truth, depth + 5) for y in walk(g.body, False) if y["k"] == "Return" and y.get("e") is not None]
                        if r: out |= set.intersection(*r)
            return out
        if k in ("Cast", "Conv", "ICast", "Paren", "ReCast", "Base") and isinstance(c.get("e"), dict):
            e = c["e"]
            if (c.get("t") or {}).get("cls") == "bool" and self.same(e, v) and "stream" in rec(strip(e).get("t")): return {"good"} if not truth else set()
            return rest(e)
        return set()

    # ---- typestate of one stream variable
    def body(self, f, body, v, out, state, void, what):
        """states in which `body` ends; `v`: id, `out`: whether the stream is written"""
        self.v, self.outp, self.void, self.what, self.f = v, out, void, what, f
        self.rets, self.brk, self.cont = set(), [], []
        end = self.stmt(body, frozenset(state))
        return self.rets | (end or set())

    def viol(self, kind, n, msg):
        self.bad.setdefault((kind, self.what), (self.f, n.get("l"), msg))

    def use(self, n, s):
        if "fresh" in s: self.viol("open", n, "%s is used before it was tested whether it could be opened" % self.what)
        return frozenset("auto" if x == "auto" else "dirty" for x in s)

    def check(self, s, kinds):
        m = set()
        for x in s:
            if x == "fresh" and kinds & OPENTEST: m.add("open")
            elif x == "dirty" and not self.outp and kinds - {"is_open"}: m.add("clean")
            elif x == "flushed" and kinds - {"is_open"}: m.add("clean")
            else: m.add(x)
        return frozenset(m)

    def expr(self, n, s):
        if n is None or s is None: return s
        k = n["k"]
        if k == "Lambda":
            if any(x["k"] == "Ref" and x.get("id") == self.v for x in walk(n)): s = self.use(n, s)
            return s
        if k in ("If", "Block", "For", "While", "Do", "ForRange", "Return", "Throw", "Try", "Decl", "Switch"): return self.stmt(n, s)
        for c in kids(n): s = self.expr(c, s)
        if s is None: return s
        if k in ("Call", "MCall") and self.G.noreturn(n): return None
        if k == "MCall" and n.get("obj") is not None and self.var(n["obj"]) == self.v:
            m = n.get("n")
            if m in ("close", "flush"): return frozenset("flushed" if x == "dirty" and self.outp else x for x in s)
            if m == "exceptions" and n.get("a"): return frozenset(["auto"])
            if m == "open": return frozenset(["fresh"])
            if m in TEST or "operator" in (m or "") or m in ("rdbuf", "setf", "precision", "width", "fill", "gcount", "get_allocator", "tellg", "tellp", "clear", "imbue", "get") and not n.get("a") and m != "get": return s
            return self.use(n, s)
        if k == "OpCall" and n.get("op") in ("<<", ">>") and n["a"] and self.var(n["a"][0]) == self.v and "stream" in rec(n["a"][0].get("t")):
            s = self.use(n, s)
            b = strip(n["a"][1]) if len(n["a"]) > 1 else None
            if b is not None and b.get("n") in ("flush", "endl"): s = frozenset("flushed" if x == "dirty" and self.outp else x for x in s)
            return s
        if k in ("Call", "MCall", "Ctor", "OpCall"):
            for i, a in enumerate(n.get("a") or []):
                if strip(a)["k"] in ("Call", "OpCall", "MCall"): continue # handled inside
                if self.var(a) != self.v or "stream" not in rec(strip(a).get("t")): continue
                if k == "OpCall" and n.get("op") == "!": continue
                if k == "Ctor" and is_stream(n.get("t")): continue # moved
                g = self.P.targets(n)
                j = i
                if not g: s = self.use(n, s); continue
                r = set()
                for h in g:
                    if j >= len(h["params"]) or self.depth > 3: r |= self.use(n, s); continue
                    w = Walker(self.P, self.R)
                    w.depth, w.bad, w.alias = self.depth + 1, self.bad, aliases(h.body, w)
                    r |= w.body(h, h.body, h["params"][j]["id"], self.outp, s, is_void(h), self.what)
                s = frozenset(r) or None
                if s is None: return None
        return s

    def origin(self, v):
        """state of a stream variable after its declaration"""
        i = strip(v["init"]) if v.get("init") is not None else None
        while i is not None and i["k"] == "Ctor" and is_stream(i.get("t")) and len(i.get("a") or []) == 1 and is_stream(strip(i["a"][0]).get("t")): i = strip(i["a"][0])
        if i is not None and i["k"] in ("Call", "MCall") and self.depth < 3:
            r = frozenset()
            for g in self.P.targets(i):
                for x in walk(g.body, False):
                    for u in x["c"] if x["k"] == "Decl" else []:
                        if isinstance(u, dict) and u.get("id") and is_stream(u.get("t")):
                            w = Walker(self.P, self.R)
                            w.depth, w.alias = self.depth + 1, aliases(g.body, w)
                            w.body(g, g.body, u["id"], self.outp, ["closed"], False, self.what)
                            r |= w.returned
            if r: return r
        return frozenset(["fresh"] if opened(v) else ["closed"])

    def join(self, *xs):
        xs = [x for x in xs if x is not None]
        return frozenset().union(*xs) if xs else None

    def loop(self, step, s):
        for _ in range(4):
            t = self.join(s, step(s))
            if t == s: break
            s = t
        return s

    def stmt(self, n, s):
        if n is None or s is None: return s
        k = n["k"]
        if k == "Block":
            for c in n["c"]: s = self.stmt(c, s)
            return s
        if k == "Decl":
            for v in n["c"]:
                if isinstance(v, dict) and "init" in v: s = self.expr(v.get("init"), s)
                if isinstance(v, dict) and v.get("id") == self.v: s = self.origin(v)
            return s
        if k == "If":
            if n.get("init") is not None: s = self.stmt(n["init"], s)
            s = self.expr(n["cond"], s)
            if s is None: return None
            t = self.tested(n["cond"], self.v)
            if t:
                for a, b in (("then", "else"), ("else", "then")):
                    t = self.tested(n["cond"], self.v, a == "then")
                    if t and self.throws(n.get(a), self.void):
                        self.good += 1
                        self.stmt(n.get(a), None)
                        return self.stmt(n.get(b), self.check(s, t)) if n.get(b) is not None else self.check(s, t)
                # work inside `if (good)` and a throw after it, or in neither
                a, b = self.stmt(n.get("then"), s), self.stmt(n.get("else"), s)
                return self.join(a, b)
            return self.join(self.stmt(n.get("then"), s), self.stmt(n["else"], s) if n.get("else") is not None else s)
        if k in ("While", "For", "Do", "ForRange"):
            sb, sc, self.brk, self.cont = self.brk, self.cont, [], []
            s = self.stmt(n.get("init"), s) if isinstance(n.get("init"), dict) else s
            s = self.expr(n.get("range"), s)
            if k != "Do": s = self.expr(n.get("cond"), s)
            def step(x):
                x = self.stmt(n.get("body"), x)
                x = self.join(x, *self.cont)
                x = self.expr(n.get("inc"), x)
                return self.expr(n.get("cond"), x)
            s = self.loop(step, s) if k != "Do" else step(s)
            s = self.join(s, *self.brk)
            self.brk, self.cont = sb, sc
            return s
        if k == "Break": self.brk.append(s); return None
        if k == "Continue": self.cont.append(s); return None
        if k == "Return":
            e = n.get("e")
            while e is not None and strip(e)["k"] == "Ctor" and is_stream(strip(e).get("t")) and len(strip(e).get("a") or []) == 1: e = strip(e)["a"][0]
            if e is not None and self.var(e) == self.v: self.returned |= s; return None
            s = self.expr(e, s)
            if s is not None: self.rets |= s
            return None
        if k == "Throw": return None
        if k == "Try": return self.join(self.stmt(n["body"], s), *[self.stmt(h.get("body"), s) for h in n["handlers"]])
        if k == "OMP": return self.stmt(n.get("body"), s)
        if k in ("Switch", "Case", "Default"):
            s = self.expr(n.get("cond"), s)
            sb, self.brk = self.brk, []
            t = self.join(s, self.stmt(n.get("body"), s), *self.brk)
            self.brk = sb
            return t
        return self.expr(n, s)
    returned = frozenset()
    alias = {}


def is_void(f):
    t = f.get("ret") or f.get("t") or {}
    return "void" in (t.get("s") or "") or not any(x["k"] == "Return" and x.get("e") is not None for x in walk(f.body, False))


def opened(v):
    i = strip(v["init"]) if v.get("init") is not None else None
    if i is None: return False
    if i["k"] == "Ctor": return any(not a.get("def") for a in i.get("a", []))
    return True


def aliases(body, w):
    """variables that hold the state of a stream: id -> (stream, expression)"""
    out = {}
    w.alias = out
    for x in walk(body, False):
        if x["k"] == "Decl":
            for v in x["c"]:
                if isinstance(v, dict) and v.get("init") is not None and (v.get("t") or {}).get("cls") in ("bool", "int", "uint", "enum"):
                    for y in walk(v["init"], False):
                        if y["k"] in ("MCall", "OpCall", "Call", "Cast", "Conv"):
                            for o in ([y.get("obj")] if y.get("obj") is not None else []) + (y.get("a") or []) + ([y["e"]] if isinstance(y.get("e"), dict) else []):
                                u = w.var(o)
                                if u is not None and w.tested(v["init"], u): out[v["id"]] = (u, v["init"])
    return out


def bodies(f):
    """the bodies that run on their own: the function and the lambdas in it"""
    roots = [("", f.body)] + [("", i.get("e")) for i in f.get("inits") or []]
    for nm, b in roots:
        if b is None: continue
        yield b, b is f.body and is_void(f)
        for x in walk(b):
            if x["k"] == "Lambda" and x.get("body") is not None:
                yield x["body"], not any(y["k"] == "Return" and y.get("e") is not None for y in walk(x["body"], False))


def own(body):
    """nodes of a body without those of the lambdas in it"""
    return walk(body, False)


def name_of(f): return f.q


def run(P, R):
    n_stream = n_status = n_try = 0
    touch = {}
    def touches(key, seen):
        """may this function use files?"""
        if key in touch: return touch[key]
        if key in seen: return False
        seen.add(key)
        d = P.decls.get(key, {})
        if FILES.match(d.get("q") or ""): touch[key] = True; return True
        g = P.funcs.get(key)
        r = False
        for k in [key] + (P.overriders(key) if d.get("virt") else []):
            g = P.funcs.get(k)
            if g is None or not g.body: continue
            if any(x.get("f") and touches(x["f"], seen) for b in [g.body] + [i.get("e") for i in g.get("inits") or []] if b is not None for x in walk(b)): r = True; break
        touch[key] = r
        return r
    done = set()
    for f in P.concrete():
        if f.body is None or (f["file"], f["l"]) in done: continue
        done.add((f["file"], f["l"]))
        seen_bodies = set()
        for body, void in bodies(f):
            if body.get("k") is None or id(body) in seen_bodies: continue
            seen_bodies.add(id(body))
            nodes = list(own(body))
            # streams that are local variables
            for x in nodes:
                if x["k"] != "Decl": continue
                for v in x["c"]:
                    if not (isinstance(v, dict) and v.get("id") and is_stream(v.get("t")) and not (v["t"].get("ptr") or v["t"].get("ref"))): continue
                    n_stream += 1
                    w = Walker(P, R)
                    w.alias = aliases(body, w)
                    out = "ofstream" in rec(v["t"])
                    where = "%s:%s" % (f["file"], v.get("l") or x["l"])
                    end = w.body(f, body, v["id"], out, ["closed"], void, "the file stream `%s` of %s" % (v["n"], f.q))
                    for (kind, what), (g, l, msg) in w.bad.items(): R.bad(kind, "%s:%s" % (g["file"], l), "%s:%s:%s" % (kind, f.q, v["n"]), msg)
                    if not any(k == "open" for k, _ in w.bad): R.ok("open", where, "`%s` of %s" % (v["n"], f.q))
                    if end & {"dirty", "flushed"}:
                        R.bad("finish", where, "finish:%s:%s" % (f.q, v["n"]), "the file stream `%s` of %s is not tested after %s: errors go unnoticed" % (v["n"], f.q, "writing and flushing it" if out else "reading it"))
                    else: R.ok("finish", where, "`%s` of %s" % (v["n"], f.q))
            # streams on the heap or members
            for i, x in enumerate(nodes):
                made = x["k"] == "New" and is_stream(x.get("at") if isinstance(x.get("at"), dict) else x.get("t")) and x.get("init") is not None
                made = made or x["k"] == "Call" and x.get("n") in ("make_unique", "make_shared") and "fstream" in rec(x.get("t")) and x.get("a")
                made = made or x["k"] == "MCall" and x.get("n") == "open" and x.get("obj") is not None and is_stream(x["obj"].get("t")) and (strip(x["obj"])["k"] == "Mem")
                if not made: continue
                n_stream += 1
                w = Walker(P, R)
                w.alias = {}
                ok = False
                w.alias = aliases(body, w)
                for y in nodes[i + 1:]:
                    if y["k"] == "If" and guarded(w, y, ANY, void): ok = True
                    if y["k"] in ("Call", "MCall"):
                        for i_arg, a in enumerate(y.get("a") or []):
                            if "stream" not in rec(strip(a).get("t")): continue
                            for g in P.targets(y):
                                if i_arg >= len(g["params"]): continue
                                w2 = Walker(P, R)
                                w2.alias = aliases(g.body, w2)
                                ok = ok or any(z["k"] == "If" and guarded(w2, z, g["params"][i_arg]["id"], True) for z in walk(g.body, False))
                    if y["k"] == "MCall" and y.get("n") == "exceptions" and y.get("a"): ok = True
                where = "%s:%s" % (f["file"], x["l"])
                if ok: R.ok("open", where, "stream created in %s" % f.q)
                else: R.bad("open", where, "open:%s:member" % f.q, "a file stream is opened in %s without a test whether that succeeded" % f.q)
            # results of library functions
            for x in nodes:
                nm = None
                if x["k"] == "MCall":
                    d = P.decls.get(x.get("f"), {})
                    parts = (d.get("q") or "").split("::")
                    if len(parts) > 1 and (parts[-2], parts[-1]) in STATUS: nm = d["q"]
                elif x["k"] == "Call":
                    d = P.decls.get(x.get("f"), {})
                    q = d.get("q") or x.get("n") or ""
                    if CSTATUS.match(q): nm = q
                    elif q.startswith("std::filesystem::") and any("error_code" in rec(a.get("t")) for a in x.get("a") or []):
                        n_status += 1
                        e = [strip(a).get("id") for a in x["a"] if "error_code" in rec(a.get("t"))]
                        w = Walker(P, R)
                        ok = any(y["k"] == "If" and (w.throws(y.get("then"), void) or w.throws(y.get("else"), void)) and any(z.get("id") in e for z in walk(y["cond"], False)) for y in nodes)
                        if ok: R.ok("status", "%s:%s" % (f["file"], x["l"]), "%s in %s" % (q, f.q))
                        else: R.bad("status", "%s:%s" % (f["file"], x["l"]), "status:%s:%s" % (f.q, q), "%s ignores the error code of %s" % (f.q, q))
                        continue
                if nm is None: continue
                n_status += 1
                w = Walker(P, R)
                use = decides(w, body, nodes, x, void)
                if use: R.ok("status", "%s:%s" % (f["file"], x["l"]), "%s in %s" % (nm, f.q))
                else: R.bad("status", "%s:%s" % (f["file"], x["l"]), "status:%s:%s" % (f.q, nm), "%s ignores whether %s succeeded" % (f.q, nm))
            # handlers
            for x in nodes:
                if x["k"] != "Try": continue
                if not any(y.get("f") and touches(y["f"], set()) for y in walk(x["body"])): continue
                for h in x["handlers"]:
                    n_try += 1
                    thr = h.get("body") is not None and (Walker(P, R).throws(h["body"], void) or conditional(P, h["body"]))
                    where = "%s:%s" % (f["file"], h.get("l") or x["l"])
                    if thr: R.ok("handler", where, "handler in %s" % f.q)
                    else: R.bad("handler", where, "handler:%s" % f.q, "a handler in %s catches exceptions of code that uses files and continues" % f.q)
    R.need(n_stream, "file streams")
    R.count("file streams", n_stream)
    R.count("results of library functions", n_status)
    R.count("exception handlers around file access", n_try)
    R.explanation = __doc__
    R.assumptions += ["HDF5, XDMF and std::filesystem report errors as exceptions (their default)", "what is printed to the log after it was opened is not tested"]


def guarded(w, n, v, void):
    return any(w.tested(n["cond"], v, t) & OPENTEST and w.throws(n.get(br), void) for br, t in (("then", True), ("else", False)))


def conditional(P, body):
    """a handler that passes the exception on in some cases and does not return early"""
    nodes = list(walk(body, False))
    if any(y["k"] == "Return" for y in nodes): return False
    return any(y["k"] == "Throw" or y["k"] in ("Call", "MCall") and Guards(P).noreturn(y) for y in nodes)


def decides(w, body, nodes, call, void):
    """does the result of the call decide about a throw, or is it returned or passed on?"""
    ids = set()
    has = lambda n: any(z is call or z["k"] == "Ref" and z.get("id") in ids for z in walk(n, False))
    size = -1
    while size < len(ids):
        size = len(ids)
        for y in nodes:
            if y["k"] == "Decl":
                for v in y["c"]:
                    if isinstance(v, dict) and v.get("init") is not None and has(v["init"]): ids.add(v["id"])
            if y["k"] == "Asg" and has(y["a"][1]):
                i = strip(y["a"][0])
                if i.get("id"): ids.add(i["id"])
    hit = lambda n: any(z is call or z["k"] == "Ref" and z.get("id") in ids for z in walk(n, False))
    if any(z["k"] == "Ref" and re.search(r"IFSelect_Ret(?!Done)", z.get("n") or "") for y in nodes if y["k"] == "Bin" and hit(y) for z in walk(y, False)): return False # other failures go unnoticed
    for y in nodes:
        if y["k"] == "Switch" and hit(y["cond"]) and any(z["k"] == "Throw" or z["k"] in ("Call", "MCall") and w.G.noreturn(z) for z in walk(y["body"], False)): return True
        if y["k"] == "If" and hit(y["cond"]) and (w.throws(y.get("then"), void) or w.throws(y.get("else"), void)): return True
        if y["k"] == "Return" and y.get("e") is not None and hit(y["e"]): return True
        if y["k"] in ("Call", "MCall", "Ctor", "OpCall") and y is not call and any(hit(a) for a in y.get("a") or []):
            if y["k"] == "OpCall" and y.get("op") in ("==", "!=", "!"): continue
            return True
    return False
