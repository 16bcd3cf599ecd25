"""N01: no variable, member or element is read before it has been given a value.

  local      on every path through every function, a local number, flag, pointer, array or matrix is
             assigned before it is read
  object     the members a constructor leaves unset are assigned (by a method call or directly)
             before a method that reads them is called on the local object
  ctor       a member is not used by a member initialiser that runs before its own
  complete   every constructor gives every number, flag, pointer and plain array member a value, for
             classes whose objects outlive a function
  element    an element of a local array that is read is one that some statement writes"""
import re
PROG = None
from hx.ir import walk, kids
from hx.definit import DefInit, Walker, unit_kind, strip, const_of, is_view

TARGS = re.compile(r"<[^<>]*>")


def plain(q):
    while TARGS.search(q): q = TARGS.sub("", q)
    return q


def in_repo(f): return f["file"].startswith(("src/", "include/"))


def run(P, R):
    global PROG
    PROG = P
    R.explanation = ("forward definite-assignment dataflow over every function with a body (all template instantiations up to the configured row size); "
                     "member typestate of local objects through inlined method calls; member-initialiser order; constructor completeness; element coverage of constant-bound array loops")
    R.assumptions += ["loops are taken to execute at least once; an element written stands for its array in the path rules",
                      "a function given a non-const reference or pointer to a variable is taken to assign it",
                      "dynamically sized buffers held as members (Eigen matrices given only extents) are outside the rule"]
    D = DefInit(P)
    nf = nl = no = 0
    for f in P.concrete():
        if not in_repo(f): continue
        nf += 1
        rec = f.get("cls") if f.get("kind") == "ctor" else None
        if rec and rec not in P.records: rec = None
        w = Walker(D, f, rec)
        if rec and not any("deleg" in i for i in f.get("inits", [])): w.ctor(D)
        else:
            if rec: w = Walker(D, f, None)
            w.finish(w.run(f.body, frozenset()))
        nl += len(w.tracked); no += len(w.objs)
        if w.tracked: R.ok("local", f.loc, "%s: %d variables without initialiser" % (plain(f["q"]), len(w.tracked)))
        if w.objs: R.ok("object", f.loc, "%s: %d local objects with unset members" % (plain(f["q"]), len(w.objs)))
        if rec: R.ok("ctor", f.loc, "%s: initialisers use only members that precede them" % plain(f["q"]))
        for u, n in w.viol:
            where = "%s:%s" % (f["file"], n["l"])
            q = plain(f["q"])
            if u[0] == "L":
                v = w.tracked[u]
                R.bad("local", where, "local:%s:%s" % (q, v["n"]), "%s reads `%s` on a path where it has not been given a value" % (q, v["n"]))
            elif u[0] == "O":
                v = w.objs[u[1]][1]
                R.bad("object", where, "object:%s:%s.%s" % (q, v["n"], u[2]), "%s uses `%s` while its member `%s` has no value (read %s)" %
                      (q, v["n"], u[2], "by " + plain(n["via"]) if n.get("via") else "here"))
            else:
                R.bad("ctor", where, "ctor:%s:%s" % (q, u[1]), "%s reads member `%s` before it is initialised" % (q, u[1]))
        elements(R, f)
    complete(P, R, D)
    R.need(nf > 500, "functions of the library")
    R.count("functions", nf); R.count("variables_without_initialiser", nl); R.count("local_objects_with_unset_members", no); R.count("reads_checked", D.tracked_reads)


def stored_records(P):
    """records whose objects may live outside one function: member types, base classes, allocations, containers"""
    out = set()
    texts = []
    for k, r in P.records.items():
        if r.get("dep") : continue
        for x in r["fields"]: texts.append((x["t"]["s"], k))
    for f in P.concrete():
        for n in walk(f.body):
            if n["k"] == "New": texts.append((n["at"]["s"] if isinstance(n.get("at"), dict) else n["t"]["s"], None))
            elif n["k"] == "Call" and n.get("n") in ("make_unique", "make_shared"): texts.append((n["t"]["s"], None))
            elif n["k"] == "Var" and n["t"]["s"].startswith("std::"): texts.append((n["t"]["s"], None))
    alltext = "\n".join(t for t, o in texts)
    for k in P.records:
        if not k.startswith("hexed::") or P.records[k].get("dep"): continue
        if re.search(r"(?<![\w:])" + re.escape(k) + r"(?![\w<]|::)", alltext): out.add(k)
    changed = True
    while changed:
        changed = False
        for k in list(out):
            for b in P.bases(k):
                if b not in out: out.add(b); changed = True
    return out


def owner_sets(P, rec, fld):
    """every constructor of every class holding a member of type rec assigns member.fld"""
    holders = [(k, x["n"]) for k, r in P.records.items() if not r.get("dep") for x in r["fields"] if x["t"].get("rec") == rec and not x["t"].get("ref")]
    if not holders: return False
    for k, m in holders:
        for c in P.concrete():
            if c.get("cls") != k or c.get("kind") != "ctor" or any("deleg" in i for i in c.get("inits", [])): continue
            hit = False
            for n in walk(c.body):
                if n["k"] in ("Asg", "OpCall") and n.get("a"):
                    x = strip(n["a"][0])
                    if x["k"] == "Mem" and x["n"] == fld and strip(x["b"])["k"] == "Mem" and strip(x["b"])["n"] == m: hit = True
            if not hit: return False
    return True


def complete(P, R, D):
    stored = stored_records(P)
    ctors = {}
    for f in P.concrete():
        if f.get("kind") == "ctor" and in_repo(f) and (not f.get("implicit") or not f["params"]): ctors.setdefault(f.get("cls"), []).append(f)
    n = 0
    used = set()
    for f in P.concrete():
        lhs = {id(strip(x["a"][0])) for x in walk(f.body) if x["k"] == "Asg" and x["op"] == "="}
        for x in walk(f.body):
            if x["k"] == "Mem" and id(x) not in lhs: used.add(plain(x.get("q") or ""))
        for i in f.get("inits", []):
            if i.get("e"): used |= {plain(x.get("q") or "") for x in walk(i["e"]) if x["k"] == "Mem"}
    for k, cs in sorted(ctors.items()):
        if k not in P.records or k not in stored: continue
        for c in cs:
            if any("deleg" in i for i in c.get("inits", [])): continue
            late = D.late_after(k, c)
            bad = []
            for x in P.records[k]["fields"]:
                if x["n"] in late and unit_kind(x["t"]) in ("scalar", "carray", "array") and plain(k + "::" + x["n"]) in used and not owner_sets(P, k, x["n"]): bad.append(x["n"])
            n += 1
            for b in bad:
                R.bad("complete", c.loc, "complete:%s:%s" % (plain(k), b), "a constructor of %s leaves `%s` without a value" % (plain(k), b))
            if not bad: R.ok("complete", c.loc, plain(k))
    R.need(n > 40, "constructors")
    R.count("constructors", n)


# ---------------------------------------------------------------- element coverage
LIMIT = 4096


def elements(R, f):
    arrays = {}
    for n in walk(f.body, into_lambda=True):
        if n["k"] == "Var" and not n.get("static"):
            u = unit_kind(n["t"])
            i = strip(n["init"]) if n.get("init") else None
            if u in ("carray", "array", "eigfix") and (i is None or (i["k"] == "Ctor" and not i["a"] and (u == "eigfix" or not i.get("list")))): arrays[n["id"]] = n
    if not arrays: return
    acc = {a: ([], []) for a in arrays}     # writes, reads
    dead = set()
    ok_refs = set()

    def loop_values(n, env):
        """values of the induction variable of `for (int i = a; i < b; ++i)`"""
        d, c, inc = n.get("init"), n.get("cond"), n.get("inc")
        if not d or not c or not inc or d["k"] != "Decl" or len(d["c"]) != 1: return None
        v = d["c"][0]
        if v["k"] != "Var" or v.get("init") is None: return None
        ic = strip(inc)
        if ic["k"] != "Un" or ic["op"] != "++" or strip(ic["e"]).get("id") != v["id"]: return None
        cc = strip(c)
        if cc["k"] != "Bin" or cc["op"] not in ("<", "<=", "!="): return None
        l, r = list(kids(cc))
        if strip(l).get("id") != v["id"]: return None
        for x in walk(n["body"]):
            if x["k"] in ("Asg",) and strip(x["a"][0]).get("id") == v["id"]: return None
            if x["k"] == "Un" and x["op"] in ("++", "--", "&") and strip(x["e"]).get("id") == v["id"]: return None
        lo = ev(v["init"], env); hi = ev(r, env)
        if lo is None or hi is None: return None
        return v["id"], (lo, hi + (cc["op"] == "<="))

    def ev(n, env):
        n = strip(n)
        if n is None: return None
        if "cv" in n: return n["cv"]
        k = n["k"]
        if k in ("Int", "Bool", "Char"): return int(n["v"])
        if k == "Ref": return env.get(n.get("id"))
        if k == "Init" and len(n["a"]) == 1: return ev(n["a"][0], env)
        if k == "Bin":
            a, b = [ev(x, env) for x in kids(n)]
            if a is None or b is None: return None
            o = n["op"]
            if o == "+": return a + b
            if o == "-": return a - b
            if o == "*": return a * b
            if o == "/" and b: return int(a / b)
            if o == "%" and b: return a - b * int(a / b)
        if k == "Un" and n["op"] == "!":
            a = ev(n["e"], env)
            return None if a is None else int(not a)
        return None

    def target(n):
        """(array id, index nodes) designated by an element expression"""
        idx = []
        n = strip(n)
        while True:
            if n["k"] == "Idx": idx.insert(0, n["i"]); n = strip(n["b"])
            elif n["k"] == "OpCall" and n["op"] in ("[]", "()") and n["a"]: idx = list(n["a"][1:]) + idx; n = strip(n["a"][0])
            else: break
        if n["k"] == "Ref" and n.get("id") in arrays: return n["id"], idx, n
        return None, None, None

    def rec(n, loops, store):
        """collect accesses; loops: stack of loop nodes (None: unknown)"""
        k = n["k"]
        if k == "Lambda":
            for x in walk(n["body"]):
                if x["k"] == "Ref" and x.get("id") in arrays: dead.add(x["id"])
            return
        if k == "For":
            if n.get("init"): rec(n["init"], loops, False)
            for f2 in ("cond", "body", "inc"):
                if n.get(f2): rec(n[f2], loops + [n], False)
            return
        if k in ("While", "Do", "RFor"):
            for c in kids(n): rec(c, loops, False)
            return
        if k == "Asg" or (k == "OpCall" and n["op"] in ("=",) and len(n["a"]) == 2):
            l, r = n["a"][0], n["a"][1]
            a, idx, ref = target(l)
            if a is not None:
                if not idx: dead.add(a)
                else:
                    acc[a][0].append((idx, loops))
                    if k == "Asg" and n["op"] != "=": acc[a][1].append((idx, loops, n))
                    for i in idx: rec(i, loops, False)
                rec(r, loops, False)
                return
            for c in kids(n): rec(c, loops, False)
            return
        if k in ("Idx",) or (k == "OpCall" and n["op"] in ("[]", "()")):
            a, idx, ref = target(n)
            if a is not None and idx:
                full = n["t"].get("cls") in ("int", "uint", "float", "bool", "ptr", "enum")
                if not full or store: dead.add(a)
                else:
                    acc[a][1].append((idx, loops, n))
                    for i in idx: rec(i, loops, False)
                return
        if k == "Ref" and n.get("id") in arrays: dead.add(n["id"]); return
        if k in ("Call", "MCall", "OpCall", "Ctor", "New"):
            ps = (PROG.decls.get(n.get("f")) or {}).get("ps") or []
            args = n.get("a") or []
            off = 0
            for i, x in enumerate(args):
                pt = ps[i] if i < len(ps) else None
                byref = pt is None or (pt.get("ref") and not (pt.get("const") or pt["s"].startswith("const ")))
                rec(x, loops, bool(byref))
            if n.get("obj") is not None: rec(n["obj"], loops, True)
            return
        if k == "Un" and n["op"] in ("&", "++", "--"): rec(n["e"], loops, True); return
        if k == "Var" and n.get("init") is not None and n["t"].get("ref"): rec(n["init"], loops, True); return
        if k == "If" and n.get("constexpr"):
            cv = const_of(n["cond"])
            if cv is not None:
                b = n["then"] if cv else n.get("else")
                if b: rec(b, loops, False)
                return
        for c in kids(n): rec(c, loops, store if k in ("Cast", "ICast", "Cond") else False)

    rec(f.body, [], False)
    for a in arrays:
        if a in dead: continue
        w, r = acc[a]
        if not w or not r: continue
        def expand(idx, loops):
            envs = [{}]
            for lp in loops:
                nxt = []
                for e in envs:
                    lv = loop_values(lp, e)
                    if lv is None: nxt.append(e); continue
                    vid, (lo, hi) = lv
                    for x in range(lo, hi): nxt.append({**e, vid: x})
                    if len(nxt) > LIMIT: return None
                envs = nxt
            out = set()
            for e in envs:
                t = tuple(ev(i, e) for i in idx)
                if any(x is None for x in t): return None
                out.add(t)
            return out
        ws, fail = set(), False
        for idx, lp in w:
            x = expand(idx, lp)
            if x is None: fail = True; break
            ws |= x
        if fail: continue
        checked = 0
        for idx, lp, n in r:
            x = expand(idx, lp)
            if x is None: continue
            checked += 1
            miss = sorted(x - ws)
            if miss:
                v = arrays[a]
                R.bad("element", "%s:%s" % (f["file"], n["l"]), "element:%s:%s" % (plain(f["q"]), v["n"]),
                      "%s reads element %s of `%s`, which no statement writes" % (plain(f["q"]), list(miss[0]), v["n"]))
        if checked: R.ok("element", f.loc, "%s: every element of `%s` read is written" % (plain(f["q"]), arrays[a]["n"]))


