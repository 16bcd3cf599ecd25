"""F01: every printf-style formatting operation receives, for each conversion in its format
text, exactly one argument of the type that conversion names, and (where the printed width
is bounded) a large enough buffer.

Rule: find every call that reaches a libc printf-family function, directly or through
wrapper functions that forward a parameter as (part of) the format; evaluate the format
text by constant propagation; parse its conversions; compare with the promoted types of the
arguments actually passed in that instantiation."""
import re
from hx.ir import walk, kids
from hx.strings import StringEval
from hx.guards import Guards
from hx import rx

PRINTF = {"printf": (0, 1, None), "fprintf": (1, 2, None), "sprintf": (1, 2, None), "snprintf": (2, 3, 1),
          "vprintf": None, "asprintf": (1, 2, None), "dprintf": (1, 2, None)}
CONV = re.compile(r"%(?P<flags>[-+ #0']*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+)?)?(?P<len>hh|h|ll|l|j|z|t|L|q)?(?P<c>[a-zA-Z%])")


def promoted(t):
    """(class, bits) of an argument after default promotions."""
    if t.get("cls") == "float": return ("float", 64 if t.get("bits", 64) <= 64 else t["bits"])
    if t.get("cls") in ("bool",): return ("int", 32)
    if t.get("cls") == "enum": return ("int", 32)
    if t.get("cls") in ("int", "uint"):
        b = t.get("bits", 32)
        return ("int" if b < 32 else t["cls"], max(32, b))
    if t.get("cls") == "ptr" or "elem" in t:
        p = t.get("ptr") or t.get("elem")
        s = p["s"].replace("const ", "") if p else "?"
        return ("str", 0) if s in ("char", "signed char", "unsigned char") else ("ptr", 0)
    if t["s"] == "std::nullptr_t" or t["s"] == "nullptr_t": return ("ptr", 0)
    return ("class " + t["s"], 0)


LEN = {None: 32, "hh": 32, "h": 32, "l": 64, "ll": 64, "j": 64, "z": 64, "t": 64, "q": 64}


def parse(fmt):
    """-> (list of (kind, bits, spec), worst-case length or None)."""
    out, length, pos = [], 0, 0
    bounded = True
    for m in re.finditer(r"%", fmt):
        if m.start() < pos: continue
        length += m.start() - pos
        c = CONV.match(fmt, m.start())
        if not c: return None, None
        pos = c.end()
        sp = c.group(0)
        if c.group("c") == "%": length += 1; continue
        w = 0
        if c.group("width") == "*": out.append(("int", 32, sp)); bounded = False
        elif c.group("width"): w = int(c.group("width"))
        pr = None
        if c.group("prec") == "*": out.append(("int", 32, sp)); bounded = False
        elif c.group("prec"): pr = int(c.group("prec"))
        k = c.group("c")
        ln = c.group("len")
        if k in "di": out.append(("int", LEN[ln], sp)); n = max(11 if LEN[ln] == 32 else 20, (pr or 0) + 1)
        elif k in "uoxX": out.append(("uint", LEN[ln], sp)); n = max(12 if LEN[ln] == 32 else 23, (pr or 0) + 1)
        elif k in "eE": out.append(("float", 128 if ln == "L" else 64, sp)); n = 8 + (6 if pr is None else pr)
        elif k in "gG": out.append(("float", 128 if ln == "L" else 64, sp)); n = 8 + (6 if pr is None else pr)
        elif k in "fF": out.append(("float", 128 if ln == "L" else 64, sp)); n = 312 + (6 if pr is None else pr)
        elif k in "aA": out.append(("float", 128 if ln == "L" else 64, sp)); n = 30
        elif k == "c": out.append(("int", 32, sp)); n = 1
        elif k == "s":
            out.append(("str", 0, sp))
            if pr is None: bounded = False
            n = pr or 0
        elif k == "p": out.append(("ptr", 0, sp)); n = 20
        else: return None, None
        length += max(n, w)
    length += len(fmt) - pos
    return out, (length if bounded else None)


def compatible(conv, arg):
    k, b, sp = conv; ak, ab = arg
    if k in ("int", "uint"): return ak in ("int", "uint") and ab == b
    if k == "float": return ak == "float" and ab == b
    if k == "str": return ak == "str"
    if k == "ptr": return ak in ("ptr", "str")
    return False


def run(P, R):
    R.explanation = __doc__
    R.assumptions = ["libc's printf family is the only formatting primitive that trusts a format text", "format text that is a compile-time function of literals is decided exactly; widths built with std::to_string count as digits"]
    fs = P.concrete()
    se = StringEval(P)
    # printf-like functions, grown by wrappers: key -> list of (fmt expression, fn, args types or None, size expression)
    sites = []
    callers = {}
    for f in fs:
        for n in walk(f.body):
            if n["k"] in ("Call", "MCall", "OpCall", "Ctor") and n.get("f"):
                callers.setdefault(n["f"], []).append((f, n))
            if n["k"] == "Call" and n.get("n") in PRINTF and P.decls.get(n["f"], {}).get("variadic") and not P.decls[n["f"]].get("repo"):
                sites.append((f, n))
        for i in f.get("inits", []):
            for n in walk(i["e"]):
                if n["k"] in ("Call", "MCall", "OpCall", "Ctor") and n.get("f"): callers.setdefault(n["f"], []).append((f, n))
        for p in f["params"]:
            for n in walk(p):
                if n["k"] in ("Call", "Ctor") and n.get("f"): callers.setdefault(n["f"], []).append((f, n))
    R.need(sites, "calls of printf-family functions")
    seen_sites = set()

    def judge(f, n, where_f, where_n, fmts, types, size):
        where = "%s:%d" % (where_f["file"], where_n["l"])
        name = where_f["q"]
        for fmt in sorted(fmts):
            ident = (where_f.get("pat") or where_f["key"], where_n["l"], fmt, tuple(t["s"] for t in types))
            if ident in seen_sites: continue
            seen_sites.add(ident)
            convs, length = parse(fmt)
            key = "%s:%s:%r" % (where_f["file"], name, fmt)
            if convs is None:
                R.bad("format-parses", where, key, "malformed format text %r in %s" % (fmt, name)); continue
            got = [promoted(t) for t in types]
            if len(convs) != len(got):
                R.bad("conversion-count", where, key, "%r in %s names %d conversions but %d arguments are passed" % (fmt, name, len(convs), len(got))); continue
            good = True
            for i, (c, a) in enumerate(zip(convs, got)):
                if not compatible(c, a):
                    good = False
                    R.bad("conversion-type", where, key + ":%d" % i, "conversion `%s` in %r (%s) consumes argument %d, which has type `%s`" % (c[2], fmt, name, i + 1, types[i]["s"]))
            if good: R.ok("conversion-type", where, "%r <- (%s)" % (fmt, ", ".join(t["s"] for t in types)))
            if length is not None and isinstance(size, int):
                if length >= size: R.bad("buffer-size", where, key + ":size", "%r in %s can print %d characters into a buffer of %d" % (fmt, name, length, size))
                else: R.ok("buffer-size", where, "%d <= %d" % (length, size - 1))

    def resolve(f, n, expr, env, types, sizeexpr, sizeenv, depth, trail):
        """Evaluate the format in `f`; if it depends on parameters, go on to each caller."""
        val, deps = se.eval(f, expr, env)
        size = se.int_(f, sizeexpr, sizeenv) if sizeexpr is not None else None
        pdeps = [d for d in deps if d[0] == "param"]
        if val is not None and not (sizeexpr is not None and isinstance(size, tuple) and depth == 0):
            return judge(f, n, trail[-1][0], trail[-1][1], val, types, size)
        if depth > 3: return unresolved(trail, f, n, expr, env, types)
        cs = callers.get(f["key"], [])
        if val is None and not pdeps: return unresolved(trail, f, n, expr, env, types)
        if not cs:
            R.count("wrappers_never_called"); return
        for (cf, cn) in cs:
            if cf.get("dep"): continue
            args = list(cn["a"])
            if cn["k"] == "OpCall" and "clsb" in f and f["kind"] == "method": args = args[1:]
            env2 = dict()
            for p, a in zip(f["params"], args):
                env2[p["id"]] = ("expr", cf, a, None)
            resolve2(f, n, expr, env2, types, sizeexpr, depth + 1, [(cf, cn)])

    def resolve2(f, n, expr, env, types, sizeexpr, depth, trail):
        val, deps = se.eval(f, expr, env)
        size = se.int_(f, sizeexpr, env) if sizeexpr is not None else None
        if val is not None: return judge(f, n, trail[-1][0], trail[-1][1], val, types, size)
        cf, cn = trail[-1]
        pd = [d for d in deps if d[0] == "param" and d[2] is cf]
        if pd and depth <= 3 and callers.get(cf["key"]):
            for (gf, gn) in callers[cf["key"]]:
                env2 = {p["id"]: ("expr", gf, a, None) for p, a in zip(cf["params"], gn["a"])}
                env3 = {k: ("expr", v[1], v[2], env2) for k, v in env.items()}
                resolve2(f, n, expr, env3, types, sizeexpr, depth + 1, [(gf, gn)])
            return
        unresolved(trail, f, n, expr, env, types)

    G = Guards(P)

    def plain(f, e, env):
        """the expression a format parameter is bound to, through casts, copies and c_str()"""
        while True:
            if e["k"] in ("Cast", "ICast"): e = e["e"]
            elif e["k"] == "Ctor" and len([x for x in e["a"] if not x.get("def")]) == 1: e = e["a"][0]
            elif e["k"] == "MCall" and e.get("n") in ("c_str", "data") and e.get("obj"): e = e["obj"]
            elif e["k"] == "Ref" and env and e["id"] in env: f, e, env = env[e["id"]][1:4]
            else: return f, e

    def vetted(f, n, expr, env, types, trail):
        """a format checked at run time against a regular expression all of whose matches take exactly these arguments"""
        cf, cn = trail[-1]
        gf, e = plain(f, expr, env)
        if gf is not cf or e["k"] not in ("Ref", "Mem"): return False
        kinds = []
        for t in types:
            a = promoted(t)
            kinds.append({("float", 64): "float64", ("int", 32): "int32", ("uint", 32): "uint32", ("str", 0): "str"}.get(a, "?"))
        res = []
        def visit(x, st):
            if x is not cn: return
            c = G.canon(e, G.env)
            good = False
            for fact in st:
                if len(fact) == 2 and fact[1] is True and fact[0][0] == "truth" and fact[0][1][0] == "c" and fact[0][1][1] == "regex_match" and fact[0][1][3] == c and fact[0][1][4][0] == "s":
                    try: w = rx.included(fact[0][1][4][1], *rx.printf_dfa(kinds))
                    except rx.Unsupported: continue
                    if w is None: good = True
                    else: res.append("the check admits %r" % w)
            res.append(good)
        G.analyse(cf, visit)
        if res and res[-1] is True and all(r is True for r in res):
            R.ok("format-vetted", "%s:%d" % (cf["file"], cn["l"]), "format checked against a regular expression included in the language of formats taking (%s)" % ", ".join(kinds))
            return True
        return False

    def unresolved(trail, f0=None, n0=None, expr=None, env=None, types=()):
        f, n = trail[-1]
        if expr is not None and vetted(f0, n0, expr, env, types, trail): return
        R.bad("format-is-constant", "%s:%d" % (f["file"], n["l"]), "%s:%s:nonconstant" % (f["file"], f["q"]), "the format text of a formatting call in %s is not a compile-time function of literals" % f["q"])

    for f, n in sites:
        fi, ai, si = PRINTF[n["n"]]
        args = n["a"]
        types = [a.get("t0") or a["t"] for a in args[ai:]]
        R.count("printf_family_call_sites")
        resolve(f, n, args[fi], {}, types, args[si] if si is not None else None, {}, 0, [(f, n)])
    # streams: nothing to check
