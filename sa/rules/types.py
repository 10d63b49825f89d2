"""Statements about types: equality (P22), programs that must not compile (P20)."""
import re
from ..fhe import *

PERMISSION = {(POLY, ALLOWF)}


class Split(FhePol):
    split = 64

    def inline(self, fn, ctx):
        # helpers of a comparison, not the comparisons of nested types
        return not (fn.sname in ("eq", "ne") and ctx)


def stable(f):
    return re.sub(r"\{closure#\d+\}", "{closure}", f.name)


def strip_ref(e):
    while e.op == "call" and e.d[0].rsplit("::", 1)[-1] in ("deref", "as_ref", "clone", "as_slice", "iter", "borrow") and len(e.a) == 1:
        e = e.a[0]
    return e


def equalities(ip, val, facts):
    """pairs known equal when the comparison returns true on this path, None when it cannot"""
    r = []
    work = [(val, True)] + list(facts.items())
    while work:
        c, v = work.pop()
        c = strip_ref(c)
        if c is TRUE or c is FALSE:
            if (c is TRUE) is not v:
                return None
            continue
        if c.op == "not":
            work.append((c.a[0], not v))
        elif c.op == "bin" and c.d in ("BitAnd", "And") and v is True:
            work += [(c.a[0], True), (c.a[1], True)]
        elif c.op == "bin" and c.d in ("BitOr", "Or") and v is False:
            work += [(c.a[0], False), (c.a[1], False)]
        elif c.op == "bin" and (c.d == "Eq" and v is True or c.d == "Ne" and v is False):
            r += split_eq(c.a[0], c.a[1])
        elif c.op == "bin" and c.d == "BitXor" and v is False:
            r += split_eq(c.a[0], c.a[1])
        elif c.op == "call" and len(c.a) == 2 and (c.d[0].rsplit("::", 1)[-1] in ("eq", "ptr_eq") and v is True or c.d[0].rsplit("::", 1)[-1] == "ne" and v is False):
            r += split_eq(c.a[0], c.a[1])
    return r


def split_eq(a, b):
    a, b = strip_ref(a), strip_ref(b)
    if a.op == b.op and a.op in ("tup", "arr") and len(a.a) == len(b.a):
        return [q for x, y in zip(a.a, b.a) for q in split_eq(x, y)]
    if a.op == b.op == "struct" and a.d[:2] == b.d[:2] and len(a.a) == len(b.a):
        return [q for x, y in zip(a.a, b.a) for q in split_eq(x, y)]
    for x, y in ((a, b), (b, a)):
        if x.op == "bin" and x.d == "BitXor" and y.op == "const" and y.d == 0:
            return split_eq(*x.a)
    return [(a, b)]


def rebase(e, old, new):
    return subst(e, {old: new})


def compared(P, eqs, a, b, path, t, depth=0):
    """the part at path of the two objects is known equal"""
    x, y = a, b
    for c in path:
        x, y = proj(x, c), proj(y, c)
    for p, q in eqs:
        if p is x and q is y or p is y and q is x:
            return True
    ty = P.ty(P.peel(t))
    if ty.get("p") == "core::option::Option" and depth < 4:
        return compared(P, eqs, a, b, path + (("v", "Some", "0"),), targs(ty)[0], depth + 1)
    ad = P.adts.get(ty.get("p"))
    if ad is None or depth > 4:
        return False
    if ad["kind"] == "struct" and ad["vs"][0]["f"]:
        return all(compared(P, eqs, a, b, path + (("f", f["n"]),), f["t"], depth + 1) for f in ad["vs"][0]["f"])
    return False


def informative(P, t):
    ty = P.ty(P.peel(t))
    if ty["k"] == "adt" and ty["p"].endswith("PhantomData"):
        return False
    if ty["k"] == "tuple" and not ty.get("e"):
        return False
    ad = P.adts.get(ty.get("p"))
    return not (ad is not None and ad["kind"] == "struct" and not ad["vs"][0]["f"])


def elementwise(F, o, a, b):
    """sequences compared by a loop over pairs of elements: equal when the lengths are and every pair was compared"""
    r = []
    eqs = equalities(F.ip, TRUE, o.facts) or []
    for p, q in eqs:
        for x, y in ((p, q), (q, p)):
            if x.op == "idx" and y.op == "idx" and x.a[1] is y.a[1]:
                s, t = x.a[0], y.a[0]
                i = x.a[1]
                site = i.d if i.op in ("pos", "each") else None
                if site is None or not exhausted(o.facts, site):
                    continue
                ln = lambda z: {mk("len", None, (z,)), X.call("len", None, (z,))}
                if any({m for m in (u, v)} & ln(s) and {m for m in (u, v)} & ln(t) for u, v in eqs):
                    r.append((s, t))
    return r


def p22(R, tier):
    R.rule("compared", "on every path of a comparison that may answer 'equal', every field of the two objects is known equal; exempt are the permission flag, fields without content, an optional annotation absent on one side, and caches every constructor computes from compared fields alone")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        n = 0
        for im in P.impls:
            if im.get("trait") != "core::cmp::PartialEq" or im["crate"] not in ("fhe_math", "fhe", "fhe_traits", "fhe_util"):
                continue
            T = P.ty(im["self"]).get("p")
            if T is None or "::proto::" in T or T not in P.adts or P.adts[T]["kind"] != "struct" or "::errors::" in T:
                continue
            fs = [P.fns[h] for nm, h in im["items"] if nm == "eq" and h in P.fns]
            if not fs:
                continue
            n += 1
            f = fs[0]
            R.fn(f)
            R.count("types")
            F = run(P, f, Split())
            if F.ip.incomplete:
                R.bad("incomplete:" + stable(f), "analysis of %s did not converge" % f.name)
                continue
            a, b = F.args[0][0], F.args[1][0]
            paths = []
            for o in F.outs:
                for val, facts in answers(F, o):
                    eqs = equalities(F.ip, val, facts)
                    if eqs is not None:
                        paths.append((eqs + elementwise(F, o, a, b), facts))
            R.check(bool(paths), "never " + stable(f), "%s never answers that two objects are equal" % f.name)
            for fl in P.adts[T]["vs"][0]["f"]:
                R.count("fields")
                pth = (("f", fl["n"]),)
                if (T, fl["n"]) in PERMISSION or not informative(P, fl["t"]):
                    continue
                missing = [facts for eqs, facts in paths if not compared(P, eqs, a, b, pth, fl["t"]) and not absent(P, facts, a, b, pth, fl["t"])]
                ok = not missing or cache(P, T, fl["n"], [g["n"] for g in P.adts[T]["vs"][0]["f"] if all(compared(P, eqs, a, b, (("f", g["n"]),), g["t"]) for eqs, _ in paths)])
                R.check(ok, "compared %s.%s" % (T, fl["n"]), "%s can answer 'equal' for objects that differ in %s" % (f.name, fl["n"]),
                        "%s.%s: %s" % (T.rsplit("::", 1)[-1], fl["n"], "compared" if not missing else "recomputed from compared fields"))
    R.floor("types", 25)
    R.floor("fields", 100)


def answers(F, o):
    """(value, facts) the comparison may answer, merges expanded"""
    r = []
    for (v,) in cases(F.ip, (o.val,)):
        r.append((v, o.facts))
    return r


def absent(P, facts, a, b, path, t):
    """an optional annotation that one of the objects lacks"""
    if P.ty(P.peel(t)).get("p") != "core::option::Option":
        return False
    for x in (a, b):
        for c in path:
            x = proj(x, c)
        if facts.get(mk("is", "None", (x,))) is True or facts.get(mk("is", "Some", (x,))) is False:
            return True
    return False


_builds = {}


def builds(P, T):
    """values of type T put together by the functions of its crate, derived code aside"""
    k = (id(P), T)
    if k not in _builds:
        r = []
        for f in P.fns.values():
            if f.derived or f.body is None or T not in aggregates(f):
                continue
            F = run(P, f, Split0())
            found = set()
            for o in F.outs:
                v = F.ip.snap(St(o.mem, o.facts), o.val)
                for x in deps(F.ip, v):
                    if x.op == "struct" and x.d[0] == T:
                        found.add(x)
            r.append((f, F, found))
        _builds[k] = r
    return _builds[k]


class Split0(FhePol):
    def inline(self, fn, ctx):
        return False


def aggregates(f):
    r = set()
    for blk in f.body.blocks:
        for s in blk["s"]:
            if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], dict) and s[2][1].get("k") == "adt":
                r.add(s[2][1]["p"])
    return r


def cache(P, T, g, given):
    """why field g is determined by the fields `given` in every object the program builds, or None"""
    bs = builds(P, T)
    if not given or not any(found for _, _, found in bs):
        return None
    for f, F, found in bs:
        if not found:
            return None
        for s in found:
            flds = dict(zip(s.d[2], s.a))
            if not determined(F.ip, flds[g], known_parts(P, [strip_ref(flds[x]) for x in given]), g, given, flds):
                return None
    return "computed from %s in %s" % (", ".join(given), ", ".join(f.name for f, _, _ in bs))


def known_parts(P, vals):
    """values that can be read back from the given ones: an operand a constructor stores in the object it returns"""
    r = set(vals)
    work = list(vals)
    while work:
        y = work.pop()
        while y.op == "vfld":
            y = strip_ref(y.a[0])
        if y.op != "call":
            continue
        f = fn_named(P, y.d[0])
        if f is None or f.body is None:
            continue
        for T in aggregates(f):
            if T not in P.adts or P.adts[T]["kind"] != "struct":
                continue
            for h, F, found in builds(P, T):
                if h is not f:
                    continue
                args = [e for e, t, n in F.args]
                for s in found:
                    for v in s.a:
                        v = strip_ref(v)
                        if v in args and args.index(v) < len(y.a):
                            z = strip_ref(y.a[args.index(v)])
                            if z not in r:
                                r.add(z)
                                work.append(z)
    return r


def determined(ip, e, known, g, given, flds):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        y = strip_ref(x)
        if x in seen or y in known:
            continue
        seen.add(x)
        if y.op == "fld" and y.d == g and all(strip_ref(flds[n]) is proj(y.a[0], ("f", n)) for n in given):
            continue
        if y.op == "arg" or y.op == "undef":
            return False
        if y.op == "phi":
            st += phi_ins(ip, y)
        elif y.op == "call" and not y.a and y.d[1] is not None and y.d[0].rsplit("::", 1)[-1] in ("rng", "thread_rng", "from_os_rng"):
            return False
        else:
            st += list(y.a)
    return True
