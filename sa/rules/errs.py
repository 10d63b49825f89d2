"""Errors are never swallowed (P24)."""
import re
from ..fhe import *
from ..mir import short

CELL = ("ERR",)
CLEAN = const(0)


def stable(f):
    return re.sub(r"\{closure#\d+\}", "{closure}", f.name)


class ErrPol(Policy):
    """each function on its own, closures included; the failures a path has met are kept in a memory cell"""

    errmark = True

    def __init__(self, partial=()):
        self.partial = partial

    def inline(self, fn, ctx):
        return fn.kind == "closure"

    def assumed(self, ip, st, c, val):
        x = c.a[0]
        none = c.d == "None" and val or c.d == "Some" and not val
        if c.d == "Err" and val or c.d == "Ok" and not val or none and x.op == "call" and x.d[0] in self.partial:
            mem = dict(st.mem)
            mem[CELL] = mk("failed", None, (x,))
            st.mem = mem


def failing(ip, v, seen=()):
    """v reports a failure to the caller"""
    if v in seen:
        return True
    if v.op == "struct":
        return v.d[1] in ("Err", "None", "Break") or v.d[1] in ("Some", "Ok", "Continue") and len(v.a) == 1 and v.a[0].op == "struct" and failing(ip, v.a[0], seen)
    if v is FALSE:
        return True
    if v.op == "phi":
        return all(failing(ip, x, seen + (v,)) for x in phi_ins(ip, v))
    return False


def is_result(P, t):
    return t is not None and P.ty(P.peel(t)).get("p") == "core::result::Result"


def what(x):
    y = x
    while y.op in ("vfld", "fld", "phi") and y.a:
        y = y.a[0]
    return y.d[0].rsplit("::", 1)[-1] if y.op == "call" else show(y, 2)


def p24(R, tier):
    R.rule("reported", "no path on which a Result was found to be an error ends in a value that reports success")
    R.rule("elements", "no iterator adaptor discards failed elements of a sequence of Results")
    R.rule("used", "the Result of every call is examined, returned, stored or handed on")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        inlined = set()
        todo = [f for f in lib_fns(P, ("fhe", "fhe_math", "fhe_util", "fhe_traits")) if f.body is not None and not f.derived]
        partial = {f.name for f in todo if f.reach and P.ty(f.out).get("p") == "core::option::Option" and P.ty(P.ty(f.out)["a"][0])["k"] == "prim" and not f.trait}
        R.counts["partial_functions"] = len(partial)
        for f in [f for f in todo if f.kind != "closure"] + [f for f in todo if f.kind == "closure"]:
            if f.kind == "closure" and f.h in inlined:
                continue
            pol = ErrPol(partial)
            try:
                ip = Interp(P, pol, max_steps=60000)
                outs, evs = ip.run_entry(f, mem={CELL: CLEAN})
            except Budget:
                R.bad("budget:" + stable(f), "analysis of %s did not converge" % f.name)
                continue
            inlined |= ip.inlined
            if ip.incomplete:
                R.bad("incomplete:" + stable(f), "analysis of %s did not converge" % f.name)
            R.fn(f)
            bad = {}
            for o in outs:
                if failing(ip, o.val):
                    continue
                R.count("success_exits")
                for m in alts(ip, o.mem.get(CELL, CLEAN)):
                    if m.op == "failed" and excused(ip, m, o.facts):
                        R.count("excused_candidates")
                    elif m.op == "failed":
                        bad.setdefault(what(m.a[0]), m)
                    elif m is not CLEAN:
                        bad.setdefault("?", m)
            R.check(not bad, "reported " + stable(f) + "".join(" " + b for b in sorted(bad)), "%s reports success although %s failed" % (f.name, ", ".join(sorted(bad))), f.name)
            unused(R, P, f)
            adaptors(R, P, f)
    R.floor("success_exits", 300)
    R.floor("results", 100)


def mentions(e, d):
    hit = []
    walk(e, lambda z: hit.append(z) if z.op == "call" and z.d == d else None)
    return bool(hit)


def excused(ip, m, facts):
    """the failed call only withheld an element from a collection this path knows to be non-empty"""
    y = m.a[0]
    for c, v in facts.items():
        if v is False and c.op == "bin" and c.d == "Eq" and any(a is const(0) for a in c.a):
            for l in c.a:
                if l.op == "call" and l.d[0] == "len" and l.a[0].op == "coll" and mentions(l.a[0].a[0], y.d):
                    return True
    return False


def fate(P, body, l, seen=()):
    """does anything look at local l, other than dropping it"""
    if l == 0 or l in seen or l <= body.argc:
        return True
    seen = seen + (l,)

    def reads(o):
        return o[0] in ("cp", "mv") and o[1][0] == l or o[0] in ("cp", "mv") and any(c[0] == "i" and c[1] == l for c in o[1][1])

    for b in body.blocks:
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] != "=":
                continue
            r = s[2]
            k = r[0]
            if k in ("use", "rep") and reads(r[1]) or k in ("ref", "raw") and r[2][0] == l or k == "cast" and reads(r[2]) or k == "agg" and any(reads(o) for o in r[2]):
                if s[1][1] or fate(P, body, s[1][0], seen):
                    return True
            elif k == "disc" and r[1][0] == l or k == "bin" and (reads(r[2]) or reads(r[3])) or k == "un" and reads(r[2]):
                if s[1][1] or fate(P, body, s[1][0], seen):
                    return True
        t = b["t"]
        if t[0] == "switch" and reads(t[1]):
            return True
        if t[0] == "call" and any(reads(o) for o in t[2]):
            nm = t[1][1]["fn"]["p"] if t[1][0] == "k" and "fn" in t[1][1] else ""
            if nm.endswith("mem::drop"):
                continue
            if re.search(r"::(unwrap|expect|unwrap_err|expect_err|into_ok)$", nm):
                return True
            if not re.search(r"(Result|Option)(::<.*>)?::\w+$", nm) or t[3][1] or fate(P, body, t[3][0], seen):
                return True
    return False


def unused(R, P, f):
    """every Result a call of f produces is looked at"""
    n = {}
    for b in f.body.blocks:
        t = b["t"]
        if b["cl"] or t[0] != "call" or t[3][1]:
            continue
        l = t[3][0]
        if not is_result(P, f.body.locals[l]):
            continue
        R.count("results")
        q = t[1][1]["fn"]["p"] if t[1][0] == "k" and "fn" in t[1][1] else "?"
        nm = short(q).rsplit("::", 1)[-1]
        i = n[nm] = n.get(nm, 0) + 1
        R.check(fate(P, f.body, l), "used %s %s" % (stable(f), nm), "%s ignores the Result of %s" % (f.name, q), f.name)


def adaptors(R, P, f):
    """no adaptor over a sequence of Results throws the failed ones away"""
    for b in f.body.blocks:
        t = b["t"]
        if b["cl"] or t[0] != "call":
            continue
        for o in t[2]:
            if o[0] == "k" and "fn" in o[1] and re.search(r"::Result(::<.*>)?::(ok|is_ok|unwrap_or_default)$", o[1]["fn"]["p"]):
                R.bad("elements %s %s" % (stable(f), o[1]["fn"]["p"]), "%s maps a sequence through %s" % (f.name, o[1]["fn"]["p"]))
        q = t[1][1].get("fn") if t[1][0] == "k" else None
        if not q or "item" not in q:
            continue
        nm = q["p"].rsplit("::", 1)[-1]
        if is_result(P, q["item"]):
            R.count("result_sequences")
            R.check(nm != "flatten", "elements %s flatten" % stable(f), "%s flattens a sequence of Results, dropping the failed ones" % f.name, f.name)
            if nm in DROPPING:
                for a in q["a"]:
                    c = P.fns.get(P.ty(a).get("h")) if isinstance(a, int) else None
                    if c is not None and c.kind == "closure":
                        R.check(not drops_failed(P, c, nm), "elements %s %s" % (stable(f), nm), "%s drops failed elements of a sequence of Results (%s)" % (f.name, nm), f.name)
        elif nm == "flat_map" and len(q["a"]) > 1:
            R.check(not is_result(P, q["a"][1]), "elements %s flat_map" % stable(f), "%s flattens a sequence of Results, dropping the failed ones" % f.name, f.name)


DROPPING = {"filter": FALSE, "take_while": FALSE, "skip_while": TRUE, "filter_map": None, "map_while": None}


def drops_failed(P, c, nm):
    pol = ErrPol()
    ip = Interp(P, pol, max_steps=60000)
    outs, _ = ip.run_entry(c, mem={CELL: CLEAN})
    for o in outs:
        if any(m is not CLEAN for m in alts(ip, o.mem.get(CELL, CLEAN))):
            for v in alts(ip, o.val):
                if DROPPING[nm] is not None and v is DROPPING[nm] or DROPPING[nm] is None and v.op == "struct" and v.d[1] == "None":
                    return True
        for v in alts(ip, o.val):
            if v.op == "is" and (v.d == "Ok") == (DROPPING[nm] is FALSE):
                return True
    return False
