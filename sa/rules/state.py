"""State kept in step: compression seed (P09), level and context (P19), operand compatibility (P10)."""
import re
from ..fhe import *

CT = "fhe::bfv::ciphertext::Ciphertext"
CTP = "fhe::proto::bfv::Ciphertext"


def stable(f):
    return re.sub(r"\{closure#\d+\}", "{closure}", f.name)


# ------------------------------------------------------------------ P09


def last_of(ip, c, seen=None):
    """values the last polynomial of sequence c may be, None when unknown"""
    seen = seen if seen is not None else set()
    if c in seen:
        return []
    seen.add(c)
    if c.op == "arr":
        return [c.a[-1]] if c.a else None
    if c.op == "push":
        return [c.a[1]]
    if c.op == "phi":
        r = []
        for x in phi_ins(ip, c):
            y = last_of(ip, x, seen)
            if y is None:
                return None
            r += y
        return r
    if c.op == "with" and c.d[0] == "i":
        v = strip_flags(ip.P, c.a[1])
        if v.op == "idx" and v.a[1] is c.d[1] and v.a[0] is c.a[0]:
            return last_of(ip, c.a[0], seen)
        o = v
        if any(v is X.index(y, c.d[1]) for y in (c.a[0],)):
            return last_of(ip, c.a[0], seen)
        # element updates that only change permissions
        if all(strip_flags(ip.P, x) is strip_flags(ip.P, y) for x in alts(ip, v) for y in [X.index(c.a[0], c.d[1])]):
            return last_of(ip, c.a[0], seen)
        return None
    if c.op == "with" and c.d[0] == "x":
        return None
    return None


def unflagged(ip, c, seen=()):
    """the sequence c before element updates that change permissions only"""
    if c in seen:
        return c
    if c.op == "with" and c.d[0] == "i":
        v, old = c.a[1], X.index(c.a[0], c.d[1])
        if strip_flags(ip.P, v) is strip_flags(ip.P, old) or v is old:
            return unflagged(ip, c.a[0], seen)
        return c
    if c.op == "phi" and loop_of_phi(ip, c) is not None:
        r = {unflagged(ip, x, seen + (c,)) for x in phi_ins(ip, c)} - {c}
        if len(r) == 1:
            return r.pop()
    return c


def seed_matches(F, seed, c):
    """why the last polynomial of c may not be the expansion of seed, or None"""
    ip, P = F.ip, F.ip.P
    if seed.op == "struct" and seed.d[1] == "None":
        return None
    if seed.op == "phi" and c.op == "phi" and seed.d[0] == c.d[0]:
        return None  # unchanged since that merge, whose alternatives are cases of their own
    if seed.op == "fld" and seed.d == "seed":
        src = proj(seed.a[0], ("f", "c"))
        if same_seq(ip, c, src):
            return None
        return "the seed is kept while the polynomials change (%s)" % show(c, 4)
    if seed.op == "struct" and seed.d[1] == "Some":
        s = seed.a[0]
        l = last_of(ip, c)
        if l is None:
            return "the last polynomial of %s is not known to be the expansion of the seed" % show(c, 4)
        for x in l:
            x = strip_flags(P, x)
            o = op_of(P, x)
            if o is None or o.f.sname != "random_from_seed" or len(o.args) < 2 or not same_seed(ip, o.args[1], s):
                return "the last polynomial is %s, not the expansion of the seed %s" % (show(x, 4), show(s, 3))
        return None
    return "the seed is %s" % show(seed, 4)


def same_seed(ip, a, b):
    return a is b or a.op == "vfld" and a.d == ("Some", "0") and a.a[0] is b


def p09(R, tier):
    R.rule("seed", "in every alternative of every ciphertext returned or updated by an exported function, the seed is absent, or unchanged together with the polynomials (permissions aside), or its expansion is the last polynomial")
    R.rule("handout", "a function handing out mutable access to the polynomials of a ciphertext has discarded the seed; the fields are not public")
    R.rule("encode", "the encoder leaves out the last polynomial exactly when it writes the seed")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        ad = P.adts.get(CT)
        if ad is None:
            R.bad("anchor", "type %s not found" % CT)
            continue
        for fl in ad["vs"][0]["f"]:
            R.check(fl["vis"] != "pub", "public " + fl["n"], "field %s of Ciphertext is public: outside code can separate it from the seed" % fl["n"])
        for F in flows(P, R):
            ip = F.ip
            for o in objects(F):
                if o.adt != CT:
                    continue
                R.fn(F.fn)
                for seed, c in cases(ip, (proj(o.v, ("f", "seed")), proj(o.v, ("f", "c"))), norm=lambda v: unflagged(ip, v)):
                    R.count("cases")
                    why = seed_matches(F, seed, c)
                    R.check(why is None, "seed %s %s" % (stable(F.fn), o.lab), "%s: %s: %s" % (F.fn.name, o.lab, why),
                            "%s %s: seed %s" % (F.fn.name, o.lab, show(seed, 2)))
            for o in F.outs:
                for root, path in handed(o.val):
                    if root[0] != "A" or root[1] >= len(F.args) or P.ty(P.peel(F.args[root[1]][1])).get("p") != CT:
                        continue
                    if not path or path[0] == ("f", "c"):
                        t = P.ty(F.args[root[1]][1])
                        if t["k"] != "ref" or not t.get("m"):
                            continue
                        R.fn(F.fn)
                        R.count("handouts")
                        v = o.mem.get(root, F.args[root[1]][0])
                        sd = proj(ip.snap(St(o.mem, o.facts), v), ("f", "seed"))
                        R.check(all(s.op == "struct" and s.d[1] == "None" for (s,) in cases(ip, (sd,))), "handout " + stable(F.fn),
                                "%s:%s %s hands out mutable polynomials of a ciphertext that may still carry its seed" % (F.fn.file, F.fn.line, F.fn.name),
                                "%s: seed discarded" % F.fn.name)
            enc_seed(R, F)
    R.floor("cases", 40)
    R.floor("encoded", 2)
    R.floor("handouts", 1)


def handed(v):
    """places a returned value gives access to"""
    r = []
    st, seen = [v], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ref":
            r.append((x.d[0], x.d[1]))
        st.extend(y for y in x.a if y.hr)
    return r


def parts(ip, seq, src, seen=None):
    """which parts of sequence src the elements of seq are made from: rest (all but last), last, all, other"""
    r = set()
    last = mk("bin", "Sub", (call("len", None, (src,)), const(1)))
    for lab, x, L in positions(ip, seq, None):
        found = set()
        for y in deps(ip, x):
            if y.op == "idx" and y.a[0] is src:
                i = y.a[1]
                if i.op == "pos":
                    found.add("all")
                elif i.op == "bin" and i.d == "Sub" and i.a[1].op == "const" and i.a[1].d == 1 and "len" in str(i.a[0].d):
                    found.add("last")
                elif i.op == "idx" and i.a[0].op == "it" and i.a[0].d == "range" and len(i.a[0].a) == 2:
                    lo, hi = i.a[0].a
                    if lo.op == "const" and lo.d == 0:
                        found.add("all" if islen(hi, src) else "rest" if hi.op == "bin" and hi.d == "Sub" and islen(hi.a[0], src) and hi.a[1] is const(1) else "other")
                    else:
                        found.add("other")
                else:
                    found.add("other")
            elif y.op == "idx" and y.a[0].op == "slice" and y.a[0].a[0] is src:
                lo, hi = y.a[0].a[1], y.a[0].a[2]
                lo0 = lo.op == "const" and lo.d in (None, 0)
                if lo0 and hi.op == "bin" and hi.d == "Sub" and islen(hi.a[0], src) and hi.a[1] is const(1):
                    found.add("rest")
                elif lo0 and (islen(hi, src) or hi.op == "const" and hi.d is None):
                    found.add("all")
                else:
                    found.add("other")
        r |= found or {"other"}
    return r


def islen(e, src):
    return e.op in ("call", "len", "cnt") and e.a and e.a[0] is src and (e.op != "call" or e.d[0] == "len")


def empty_seq(e):
    return e.op == "arr" and not e.a or e.op == "call" and e.d[0] in ("default", "new") or e.op == "struct" and e.d[1] == "None"


def enc_seed(R, F):
    P, ip = F.ip.P, F.ip
    if not F.args or P.ty(P.peel(F.args[0][1])).get("p") != CT or F.fn.out is None or P.ty(P.peel(F.fn.out)).get("p") != CTP:
        return
    src = F.args[0][0]
    cs = proj(src, ("f", "c"))
    for o in F.outs:
        v = ip.snap(St(o.mem, o.facts), o.val)
        for seed, c in cases(ip, (proj(v, ("f", "seed")), proj(v, ("f", "c"))), loops=False):
            R.count("encoded")
            if empty_seq(c) and empty_seq(seed):
                continue
            p = parts(ip, c, cs)
            if empty_seq(seed):
                ok = p == {"all"} or p == {"rest", "last"}
                m = "omits the last polynomial without writing the seed"
            else:
                ok = p == {"rest"}
                m = "writes the seed but not exactly all other polynomials"
            R.check(ok, "encode " + stable(F.fn), "%s:%s %s %s (%s)" % (F.fn.file, F.fn.line, F.fn.name, m, ", ".join(sorted(p))),
                    "%s: seed %s, polynomials %s" % (F.fn.name, show(seed, 2), sorted(p)))
