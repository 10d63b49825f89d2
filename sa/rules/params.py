"""Only valid parameter sets can be built (P18)."""
import re
from ..fhe import *

PAR = "fhe::bfv::parameters::BfvParameters"


def last(n):
    return n.rsplit("::", 1)[-1]


def stable(f):
    return re.sub(r"\{closure#\d+\}", "{closure}", f.name)


def euclid(P, f):
    """a function computing a remainder in a loop from two integers: a greatest common divisor by another name"""
    if f.body is None or len(f.ins) != 2 or any(P.ty(t)["k"] != "prim" for t in f.ins) or P.ty(f.out).get("s") in (None, "bool") or P.ty(f.out)["k"] != "prim":
        return False
    if not f.body.loops() and f.h not in refs_of(f.body):
        return False
    for b in f.body.blocks:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "bin" and s[2][1] == "Rem":
                return True
    return False


def is_gcd(P, name):
    n = last(name)
    if "gcd" in n or "common_div" in n or "coprime" in n:
        return True
    f = fn_named(P, name)
    return f is not None and euclid(P, f)


class Build(FhePol):
    split = 512

    def __init__(self, P):
        FhePol.__init__(self)
        self.P_ = P

    def inline(self, fn, ctx):
        return fn.crate == "fhe" and not is_gcd(self.P_, fn.name)


class Bad(Policy):
    """a memory cell remembers that two elements were found not coprime"""

    errmark = True
    split = 256
    CELL = ("BAD",)

    def __init__(self, P, names=None):
        self.P_ = P
        self.names = names

    def inline(self, fn, ctx):
        return not is_gcd(self.P_, fn.name)

    def assumed(self, ip, st, c, val):
        pass

    def decided(self, ip, st, c, val):
        if notone(self.P_, c, val):
            mem = dict(st.mem)
            mem[self.CELL] = TRUE
            st.mem = mem


def gcds(P, c):
    r = []
    walk(c, lambda z: r.append(z) if z.op == "call" and is_gcd(P, z.d[0]) else None)
    return r


def notone(P, c, val):
    """the condition says that a greatest common divisor is not one"""
    if not gcds(P, c):
        return False
    while c.op == "not":
        c, val = c.a[0], not val
    if c.op == "bin" and c.d in ("Eq", "Ne"):
        return (c.d == "Eq") is not val
    if c.op == "is":
        return c.d == "Equal" and not val or c.d in ("Less", "Greater") and val
    if c.op == "bin" and c.d in ("Lt", "Le"):
        # 1 < g, 2 <= g
        return val if gcds(P, c.a[1]) else not val
    if c.op == "call" and last(c.d[0]) in ("eq", "is_one"):
        return not val
    if c.op == "call" and last(c.d[0]) == "ne":
        return val
    return False


# ------------------------------------------------------------------ numeric facts


def uncast(e):
    while e.op == "cast" or e.op == "call" and last(e.d[0]) in ("from", "into", "try_from", "clone", "deref", "to_owned") and len(e.a) == 1 or e.op == "vfld" and e.a[0].op == "call" and last(e.a[0].d[0]) in ("try_from", "try_into"):
        e = e.a[0]
    return e


def bounds(facts, x):
    lo, hi = 0, None

    def up(b):
        nonlocal hi
        hi = b if hi is None else min(hi, b)

    def num(e):
        e = uncast(e)
        return e.d if e.op == "const" and type(e.d) is int else None

    x = uncast(x)
    for c, v in facts.items():
        while c.op == "not":
            c, v = c.a[0], not v
        if c.op != "bin" or len(c.a) != 2:
            continue
        a, b = uncast(c.a[0]), uncast(c.a[1])
        d = c.d
        if a is x and num(b) is not None:
            k = num(b)
            if d == "Lt":
                up(k - 1) if v else None
                lo = lo if v else max(lo, k)
            elif d == "Le":
                up(k) if v else None
                lo = lo if v else max(lo, k + 1)
            elif d == "Eq" and v:
                up(k)
                lo = max(lo, k)
        elif b is x and num(a) is not None:
            k = num(a)
            if d == "Lt":
                lo = max(lo, k + 1) if v else lo
                None if v else up(k)
            elif d == "Le":
                lo = max(lo, k) if v else lo
                None if v else up(k - 1)
            elif d == "Eq" and v:
                up(k)
                lo = max(lo, k)
    return lo, hi


def power_of_two(facts, x):
    x = uncast(x)
    for c, v in facts.items():
        if c.op == "call" and last(c.d[0]) == "is_power_of_two" and uncast(c.a[0]) is x and v is True:
            return True
        if c.op == "bin" and c.d == "Eq" and v is True:
            for p, q in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                if q.op == "const" and q.d == 1 and p.op == "call" and last(p.d[0]) == "count_ones" and uncast(p.a[0]) is x:
                    return True
                if q.op == "const" and q.d == 0 and p.op == "bin" and p.d == "BitAnd" and x in [uncast(z) for z in p.a]:
                    return True
                if q.op == "call" and last(q.d[0]) == "next_power_of_two" and uncast(p) is x and uncast(q.a[0]) is x:
                    return True
    return False


def twice(e, x):
    """e is 2*x"""
    e, x = uncast(e), uncast(x)
    if e.op != "bin":
        return False
    a, b = uncast(e.a[0]), uncast(e.a[1])
    c = lambda z, k: z.op == "const" and z.d == k
    return e.d == "Mul" and (c(a, 2) and b is x or c(b, 2) and a is x) or e.d == "Shl" and a is x and c(b, 1) or e.d == "Add" and a is x and b is x


def element_of(e, seqs):
    e = uncast(e)
    while e.op == "ref":
        return False
    return e.op == "idx" and any(e.a[0] is s for s in seqs) and (e.a[1].op in ("each", "any") or every_index(e.a[1], e.a[0], ("each", "any")))


def every_index(i, S, ops):
    """an element of the range 0..len(S)"""
    if i.op != "idx" or i.a[0].op != "it" or i.a[0].d != "range" or i.a[1].op not in ops or len(i.a[0].a) < 2:
        return False
    lo, hi = i.a[0].a[:2]
    return lo.op == "const" and lo.d == 0 and hi.op == "call" and last(hi.d[0]) == "len" and hi.a[0] is S


def forall_prime(P, facts, seqs):
    return any(v is True and c.op == "call" and last(c.d[0]) in ("is_prime", "probably_prime") and element_of(c.a[0], seqs) for c, v in forall_facts(facts))


def forall_friendly(P, facts, seqs, D):
    for c, v in forall_facts(facts):
        if c.op == "bin" and c.d == "Eq" and v is True:
            for p, q in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                if q.op == "const" and q.d == 1 and p.op == "bin" and p.d == "Rem" and element_of(p.a[0], seqs) and twice(p.a[1], D):
                    return True
                if q.op == "const" and q.d == 0 and p.op == "bin" and p.d == "Rem" and twice(p.a[1], D) and p.a[0].op == "bin" and p.a[0].d == "Sub" and element_of(p.a[0].a[0], seqs) and p.a[0].a[1].op == "const" and p.a[0].a[1].d == 1:
                    return True
    return False


def forall_coprime_to(P, facts, seqs, T):
    """gcd(T mod m, m) = 1 for every element m"""
    for c, v in forall_facts(facts):
        g = gcds(P, c)
        if not g or notone(P, c, v):
            continue
        if not (c.op == "bin" and c.d == "Eq" and v is True and any(z.op == "const" and z.d == 1 for z in c.a) or notone(P, c, not v)):
            continue
        for z in g:
            for p, q in ((z.a[0], z.a[1]), (z.a[1], z.a[0])):
                if element_of(q, seqs) and (uncast(p) is T or mentions(p, T)):
                    return True
    return False


def mentions(e, x):
    hit = []
    walk(e, lambda z: hit.append(z) if z is x else None)
    return bool(hit)


def below_product(P, ip, facts, seqs, T):
    for c, v in facts.items():
        while c.op == "not":
            c, v = c.a[0], not v
        if c.op != "bin" or c.d not in ("Lt", "Le"):
            continue
        a, b = c.a
        if not (c.d == "Lt" and v is True and uncast(a) is T or c.d == "Le" and v is False and uncast(b) is T):
            continue
        r = b if uncast(a) is T else a
        if whole_product(P, ip, r, seqs):
            return True
    return False


def whole_product(P, ip, r, seqs):
    """r is computed from every element of one of the sequences, multiplied together"""
    r = uncast(r)
    if r.op == "phi":
        # a running product over a loop that visits every element
        ins = phi_ins(ip, r)
        return any(x.op == "call" and last(x.d[0]) in ("mul", "mul_assign") and mentions(x, r) and any(element_pos(x, s) for s in seqs) for x in ins)
    if r.op == "call" and r.d[0].startswith("after"):
        return False
    if r.op == "call" and last(r.d[0]) in ("modulus", "product"):
        hit = []

        def f(z):
            if z.op == "slice" or "part" in str(z.d):
                hit.append(False)
            if any(z is s for s in seqs):
                hit.append(True)

        walk(r, f)
        return True in hit and False not in hit
    return False


def element_pos(x, s):
    hit = []
    walk(x, lambda z: hit.append(z) if z.op == "idx" and z.a[0] is s and (z.a[1].op in ("pos", "each") and "part" not in z.a[1].d or every_index(z.a[1], s, ("pos", "each"))) else None)
    return bool(hit)


def counted_from_zero(e, seqs):
    """the positions 0..len of a sequence, one per iteration"""
    return e.op == "idx" and e.a[0].op == "it" and e.a[0].d == "range" and len(e.a[0].a) == 2 and e.a[0].a[0].op == "const" and e.a[0].a[0].d == 0


def prefix_of(S, seqs, facts, c):
    """S is the whole sequence, or ranges over its prefixes including the whole"""
    if any(S is s for s in seqs):
        return True
    if S.op == "slice" and any(S.a[0] is s for s in seqs) and len(S.a) == 3:
        s, lo, hi = S.a
        start = lo.op in ("none",) or lo.op == "const" and lo.d in (0, None) or show(lo) == "None"
        if start and hi.op == "bin" and hi.d == "Sub" and hi.a[0].op == "call" and last(hi.a[0].d[0]) == "len" and hi.a[0].a[0] is s:
            i = hi.a[1]
            return i.op in ("each", "any") or i.op == "idx" and i.a[1].op in ("each", "any") and whole(facts, c)
        if start and hi.op == "call" and last(hi.d[0]) == "len" and hi.a[0] is s:
            return True
    return False


def accepted_by(P, facts, seqs, lemma):
    """a constructor proved to accept only pairwise coprime (…) lists accepted this list"""
    for c, v in facts.items():
        if c.op == "is" and c.d == "Ok" and v is True and c.a[0].op == "call" and c.a[0].d[0] in lemma and c.a[0].a and prefix_of(c.a[0].a[0], seqs, facts, c):
            return True
    return False


# ------------------------------------------------------------------ lemmas about fhe-math constructors


def coprime_lemma(R, P):
    """names of functions that return Ok only for lists whose elements are pairwise coprime"""
    out = set()
    for f in lib_fns(P, ("fhe_math",)):
        if f.sname != "new" or "RnsContext" not in f.name or f.body is None:
            continue
        pol = Bad(P)
        ip = Interp(P, pol, max_steps=60000)
        outs, evs = ip.run_entry(f, mem={Bad.CELL: FALSE})
        R.fn(f)
        oks = [o for o in outs if o.val.op == "struct" and o.val.d[1] == "Ok"]
        if not oks or ip.incomplete:
            continue
        good = True
        for o in oks:
            if any(m is not FALSE for m in alts(ip, o.mem.get(Bad.CELL, FALSE))):
                good = False
        S = mk("arg", (0, f.body.names.get(1, "arg0")))
        pair = False
        for e in evs:
            if e.kind not in ("call", "std") or not is_gcd(P, e.name) or len(e.args) < 2:
                continue
            x, y = uncast(e.args[0]), uncast(e.args[1])
            if not (x.op == y.op == "idx" and x.a[0] is S and y.a[0] is S):
                continue
            i, j = x.a[1], y.a[1]
            si, sj = [site for q in (i, j) for k, site in q.sites if k == "pos"][:1], [site for k, site in j.sites if k == "pos"]
            if len(si) != 1 or not sj or i is j:
                continue
            if any(k not in (mk("bin", "Eq", (i, j)), mk("bin", "Eq", (j, i))) and (mentions(k, i) and mentions(k, j)) for k in e.st.facts):
                continue
            if all(counted(ip, q, S, other) for q, other in ((i, j), (j, i))) and all(all(mk("exhausted", s) in o.facts or mk("xexh", s) in o.facts for s in si + sj) for o in oks):
                pair = True
        if pair and good:
            out.add(f.name)
    # wrappers: Ok only if such a constructor accepted the same list
    for f in lib_fns(P, ("fhe_math",)):
        if f.body is None or f.sname not in ("new", "new_arc") or not f.ins or P.ty(P.peel(f.ins[0])).get("k") != "slice" and "[u64]" not in P.ty(P.peel(f.ins[0])).get("s", ""):
            continue
        if f.name in out:
            continue

        class W(Policy):
            split = 128

            def inline(self, fn, ctx):
                return fn.name not in out and fn.sname in ("new", "new_arc", "supports_ntt") and (not ctx or "ontext" not in fn.name or len(ctx) < 2)

        ip = Interp(P, W(), max_steps=60000)
        try:
            outs, _ = ip.run_entry(f)
        except Budget:
            continue
        S = mk("arg", (0, f.body.names.get(1, "arg0")))
        oks = [o for o in outs if o.val.op == "struct" and o.val.d[1] == "Ok"]
        if oks and all(accepted_by(P, o.facts, [S], out) for o in oks):
            out.add(f.name)
    return out


def counted(ip, i, S, other):
    """i runs over every index of S (or every index on one side of the other)"""
    if i.op in ("pos", "each"):
        return "part" not in i.d
    if i.op != "idx" or i.a[0].op != "it" or i.a[0].d != "range":
        return False
    lo, hi = i.a[0].a[:2]
    full = hi.op == "call" and last(hi.d[0]) == "len" and hi.a[0] is S
    next_ = lo.op == "bin" and lo.d == "Add" and set(lo.a) == {other, const(1)}
    zero = lo.op == "const" and lo.d == 0
    return (zero or next_) and (full or hi is other)


# ------------------------------------------------------------------ the rule


def bare(P, t):
    """a type mentioning BfvParameters by value or shared pointer, outside of references"""
    ty = P.ty(t)
    if ty.get("p") == PAR:
        return True
    if ty.get("p") in ("core::result::Result", "core::option::Option", "alloc::sync::Arc", "alloc::boxed::Box"):
        return bare(P, ty["a"][0])
    return False


def found(ip, v, seen=None):
    """the parameter sets inside a returned value"""
    if v.op == "struct":
        if v.d[0] == PAR or last(str(v.d[0])) == "BfvParameters":
            return [v]
        return [y for x in v.a for y in found(ip, x)]
    if v.op == "with":
        return [v]
    if v.op == "phi":
        r = []
        for x in alts(ip, v):
            r += [y for y in (found(ip, x) if x.op != "phi" else [x])]
        return r
    return [v]


def p18(R, tier):
    R.rule("built", "parameter sets are assembled only inside the analysed constructors, and their fields are never overwritten")
    R.rule("valid", "every exit returning a parameter set has established the degree, variance, moduli and plaintext conditions on the very values stored in it")
    R.rule("one way", "exactly one of the two ways of giving the moduli was used")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        coprime = coprime_lemma(R, P)
        R.counts["coprimality_lemmas"] = len(coprime)
        makers = set()
        for f in P.fns.values():
            if f.crate != "fhe" or f.body is None or f.derived:
                continue
            for b in f.body.blocks:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") == "adt" and s[2][1].get("p") == PAR:
                        makers.add(f)
                    if s[0] == "=" and any(c[0] == "f" and c[3] == PAR for c in s[1][1] if len(c) > 3):
                        R.bad("built store " + stable(f), "%s overwrites a field of a parameter set" % f.name)
        entries_ = [f for f in lib_fns(P, ("fhe",)) if f.body is not None and f.reach and not f.derived and f.out is not None and bare(P, f.out) and not takes_par(P, f)]
        inl = set()
        for f in entries_:
            ip = Interp(P, Build(P), max_steps=400000)
            outs, evs = ip.run_entry(f)
            inl |= ip.inlined | {f.h}
            R.fn(f)
            if ip.incomplete:
                R.bad("incomplete " + stable(f), "the analysis of %s did not converge" % f.name)
            for o in outs:
                if o.val.op == "struct" and o.val.d[1] in ("Err", "None"):
                    continue
                vs = found(ip, o.val)
                if not vs:
                    R.bad("valid %s unknown" % stable(f), "%s returns something not understood: %s" % (f.name, show(o.val, 3)))
                for V in vs:
                    R.count("exits")
                    judge(R, P, ip, f, V, o.facts, coprime)
        for m in makers:
            R.check(m.h in inl, "built " + stable(m), "%s assembles a parameter set outside the analysed constructors" % m.name, m.name)
        # nobody but the analysed constructors reaches the assembling code
        ent = {f.h for f in entries_}
        for f in lib_fns(P, ("fhe",)):
            if f.body is None or not f.reach or f.h in ent or f.derived:
                continue
            if any(m.h in through(P, f, ent) for m in makers):
                R.bad("built via " + stable(f), "%s reaches the assembly of a parameter set without passing a checked constructor" % f.name)
    R.floor("exits", 4)
    R.floor("coprimality_lemmas", 2)


def takes_par(P, f):
    """a copy of an existing, valid parameter set"""
    return any(P.ty(P.peel(t)).get("p") == PAR or bare(P, P.peel(t)) for t in f.ins)


def through(P, f, stop):
    seen, work = set(), [f.h]
    while work:
        h = work.pop()
        if h in seen or h in stop:
            continue
        seen.add(h)
        g = P.fns.get(h)
        if g is not None and g.body is not None:
            work += list(refs_of(g.body))
    return seen


def judge(R, P, ip, f, V, facts, coprime):
    g = lambda v, n: proj(v, ("f", n))
    D, Vr, M, T = g(V, "polynomial_degree"), g(V, "variance"), g(V, "moduli"), g(g(V, "plaintext"), "value")
    T = uncast(T)
    seqs = seq_names(M)
    n = stable(f)

    def ob(what, ok, why):
        R.check(ok, "%s %s" % (n, what), "%s can return a parameter set although %s" % (f.name, why), "%s: %s" % (f.name, what))

    lo, hi = bounds(facts, D)
    ob("degree-min", lo >= 8, "its degree was not checked to be at least 8")
    ob("degree-max", hi is not None and hi <= 65536, "its degree was not checked to be at most 65536")
    ob("degree-power", power_of_two(facts, D), "its degree was not checked to be a power of two")
    lo, hi = bounds(facts, Vr)
    ob("variance", lo >= 1 and hi is not None and hi <= 32, "its variance was not checked to lie between 1 and 32")
    ob("prime", forall_prime(P, facts, seqs), "its moduli were not all checked to be prime")
    ob("transform-friendly", forall_friendly(P, facts, seqs, D), "its moduli were not all checked to support the transform of its degree")
    ob("coprime", accepted_by(P, facts, seqs, coprime), "its moduli were not checked to be pairwise coprime")
    ob("plaintext-coprime", forall_coprime_to(P, facts, seqs, T), "its moduli were not all checked to be coprime to its plaintext modulus")
    ob("plaintext-size", below_product(P, ip, facts, seqs, T), "its plaintext modulus was not checked to be smaller than the product of its moduli")
    b = builder_lists(P, ip, f)
    if b:
        st = []
        for s in b:
            e = None
            for c, v in facts.items():
                if c.op == "bin" and c.d == "Eq" and any(z.op == "const" and z.d == 0 for z in c.a) and any(z.op == "call" and last(z.d[0]) == "len" and z.a[0] is s for z in c.a):
                    e = v
                if c.op == "call" and last(c.d[0]) == "is_empty" and c.a[0] is s:
                    e = v
            st.append(e)
        ob("one-way", sorted(map(str, st)) == ["False", "True"], "the moduli were not specified in exactly one way")


def builder_lists(P, ip, f):
    """the two ways a builder argument can give moduli: its fields that are lists of integers"""
    if not f.ins:
        return None
    ad = P.adts.get(P.ty(P.peel(f.ins[0])).get("p"))
    if ad is None or not P.ty(P.peel(f.ins[0]))["p"].endswith("Builder"):
        return None
    a = mk("arg", (0, f.body.names.get(1, "arg0")))
    r = [proj(a, ("f", x["n"])) for x in ad["vs"][0]["f"] if P.ty(x["t"]).get("p") == "alloc::vec::Vec"]
    return r if len(r) == 2 else None


def seq_names(M):
    r = [M]
    while r[-1].op == "call" and len(r[-1].a) == 1 and last(r[-1].d[0]) in ("into", "from", "into_boxed_slice", "to_vec", "to_owned", "clone", "collect"):
        r.append(r[-1].a[0])
    return r
