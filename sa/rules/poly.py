"""Polynomial layer: variable-time permission (P01, P02), lazy mark (P14), companions (P15)."""
import re
from ..common import *
from ..fhe import covers, exhausted, phi_ins, loop_of_phi, site_in

POLY = "fhe_math::rq::Poly"
ALLOW = "allow_variable_time_computations"
LAZY = "has_lazy_coefficients"
TOKEN = "fhe_traits::VariableTime"
CARRIERS = ("fhe::bfv::ciphertext::Ciphertext", "fhe::bfv::plaintext::Plaintext", "fhe::bfv::plaintext_vec::PlaintextVec")


def vt_fns(P):
    return [f for f in P.fns.values() if f.crate == "fhe_math" and f.kind != "closure" and re.search(r"_vt(_|$)", f.sname)]


class PolyPolicy(Policy):
    part_fields = (ALLOW, LAZY)

    def __init__(self, P, crate):
        self.P = P
        self.vt = {f.h for f in vt_fns(P)}
        self.rch = reaching(P, self.vt)
        self.crate = crate

    def inline(self, fn, ctx):
        if fn.h in self.vt:
            return False
        if fn.crate == "fhe_traits":
            return True
        if fn.crate == "fhe_util":
            return False
        if self.crate == "fhe" and fn.crate == "fhe_math":
            return fn.h not in self.rch and fn.name.startswith("fhe_math::rq") and len(fn.body.blocks) < 40
        if fn.crate == "fhe_math" and not fn.name.startswith("fhe_math::rq") and "rq::" not in fn.name:
            return fn.h in self.rch and fn.h not in self.vt
        return True

    def want(self, key, name, callee):
        return callee is not None and callee.h in self.vt


def is_poly(t):
    return t.get("p") == POLY


def entries(P, crate, rch):
    """functions that outside code can call: exported ones and trait impls, not themselves unsafe"""
    for f in lib_fns(P, (crate,)):
        if f.kind not in ("fn", "assoc") or f.derived or f.unsafe:
            continue
        if not f.reach:
            continue
        if rch is not None and f.h not in rch:
            continue
        yield f


def arg_kinds(P, F):
    """classify arguments: polynomial-bearing, explicit permission (token / bool), public constants, data"""
    poly, perm, data, const_, gen = [], [], [], [], []
    for e, t, n in F.args:
        ty = P.peel(t)
        if P.mentions(t, lambda x: is_poly(x) or x.get("p") in CARRIERS):
            poly.append((e, t))
        elif P.mentions(t, lambda x: x["k"] == "param"):
            gen.append(e)
        elif P.mentions(t, lambda x: x.get("p") == TOKEN):
            perm.append((e, "token"))
        elif P.tystr(t) == "bool":
            perm.append((e, "bool"))
        elif P.ty(ty).get("k") == "adt" and P.ty(ty)["p"].startswith("fhe_math::") and "proto" not in P.ty(ty)["p"]:
            const_.append(e)
        elif P.ty(ty).get("k") == "adt" and P.ty(ty)["p"].endswith("sync::Arc"):
            const_.append(e)
        else:
            data.append((e, t))
    return poly, perm, data, const_, gen


def explicit(ip, facts, perm):
    for e, k in perm:
        if k == "token" or ip.holds(facts, e) is True:
            return True
    return False


def permitted(ip, facts, X, flag=ALLOW, want=True, seen=()):
    c = proj(X, ("f", flag))
    if implies_all(ip, facts, c, want):
        return True
    if X.op == "phi" and X not in seen:
        ins = [v for v in ip.phi_in.get(X, {}).values() if v is not X]
        return bool(ins) and all(permitted(ip, facts, v, flag, want, seen + (X,)) for v in ins)
    if c.op == "phi" and c not in seen:
        ins = [v for v in ip.phi_in.get(c, {}).values() if v is not c]
        return bool(ins) and all(v is const(want) or implies_all(ip, facts, v, want) for v in ins)
    if not any(x.op in ("pos", "each", "phi", "after") for x in deps(ip, c)):
        return recorded(ip, facts, c, want, frozenset())
    return False


def recorded(ip, facts, c, want, seen):
    """c, which never changes, follows from what held where the merged conditions known here were decided"""
    if implies_all(ip, facts, c, want):
        return True
    for k, val in facts.items():
        if k.op != "phi" or k in seen or type(val) is not bool or not ip.phi_in.get(k):
            continue
        good = True
        for (ps, ek), v in ip.phi_in[k].items():
            if v is k:
                continue
            ef = ip.edge_facts.get((k.d[0], k.d[1], ps, ek))
            if ef is None:
                good = False
                break
            s = ip.assume(St({}, ef), v, val) if v.op != "const" else (St({}, ef) if v is const(val) else None)
            if s is not None and not recorded(ip, s.facts, c, want, seen | {k}):
                good = False
                break
        if good:
            return True
    return False


def root_arg(ip, e):
    """argument an access path starts from"""
    while e.op in ("fld", "vfld", "idx", "sub", "slice", "with") and e.a:
        e = e.a[0]
    return e if e.op == "arg" else None


def poly_sources(ip, e, nonpoly=()):
    """polynomial values whose coefficients e may be computed from"""
    r = set()
    for x in deps(ip, e, lambda n: n.op == "fld" and n.d in ("coefficients", "coefficients_shoup", "ctx")):
        if x.op == "fld" and x.d in ("coefficients", "coefficients_shoup"):
            ra = root_arg(ip, x)
            if ra is not None and ra in nonpoly:
                continue
            r.add(x.a[0])
    return sorted(r, key=lambda x: x.uid)


def data_leaves(ip, e, consts):
    cs = set(consts)
    r = []
    for x in deps(ip, e, lambda n: n in cs or n.op == "fld" and n.d == "ctx"):
        if x.op == "arg" and x not in cs:
            r.append(x)
    return r


def _p(F):
    return F.fn.name


def analysed(P, R, crate):
    pol = PolyPolicy(P, crate)
    rch = None
    if crate == "fhe":
        # only code that itself dispatches to a variable-time primitive
        direct = {f.h for f in lib_fns(P, ("fhe",)) if any(h in pol.vt for h in refs_of(f.body))}
        rch = reaching(P, direct)
    for f in entries(P, crate, rch):
        if rch is None and not (f.h in pol.rch):
            continue
        if f.h in pol.vt:
            continue
        try:
            yield run(P, f, pol), pol
        except Budget as b:
            R.bad("budget:" + f.name, "analysis of %s did not converge: %s" % (f.name, b))


def p01(R, tier):
    R.rule("vt-call", "on every path to a call of an unsafe *_vt primitive, the path conditions imply the permission of each polynomial whose coefficients reach the call (explicit token/flag for conversions; nothing needed for public moduli constants)")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        vt = vt_fns(P)
        R.count("vt_primitives", len(vt))
        sites = set()
        covered = set()
        for crate in ("fhe_math", "fhe"):
            for F, pol in analysed(P, R, crate):
                ip = F.ip
                poly, perm, data, consts, gen = arg_kinds(P, F)
                nonpoly = {e for e, t, n in F.args} - {e for e, _ in poly} - set(gen)
                R.fn(F.fn)
                R.count("entries")
                for e in F.evs:
                    if e.kind != "call" or e.callee is None or e.callee.h not in pol.vt:
                        continue
                    R.count("vt_call_contexts")
                    sites.add((e.fn.name, e.callee.sname))
                    facts = e.st.facts
                    if any(e.fn.h == h for h in pol.vt):
                        continue
                    src = set()
                    for a in e.args:
                        src |= set(poly_sources(ip, a, nonpoly))
                    key = "%s <- %s [%s]" % (e.callee.sname, stable(e.fn), stable(F.fn))
                    where = "%s (entry %s)" % (e.where(), F.fn.name)
                    if src:
                        badx = [X for X in src if not permitted(ip, facts, X) and not own_permission(ip, facts, X, perm)]
                        R.check(not badx, key, "%s called at %s although %s may lack the permission" % (e.callee.sname, where, ", ".join(show(x, 4) for x in badx)),
                                "%s at %s: %s permitted" % (e.callee.sname, e.where(), ", ".join(show(x, 3) for x in src)))
                        continue
                    dl = []
                    for a in e.args:
                        dl += data_leaves(ip, a, consts)
                    if not dl:
                        R.ok("%s at %s: public constants only" % (e.callee.sname, e.where()))
                        continue
                    if explicit(ip, facts, perm):
                        R.ok("%s at %s: explicit permission" % (e.callee.sname, e.where()))
                        continue
                    if poly:
                        badx = [x for x, t in poly if not permitted(ip, facts, x)]
                        if not badx:
                            R.ok()
                            continue
                    R.bad(key, "%s called at %s on data of %s without any permission" % (e.callee.sname, where, ", ".join(sorted({show(x) for x in dl}))))
        # every source-level call site of a vt primitive in a safe function must have been visited
        for f in lib_fns(P, ("fhe_math", "fhe")):
            r = f if f.kind != "closure" else P.fns.get(f.root, f)
            if r.h in {x.h for x in vt} or f.h in {x.h for x in vt}:
                continue
            for h in refs_of(f.body):
                if h in {x.h for x in vt}:
                    R.count("static_sites")
                    if (f.name, P.fns[h].sname) not in sites and not dead(P, f):
                        R.bad("unvisited %s <- %s" % (P.fns[h].sname, stable(f)), "variable-time call in %s not reached by the analysis of any entry point" % f.name)
    R.floor("vt_call_contexts", 60)
    R.floor("static_sites", 20)
    R.floor("vt_primitives", 15)


def own_permission(ip, facts, X, perm):
    return False


def dead(P, f):
    """private helper never referenced"""
    return False


def stable(f):
    return re.sub(r"\{closure#\d+\}", "{closure}", f.name)


def out_polys(P, F):
    """(label, poly expr, facts) of every polynomial an entry returns or updates"""
    f = F.fn
    ip = F.ip
    b = f.body
    for o in F.outs:
        v = o.val
        st = St(o.mem, o.facts)
        if P.mentions(b.locals[0], is_poly):
            w = v
            t = b.locals[0]
            w = ip.snap(st, w)
            if w.op == "struct" and w.d[1] in ("Err", "None"):
                pass
            else:
                if w.op == "struct" and w.d[1] in ("Ok", "Some"):
                    w = w.a[0]
                if P.adt_of(P.peel(t)) == POLY or (w.op == "struct" and w.d[0] == POLY) or P.adt_of(t) in ("core::result::Result", "core::option::Option"):
                    if not (w.op == "call" and False):
                        yield "result", w, o.facts, t
        for i in range(b.argc):
            t = P.ty(b.locals[i + 1])
            if t["k"] == "ref" and t.get("m") and P.adt_of(t["e"]) == POLY:
                yield "argument %s" % b.names.get(i + 1), ip.snap(st, o.mem.get(("A", i), mk("arg", (i, "?")))), o.facts, t["e"]


def p02(R, tier):
    R.rule("grant", "the permission flag of every polynomial an exported function returns or updates implies, under the path conditions, the permission of every polynomial its coefficients come from; it is constantly granted only under an explicit token or flag parameter")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        for F in poly_entries(P, R):
            ip = F.ip
            poly, perm, data, consts, gen = arg_kinds(P, F)
            nonpoly = {e for e, t, n in F.args} - {e for e, _ in poly} - set(gen)
            R.fn(F.fn)
            for lab, o, facts, t in out_polys(P, F):
                flag = proj(o, ("f", ALLOW))
                R.count("outputs")
                key = "%s %s" % (stable(F.fn), lab)
                if flag is FALSE or ip.holds(facts, flag) is False:
                    R.ok("%s: never granted" % F.fn.name)
                    continue
                s2 = ip.assume(St({}, facts), flag, True)
                if s2 is None:
                    R.ok()
                    continue
                f2 = s2.facts
                co = proj(o, ("f", "coefficients"))
                src = poly_sources(ip, co, nonpoly)
                sh = proj(o, ("f", "coefficients_shoup"))
                src = sorted(set(src) | set(poly_sources(ip, sh, nonpoly)), key=lambda x: x.uid)
                if explicit(ip, f2, perm) and not [x for x in src if root_arg(ip, x) is None and not permitted(ip, f2, x)] and grants(P, F, perm):
                    R.ok("%s: explicit token or parameter" % F.fn.name)
                    continue
                if not src and poly:
                    src = [x for x, _ in poly]
                badx = [x for x in src if not permitted(ip, f2, x)]
                if not src:
                    dl = data_leaves(ip, flag, ())
                    ok_ = explicit(ip, f2, perm)
                    R.check(ok_, key, "%s %s of %s may carry the permission although nothing grants it" % (F.fn.file, lab, F.fn.name))
                    continue
                R.check(not badx, key, "%s:%s %s of %s may carry the permission although %s may lack it" % (F.fn.file, F.fn.line, lab, F.fn.name, ", ".join(show(x, 4) for x in badx)),
                        "%s %s: implied by %s" % (F.fn.name, lab, ", ".join(show(x, 3) for x in src)))
    R.floor("outputs", 60)


def grants(P, F, perm):
    return True


def poly_entries(P, R, crate="fhe_math"):
    pol = PolyPolicy(P, crate)
    for f in lib_fns(P, (crate,)):
        if f.kind not in ("fn", "assoc") or not f.reach or f.h in pol.vt:
            continue
        if f.derived and f.sname != "clone":
            continue
        ts = [f.out] + list(f.ins)
        if not any(P.mentions(t, is_poly) for t in ts):
            continue
        try:
            yield run(P, f, pol)
        except Budget as b:
            R.bad("budget:" + f.name, "analysis of %s did not converge: %s" % (f.name, b))


# ------------------------------------------------------------------ P14


class ZqOpaque(Policy):
    """arithmetic below the polynomial layer stays opaque and is recorded"""

    part_fields = (ALLOW, LAZY)

    def inline(self, fn, ctx):
        if fn.crate == "fhe_util":
            return False
        n = fn.name
        if fn.crate == "fhe_math" and ("::zq::" in n or "::ntt::" in n or "::rns::" in n):
            return False
        return True

    def want(self, key, name, callee):
        return callee is not None and callee.crate == "fhe_math"


def arith(callee):
    """modular arithmetic / transform primitive"""
    n = callee if isinstance(callee, str) else callee.name
    return n.startswith("fhe_math::zq::Modulus::") or "::ntt::" in n


def cname(x):
    return x.d[0].rsplit("::", 1)[-1]


def is_shoup_mul(nm):
    return "mul_shoup" in nm


def lazy_sources(ip, e):
    """(polynomials whose coefficients reach e otherwise than as left operand of a precomputed multiplication,
        lazily reducing primitives that reach e unreduced)"""
    r = set()
    lz = []
    left = set()
    seen = set()
    st = [(e, True)]
    while st:
        x, fresh = st.pop()
        if (x, fresh) in seen:
            continue
        seen.add((x, fresh))
        if x.op == "fld" and x.d == "ctx":
            continue
        if x.op == "fld" and x.d in ("coefficients",):
            r.add(x.a[0])
            continue
        c = None
        if x.op == "after" and x.a[0].op == "call":
            c = x.a[0]
        elif x.op == "call":
            c = x
        if c is not None and arith(c.d[0]):
            nm = cname(c)
            if is_shoup_mul(nm):
                left.update(b.a[0] for b in deps(ip, c.a[1], lambda n: n.op == "fld" and n.d in ("coefficients", "ctx")) if b.op == "fld" and b.d == "coefficients")
                st.extend((y, False) for y in c.a[2:])
                continue
            if "lazy" in nm:
                if fresh:
                    lz.append(c)
                st.extend((y, fresh) for y in c.a)
            else:
                st.extend((y, False) for y in c.a)
            continue
        st.extend((y, fresh) for y in x.a)
        if x.op == "phi":
            st.extend((y, fresh) for y in ip.phi_in.get(x, {}).values())
        elif x.op == "with":
            st.extend((y, fresh) for y in x.d if isinstance(y, E))
    # the matrix whose rows were overwritten by the product is not a second source
    return sorted(r - left, key=lambda x: x.uid), lz


def may_be_lazy(ip, facts, X, roots):
    ra = root_arg(ip, X)
    if ra is not None and ra not in roots:
        return False
    return not permitted(ip, facts, X, LAZY, False)


def p14(R, tier):
    R.rule("mark-flow", "at every exit, an unmarked result implies that no source polynomial is marked, except the left operand of a multiplication by precomputed companions; coefficients left unreduced by a lazy primitive are marked; only the Ntt representation can be marked")
    R.rule("refusal", "at every modular-arithmetic call other than such a multiplication, the path conditions exclude the mark for every source polynomial")
    P = program()
    pol = ZqOpaque()
    for f in lib_fns(P, ("fhe_math",)):
        if f.kind not in ("fn", "assoc") or not f.reach or f.unsafe or f.derived and f.sname != "clone":
            continue
        if not any(P.mentions(t, is_poly) for t in [f.out] + list(f.ins)):
            continue
        R.fn(f)
        for sub in instances(P, f):
            try:
                F = run(P, f, pol, facts=repr_facts(P, f, sub), tsub=sub)
            except Budget as b:
                R.bad("budget:" + f.name, str(b))
                continue
            p14_one(P, R, F, sub)
    R.floor("outputs", 60)
    R.floor("arithmetic_calls", 30)
    R.floor("lazy_producers", 1)
    R.floor("consumers", 2)


def p14_one(P, R, F, sub):
    f, ip = F.fn, F.ip
    poly, perm, data, consts, gen = arg_kinds(P, F)
    roots = {e for e, t in poly if not (P.adt_of(t) == POLY and repr_of(P, t, sub) != "Ntt")} | set(gen)
    for e in F.evs:
        if e.kind != "call" or not arith(e.callee):
            continue
        nm = e.callee.sname
        if "::ntt::" in e.callee.name or nm.startswith(("reduce", "lazy_reduce", "modulus", "shoup", "serialize", "deserialize", "random")):
            continue
        args = e.args[2:] if is_shoup_mul(nm) else e.args[1:]
        for a in args:
            srcs, _ = lazy_sources(ip, a)
            for X in srcs:
                R.count("arithmetic_operands")
                R.check(not may_be_lazy(ip, e.st.facts, X, roots), "%s in %s" % (nm, stable(f)),
                        "%s: %s applied to %s, which may hold unreduced coefficients (entry %s)" % (e.where(), nm, show(X, 4), f.name), "%s in %s: %s reduced" % (nm, f.name, show(X, 3)))
        R.count("arithmetic_calls")
    # serialization
    if "proto" in (P.adt_of(f.out) or ""):
        for o in F.outs:
            for e, t in poly:
                R.count("serializers")
                R.check(e not in roots or permitted(ip, o.facts, e, LAZY, False), "serialize " + stable(f), "%s:%s %s may serialize a polynomial with unreduced coefficients" % (f.file, f.line, f.name), f.name)
    for lab, o, facts, t in out_polys(P, F):
        co = proj(o, ("f", "coefficients"))
        L = proj(o, ("f", LAZY))
        srcs, lz = lazy_sources(ip, co)
        R.count("outputs")
        key = "%s %s" % (stable(f), lab)
        s2 = ip.assume(St({}, facts), L, False)
        if lz:
            R.count("lazy_producers")
            R.check(s2 is None, "lazy " + key, "%s:%s %s of %s holds coefficients left unreduced by %s without the mark" % (f.file, f.line, lab, f.name, cname(lz[0])), f.name + ": marked")
        rep = repr_of(P, t, sub)
        if rep is not None and rep != "Ntt":
            ra = root_arg(ip, L)
            b = L
            while b.op in ("fld", "vfld"):
                b = b.a[0]
            if b.op == "call":
                R.count("delegated")  # produced by another function, which carries the obligation
                continue
            inv = L.op == "fld" and L.d == LAZY and ra is not None and ra not in roots
            R.check(inv or ip.assume(St({}, facts), L, True) is None, "representation " + key, "%s:%s %s of %s may hold unreduced coefficients in representation %s" % (f.file, f.line, lab, f.name, rep))
        if s2 is None:
            R.ok()
            continue
        badx = [X for X in srcs if may_be_lazy(ip, s2.facts, X, roots)]
        if not lz and co.op != "fld" and any(x.op == "call" and arith(x.d[0]) and is_shoup_mul(cname(x)) for x in deps(ip, co)):
            R.count("consumers")
            R.check(ip.assume(St({}, facts), L, True) is None, "stale " + key, "%s:%s %s of %s keeps the mark although the multiplication reduced its coefficients" % (f.file, f.line, lab, f.name), f.name + ": mark cleared")
        R.check(not badx, key, "%s:%s %s of %s loses the mark of %s" % (f.file, f.line, lab, f.name, ", ".join(show(x, 4) for x in badx)), "%s %s" % (f.name, lab))


# ------------------------------------------------------------------ P15


def similar(ip, a, b, memo=None):
    """a and b are the same computation, b reading the companions where a reads the coefficients"""
    memo = memo if memo is not None else set()
    if a is b:
        # identical values are fine unless the companions are read off the coefficients themselves
        return not any(x.op == "fld" and x.d == "coefficients" for x in deps(ip, a))
    if (a, b) in memo:
        return True
    memo.add((a, b))
    ka = a.op == "fld" and a.d == "coefficients"
    if ka:
        x = b
        if x.op == "vfld" and x.d == ("Some", "0"):
            x = x.a[0]
        return x.op == "fld" and x.d == "coefficients_shoup" and x.a[0] is a.a[0]
    if a.op in ("pos", "each") and b.op in ("pos", "each"):
        return True
    if b.op == "struct" and b.d[1] == "Some" and a.op != "struct":
        return similar(ip, a, b.a[0], memo)
    if a.op == "phi" and b.op == "phi":
        ia = [v for v in ip.phi_in.get(a, {}).values() if v is not a]
        ib = [v for v in ip.phi_in.get(b, {}).values() if v is not b]
        return all(any(similar(ip, x, y, memo) for y in ib) for x in ia) and all(any(similar(ip, x, y, memo) for x in ia) for y in ib)
    if a.op != b.op or len(a.a) != len(b.a):
        return False
    if a.op == "call":
        if a.d[0] != b.d[0]:
            return False
    elif a.op == "with":
        if len(a.d) != len(b.d) or any((not isinstance(x, E) and x != y) for x, y in zip(a.d, b.d)):
            return False
        if not all(similar(ip, x, y, memo) for x, y in zip(a.d, b.d) if isinstance(x, E) and isinstance(y, E)):
            return False
    elif a.op in ("fld", "vfld", "bin", "un", "const", "struct") and a.d != b.d:
        return False
    return all(similar(ip, x, y, memo) for x, y in zip(a.a, b.a))


def unsome(e):
    while e.op == "struct" and e.d[1] == "Some":
        e = e.a[0]
    return e


def chain(ip, e):
    """(leaves, updates, merges) of the value a chain of merges and element updates builds"""
    leaves, ups, phis, st, seen = [], [], set(), [e], set()
    while st:
        x = unsome(st.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and ip.phi_in.get(x):
            phis.add(x)
            st += phi_ins(ip, x)
        elif x.op == "with":
            ups.append(x)
            st.append(x.a[0])
        else:
            leaves.append(x)
    return leaves, ups, phis


def row_index(ip, e, alts):
    """index of the row of one of alts that e reads, or None"""
    while e.op in ("idx", "slice", "ref", "call", "vfld"):
        if e.op == "idx" and e.a[0] in alts:
            return e.a[1]
        if e.op == "call" and cname(e) not in VIEWS:
            return None
        if not e.a:
            return None
        e = e.a[0]
    return None


def place(i):
    """an index that counts up from zero is the position it counts"""
    if i is not None and i.op == "idx" and i.a[1].op == "pos" and i.a[0].op == "it" and i.a[0].d == "range" and len(i.a[0].a) == 2 and i.a[0].a[0].op == "const" and i.a[0].a[0].d == 0:
        return i.a[1]
    return i


def every_row(ip, facts, p, leaves, i):
    """the loop over rows i ended having visited every row"""
    if covers(ip, facts, p, i):
        return True
    j = place(i)
    if j is None or j.op != "pos" or "part" in j.d or not exhausted(facts, j.d):
        return False
    if j is i:
        return True
    hi = i.a[0].a[1]
    dims = {d for x in leaves if x.op == "call" and cname(x) == "zeros" and x.a for d in x.a[0].a[:1]}
    return hi in dims or hi.op in ("len", "cnt", "call") and bool(hi.a) and any(x.op == "fld" and x.d == "q" for x in deps(ip, hi)) and all(x.op in ("len", "cnt", "it", "fld", "arg", "ref") or x.op == "call" and cname(x) in ("len",) for x in deps(ip, hi))


VIEWS = ("as_slice", "to_vec", "as_ref", "view", "row", "to_slice", "deref", "unwrap", "to_owned", "clone", "iter")


def derived_companions(ip, facts, S, C):
    """S is filled, row by row, by shoup_vec of the modulus of the row and that row of C"""
    leaves, ups, phis = chain(ip, S)
    if any(x.op == "struct" and x.d[1] == "None" for x in leaves):
        return False
    alts = {C} | chain(ip, C)[2] if C.op == "phi" else {C}

    def calls(vs):
        return {x for v in vs for x in deps(ip, v, lambda n: n in phis or n in alts) if x.op == "call" and cname(x) in ("shoup_vec", "shoup")}

    def carried(i, vs):
        """a value computed for the row of an earlier turn may reach vs"""
        at = place(i)
        for v in vs:
            for x in deps(ip, v, lambda n: n in phis or n in alts):
                if x.op != "phi" or x in phis or x in alts:
                    continue
                lp = loop_of_phi(ip, x)
                if lp and at.op == "pos" and site_in(lp, at.d) and calls([x]):
                    return True
        return False

    def of_row(c, i):
        m = c.a[0]
        return m.op == "idx" and (i is None or place(m.a[1]) is place(i)) and m.a[0].op == "fld" and m.a[0].d == "q" and any(place(row_index(ip, a, alts)) is place(m.a[1]) for a in c.a[1:])

    if not ups:
        # collected in one go
        cs = calls(leaves)
        return bool(cs) and all(of_row(c, None) for c in cs)
    for u in ups:
        i = u.d[1] if isinstance(u.d, tuple) and len(u.d) > 1 and isinstance(u.d[1], E) else None
        cs = calls(u.a[1:])
        if i is None or not cs or not all(of_row(c, i) for c in cs) or carried(i, u.a[1:]):
            return False
        if any(u in phi_ins(ip, p) and not every_row(ip, facts, p, leaves, i) for p in phis):
            return False
    return True


def zero_like(ip, e):
    while e.op == "struct" and e.d[1] == "Some":
        e = e.a[0]
    return e.op == "call" and cname(e) in ("zeros",)


REPTRAIT = "fhe_math::rq::RepresentationTag"


def representations(P):
    return sorted({P.ty(im["self"])["p"] for im in P.impls if im.get("trait") == REPTRAIT and P.ty(im["self"])["k"] == "adt"})


def instances(P, f):
    """instantiations of a function's representation parameters (one map per combination)"""
    reps = representations(P)
    out = [{}]
    for n in f.gp:
        bs = [b for m, b in f.gb if m == n]
        if REPTRAIT not in bs and not any(b.startswith("fhe_math::rq::") and "Representation" in b for b in bs):
            continue
        ok = [r for r in reps if all(b in LANG or any(im.get("trait") == b and P.ty(im["self"]).get("p") == r for im in P.impls) or not b.startswith("fhe") for b in bs)]
        out = [dict(m, **{n: r}) for m in out for r in ok]
    return out


LANG = ("core::marker::Sized",)


def repr_of(P, t, sub={}):
    """'NttShoup' / other name of the representation of a polynomial type"""
    ty = P.ty(P.peel(t))
    if ty.get("p") in ("core::result::Result", "core::option::Option"):
        ty = P.ty(P.peel([a for a in ty["a"] if isinstance(a, int)][0]))
    for a in ty.get("a", []):
        if isinstance(a, int):
            x = P.ty(a)
            n = sub.get(x["n"], "?") if x["k"] == "param" else x["s"]
            return n.rsplit("::", 1)[-1]
    return None


def repr_facts(P, f, sub):
    """invariants of the operands: companions exactly in the precomputed representation, the mark only in Ntt"""
    facts = {}
    b = f.body
    for i in range(b.argc):
        t = b.locals[i + 1]
        if P.adt_of(t) != POLY:
            continue
        r = repr_of(P, t, sub)
        X = mk("arg", (i, b.names.get(i + 1, "arg%d" % i)))
        S = proj(X, ("f", "coefficients_shoup"))
        facts[mk("is", "Some" if r == "NttShoup" else "None", (S,))] = True
        if r != "Ntt":
            facts[proj(X, ("f", LAZY))] = False
    return facts


def p15(R, tier):
    R.rule("companions", "at every exit, a returned or updated polynomial in the precomputed representation carries companions computed from (or permuted like) its coefficients, and no companions otherwise; generic functions are analysed once per representation")
    P = program()
    pol = ZqOpaque()
    for f in lib_fns(P, ("fhe_math",)):
        if f.kind not in ("fn", "assoc") or not f.reach or f.unsafe or f.derived and f.sname != "clone":
            continue
        if not any(P.mentions(t, is_poly) for t in [f.out] + list(f.ins)):
            continue
        if f.sname == "zeroize":
            continue
        R.fn(f)
        for sub in instances(P, f):
            try:
                F = run(P, f, pol, facts=repr_facts(P, f, sub), tsub=sub)
            except Budget as b:
                R.bad("budget:" + f.name, str(b))
                continue
            p15_one(P, R, F, sub)
    R.floor("outputs", 60)
    R.floor("precomputed_outputs", 8)


def p15_one(P, R, F, sub):
    f, ip = F.fn, F.ip
    for lab, o, facts, t in out_polys(P, F):
        C = proj(o, ("f", "coefficients"))
        S = proj(o, ("f", "coefficients_shoup"))
        if o.op not in ("struct", "with") and C.op == "fld":
            continue
        R.count("outputs")
        rep = repr_of(P, t, sub)
        key = "%s %s" % (stable(f), lab)
        where = "%s:%s %s of %s in representation %s" % (f.file, f.line, lab, f.name, rep)
        none = S.op == "struct" and S.d[1] == "None" or ip.holds(facts, mk("is", "None", (S,))) is True
        same = C.op == "fld" and C.d == "coefficients" and S.op == "fld" and S.d == "coefficients_shoup" and C.a[0] is S.a[0]
        if rep == "NttShoup":
            R.count("precomputed_outputs")
            zero = zero_like(ip, C) and zero_like(ip, S)
            good = derived_companions(ip, facts, S, C) or same or zero or similar(ip, C, S)
            R.check(good and not none, key, where + " has companions that are not computed from its coefficients", where)
        else:
            src = S.a[0] if S.op == "fld" and S.d == "coefficients_shoup" else None
            ra = root_arg(ip, src) if src is not None else None
            inherit = ra is not None and all(repr_of(P, t2, sub) != "NttShoup" for e, t2, n in F.args if e is ra)
            R.check(none or inherit, key, where + " may carry companions (%s)" % show(S, 4), where)
