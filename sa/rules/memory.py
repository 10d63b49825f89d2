"""Unchecked memory accesses are preceded by length checks (P21)."""
from ..fhe import *
from ..ctxs import *
from ..ineq import Ineq, last
from ..common import program, run, lib_fns, forall_facts, matches
from ..mir import PEEL
from .decode import Size, length
from .panics import typed, rows
from .types import stable
from . import kernel
from .. import models as M

ELEM = ("slice::get_unchecked", "slice::get_unchecked_mut")
MANY = ("slice::get_disjoint_unchecked_mut",)
PARTS = ("raw::from_raw_parts", "raw::from_raw_parts_mut")
STEP = ("const_ptr::offset", "mut_ptr::offset", "const_ptr::add", "mut_ptr::add")
FLAT = ("impl_methods::as_mut_ptr", "impl_methods::as_ptr")
SITES = ELEM + MANY + PARTS + STEP
# unsafe functions of the libraries that access no memory by an unchecked index, or only behind a macro's own checks
HARMLESS = ("SliceInfo::new_unchecked", "hint::", "intrinsics::size_of", "num::unchecked_")
NTTOP = ("fhe_math::ntt::native::NttOperator", "fhe_math::ntt::tfhe::NttOperator")
CTXT = "fhe_math::rq::context::Context"


def sites(P):
    """functions containing unchecked accesses: {function: [callee]}"""
    r = {}
    for f in lib_fns(P):
        if not f.body:
            continue
        for b in f.body.blocks:
            t = b["t"]
            if t[0] != "call" or t[1][0] != "k":
                continue
            c = t[1][1].get("fn")
            if not c or not c.get("unsafe") or c["h"] in P.fns:
                continue
            r.setdefault(f, []).append(c["p"])
    return r


class Unchecked(FhePol):
    split = 128
    record = SITES + FLAT

    def __init__(self, P, open_):
        FhePol.__init__(self)
        self.P_, self.open = P, open_

    def inline(self, fn, ctx):
        from .panics import inside
        return fn in self.open or fn.kind == "closure" or inside(fn)


def owner(P, f):
    while f.kind == "closure" and f.parent in P.fns:
        f = P.fns[f.parent]
    return f


# ---------------------------------------------------------- shapes of matrices, sizes of transforms

SAME = ("clone", "to_owned", "into_owned", "view", "view_mut", "deref", "as_ref", "into", "as_standard_layout", "as_slice", "as_slice_mut", "as_slice_memory_order", "borrow", "mapv", "map", "mapv_into", "reborrow")
MAKES = ("zeros", "from_elem", "ones", "from_shape_vec", "from_shape_fn", "from_shape_simple_fn", "uninit", "default")
# operations after which the elements need not lie in order
STRANGE = ("t", "reversed_axes", "permuted_axes", "invert_axis", "swap_axes", "merge_axes", "slice_move", "slice_collapse", "collapse_axis", "f", "set_f", "strides", "index_axis_move", "from_shape_vec_unchecked", "slice_each_axis", "slice_each_axis_inplace", "column", "column_mut", "axis_iter", "axis_iter_mut")
# in-place operations that keep shape and layout
KEEPS = ("zeroize", "assign", "fill", "mapv_inplace", "map_inplace", "swap", "par_mapv_inplace", "scaled_add", "iter_mut", "clone_from", "zip_mut_with")


class Shapes(Size):
    """lengths of the pieces of matrices too"""

    def __init__(self, C, facts, st):
        Size.__init__(self, C, facts, st)
        self.seen = set()

    def shape(self, e):
        """dimensions of an array of several dimensions; None when unknown"""
        if e in self.seen:
            return None
        self.seen.add(e)
        try:
            return self._shape(e)
        finally:
            self.seen.discard(e)

    def _shape(self, e):
        C = self.C
        if e.op == "fld" and e.d in ("coefficients", "coefficients_shoup"):
            p = e.a[0]
            c = C.U(p) if C.is_poly(p) else F(p, "ctx")
            return length(F(c, "q")), F(c, "degree")
        if e.op == "vfld" and e.d[0] in ("Ok", "Some", "Owned", "Borrowed"):
            return self.shape(e.a[0])
        if e.op == "struct" and e.d[1] in ("Ok", "Some", "Owned", "Borrowed"):
            return self.shape(e.a[0])
        if e.op == "call":
            n = last(e.d[0])
            if n in MAKES and e.a:
                d = e.a[0]
                if d.op in ("tup", "tuple", "struct", "arr"):
                    return tuple(d.a)
                return None
            if n == "coefficients" and len(e.a) == 1:
                return self.shape(F(e.a[0], "coefficients"))
            if n in SAME and e.a:
                return self.shape(e.a[0])
            return None
        if e.op == "idx":
            s = self.shape(e.a[0])
            return s[1:] if s is not None and len(s) > 1 else None
        if e.op in ("with", "filled"):
            return self.shape(e.a[0])
        if e.op == "after":
            n = last(e.a[0].d[0]) if e.a[0].op == "call" else ""
            return self.shape(e.a[1]) if n in KEEPS or keeps(self.ip.P, e.a[0]) else None
        if e.op == "sub" and e.d and e.d[0] == "slice":
            s = self.shape(e.a[0])
            return (None,) + s[1:] if s is not None and e.d[-1] == "rows" else None
        if e.op == "phi":
            ss = set()
            for v in self.starts(e):
                s = self.shape(v)
                if s is None:
                    return None
                ss.add(tuple(C.canon(x) if x is not None else None for x in s))
            return ss.pop() if len(ss) == 1 else None
        return None

    def starts(self, e):
        """what e was before its elements were changed"""
        st, seen, r = [e], set(), []
        while st:
            x = st.pop()
            if x in seen or x.op == "never":
                continue
            seen.add(x)
            if x.op == "phi":
                st.extend(phi_ins(self.ip, x))
            elif x.op in ("with", "filled", "swapped") or x.op == "after" and x.a[0].op == "call" and (last(x.a[0].d[0]) in KEEPS or keeps(self.ip.P, x.a[0])):
                st.append(x.a[1] if x.op == "after" else x.a[0])
            else:
                r.append(x)
        return r

    def of(self, s, depth=0):
        if s is not None and depth < 30:
            d = self.shape(s)
            if d is not None and None not in d:
                n = d[0]
                for x in d[1:]:
                    n = X.binop("Mul", n, x)
                return n
            if s.op in ("phi", "with", "filled", "after"):
                bs = self.starts(s)
                if s not in bs:
                    ns = [self.of(b, depth + 1) for b in bs]
                    if ns and all(n is not None and self.C.canon(n) is self.C.canon(ns[0]) for n in ns):
                        return ns[0]
        return Size.of(self, s, depth)


def keeps(P, c):
    """a transform or modular operation on slices handed out by the matrix"""
    f = fn_named(P, c.d[0])
    return f is not None and f.crate == "fhe_math" and ("::zq::" in f.name or "::ntt::" in f.name)


class Mem(Ineq):
    def norm(self, e):
        e = Ineq.norm(self, e)
        for _ in range(4):
            r = None
            if e.op == "fld" and e.d == "size" and self.C.T.adt(e.a[0]) in NTTOP + (None,):
                r = self.points(e.a[0])
            elif e.op == "call" and last(e.d[0]) in ("ntt_size", "size") and len(e.a) == 1:
                r = self.points(e.a[0])
            elif e.op == "fld" and e.d == "degree":
                c = self.C.canon(e.a[0])
                if c.op == "CL":
                    r = F(c.a[0], "polynomial_degree")
            elif e.op == "call" and last(e.d[0]) == "degree" and len(e.a) == 1:
                r = F(e.a[0], "polynomial_degree" if self.C.T.adt(e.a[0]) == PAR else "degree")
            elif e.op == "len" or e.op == "call" and e.d[0] == "len" and len(e.a) == 1:
                r = fixed_len(self, e.a[0])
            if r is None or r is e:
                return e
            e = Ineq.norm(self, r)
        return e

    def points(self, op):
        """number of points of a transform"""
        op = self.C.canon(op)
        while op.op == "vfld" and op.d[0] in ("Some", "Ok") or op.op == "fld" and op.d in ("native_operator", "tfhe_operator"):
            op = op.a[0]
        if op.op == "fld" and op.d == "ntt_operator":
            return F(op.a[0], "polynomial_degree")
        if op.op == "idx":
            s = op.a[0]
            while s.op in ("slice", "sub"):
                s = s.a[0]
            if s.op == "fld" and s.d == "ops":
                return F(s.a[0], "degree")
        return None


PAR = "fhe::bfv::parameters::BfvParameters"


def axioms(I, x):
    """lengths that the constructors of the objects fix"""
    from .panics import axioms as base
    yield from base(I, x)
    if x.op == "call" and x.d[0] == "len" and len(x.a) == 1 or x.op == "len":
        y = fixed_len(I, x.a[0])
        if y is not None:
            yield x, y, 0
            yield y, x, 0


def fixed_len(I, s):
    """length of a field as every constructor fixes it (checked at the constructors)"""
    if s.op == "fld":
        t = I.C.T.adt(s.a[0])
        if s.d in ("omegas", "omegas_shoup", "zetas_inv", "zetas_inv_shoup"):
            return F(s.a[0], "size")
        if s.d in ("omega", "omega_shoup", "gamma", "gamma_shoup") and t in (RNSSCALER, None):
            return length(F(s.a[0], "to", "moduli"))
        if s.d == "moduli_u64":
            return length(F(s.a[0], "moduli"))
        if s.d == "ops":
            return length(F(s.a[0], "q"))
    if s.op == "idx" and s.a[0].op == "fld" and s.a[0].d in ("omega", "omega_shoup"):
        return length(F(s.a[0].a[0], "from", "moduli"))
    return None


RNSSCALER = "fhe_math::rns::scaler::RnsScaler"


# ---------------------------------------------------------- the accesses

def lengths_in(c):
    st, seen = [c], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "len" or x.op == "call" and last(x.d[0]) == "len" and len(x.a) == 1:
            yield x
        if len(seen) < 300:
            st.extend(x.a)


def parts_in(c):
    """lengths and elements named in an expression"""
    st, seen = [c], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("len", "idx") or x.op == "call" and last(x.d[0]) == "len" and len(x.a) == 1:
            yield x
        if len(seen) < 300:
            st.extend(x.a)


def bind(p, e, m):
    if p.op == "each" and p is not e:
        return m.setdefault(p, e) is e
    return len(p.a) == len(e.a) and all(bind(x, y, m) for x, y in zip(p.a, e.a) if isinstance(x, E))


class At:
    def __init__(self, G, e, T):
        self.G, self.e, self.ip = G, e, G.ip
        self.T = T
        self.build(dict(e.st.facts))

    def build(self, facts):
        G, e = self.G, self.e
        self.C = Ctx(G, facts, self.T)
        self.had = facts
        self.size = Shapes(self.C, facts, e.st)
        self.I = Mem(self.C, self.size, axioms)
        for x in {x for c in facts for x in lengths_in(c)}:
            y = fixed_len(self.I, x.a[0])
            if y is not None:
                self.C.union(x, y)

    def arg(self, i):
        e = self.e
        return self.ip.snap(e.st, self.ip.deref_all(e.st, e.args[i]))

    def place(self, i):
        """(array, number of indices): where the reference points, as an array and how far into its dimensions"""
        r = self.e.args[i]
        st = self.e.st
        if r.op != "ref":
            return None
        root, path = r.d[0], r.d[1]
        k = turns = 0
        while k <= len(path):
            b = ref(root, path[:k], r.d[2])
            w = self.ip.read_addr(st, root, path[:k])
            if w.op == "ref" and w.d[:2] != (root, path[:k]) and turns < 8:
                root, path = w.d[0], w.d[1] + path[k:]
                k, turns = 0, turns + 1
                continue
            v = self.ip.snap(st, self.ip.deref_all(st, b))
            if self.size.shape(v) is not None and all(c[0] in ("i", "x", "s") for c in path[k:]):
                return v, path[k:]
            k += 1
        return None

    def room(self, i):
        """number of elements behind the reference"""
        p = self.place(i)
        if p is not None:
            s = self.size.shape(p[0])
            for c in p[1]:
                if c[0] == "i":
                    s = s[1:]
                elif c[0] == "x" and c[1] == "slice":
                    s = (None,) + s[1:]
                else:
                    s = ()
                    break
            if s and None not in s:
                n = s[0]
                for x in s[1:]:
                    n = X.binop("Mul", n, x)
                return n
        return length(self.arg(i))

    def snap(self, v):
        return self.ip.snap(self.e.st, v)

    def length_of(self, n):
        """a length as the constructors fix it"""
        if n.op == "len" or n.op == "call" and n.d[0] == "len":
            return fixed_len(self.I, n.a[0]) or n
        return n

    def le(self, a, b, s=0):
        if self.I.proves(a, b, s):
            return True
        # what was checked of every element holds of these
        facts = dict(self.had)
        here = {y for x in (a, b) for y in parts_in(x)}
        for c, v in forall_facts(self.had):
            for p in parts_in(c):
                for y in here:
                    m = {}
                    if p is not y and matches(p, y) and bind(p, y, m):
                        facts.setdefault(repl_all(c, m), v)
        if len(facts) == len(self.had):
            return False
        self.build(facts)
        return self.I.proves(a, b, s)


def allowed(S):
    e = S.e
    if e.key in FLAT:
        p = S.place(0)
        return straight(S, p[0] if p is not None else S.arg(0))
    if S.I.impossible():
        return True
    if e.key in PARTS:
        return S.le(S.arg(1), S.room(0))
    if e.key in MANY:
        i = S.arg(1)
        n = S.room(0)
        if i.op != "arr":
            return False
        return all(S.le(x, n, 1) for x in i.a) and all(S.le(x, y, 1) or S.le(y, x, 1) for k, x in enumerate(i.a) for y in i.a[:k])
    if e.key in STEP:
        return S.le(const(0), S.arg(1)) and S.le(S.arg(1), S.room(0), 1)
    i = S.arg(1)
    if i.op == "struct":
        from .panics import indexed
        return indexed(S)
    return S.le(i, S.room(0), 1)


def in_rounds(S, parts):
    """by the rounds of the enclosing loops; True, False or None"""
    e = S.e
    if e.key not in ELEM + MANY:
        return None
    i = S.arg(1)
    if e.key in MANY and i.op != "arr":
        return None
    n = [S.room(0)]
    r = e.args[0]
    if r.op == "ref":
        b = M.base_ref_of(S.ip, e.st, r)
        n = parts.get((b.d[0], b.d[1]), n)

    def leaf(x, N):
        if x.op == "fld" and x.d == "size" and S.C.T.adt(x.a[0]) in NTTOP:
            return N
        if x.op == "call" and last(x.d[0]) == "ntt_size" or x.op == "fld" and x.d in ("degree", "polynomial_degree"):
            return N
        return None
    fr = S.ip.frames.get(e.ctx)
    if fr is None:
        return None
    return kernel.decide(S.ip, fr.body, e.ctx, e.blk, e.st.facts, list(i.a) if i.op == "arr" else [i], [S.length_of(x) for x in n], leaf)


def straight(S, e, seen=frozenset(), edge={}):
    """the elements of the array lie one after the other"""
    if e in seen:
        return True
    if e.op != "arg":
        seen |= {e}
    if e.op == "fld" and e.d in ("coefficients", "coefficients_shoup"):
        # checked where polynomials are made
        return True
    if e.op == "vfld" and e.d[0] in ("Ok", "Some", "Owned", "Borrowed") or e.op == "struct" and e.d[1] in ("Ok", "Some", "Owned", "Borrowed"):
        return straight(S, e.a[0], seen)
    if e.op == "call":
        n = last(e.d[0])
        if n in MAKES:
            return not any(x.op == "call" and last(x.d[0]) in STRANGE for x in e.a)
        if n == "as_standard_layout":
            return True
        if n == "coefficients":
            return True
        if n in SAME and e.a:
            return straight(S, e.a[0], seen)
        return n not in STRANGE
    if e.op in ("idx", "with", "filled"):
        return straight(S, e.a[0], seen)
    if e.op in ("sub", "slice"):
        return straight(S, e.a[0], seen)
    if e.op == "after":
        n = last(e.a[0].d[0]) if e.a[0].op == "call" else ""
        return n not in STRANGE and straight(S, e.a[1], seen)
    if e.op == "phi":
        return all(straight(S, v, seen, S.ip.edge_facts.get((e.d[0], e.d[1]) + tuple(k)) or {}) for k, v in S.ip.phi_in[e].items() if v.op != "never")
    if e.op == "arg":
        return any(c.op == "call" and last(c.d[0]) == "is_standard_layout" and v is True and S.snap(c.a[0]) is e for c, v in list(S.C.facts.items()) + list(edge.items()))
    return False


# ---------------------------------------------------------- what the constructors establish

RNSCTX = "fhe_math::rns::RnsContext"
NATIVE, TFHE = NTTOP
LENGTHS = {
    NATIVE: [(f, ("size",)) for f in ("omegas", "omegas_shoup", "zetas_inv", "zetas_inv_shoup")],
    RNSSCALER: [(f, ("to", "moduli")) for f in ("omega", "omega_shoup", "gamma", "gamma_shoup")] + [("omega*", ("from", "moduli")), ("omega_shoup*", ("from", "moduli"))],
    RNSCTX: [("moduli_u64", ("moduli",))],
    CTXT: [("ops", ("q",)), ("moduli", ("q",))],
}
PARTSOF = {CTXT: [("ops*", "degree")], PAR: [("ntt_operator", "polynomial_degree")], TFHE: [("tfhe_operator", None)]}


class Building(FhePol):
    split = 64

    def inline(self, fn, ctx):
        if fn.kind == "closure":
            return True
        if fn.out is None or fn.name.rsplit("::", 1)[-1] in ("new", "try_new"):
            return False
        return fn.crate == "fhe_math" and holds_vec(self.P_, fn.out) or "ntt::" in self.P_.tystr(fn.out) and "NttOperator" in self.P_.tystr(fn.out)


def holds_vec(P, t, d=0):
    k = P.ty(t)
    if k["k"] == "tuple" and d < 2:
        return any(holds_vec(P, x, d + 1) for x in k.get("a", ()))
    return k["k"] == "adt" and P.tystr(t).startswith(("std::vec::Vec<u64", "alloc::vec::Vec<u64"))


def constructors(P, R):
    made = {}
    for f in sorted(lib_fns(P), key=lambda f: f.name):
        if f.body is None or f.kind == "closure":
            continue
        for g in [f] + [g for g in P.fns.values() if g.kind == "closure" and owner(P, g) is f and g.body]:
            for b in g.body.blocks:
                for st in b["s"]:
                    for a in aggregates(st):
                        if a in LENGTHS or a in PARTSOF:
                            made.setdefault(f, set()).add(a)
    seen = set()
    for f in sorted(made, key=lambda f: f.name):
        if f.derived:
            continue
        pol = Building()
        pol.P_ = P
        G = run(P, f, pol)
        R.fn(f)
        T = typed(G)
        for o in objects(G):
            if o.adt not in made[f] or o.v.op != "struct":
                continue
            C = Ctx(G, o.facts, T)
            for x in kernel.walk(o.v):
                if x.op == "fld" and x.d == "moduli_u64":
                    C.union(length(x), length(F(x.a[0], "moduli")))
            S = Shapes(C, o.facts, o.st)
            seen.add(o.adt)
            for fd, want in LENGTHS.get(o.adt, ()):
                v = F(o.v, fd.rstrip("*"))
                vs = S.starts(v) or [v]
                if fd.endswith("*"):
                    vs = [X.index(x, mk("pos", ("element",))) for x in vs]
                ns = [known(S, x) for x in vs]
                w = F(o.v, *want)
                w = w if want == ("size",) else known(S, w)
                if w is None or None in ns:
                    R.count("lengths not resolved")
                    continue
                n = next((x for x in ns if C.canon(x) is not C.canon(w)), ns[0])
                R.check(C.canon(n) is C.canon(w), "%s: length of %s" % (stable(f), fd), "%s makes a %s whose %s has %s elements while %s were expected" % (f.name, last(o.adt), fd, show(n, 5)[:120], show(w, 5)[:120]),
                        "%s: %s has %s elements" % (last(o.adt), fd, show(w, 3)))
            for fd, want in PARTSOF.get(o.adt, ()):
                v = F(o.v, fd.rstrip("*"))
                if fd.endswith("*"):
                    v = T_elem(C, v)
                if v.op == "struct" and v.d[1] == "None":
                    continue
                s = points_of(v)
                w = F(o.v, want) if want else points_of(F(o.v, "native_operator"))
                if s is None or w is None:
                    R.count("sizes not resolved")
                    continue
                R.check(C.canon(s) is C.canon(w), "%s: size of %s" % (stable(f), fd), "%s makes a %s whose %s transforms %s points, not %s" % (f.name, last(o.adt), fd, show(s, 5)[:120], show(w, 5)[:120]),
                        "%s: %s transforms %s points" % (last(o.adt), fd, show(w, 3)))
    for a in LENGTHS:
        if a in P.adts:
            R.check(a in seen, "no constructor of %s" % last(a), "no function was found that makes a %s" % a)


def layouts(P, R):
    from .levels import ZqOpaque, failed
    for f in sorted(P.fns.values(), key=lambda f: f.name):
        if f.crate != "fhe_math" or f.body is None or f.kind in ("closure", "trait"):
            continue
        if not (f.out is not None and is_poly_ty(P, f.out) or any(P.ty(t)["k"] == "ref" and P.ty(t).get("m") and is_poly_ty(P, t) for t in f.ins)):
            continue
        G = run(P, f, ZqOpaque())
        R.fn(f)
        for o in objects(G):
            if o.adt != POLY or failed(G, o.facts):
                continue
            v = F(o.v, "coefficients")
            S = Flat(G, o)
            R.count("polynomials with contiguous rows")
            R.check(straight(S, v), "%s: layout of %s" % (stable(f), o.lab), "%s returns or leaves a polynomial (%s) whose coefficients need not be in standard layout: %s" % (f.name, o.lab, show(v, 5)[:200]),
                    "%s: %s is contiguous" % (stable(f), o.lab))


class Flat:
    def __init__(self, G, o):
        self.ip, self.C, self.o = G.ip, Ctx(G, o.facts, typed(G)), o

    def snap(self, v):
        return v


def known(S, v):
    """length of v in terms of what the constructor was given"""
    n = S.of(v)
    if n is None:
        return None
    if n.op == "len" or n.op == "call" and n.d[0] == "len":
        b = n.a[0]
        if b.op == "fld" and b.d == "moduli_u64":
            return length(F(b.a[0], "moduli"))
        while b.op == "fld":
            b = b.a[0]
        if b.op != "arg":
            return None
    return n


def T_elem(C, v):
    while v.op == "vfld":
        v = v.a[0]
    return v.a[0] if v.op.startswith("coll") and v.a else v


def points_of(v):
    """the size given to the constructor of a transform"""
    while v.op == "vfld" and v.d[0] in ("Some", "Ok") or v.op == "struct" and v.d[1] in ("Some", "Ok") or v.op == "call" and last(v.d[0]) in ("new", "from", "clone", "ok_or", "map", "ok") and v.a and len(v.a) < 2 or v.op == "call" and v.d[0] == "<indirect>" and len(v.a) == 2:
        v = v.a[-1]
    if v.op == "call" and last(v.d[0]) in ("new", "try_new") and len(v.a) == 2:
        a, b = v.a
        return a if last(v.d[0]) == "try_new" else b
    return None


def aggregates(s):
    """types a statement builds"""
    if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], dict) and s[2][1].get("k") == "adt":
        yield s[2][1]["p"]


def p21(R, tier):
    R.rule("in bounds", "at every unchecked access that a safe function can reach, the facts of the path and the lengths fixed by the constructors imply that the index lies within the slice")
    R.rule("contiguous", "a pointer into an array is only taken where the array is known to be contiguous")
    R.rule("invariants", "constructors establish the lengths the unchecked code relies on")
    for cfg in ("native", "all"):
        P = program(cfg)
        check_accesses(P, R, cfg)
        constructors(P, R)
        layouts(P, R)
    R.floor("accesses", 60)


def check_accesses(P, R, cfg):
    found = sites(P)
    open_, todo, done = set(), [], set()
    roots = {}
    for f, l in found.items():
        for c in l:
            k = kind_of(c)
            if k == "unknown":
                R.bad("%s calls %s" % (stable(f), c), "%s calls the unsafe function %s, which no rule covers" % (f.name, c))
            elif k:
                roots[owner(P, f)] = 1
    for f in lib_fns(P):
        if f.body and any(b["t"][0] == "call" and b["t"][1][0] == "k" and flat_name(b["t"][1][1].get("fn")) for b in f.body.blocks):
            roots[owner(P, f)] = 1
    todo = sorted(roots, key=lambda f: f.name)
    callers = {}
    for f, gs in callgraph(P).items():
        for g in gs:
            callers.setdefault(P.fns[g], set()).add(P.fns[f])
    left = {}
    while todo:
        f = todo.pop(0)
        if f in done:
            continue
        done.add(f)
        G = run(P, f, Unchecked(P, open_))
        R.fn(f)
        T = typed(G)
        bad = {}
        parts = {}
        for e in G.evs:
            if e.kind == "std" and e.key in PARTS and e.st is not None and e.args[0].op == "ref":
                b = M.base_ref_of(G.ip, e.st, e.args[0])
                parts.setdefault((b.d[0], b.d[1]), []).append(G.ip.snap(e.st, G.ip.deref_all(e.st, e.args[1])))
        for e in G.evs:
            if e.kind != "std" or e.key not in SITES + FLAT or e.st is None:
                continue
            o = owner(P, e.fn)
            at = (e.fn.h, e.blk)
            if o is not f and at not in left:
                continue
            S = At(G, e, T)
            R.count("accesses")
            if allowed(S):
                R.ok("%s: %s in %s" % (stable(f), last(e.key), e.fn.sname))
                continue
            v = in_rounds(S, parts)
            if v is None:
                bad.setdefault(at, (e, S))
            elif v:
                R.ok("%s: %s in %s, for every size" % (stable(f), last(e.key), e.fn.sname))
            else:
                R.bad("%s of %s in %s" % (last(e.key), show(S.arg(0), 3)[:40], stable(e.fn)), "%s: %s accesses elements that do not exist: %s" % (f.name, e.fn.name, show(S.arg(1), 5)[:200]))
        if not bad:
            continue
        if not f.unsafe and f.reach:
            for e, S in bad.values():
                R.bad("%s of %s in %s for %s" % (last(e.key), show(S.arg(0), 3)[:40], stable(e.fn), stable(f)), "%s: %s may access memory out of bounds: %s" % (f.name, e.fn.name, " ; ".join(show(S.arg(n), 4)[:100] for n in range(len(e.args)))))
            continue
        left.update(bad)
        open_.add(f)
        R.count("left to callers")
        for h in sorted({owner(P, g) for g in callers.get(f, ())}, key=lambda h: h.name):
            if h is f:
                continue
            if h not in todo:
                done.discard(h)
                todo.append(h)


def flat_name(c):
    return c is not None and (c["p"].startswith("ndarray") and last(c["p"]) in ("as_ptr", "as_mut_ptr"))


def kind_of(c):
    n = last(c)
    if n in ("get_unchecked", "get_unchecked_mut", "get_disjoint_unchecked_mut", "from_raw_parts", "from_raw_parts_mut", "offset", "add"):
        return "access"
    if c.startswith("core::fmt::") or "SliceInfo" in c:
        return None
    return "unknown"
