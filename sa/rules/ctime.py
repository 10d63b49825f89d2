"""P04: constant-time primitives have no data-dependent control flow.

The modular-arithmetic, transform and scaling functions of fhe-math that are not marked variable-time are interpreted
with symbolic residues; every condition a path commits to (branches, the hidden branches of library calls), every index,
every division and every call is examined for a dependence on the residues."""
from ..common import *
from ..expr import mk
from ..interp import Policy, St
from ..expr import show

INTS = {"u64", "i64", "u128", "i128", "u32", "i32"}
# library calls whose control flow follows the content of their receiver
CONTENT = {
    "position", "rposition", "find", "find_map", "any", "all", "take_while", "skip_while", "map_while", "filter", "filter_map", "sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by",
    "sort_unstable_by_key", "binary_search", "binary_search_by", "partition_point", "contains", "starts_with", "ends_with", "dedup", "retain", "max", "min", "max_by", "min_by", "max_by_key", "min_by_key",
    "then", "then_some", "cmp", "partial_cmp", "partition", "group_by", "chunk_by", "is_sorted",
}
SCALAR_OK = {"max", "min", "cmp", "partial_cmp"}


def marked(name):
    """the name says variable time"""
    return "vt" in name.split("_") or "variable" in name


class Track(Policy):
    errmark = True
    arith = ("Div", "Rem")

    def __init__(self, P, kinds=("fhe_math", "fhe_util")):
        self.P = P
        self.kinds = kinds
        self.seen = {}

    def decided(self, ip, st, c, val):
        fr, b = ip.cur
        self.seen.setdefault((fr.fn, fr.ctx, b, c), st)

    def inline(self, fn, ctx):
        return fn.crate in self.kinds and not marked(fn.sname) and not documented(fn) and not bytes_(self.P, fn) and not scales(self.P, fn)

    def want(self, key, name, callee):
        return True


VARIABLE = {"pow", "inv"}  # documented as variable time
DIVIDES = {"shoup"}  # precomputation of companions, documented to divide


def documented(fn):
    return fn.sname in VARIABLE and fn.self_ty is not None


def word(P, t):
    y = P.ty(t)
    return y["s"] in INTS


def residues(P, F):
    """argument terms whose content is residues"""
    out = set()
    for i, (e, t, n) in enumerate(F.args):
        y = P.ty(t)
        u = y
        while u["k"] in ("ref", "ptr", "slice", "array") and "e" in u:
            u = P.ty(u["e"])
        if u["s"] in INTS and (y["s"] in INTS or y["k"] in ("ref", "ptr")) and u["s"] != "u32":
            out.add(e)
        elif y["k"] in ("ref",) and ("ArrayBase" in u["s"] and "u64" in u["s"] or "rq::Poly<" in u["s"]):
            out.add(e)
    return out


PUBLIC_FIELDS = {"ctx", "allow_variable_time_computations", "has_lazy_coefficients", "_repr"}


# what follows the shape of the data only
SHAPE = {"len", "is_empty", "ptr_eq", "remaining_elements", "nrows", "ncols", "dim", "raw_dim", "shape", "len_of", "ndim", "strides", "is_standard_layout", "capacity"}
# an Option or Result whose variant follows the shape of the first argument (and the values of the others)
PRESENCE = {"as_slice", "as_slice_mut", "as_slice_memory_order", "as_slice_memory_order_mut", "to_slice", "into_slice", "first", "first_mut", "last", "last_mut",
            "split_first", "split_first_mut", "split_last", "split_last_mut", "get", "get_mut", "next", "next_back", "nth", "split_at_checked", "split_at_mut_checked",
            "first_chunk", "first_chunk_mut", "split_first_chunk", "split_first_chunk_mut", "last_chunk", "as_array", "as_mut_array", "get_disjoint_mut"}
SAME_PRESENCE = {"as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied", "ok", "branch"}


class Taint:
    def __init__(self, P, F, secret):
        self.ip, self.secret, self.memo = F.ip, secret, {}

    def __call__(self, e):
        """the value of e depends on a residue"""
        seen, st = set(), [(e, False)]
        while st:
            x, present = st.pop()  # present: only whether it is there matters (the variant of an Option)
            if (x, present) in seen:
                continue
            seen.add((x, present))
            op = x.op
            if present:
                if op in ("it", "fld", "struct", "ctor", "const"):
                    continue
                if op == "phi":
                    st += [(v, True) for v in self.ip.phi_in.get(x, {}).values()]
                    continue
                if op == "call" and str(x.d[0]).split("::")[-1] in PRESENCE:
                    st += [(a, False) for a in x.a[1:]]
                    continue
                if op == "call" and str(x.d[0]).split("::")[-1] in SAME_PRESENCE and x.a:
                    st.append((x.a[0], True))
                    continue
            if x in self.secret:
                return True
            if op in ("len", "cnt", "exhausted", "xexh", "clos", "has_key"):
                continue
            if op == "pos" or op == "each":
                continue
            if op == "call" and str(x.d[0]).split("::")[-1] in SHAPE:
                continue
            if op == "fld" and x.d in PUBLIC_FIELDS:
                continue
            if op in ("is", "disc") and len(x.a) == 1:
                st.append((x.a[0], True))
                continue
            if op == "phi":
                st += [(v, False) for v in self.ip.phi_in.get(x, {}).values()]
            st += [(a, False) for a in x.a]
        return False


def key_of(fn):
    n = fn.name
    for i in range(9):
        n = n.replace("{closure#%d}" % i, "{closure}")
    return n


def bytes_(P, f):
    """f packs or unpacks bytes"""
    return any("u8" in P.tystr(t) for t in list(f.ins) + ([f.out] if f.out is not None else []))


def scales(P, f):
    return f.self_ty is not None and P.tystr(f.self_ty).endswith("RnsScaler")


def entries(P):
    for f in sorted(P.fns.values(), key=lambda f: f.name):
        if f.crate != "fhe_math" or f.kind not in ("fn", "assoc") or f.body is None or f.derived or f.trait or f.self_ty is None or marked(f.sname) or documented(f) or bytes_(P, f):
            continue
        s = P.tystr(f.self_ty)
        if s.endswith(("zq::Modulus", "NttOperator")) and f.ins and P.ty(f.ins[0])["k"] == "ref" and P.ty(P.ty(f.ins[0])["e"]).get("p", "").endswith(("Modulus", "NttOperator")):
            yield f


def examine(R, P, f, what, secret_of, public=lambda P, F: lambda facts: False, kinds=("fhe_math", "fhe_util")):
    pol = Track(P, kinds)
    F = run(P, f, pol)
    if F.ip.incomplete:
        R.bad("incomplete " + f.name, "the analysis of %s did not finish" % f.name)
        return
    secret = secret_of(P, F)
    if not secret:
        return
    R.fn(f)
    R.count("functions examined")
    skip = public(P, F)
    T = Taint(P, F, secret)
    for (fn, ctx, b, c), st in pol.seen.items():
        if skip(st.facts):
            continue
        R.count("conditions")
        R.check(not T(c), "branch " + key_of(fn), "%s branches on the residues it processes (entry %s): %s" % (fn.name, f.name, show(c, 5)[:160]), "%s: %s" % (fn.name, show(c, 3)[:80]))
    for ev in F.evs:
        if ev.st is not None and skip(ev.st.facts):
            continue
        last = str(ev.name).split("::")[-1]
        if ev.kind == "arith":
            R.count("divisions")
            if ev.fn.sname in DIVIDES:
                continue
            R.check(not T(ev.args[0]) and not T(ev.args[1]) or pow2(ev.args[1]), "division " + key_of(ev.fn), "%s divides residues (entry %s): %s" % (ev.fn.name, f.name, show(ev.args[0], 4)[:120]), "%s divides public values" % ev.fn.name)
        elif ev.kind == "assert" and ev.name == "bounds":
            R.count("indices")
            R.check(not T(ev.args[1]), "index " + key_of(ev.fn), "%s indexes by a residue (entry %s)" % (ev.fn.name, f.name), "%s: public index" % ev.fn.name)
        elif ev.kind == "call" and ev.callee is not None:
            R.count("calls")
            if ev.callee.crate not in ("fhe_math", "fhe_util"):
                continue
            bad = (marked(ev.callee.sname) or documented(ev.callee)) and any(T(a) for a in ev.args[0 if ev.callee.self_ty is None else 1:])
            R.check(not bad, "variable-time %s in %s" % (ev.callee.sname, key_of(ev.fn)), "%s applies the variable-time %s to residues (entry %s)" % (ev.fn.name, ev.callee.name, f.name), "%s calls %s" % (ev.fn.name, ev.callee.sname))
        elif ev.kind in ("call", "std"):
            R.count("library calls")
            bad = False
            if last in CONTENT and ev.args:
                bad = T(ev.args[0]) and not (last in SCALAR_OK and scalar(ev))
            elif last in ("get", "get_mut", "get_unchecked", "get_unchecked_mut", "nth", "split_at", "split_at_mut", "swap", "rotate_left", "rotate_right", "uget", "uget_mut") and len(ev.args) > 1:
                bad = any(T(a) for a in ev.args[1:])
            elif last in ("div", "rem", "div_rem", "checked_div", "checked_rem", "rem_euclid", "div_euclid", "wrapping_rem", "wrapping_div", "div_ceil", "is_multiple_of", "next_multiple_of"):
                bad = any(T(a) for a in ev.args)
            R.check(not bad, "library %s in %s" % (last, key_of(ev.fn)), "%s hands residues to %s, whose control flow follows them (entry %s)" % (ev.fn.name, ev.name, f.name), "%s calls %s" % (ev.fn.name, last))


def pow2(e):
    if e.op == "cast" and len(e.a) == 1:
        return pow2(e.a[0])
    if e.op == "bin" and e.d == "Shl":
        return pow2(e.a[0]) and e.a[1].op == "const"
    return e.op == "const" and isinstance(e.d, int) and e.d > 0 and e.d & (e.d - 1) == 0


def scalar(ev):
    return "cmp::Ord" in str(ev.name) or "num" in str(ev.name) or "core::cmp" in str(ev.name)


def operations(P):
    """the functions of the polynomial layer that take polynomials"""
    for f in sorted(P.fns.values(), key=lambda f: f.name):
        if f.crate != "fhe_math" or f.kind not in ("fn", "assoc") or f.body is None or f.derived or marked(f.sname) or f.trait in ("core::cmp::PartialEq", "core::fmt::Debug") or bytes_(P, f):
            continue
        if any("rq::Poly<" in P.tystr(t) for t in f.ins or ()) and "proto::" not in f.name and "proto::" not in " ".join(P.tystr(t) for t in list(f.ins) + ([f.out] if f.out is not None else [])):
            yield f


def permitted(P, F):
    """the facts hold only where variable time is permitted: the data is public (decided by P01 and P06)"""
    flags = {e for e, t, n in F.args if P.tystr(t) == "bool"}
    return lambda facts: any(b and (c in flags or c.op == "fld" and c.d == "allow_variable_time_computations") for c, b in facts.items())


def p04(R, tier):
    R.rule("branch", "no condition a path commits to, in the source or inside a library call with a closure or option, depends on a residue")
    R.rule("index", "no residue is used as an index, length or position")
    R.rule("division", "no residue is divided (the time of a hardware division depends on its operands), the precomputation of companions and shifts excepted")
    R.rule("call", "no function marked variable-time is applied to residues, unless the path has checked the permission flag")
    for cfg in ("native", "all"):
        P = program(cfg)
        for f in entries(P):
            examine(R, P, f, cfg, residues)
        for f in operations(P):
            examine(R, P, f, cfg, residues, permitted)
    R.floor("functions examined", 140)
    R.floor("library calls", 200)
