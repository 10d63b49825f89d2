"""Models of the standard library (and a few ecosystem crates) for the dataflow engine."""
import re
from .expr import *
from . import expr as X

IMPURE = {"rand::rngs::thread::rng", "rand::rng", "rand::thread_rng"}
PURE = set()
RECORD = {
    "slice::get_unchecked", "slice::get_unchecked_mut", "Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect",
    "Index::index", "IndexMut::index_mut",
}

_impl = re.compile(r"^<impl .*?>$")
_kc = {}


def split_path(s):
    out, cur, d = [], "", 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == "<":
            d += 1
        elif ch == ">" and s[i - 1] not in "-=":
            d -= 1
        if d == 0 and s.startswith("::", i):
            out.append(cur)
            cur = ""
            i += 2
            continue
        cur += ch
        i += 1
    out.append(cur)
    return out


def key(name):
    k = _kc.get(name)
    if k is None:
        segs = [x for x in split_path(name) if not x.startswith("<impl")]
        segs = [re.sub(r"<.*", "", x) if not x.startswith("<") else x for x in segs]
        k = "::".join(segs[-2:])
        _kc[name] = k
    return k


MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


# ------------------------------------------------------------------ helpers


def one(c, v):
    return [(v, c.st)]


def val(c, i):
    return c.ip.deref_all(c.st, c.argv[i])


def clone_val(ip, st, a):
    """value of *a, cloned: inner references kept"""
    v = a
    if v.op == "ref":
        v = ip.read_addr(st, v.d[0], v.d[1])
    return v


def m_eq(ip, st, argv, neg=False):
    a, b = ip.snap(st, argv[0]), ip.snap(st, argv[1])
    e = X.eq(a, b)
    return [(bnot(e) if neg else e, st)]


def length(ip, st, v):
    v = ip.snap(st, v)
    op = v.op
    if op in ("arr",):
        return const(len(v.a))
    if op == "with" and v.d[0] == "i":
        return length(ip, st, v.a[0])
    if op == "push":
        return X.binop("Add", length(ip, st, v.a[0]), const(1))
    if op == "fill" and len(v.a) > 1:
        return v.a[1]
    if op == "coll" and len(v.a) > 1:
        l = itlen(ip, st, v.a[1])
        if l is not None:
            return l
    if op == "trunc":
        n = v.a[1]
        return n if False else mk("call", ("len", None, None), (v,))
    if op == "with" and v.d[0] == "f":
        return mk("call", ("len", None, None), (v,))
    if op == "slice":
        lo, hi = v.a[1], v.a[2]
        if hi.d is None and hi.op == "const":
            hi = length(ip, st, v.a[0])
        if lo.op == "const" and lo.d is None:
            lo = const(0)
        return X.binop("Sub", hi, lo)
    return mk("call", ("len", None, None), (v,))


def itlen(ip, st, itv):
    """length of an iterator when it is that of its source"""
    if itv.op != "it":
        return None
    k = itv.d
    if k == "iter":
        return length(ip, st, itv.a[0])
    if k in ("map", "copied", "enum", "rev", "inspect"):
        return itlen(ip, st, itv.a[0])
    if k == "range":
        return X.binop("Sub", itv.a[1], itv.a[0])
    return None


def to_iter(ip, st, v):
    if v.op == "it":
        return v
    if v.op == "struct":
        n = v.d[0].rsplit("::", 1)[-1]
        if n == "Range":
            return it("range", v.a[0], v.a[1])
        if n == "RangeFrom":
            return it("rangefrom", v.a[0])
        if n == "RangeInclusive":
            return it("rangei", v.a[0], v.a[1])
        if n == "Option":
            return it("opt", v)
    if v.op == "ref":
        inner = ip.read_addr(st, v.d[0], v.d[1])
        n = 0
        r = v
        while inner.op == "ref" and n < 8:
            r = inner
            inner = ip.read_addr(st, r.d[0], r.d[1])
            n += 1
        if inner.op == "it":
            return it("byref", r)
        if inner.op == "struct" and inner.d[0].rsplit("::", 1)[-1] in ("Range", "RangeInclusive", "RangeFrom"):
            return it("byref", r)
        return it("iter", r)
    return it("iter", v)


def pull(ip, c, st, itv, site, depth=0):
    """[(item | None(skip), st)] for one arbitrary element of the iterator"""
    if depth > 12:
        return [(mk("idx", None, (itv, mk("pos", site))), st)]
    pos = mk("pos", site)
    if itv.op == "ref":
        itv = ip.deref_all(st, itv)
    if itv.op != "it":
        itv = to_iter(ip, st, itv)
    if not depth:
        seen = ip.pulled.setdefault(site, {})
        was = seen.get(itv)
        seen[itv] = dict(st.facts) if was is None else {c: v for c, v in was.items() if st.facts.get(c) is v}
    k = itv.d
    a = itv.a
    P = lambda x: pull(ip, c, st, x, site, depth + 1)
    if k == "iter":
        s = a[0]
        if s.op == "ref":
            inner = ip.read_addr(st, s.d[0], s.d[1])
            if inner.op == "coll" and inner.a[0].op == "ref":
                return [(X.index(inner, pos), st)] if False else [(ref(s.d[0], s.d[1] + (("i", pos),), s.d[2]), st)]
            return [(ref(s.d[0], s.d[1] + (("i", pos),), s.d[2]), st)]
        return [(X.index(s, pos), st)]
    if k == "byref":
        inner = ip.deref_all(st, a[0])
        return pull(ip, c, st, inner if inner.op == "it" else to_iter(ip, st, inner), site, depth + 1)
    if k in ("range", "rangei", "rangefrom"):
        return [(mk("idx", None, (itv, pos)), st)]
    if k == "opt":
        return [(proj(a[0], ("v", "Some", "0")), st)]
    if k == "zip":
        r = []
        for x, s1 in P(a[0]):
            for y, s2 in pull(ip, c, s1, a[1], site, depth + 1):
                r.append((None if x is None or y is None else tup(x, y), s2))
        return r
    if k == "izip":
        r = [((), st)]
        for q in a:
            n = []
            for xs, s1 in r:
                for y, s2 in pull(ip, c, s1, q, site, depth + 1):
                    n.append((xs + (y,), s2))
            r = n
        return [(None if None in xs else tup(*xs), s) for xs, s in r]
    if k == "enum":
        return [(None if x is None else tup(mk("idx", None, (it("range", const(0), mk("cnt", None, (ip.snap(s, a[0]),))), pos)), x), s) for x, s in P(a[0])]
    if k in ("copied", "cloned"):
        return [(None if x is None else clone_val(ip, s, x), s) for x, s in P(a[0])]
    if k in ("rev", "take", "skip", "step", "fuse", "peekable", "take_while", "skip_while", "cycle"):
        if k in ("take_while", "skip_while", "step"):
            return pull(ip, c, st, a[0], site + ("part",), depth + 1)
        if k == "take" and is_len_of(ip, st, a[1], a[0]):
            return P(a[0])
        if k == "skip" and a[0].op == "it" and a[0].d == "iter":
            s = a[0].a[0]
            return pull(ip, c, st, it("iter", ref(s.d[0], s.d[1] + (("s", a[1], None),), s.d[2]) if s.op == "ref" else proj(s, ("s", a[1], None))), site, depth + 1)
        if k == "take" and a[0].op == "it" and a[0].d == "iter":
            s = a[0].a[0]
            return pull(ip, c, st, it("iter", ref(s.d[0], s.d[1] + (("s", None, a[1]),), s.d[2]) if s.op == "ref" else proj(s, ("s", None, a[1]))), site, depth + 1)
        return pull(ip, c, st, a[0], site + ("part",), depth + 1) if k in ("take", "skip") else P(a[0])
    if k == "chunks":
        s = a[0]
        if s.op == "ref":
            return [(ref(s.d[0], s.d[1] + (("x", "chunk", a[1], pos),), s.d[2]), st)]
        return [(proj(s, ("x", "chunk", a[1], pos)), st)]
    if k == "rows":
        s = a[0]
        if s.op == "ref":
            return [(ref(s.d[0], s.d[1] + (("i", pos),), s.d[2]), st)]
        return [(X.index(s, pos), st)]
    if k == "map":
        r = []
        for x, s in P(a[0]):
            if x is None:
                r.append((None, s))
                continue
            for v, s2 in ip.call_value(s, a[1], [x], site + ("m%d" % depth,), c.line, c.evs, c.fr, c.b):
                r.append((v, s2))
        return r
    if k in ("filter", "filter_map", "inspect"):
        r = []
        for x, s in (P(a[0]) if k == "inspect" else pull(ip, c, st, a[0], site + ("part",), depth + 1)):
            if x is None:
                r.append((None, s))
                continue
            if k == "filter_map":
                for v, s2 in ip.call_value(s, a[1], [x], site + ("m%d" % depth,), c.line, c.evs, c.fr, c.b):
                    for var, pay, s3 in split_enum(ip, s2, v, ("Some", "None")):
                        r.append((pay if var == "Some" else None, s3))
            else:
                s = s.copy()
                root = ("T", site + ("m%d" % depth,))
                s.mem[root] = x
                for v, s2 in ip.call_value(s, a[1], [ref(root)], site + ("m%d" % depth,), c.line, c.evs, c.fr, c.b):
                    if k == "inspect":
                        r.append((x, s2))
                        continue
                    for bv in (True, False):
                        s3 = ip.assume(s2, v, bv)
                        if s3 is not None:
                            r.append((x if bv else None, s3))
        return r
    if k in ("flat_map", "flatten"):
        r = []
        for x, s in P(a[0]):
            if x is None:
                r.append((None, s))
                continue
            vs = ip.call_value(s, a[1], [x], site + ("m%d" % depth,), c.line, c.evs, c.fr, c.b) if k == "flat_map" else [(x, s)]
            for v, s2 in vs:
                for y, s3 in pull(ip, c, s2, to_iter(ip, s2, v), site + ("k",), depth + 1):
                    r.append((y, s3))
                r.append((None, s2))
        return r
    if k == "chain":
        x = P(a[0])
        y = pull(ip, c, st, a[1], site + ("c",), depth + 1)
        return x + y
    if k == "successors":
        return [(mk("idx", None, (ip.snap(st, itv), pos)), st)]
    if k in ("repeat", "once"):
        return [(a[0], st)]
    if k == "empty":
        return []
    return [(mk("idx", None, (ip.snap(st, itv), pos)), st)]


def is_len_of(ip, st, n, itv):
    """n is the number of elements of itv (or of one of the zipped sources)"""
    n = ip.snap(st, n)
    if itv.op == "it" and itv.d == "zip":
        return any(is_len_of(ip, st, n, x) for x in itv.a)
    if itv.op == "it" and itv.d in ("copied", "enum", "map"):
        return is_len_of(ip, st, n, itv.a[0])
    src = ip.snap(st, itv)
    if n.op == "call" and n.d[0] == "count":
        cs = n.a[0]
        return cs.op == "coll" and len(cs.a) > 1 and cs.a[1] is src
    l = itlen(ip, st, itv)
    return l is not None and l is n


def split_enum(ip, st, v, variants):
    """[(variant, payload0, st)]"""
    x = ip.deref_all(st, v) if v.op == "ref" else v
    kv = is_variant(x)
    r = []
    for n in variants:
        if kv is not None:
            if kv == n:
                r.append((n, x.a[0] if x.a else UNIT, st))
            continue
        s2 = ip.assume(st, mk("is", n, (ip.snap(st, x),)), True)
        if s2 is not None:
            pay = UNIT if n == "None" else proj(x, ("v", n, "0"))
            r.append((n, pay, s2))
    return r


def enum_of(c, i=0):
    """variant list by type of the receiver method"""
    return ("Some", "None") if c.key.startswith("Option") else ("Ok", "Err")


# ------------------------------------------------------------------ transparent functions

TRANSPARENT = """
Box::new Arc::new Rc::new Zeroizing::new Vec::into_boxed_slice Vec::as_slice Vec::as_mut_slice
slice::into_vec Deref::deref DerefMut::deref_mut AsRef::as_ref AsMut::as_mut Borrow::borrow BorrowMut::borrow_mut
boxed::box_assume_init_into_vec_unsafe hint::black_box Vec::into_iter_ mem::transmute Arc::unwrap_or_clone
ptr::read Vec::from_raw_parts_ Cow::into_owned String::as_str str::as_bytes String::into_bytes Arguments::as_str
convert::identity Wrapping::0 Vec::as_mut_ptr Vec::as_ptr slice::as_ptr slice::as_mut_ptr Box::into_vec
Box::leak Vec::leak NonNull::as_ptr Box::from_raw Box::into_raw Pin::new Iterator::by_ref Iterator::fuse ManuallyDrop::new
slice::as_slice Option::insert_ intrinsics::assume
""".split()


def m_transparent(c):
    a = c.argv[0]
    if c.key in ("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut"):
        if a.op == "ref":
            v = c.ip.read_addr(c.st, a.d[0], a.d[1])
            if v.op == "ref":
                return one(c, v)
    if c.key in ("boxed::box_assume_init_into_vec_unsafe",):
        return one(c, c.ip.deref_all(c.st, a))
    if c.key in ("Zeroizing::new", "Cow::into_owned"):
        return one(c, a)
    return one(c, a)


for _n in TRANSPARENT:
    MODELS[_n] = m_transparent


@model("Box::new_uninit", "Box::new_zeroed")
def m_newuninit(c):
    return one(c, ref(("B", c.site), (), True))


@model("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "Option::cloned", "Option::copied", "slice::into_vec", "Arc::clone")
def m_clone(c):
    a = c.argv[0]
    v = a
    if c.key in ("Option::cloned", "Option::copied"):
        r = []
        for n, p, s in split_enum(c.ip, c.st, a, ("Some", "None")):
            r.append((some(clone_val(c.ip, s, p)) if n == "Some" else NONE, s))
        return r
    if v.op == "ref":
        v = c.ip.read_addr(c.st, v.d[0], v.d[1])
        # cloning through &&T for slices/owned
        if c.key in ("ToOwned::to_owned", "slice::to_vec") and v.op == "ref":
            v = c.ip.deref_all(c.st, v)
    return one(c, v)


@model("Clone::clone_from", "slice::clone_from_slice", "slice::copy_from_slice", "impl_methods::assign", "impl_methods::assign_to_")
def m_clone_from(c):
    d, s = c.argv[0], c.argv[1]
    v = c.ip.deref_all(c.st, s)
    st = c.st.copy()
    if d.op == "ref":
        r, p = d.d[0], d.d[1]
        x = c.ip.read_addr(st, r, p)
        while x.op == "ref":
            r, p = x.d[0], x.d[1]
            x = c.ip.read_addr(st, r, p)
        c.ip.store_addr(st, r, p, v)
        c.ip.note_store(c.fr, c.b, (None, None, None, c.line), r, p, v, st, c.evs)
    return [(UNIT, st)]


@model("ToOwned::clone_into")
def m_clone_into(c):
    c.argv = [c.argv[1], c.argv[0]]
    return m_clone_from(c)


@model("mem::replace", "mem::take", "Option::take", "Option::replace")
def m_replace(c):
    d = c.argv[0]
    old = c.ip.deref(c.st, d)
    st = c.st.copy()
    if c.key == "mem::replace":
        new = c.argv[1]
    elif c.key == "Option::replace":
        new = some(c.argv[1])
    elif c.key == "Option::take":
        new = NONE
    else:
        new = X.call("Default::default", None, (), c.ip.P.tystr(c.q["a"][0]) if c.q["a"] and isinstance(c.q["a"][0], int) else None)
    if d.op == "ref":
        c.ip.store_addr(st, d.d[0], d.d[1], new)
    return [(old, st)]


@model("mem::swap")
def m_swap(c):
    a, b = c.argv[0], c.argv[1]
    st = c.st.copy()
    va, vb = c.ip.deref(st, a), c.ip.deref(st, b)
    if a.op == "ref":
        c.ip.store_addr(st, a.d[0], a.d[1], vb)
    if b.op == "ref":
        c.ip.store_addr(st, b.d[0], b.d[1], va)
    return [(UNIT, st)]


@model("mem::drop", "mem::forget")
def m_drop(c):
    if c.ip.policy.drops():
        from .interp import Ev
        c.evs.append(Ev(kind="dropcall", name=c.key, key=c.key, fn=c.fr.fn, line=c.line, ctx=c.fr.ctx, blk=c.b, args=(c.ip.snap(c.st, c.argv[0]),), st=c.st))
    return one(c, UNIT)


# ------------------------------------------------------------------ conversions


@model("From::from", "Into::into", "TryFrom::try_from", "TryInto::try_into")
def m_into(c):
    P = c.ip.P
    q = c.q
    tys = [x for x in q["a"] if isinstance(x, int)]
    tr = c.key.split("::")[0]
    if len(tys) < 2:
        return None
    if tr in ("From", "TryFrom"):
        dst, src = tys[0], tys[1]
    else:
        src, dst = tys[0], tys[1]
    if P.tystr(src) == P.tystr(dst):
        v = c.argv[0]
        return one(c, ok(v) if tr.startswith("Try") else v)
    want = "core::convert::TryFrom" if tr.startswith("Try") else "core::convert::From"
    f = find_impl(P, want, dst, src)
    if f is not None:
        if c.ip.policy.inline(f, c.fr.ctx):
            return c.ip.call_fn(c.st, f, c.argv, c.site, c.line, c.evs, c.fr, c.b)
        return c.ip.opaque(c.st, f.name, f, c.argv, c.site, c.line, c.evs, c.fr, c.b)
    ds, ss = P.ty(dst), P.ty(src)
    v = c.ip.deref_all(c.st, c.argv[0])
    if ds["k"] == "prim" and ss["k"] == "prim":
        if tr.startswith("Try"):
            cv = X.call("try_cast", None, (v,), ds["s"])
            return one(c, cv)
        return one(c, v if v.op == "const" else mk("cast", ds["s"], (v,)))
    if not tr.startswith("Try"):
        if ds["k"] == "adt" and ds["p"] in ("alloc::boxed::Box", "alloc::vec::Vec", "alloc::rcs::arc::Arc", "alloc::sync::Arc", "alloc::rc::Rc", "zeroize::Zeroizing", "alloc::borrow::Cow") \
                and (ss["k"] in ("array", "slice") or ss["k"] == "ref" or ss["k"] == "adt" and ss["p"] in ("alloc::boxed::Box", "alloc::vec::Vec") or ds["p"] == "zeroize::Zeroizing"):
            return one(c, c.ip.deref_all(c.st, c.argv[0]))
        if ds["k"] == "adt" and ds["p"] == "core::option::Option":
            return one(c, some(c.argv[0]))
    else:
        # slice -> array conversions: Ok iff length matches
        sv = c.ip.snap(c.st, v)
        ce = X.call("try_into", None, (sv,), ds["s"])
        r = []
        s1 = c.ip.assume(c.st, mk("is", "Ok", (ce,)), True)
        if s1 is not None:
            r.append((ok(sv if ds["k"] in ("array", "ref") or "[" in ds["s"] else proj(ce, ("v", "Ok", "0"))), s1))
        s2 = c.ip.assume(c.st, mk("is", "Ok", (ce,)), False)
        if s2 is not None:
            r.append((err(proj(ce, ("v", "Err", "0"))), s2))
        return r
    return one(c, X.call("into", None, (c.ip.snap(c.st, c.argv[0]),), ds["s"]))


def norm(s):
    return re.sub(r"'[a-z_]+ ?", "", s).replace("&mut ", "&").strip()


def find_impl(P, trait, dst, src):
    k = (trait, dst, src)
    cache = P.__dict__.setdefault("_implcache", {})
    if k in cache:
        return cache[k]
    r = []
    d, s = norm(P.tystr(dst)), norm(P.tystr(src))
    for f in P.fns.values():
        if f.trait == trait and f.ta and f.self_ty is not None:
            t0 = [x for x in f.ta if isinstance(x, int)]
            # trait args may include Self first
            cand = t0[-1] if t0 else None
            if cand is None:
                continue
            if norm(P.tystr(f.self_ty)) == d and norm(P.tystr(cand)) == s:
                r.append(f)
    if not r:
        for f in P.fns.values():
            if f.trait == trait and f.ta and f.self_ty is not None:
                t0 = [x for x in f.ta if isinstance(x, int)]
                if not t0:
                    continue
                if P.adt_of(f.self_ty, False) and P.adt_of(f.self_ty, False) == P.adt_of(dst, False) and P.adt_of(t0[-1], True) and P.adt_of(t0[-1], True) == P.adt_of(src, True) \
                        and P.ty(t0[-1])["k"] == P.ty(src)["k"]:
                    r.append(f)
    cache[k] = r[0] if len(r) == 1 else None
    return cache[k]


# ------------------------------------------------------------------ equality / ordering


@model("PartialEq::eq", "PartialEq::ne")
def m_peq(c):
    return m_eq(c.ip, c.st, c.argv, c.key.endswith("ne"))


@model("PartialOrd::lt", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::ge")
def m_pord(c):
    a, b = c.ip.snap(c.st, c.argv[0]), c.ip.snap(c.st, c.argv[1])
    return one(c, X.binop({"lt": "Lt", "gt": "Gt", "le": "Le", "ge": "Ge"}[c.key.split("::")[1]], a, b))


@model("Arc::ptr_eq", "ptr::eq", "Rc::ptr_eq")
def m_ptreq(c):
    a, b = c.ip.snap(c.st, c.argv[0]), c.ip.snap(c.st, c.argv[1])
    if a is b and c.key == "Arc::ptr_eq":
        return one(c, TRUE) if a.op in ("arg", "fld") else one(c, X.call("ptr_eq", None, (a, b)))
    if a.uid > b.uid:
        a, b = b, a
    return one(c, X.call("ptr_eq", None, (a, b)))


@model("RangeInclusive::contains", "Range::contains")
def m_contains(c):
    r = val(c, 0)
    x = c.ip.snap(c.st, c.argv[1])
    if r.op == "struct" and len(r.a) >= 2:
        lo, hi = r.a[0], r.a[1]
    else:
        lo, hi = proj(r, ("f", "start")), proj(r, ("f", "end"))
    up = X.binop("Le", x, hi) if c.key.startswith("RangeInc") else X.binop("Lt", x, hi)
    return one(c, X.binop("BitAnd", X.binop("Ge", x, lo), up))


@model("RangeInclusive::new")
def m_rinew(c):
    return one(c, struct("core::ops::range::RangeInclusive", None, ("start", "end", "exhausted"), (c.argv[0], c.argv[1], FALSE)))


# ------------------------------------------------------------------ slices / vectors


@model("slice::len", "Vec::len", "alias_asref::len_", "str::len", "String::len")
def m_len(c):
    return one(c, length(c.ip, c.st, val(c, 0)))


@model("ExactSizeIterator::len")
def m_itlen(c):
    v = val(c, 0)
    l = itlen(c.ip, c.st, v)
    return one(c, l if l is not None else X.call("len", None, (c.ip.snap(c.st, v),)))


@model("slice::is_empty", "Vec::is_empty", "alias_asref::is_empty_")
def m_isempty(c):
    return one(c, X.eq(length(c.ip, c.st, val(c, 0)), const(0)))


def base_ref(c, i=0):
    """innermost reference to the container"""
    a = c.argv[i]
    if a.op != "ref":
        return a
    v = c.ip.read_addr(c.st, a.d[0], a.d[1])
    n = 0
    while v.op == "ref" and n < 8:
        a = v
        v = c.ip.read_addr(c.st, a.d[0], a.d[1])
        n += 1
    return a


def base_ref_of(ip, st, a):
    v = ip.read_addr(st, a.d[0], a.d[1])
    n = 0
    while v.op == "ref" and n < 8:
        a = v
        v = ip.read_addr(st, a.d[0], a.d[1])
        n += 1
    return a


def sub_ref(c, a, comp, mut=None):
    if a.op == "ref":
        return ref(a.d[0], a.d[1] + (comp,), a.d[2] if mut is None else mut)
    return proj(a, comp)


def range_bounds(v):
    if v.op == "struct":
        n = v.d[0].rsplit("::", 1)[-1]
        if n == "Range":
            return v.a[0], v.a[1]
        if n == "RangeFrom":
            return v.a[0], None
        if n == "RangeTo":
            return None, v.a[0]
        if n == "RangeFull":
            return None, None
        if n == "RangeInclusive":
            return v.a[0], X.binop("Add", v.a[1], const(1))
        if n == "RangeToInclusive":
            return None, X.binop("Add", v.a[0], const(1))
    return None


@model("Index::index", "IndexMut::index_mut")
def m_index(c):
    a = base_ref(c)
    i = c.ip.deref_all(c.st, c.argv[1])
    rb = range_bounds(i)
    if rb is not None:
        return one(c, sub_ref(c, a, ("s", rb[0], rb[1])))
    return one(c, sub_ref(c, a, ("i", c.ip.snap(c.st, i))))


@model("slice::get_unchecked", "slice::get_unchecked_mut")
def m_getunch(c):
    return m_index(c)


@model("slice::get", "slice::get_mut", "Vec::get")
def m_get(c):
    a = base_ref(c)
    i = c.ip.deref_all(c.st, c.argv[1])
    ln = length(c.ip, c.st, c.ip.deref_all(c.st, a))
    rb = range_bounds(i)
    r = []
    if rb is not None:
        cond = X.binop("Le", rb[1], ln) if rb[1] is not None else X.binop("Le", rb[0] or const(0), ln)
        item = sub_ref(c, a, ("s", rb[0], rb[1]))
    else:
        cond = X.lt(i, ln)
        item = sub_ref(c, a, ("i", i))
    s1 = c.ip.assume(c.st, cond, True)
    if s1 is not None:
        r.append((some(item), s1))
    s2 = c.ip.assume(c.st, cond, False)
    if s2 is not None:
        r.append((NONE, s2))
    return r


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def m_first(c):
    a = base_ref(c)
    ln = length(c.ip, c.st, c.ip.deref_all(c.st, a))
    i = const(0) if "first" in c.key else X.binop("Sub", ln, const(1))
    cond = X.eq(ln, const(0))
    r = []
    s1 = c.ip.assume(c.st, cond, False)
    if s1 is not None:
        r.append((some(sub_ref(c, a, ("i", i))), s1))
    s2 = c.ip.assume(c.st, cond, True)
    if s2 is not None:
        r.append((NONE, s2))
    return r


@model("slice::split_last", "slice::split_first")
def m_split_last(c):
    a = base_ref(c)
    ln = length(c.ip, c.st, c.ip.deref_all(c.st, a))
    cond = X.eq(ln, const(0))
    r = []
    s1 = c.ip.assume(c.st, cond, False)
    if s1 is not None:
        if "last" in c.key:
            n1 = X.binop("Sub", ln, const(1))
            r.append((some(tup(sub_ref(c, a, ("i", n1)), sub_ref(c, a, ("s", None, n1)))), s1))
        else:
            r.append((some(tup(sub_ref(c, a, ("i", const(0))), sub_ref(c, a, ("s", const(1), None)))), s1))
    s2 = c.ip.assume(c.st, cond, True)
    if s2 is not None:
        r.append((NONE, s2))
    return r


@model("slice::split_at", "slice::split_at_mut")
def m_split_at(c):
    a = base_ref(c)
    return one(c, tup(sub_ref(c, a, ("s", None, c.argv[1])), sub_ref(c, a, ("s", c.argv[1], None))))


@model("slice::chunks", "slice::chunks_mut", "slice::chunks_exact", "slice::chunks_exact_mut", "slice::as_chunks_", "slice::windows")
def m_chunks(c):
    return one(c, it("chunks", base_ref(c), c.argv[1]))


@model("slice::as_chunks", "slice::as_chunks_mut")
def m_as_chunks(c):
    a = base_ref(c)
    return one(c, tup(sub_ref(c, a, ("x", "chunks")), sub_ref(c, a, ("x", "chunk_rest"))))


@model("splitting::split_at")
def m_nd_split(c):
    a = base_ref(c)
    return one(c, tup(sub_ref(c, a, ("x", "upper", c.ip.snap(c.st, c.argv[1]), c.ip.snap(c.st, c.argv[2]))), sub_ref(c, a, ("x", "lower", c.ip.snap(c.st, c.argv[1]), c.ip.snap(c.st, c.argv[2])))))


@model("impl_methods::slice", "impl_methods::slice_mut", "impl_methods::multi_slice_mut_", "mut_ptr::offset", "const_ptr::offset", "mut_ptr::add", "const_ptr::add", "mut_ptr::sub", "const_ptr::sub", "mut_ptr::wrapping_add")
def m_nd_slice(c):
    return one(c, sub_ref(c, base_ref(c), ("x", c.key.split("::")[1].replace("slice_mut", "slice"), c.ip.snap(c.st, c.argv[1]))))


@model("impl_methods::as_mut_ptr", "impl_methods::as_ptr", "raw::from_raw_parts_mut", "raw::from_raw_parts", "mut_ptr::cast", "const_ptr::cast")
def m_nd_ptr(c):
    return one(c, base_ref(c))


@model("slice::get_disjoint_unchecked_mut")
def m_get_disjoint(c):
    a = base_ref(c)
    i = c.ip.deref_all(c.st, c.argv[1])
    if i.op != "arr":
        return None
    return one(c, mk("arr", None, tuple(sub_ref(c, a, ("i", x)) for x in i.a)))


@model("Vec::push")
def m_push(c):
    a = c.argv[0]
    st = c.st.copy()
    old = c.ip.deref_all(st, a)
    a = base_ref(c)
    if a.op == "ref":
        x = c.argv[1]
        c.ip.store_addr(st, a.d[0], a.d[1], mk("push", None, (old, x)))
        c.ip.note_store(c.fr, c.b, (None, None, None, c.line), a.d[0], a.d[1], mk("push", None, (old, x)), st, c.evs)
    return [(UNIT, st)]


def vec_update(op, rv=None):
    def f(c):
        a = base_ref(c)
        st = c.st.copy()
        old = c.ip.deref_all(st, a)
        new = mk(op, None, (old,) + tuple(c.ip.snap(c.st, x) for x in c.argv[1:]))
        if a.op == "ref":
            c.ip.store_addr(st, a.d[0], a.d[1], new)
            c.ip.note_store(c.fr, c.b, (None, None, None, c.line), a.d[0], a.d[1], new, st, c.evs)
        return [(rv(c, old) if rv else UNIT, st)]
    return f


MODELS["Vec::truncate"] = vec_update("trunc")
MODELS["Vec::clear"] = vec_update("clear")
MODELS["slice::reverse"] = vec_update("reversed")
MODELS["slice::swap"] = vec_update("swapped")
MODELS["slice::fill"] = vec_update("filled")
MODELS["slice::sort"] = vec_update("sorted")
MODELS["slice::sort_unstable"] = vec_update("sorted")
MODELS["Vec::resize"] = vec_update("resized")
MODELS["Vec::extend_from_slice"] = vec_update("extended")
MODELS["Vec::append"] = vec_update("extended")
MODELS["Vec::insert"] = vec_update("inserted")
MODELS["Vec::remove"] = vec_update("removed", lambda c, old: X.index(old, c.argv[1]))
MODELS["Vec::swap_remove"] = vec_update("removed", lambda c, old: X.index(old, c.argv[1]))
MODELS["Vec::dedup"] = vec_update("dedup")


@model("Vec::pop")
def m_pop(c):
    a = base_ref(c)
    old = c.ip.deref_all(c.st, a)
    st = c.st.copy()
    if a.op == "ref":
        c.ip.store_addr(st, a.d[0], a.d[1], mk("popped", None, (old,)))
    ln = length(c.ip, c.st, old)
    r = []
    s1 = c.ip.assume(st, X.eq(ln, const(0)), False)
    if s1 is not None:
        last = old.a[1] if old.op == "push" else X.index(old, X.binop("Sub", ln, const(1)))
        if old.op == "push" and a.op == "ref":
            s1 = s1.copy()
            c.ip.store_addr(s1, a.d[0], a.d[1], old.a[0])
        r.append((some(last), s1))
    s2 = c.ip.assume(st, X.eq(ln, const(0)), True)
    if s2 is not None:
        r.append((NONE, s2))
    return r


@model("Extend::extend")
def m_extend(c):
    a = base_ref(c)
    itv = to_iter(c.ip, c.st, c.argv[1])
    outs, _ = c.ip.drive(c, itv, lambda item, s: [("next", None, push_into(c, s, a, item))])
    return [(UNIT, s) for s in outs]


def push_into(c, s, a, item):
    s = s.copy()
    if a.op == "ref":
        old = c.ip.read_addr(s, a.d[0], a.d[1])
        if old.op == "push" and old.a[1] is item:
            return s
        c.ip.store_addr(s, a.d[0], a.d[1], mk("push", None, (old, item)))
    return s


@model("Vec::new", "Vec::with_capacity", "Vec::default", "HashMap::new", "HashMap::with_capacity", "HashMap::default", "BTreeMap::new", "HashSet::new", "BTreeSet::new")
def m_vecnew(c):
    return one(c, mk("arr", None, ()))


@model("Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to_fit", "Vec::shrink_to")
def m_noop(c):
    return one(c, UNIT)


@model("vec::from_elem")
def m_fromelem(c):
    return one(c, mk("fill", None, (c.ip.deref_all(c.st, c.argv[0]) if c.argv[0].op == "ref" else c.argv[0], c.argv[1])))


@model("slice::contains")
def m_scontains(c):
    return one(c, X.call("contains", None, (c.ip.snap(c.st, c.argv[0]), c.ip.snap(c.st, c.argv[1]))))


# ------------------------------------------------------------------ maps


@model("HashMap::get", "HashMap::get_mut", "BTreeMap::get", "BTreeMap::get_mut")
def m_mapget(c):
    a = base_ref(c)
    k = c.ip.snap(c.st, c.argv[1])
    m = c.ip.snap(c.st, a)
    cond = X.call("has_key", None, (m, k))
    r = []
    s1 = c.ip.assume(c.st, cond, True)
    if s1 is not None:
        r.append((some(sub_ref(c, a, ("i", k))), s1))
    s2 = c.ip.assume(c.st, cond, False)
    if s2 is not None:
        r.append((NONE, s2))
    return r


@model("HashMap::contains_key", "BTreeMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def m_maphas(c):
    return one(c, X.call("has_key", None, (c.ip.snap(c.st, c.argv[0]), c.ip.snap(c.st, c.argv[1]))))


@model("HashMap::insert", "BTreeMap::insert")
def m_mapins(c):
    a = base_ref(c)
    st = c.st.copy()
    if a.op == "ref":
        old = c.ip.read_addr(st, a.d[0], a.d[1])
        new = mk("mapins", None, (old, c.ip.snap(st, c.argv[1]), c.argv[2]))
        if not (old.op == "mapins" and old.a[1:] == new.a[1:]):
            c.ip.store_addr(st, a.d[0], a.d[1], new)
        if c.ip.policy.want(c.key, c.name, None):
            from .interp import Ev
            c.evs.append(Ev(kind="std", name=c.name, key=c.key, fn=c.fr.fn, line=c.line, ctx=c.fr.ctx, blk=c.b, args=tuple(c.ip.snap(c.st, x) for x in c.argv), st=c.st, info=c.q))
    return [(X.call("insert_old", c.site, ()), st)]


# ------------------------------------------------------------------ Option / Result


def _enum_ref(c):
    """(reference to enum or None, enum value)"""
    a = c.argv[0]
    if a.op == "ref":
        r = base_ref(c)
        return r, c.ip.deref_all(c.st, r)
    return None, a


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_isx(c):
    _, v = _enum_ref(c)
    n = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[c.key.split("::")[1]]
    r = []
    for var, _p, s in split_enum(c.ip, c.st, v, enum_of(c)):
        r.append((TRUE if var == n else FALSE, s))
    return r


@model("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut", "Option::as_deref", "Option::as_deref_mut", "Option::iter_")
def m_asref(c):
    rf, v = _enum_ref(c)
    res = []
    for var, p, s in split_enum(c.ip, c.st, v, enum_of(c)):
        if var == "None":
            res.append((NONE, s))
            continue
        if rf is not None:
            pp = ref(rf.d[0], rf.d[1] + (("v", var, "0"),), rf.d[2])
            if p.op == "ref" and "deref" in c.key:
                pp = p
        else:
            pp = p
        res.append((struct("core::option::Option" if var == "Some" else "core::result::Result", var, ("0",), (pp,)), s))
    return res


@model("Try::branch")
def m_branch(c):
    v = c.argv[0]
    t = c.ip.P.ty(c.q["a"][0]) if c.q["a"] and isinstance(c.q["a"][0], int) else (c.ip.P.ty(c.q["self"]) if "self" in c.q else {"s": ""})
    CF = "core::ops::control_flow::ControlFlow"
    isopt = "option::Option" in t.get("s", "") [:40] or t.get("p") == "core::option::Option"
    if v.op == "struct":
        isopt = v.d[0].endswith("Option")
    r = []
    for var, p, s in split_enum(c.ip, c.st, v, ("Some", "None") if isopt else ("Ok", "Err")):
        if var in ("Some", "Ok"):
            r.append((struct(CF, "Continue", ("0",), (p,)), s))
        elif var == "None":
            r.append((struct(CF, "Break", ("0",), (NONE,)), s))
        else:
            r.append((struct(CF, "Break", ("0",), (err(p),)), s))
    return r


@model("FromResidual::from_residual")
def m_residual(c):
    v = c.argv[0]
    if is_variant(v) == "Err":
        return one(c, err(mk("conv", None, (v.a[0],)) if v.a[0].op != "conv" else v.a[0]))
    if is_variant(v) == "None":
        return one(c, NONE)
    return one(c, err(mk("conv", None, (v,))))


@model("Try::from_output")
def m_fromout(c):
    return one(c, ok(c.argv[0]))


def unwrap_like(c, default):
    """default: None -> panic"""
    v = c.argv[0]
    r = []
    for var, p, s in split_enum(c.ip, c.st, v, enum_of(c)):
        if var in ("Some", "Ok"):
            r.append((p, s))
        elif default is None:
            from .interp import Ev
            c.evs.append(Ev(kind="panic", name=c.name, key=c.key, fn=c.fr.fn, line=c.line, ctx=c.fr.ctx, blk=c.b, args=(c.ip.snap(c.st, v),), st=s))
        else:
            r.extend(default(p, s))
    return r


MODELS["Option::unwrap"] = MODELS["Option::expect"] = MODELS["Result::unwrap"] = MODELS["Result::expect"] = lambda c: unwrap_like(c, None)
MODELS["Option::unwrap_or"] = MODELS["Result::unwrap_or"] = lambda c: unwrap_like(c, lambda p, s: [(c.argv[1], s)])
MODELS["Option::unwrap_or_default"] = MODELS["Result::unwrap_or_default"] = lambda c: unwrap_like(c, lambda p, s: [(X.call("Default::default", None, ()), s)])
MODELS["Option::unwrap_or_else"] = MODELS["Result::unwrap_or_else"] = lambda c: unwrap_like(
    c, lambda p, s: c.ip.call_value(s, c.argv[1], [] if c.key.startswith("Option") else [p], c.site + ("u",), c.line, c.evs, c.fr, c.b))
MODELS["Option::unwrap_unchecked"] = lambda c: unwrap_like(c, lambda p, s: [])


@model("Option::ok_or", "Option::ok_or_else")
def m_okor(c):
    r = []
    for var, p, s in split_enum(c.ip, c.st, c.argv[0], ("Some", "None")):
        if var == "Some":
            r.append((ok(p), s))
        elif c.key.endswith("else"):
            r.extend((err(e), s2) for e, s2 in c.ip.call_value(s, c.argv[1], [], c.site + ("u",), c.line, c.evs, c.fr, c.b))
        else:
            r.append((err(c.argv[1]), s))
    return r


@model("Result::ok", "Result::err")
def m_ok(c):
    w = "Ok" if c.key.endswith("ok") else "Err"
    return [(some(p) if var == w else NONE, s) for var, p, s in split_enum(c.ip, c.st, c.argv[0], ("Ok", "Err"))]


@model("Result::map_err", "Result::map", "Option::map", "Option::and_then", "Result::and_then", "Result::or_else", "Option::or_else", "Option::filter_", "Result::inspect_err_")
def m_map(c):
    m = c.key.split("::")[1]
    isopt = c.key.startswith("Option")
    r = []
    for var, p, s in split_enum(c.ip, c.st, c.argv[0], enum_of(c)):
        good = var in ("Some", "Ok")
        hit = good if m in ("map", "and_then") else not good
        if not hit:
            r.append((NONE if var == "None" else struct("core::option::Option" if isopt else "core::result::Result", var, ("0",), (p,)), s))
            continue
        args = [] if var == "None" else [p]
        for v, s2 in c.ip.call_value(s, c.argv[1], args, c.site + ("u",), c.line, c.evs, c.fr, c.b):
            if m == "map":
                r.append((some(v) if isopt else ok(v), s2))
            elif m == "map_err":
                r.append((err(v), s2))
            else:
                r.append((v, s2))
    return r


@model("Option::is_some_and", "Option::is_none_or", "Result::is_ok_and")
def m_issomeand(c):
    r = []
    for var, p, s in split_enum(c.ip, c.st, c.argv[0], enum_of(c)):
        if var in ("Some", "Ok"):
            r.extend(c.ip.call_value(s, c.argv[1], [p], c.site + ("u",), c.line, c.evs, c.fr, c.b))
        else:
            r.append((TRUE if c.key.endswith("none_or") else FALSE, s))
    return r


@model("Option::map_or", "Option::map_or_else", "Result::map_or", "Result::map_or_else")
def m_mapor(c):
    r = []
    for var, p, s in split_enum(c.ip, c.st, c.argv[0], enum_of(c)):
        if var in ("Some", "Ok"):
            r.extend(c.ip.call_value(s, c.argv[2], [p], c.site + ("u",), c.line, c.evs, c.fr, c.b))
        elif c.key.endswith("else"):
            r.extend(c.ip.call_value(s, c.argv[1], [] if var == "None" else [p], c.site + ("w",), c.line, c.evs, c.fr, c.b))
        else:
            r.append((c.argv[1], s))
    return r


@model("Option::or", "Option::and", "Option::xor_", "Result::or", "Result::and")
def m_or(c):
    r = []
    m = c.key.split("::")[1]
    for var, p, s in split_enum(c.ip, c.st, c.argv[0], enum_of(c)):
        good = var in ("Some", "Ok")
        if (m == "or") == good:
            r.append((NONE if var == "None" else struct("core::option::Option" if var == "Some" else "core::result::Result", var, ("0",), (p,)), s))
        else:
            r.append((c.argv[1], s))
    return r


@model("Option::zip")
def m_optzip(c):
    r = []
    for var, p, s in split_enum(c.ip, c.st, c.argv[0], ("Some", "None")):
        if var == "None":
            r.append((NONE, s))
            continue
        for v2, p2, s2 in split_enum(c.ip, s, c.argv[1], ("Some", "None")):
            r.append((some(tup(p, p2)) if v2 == "Some" else NONE, s2))
    return r


@model("Option::transpose")
def m_transpose(c):
    r = []
    for var, p, s in split_enum(c.ip, c.st, c.argv[0], ("Some", "None")):
        if var == "None":
            r.append((ok(NONE), s))
        else:
            for v2, p2, s2 in split_enum(c.ip, s, p, ("Ok", "Err")):
                r.append((ok(some(p2)) if v2 == "Ok" else err(p2), s2))
    return r


@model("bool::then_some", "bool::then")
def m_then(c):
    r = []
    s1 = c.ip.assume(c.st, c.argv[0], True)
    if s1 is not None:
        if c.key.endswith("then"):
            r.extend((some(v), s) for v, s in c.ip.call_value(s1, c.argv[1], [], c.site + ("u",), c.line, c.evs, c.fr, c.b))
        else:
            r.append((some(c.argv[1]), s1))
    s2 = c.ip.assume(c.st, c.argv[0], False)
    if s2 is not None:
        r.append((NONE, s2))
    return r


# ------------------------------------------------------------------ iterators


@model("IntoIterator::into_iter")
def m_intoiter(c):
    return one(c, to_iter(c.ip, c.st, c.argv[0]))


@model("slice::iter", "slice::iter_mut", "Vec::iter", "Vec::iter_mut", "HashSet::iter", "Option::iter", "Vec::drain")
def m_iter(c):
    return one(c, it("iter", base_ref(c)))


@model("impl_methods::outer_iter", "impl_methods::outer_iter_mut", "impl_methods::axis_iter", "impl_methods::axis_iter_mut", "impl_methods::rows", "impl_methods::rows_mut",
       "impl_methods::genrows", "impl_2d::rows")
def m_rows(c):
    return one(c, it("rows", base_ref(c)))


@model("impl_methods::iter", "impl_methods::iter_mut")
def m_nditer(c):
    return one(c, it("rows", base_ref(c)))


@model("impl_methods::row", "impl_2d::row", "impl_2d::row_mut", "impl_methods::index_axis", "impl_methods::index_axis_mut")
def m_row(c):
    return one(c, sub_ref(c, base_ref(c), ("i", c.argv[-1])))


@model("impl_methods::view", "impl_methods::view_mut", "impl_methods::slice_ndarr_")
def m_view(c):
    return one(c, base_ref(c))


@model("impl_methods::as_slice", "impl_methods::as_slice_mut", "conversions::to_slice", "conversions::into_slice", "impl_methods::to_slice")
def m_asslice(c):
    a = base_ref(c)
    v = c.ip.snap(c.st, a)
    cond = X.call("contiguous", None, ())
    r = [(some(a), c.st)]
    return r


@model("impl_2d::nrows", "impl_2d::ncols")
def m_nrows(c):
    v = c.ip.snap(c.st, c.argv[0])
    return one(c, X.call(c.key.split("::")[1], None, (v,)))


def itmodel(kind, n=1):
    def f(c):
        src = to_iter(c.ip, c.st, c.argv[0])
        return one(c, it(kind, src, *c.argv[1:]))
    return f


for _m, _k in (("map", "map"), ("filter", "filter"), ("filter_map", "filter_map"), ("flat_map", "flat_map"), ("enumerate", "enum"), ("rev", "rev"),
               ("take", "take"), ("skip", "skip"), ("step_by", "step"), ("copied", "copied"), ("cloned", "cloned"), ("take_while", "take_while"),
               ("skip_while", "skip_while"), ("inspect", "inspect"), ("peekable", "peekable"), ("flatten", "flatten"), ("cycle", "cycle"), ("map_while", "filter_map")):
    MODELS["Iterator::" + _m] = itmodel(_k)


@model("Iterator::zip", "Iterator::chain", "Itertools::zip_eq", "iter::zip", "zip_eq_impl::zip_eq")
def m_zip(c):
    k = "chain" if c.key.endswith("chain") else "zip"
    return one(c, it(k, to_iter(c.ip, c.st, c.argv[0]), to_iter(c.ip, c.st, c.argv[1])))


@model("successors::successors")
def m_succ(c):
    return one(c, it("successors", c.argv[0], c.argv[1]))


@model("repeat::repeat", "once::once", "repeat_n::repeat_n")
def m_repeat(c):
    return one(c, it("repeat", c.argv[0]))


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(c):
    a = c.argv[0]
    v = c.ip.deref_all(c.st, a)
    itv = v if v.op == "it" else to_iter(c.ip, c.st, v)
    site = c.site
    r = []
    s0 = c.st.copy()
    s0.facts[mk("exhausted", site)] = True
    for item, s in pull(c.ip, c, c.st, itv, site):
        if item is None:
            continue  # skipped element: the iterator advances; facts about it are not used
        r.append((some(item), s))
    r.append((NONE, s0))
    return r


@model("Iterator::for_each", "Iterator::try_for_each")
def m_foreach(c):
    f = c.argv[1]
    fs = c.site + ("d", "b")

    def body(item, s):
        out = []
        for v, s2 in c.ip.call_value(s, f, [item], fs, c.line, c.evs, c.fr, c.b):
            if c.key.endswith("try_for_each"):
                for var, p, s3 in split_enum(c.ip, s2, v, ("Ok", "Err")):
                    out.append(("next", None, s3) if var == "Ok" else ("stop", err(p), s3))
            else:
                out.append(("next", None, s2))
        return out

    ex, stops = c.ip.drive(c, to_iter(c.ip, c.st, c.argv[0]), body)
    r = [(ok(UNIT) if c.key.endswith("try_for_each") else UNIT, s) for s in ex]
    return r + stops


@model("Iterator::all", "Iterator::any")
def m_all(c):
    f = c.argv[1]
    want = c.key.endswith("all")
    fs = c.site + ("d", "b")

    def body(item, s):
        out = []
        for v, s2 in c.ip.call_value(s, f, [item], fs, c.line, c.evs, c.fr, c.b):
            s3 = c.ip.assume(s2, v, want)
            if s3 is not None:
                out.append(("next", None, s3))
            s4 = c.ip.assume(s2, v, not want)
            if s4 is not None:
                out.append(("stop", FALSE if want else TRUE, s4))
        return out

    ex, stops = c.ip.drive(c, to_iter(c.ip, c.st, c.argv[0]), body)
    return [(TRUE if want else FALSE, s) for s in ex] + stops


@model("Iterator::find", "Iterator::position", "Iterator::find_map", "Iterator::rposition")
def m_find(c):
    f = c.argv[1]
    fs = c.site + ("d", "b")
    pos = mk("pos", c.site + ("d", "n"))
    itv = to_iter(c.ip, c.st, c.argv[0])

    def body(item, s):
        out = []
        if c.key.endswith("find_map"):
            for v, s2 in c.ip.call_value(s, f, [item], fs, c.line, c.evs, c.fr, c.b):
                for var, p, s3 in split_enum(c.ip, s2, v, ("Some", "None")):
                    out.append(("stop", some(p), s3) if var == "Some" else ("next", None, s3))
            return out
        arg = item
        if c.key.endswith("find"):
            s = s.copy()
            root = ("T", fs)
            s.mem[root] = item
            arg = ref(root)
        for v, s2 in c.ip.call_value(s, f, [arg], fs, c.line, c.evs, c.fr, c.b):
            s3 = c.ip.assume(s2, v, False)
            if s3 is not None:
                out.append(("next", None, s3))
            s4 = c.ip.assume(s2, v, True)
            if s4 is not None:
                out.append(("stop", some(item if c.key.endswith("find") else mk("idx", None, (it("range", const(0), mk("cnt", None, (c.ip.snap(s4, itv),))), pos))), s4))
        return out

    ex, stops = c.ip.drive(c, itv, body)
    return [(NONE, s) for s in ex] + stops


@model("Iterator::collect", "Itertools::collect_vec", "FromIterator::from_iter", "Iterator::unzip", "Itertools::multiunzip", "Itertools::sorted", "Iterator::partition_",
       "Itertools::try_collect")
def m_collect(c):
    P = c.ip.P
    dst = None
    for x in reversed(c.q["a"]):
        if isinstance(x, int):
            dst = P.ty(x)
            break
    name = (dst or {}).get("p", "")
    mode = "vec"
    if name == "core::result::Result" and c.key == "Iterator::collect":
        mode = "result"
    elif name == "core::option::Option" and c.key == "Iterator::collect":
        mode = "option"
    if c.key == "FromIterator::from_iter":
        sd = P.ty(c.q["a"][0]) if c.q["a"] and isinstance(c.q["a"][0], int) else {}
        mode = {"core::result::Result": "result", "core::option::Option": "option"}.get(sd.get("p"), "vec")
    itv = to_iter(c.ip, c.st, c.argv[0])
    site = c.site + ("d", "n")
    items = {}

    def body(item, s):
        out = []
        if mode == "vec":
            items[item if not item.hr else item] = True
            return [("next", None, s)]
        for var, p, s3 in split_enum(c.ip, s, item, ("Ok", "Err") if mode == "result" else ("Some", "None")):
            if var in ("Ok", "Some"):
                items[p] = True
                out.append(("next", None, s3))
            else:
                out.append(("stop", err(p) if mode == "result" else NONE, s3))
        return out

    ex, stops = c.ip.drive(c, itv, body)
    its = list(items)
    if len(its) == 1:
        item = its[0]
    elif its:
        item = mk("join", None, tuple(sorted(its, key=lambda e: e.uid)))
    else:
        item = mk("never", None, ())
    if c.key in ("Iterator::unzip", "Itertools::multiunzip"):
        n = len(item.a) if item.op == "tup" else 2
        cv = tup(*[mk("coll", site, (proj(item, ("f", str(i))), c.ip.snap(c.st, itv))) for i in range(n)])
    else:
        src = itv if itlen(c.ip, c.st, itv) is not None else c.ip.snap(c.st, itv)
        cv = mk("coll", site, (item, c.ip.snap(c.st, itv)))
    r = []
    for s in ex:
        r.append((cv if mode == "vec" else ok(cv) if mode == "result" else some(cv), s))
    return r + stops


@model("Iterator::fold", "Iterator::try_fold", "Iterator::reduce_")
def m_fold(c):
    f = c.argv[2]
    fs = c.site + ("d", "b")
    root = ("T", c.site + ("acc",))
    c.st = c.st.copy()
    c.st.mem[root] = c.argv[1]
    tr = c.key.endswith("try_fold")

    def body(item, s):
        out = []
        for v, s2 in c.ip.call_value(s, f, [s.mem[root], item], fs, c.line, c.evs, c.fr, c.b):
            if tr:
                for var, p, s3 in split_enum(c.ip, s2, v, ("Ok", "Err")):
                    s3 = s3.copy()
                    s3.mem[root] = p
                    out.append(("next", None, s3) if var == "Ok" else ("stop", err(p), s3))
            else:
                s2 = s2.copy()
                s2.mem[root] = v
                out.append(("next", None, s2))
        return out

    ex, stops = c.ip.drive(c, to_iter(c.ip, c.st, c.argv[0]), body)
    return [(ok(s.mem[root]) if tr else s.mem[root], s) for s in ex] + stops


@model("Iterator::reduce")
def m_reduce_with(c):
    f = c.argv[1]
    fs = c.site + ("d", "b")
    itv = to_iter(c.ip, c.st, c.argv[0])
    s0 = c.st.copy()
    s0.facts[mk("exhausted", c.site + ("first",))] = True
    r = [(NONE, s0)]
    root = ("T", c.site + ("acc",))
    keep = c.st
    for first, s in pull(c.ip, c, keep, itv, c.site + ("first",)):
        if first is None:
            continue
        c.st = s.copy()
        c.st.mem[root] = first

        def body(item, s):
            out = []
            for v, s2 in c.ip.call_value(s, f, [s.mem[root], item], fs, c.line, c.evs, c.fr, c.b):
                s2 = s2.copy()
                s2.mem[root] = v
                out.append(("next", None, s2))
            return out

        ex, stops = c.ip.drive(c, itv, body)
        r += [(some(s.mem[root]), s) for s in ex] + stops
    c.st = keep
    return r


@model("Iterator::sum", "Iterator::product", "Iterator::max", "Iterator::min", "Iterator::count", "Iterator::last", "Iterator::max_by_key", "Iterator::min_by_key",
       "Itertools::counts", "Itertools::sorted_by_key", "Iterator::nth", "Iterator::eq", "Itertools::all_unique", "Itertools::all_equal")
def m_reduce(c):
    a = c.argv[0]
    itv = to_iter(c.ip, c.st, a)
    site = c.site + ("d", "n")
    items = {}

    def body(item, s):
        items[c.ip.snap(s, item)] = True
        return [("next", None, s)]

    ex, _ = c.ip.drive(c, itv, body)
    its = sorted(items, key=lambda e: e.uid)
    coll = mk("coll", site, (its[0] if len(its) == 1 else mk("join", None, tuple(its)), c.ip.snap(c.st, itv)))
    m = c.key.split("::")[1]
    ce = X.call(m, None, (coll,) + tuple(c.ip.snap(c.st, x) for x in c.argv[1:]))
    if m in ("nth", "last") and its:
        r = []
        for s in ex:
            r.append((some(coll.a[0]), s))
            r.append((NONE, s))
        return r
    return [(ce, s) for s in ex]


# ------------------------------------------------------------------ closures / misc


@model("FnOnce::call_once", "Fn::call", "FnMut::call_mut")
def m_callfn(c):
    t = c.argv[1]
    args = list(t.a) if t.op == "tup" else [t]
    return c.ip.call_value(c.st, c.argv[0], args, c.site + ("u",), c.line, c.evs, c.fr, c.b)


@model("Arch::dispatch", "x86::dispatch", "Arch::vectorize")
def m_dispatch(c):
    f = c.argv[1] if len(c.argv) > 1 else c.argv[0]
    return c.ip.call_value(c.st, f, [], c.site + ("u",), c.line, c.evs, c.fr, c.b)


@model("num::checked_sub", "num::checked_add", "num::checked_mul", "num::checked_shl", "num::checked_pow", "num::checked_div", "num::checked_rem", "num::checked_next_power_of_two")
def m_checked(c):
    op = c.key.split("_")[1] if c.key.count("_") == 1 else c.key
    a = c.argv[0]
    b = c.argv[1] if len(c.argv) > 1 else const(0)
    r = []
    if op == "sub":
        cond = X.lt(a, b)
        v = X.binop("Sub", a, b)
    else:
        cond = X.call("overflows", None, (a, b), op)
        v = X.binop({"add": "Add", "mul": "Mul", "shl": "Shl", "div": "Div", "rem": "Rem"}.get(op, op), a, b)
    s1 = c.ip.assume(c.st, cond, False)
    if s1 is not None:
        r.append((some(v), s1))
    s2 = c.ip.assume(c.st, cond, True)
    if s2 is not None:
        r.append((NONE, s2))
    return r


def _num(c):
    return one(c, X.call(c.key, None, tuple(c.ip.snap(c.st, a) for a in c.argv)))


for _n in ("leading_zeros", "trailing_zeros", "is_power_of_two", "ilog2", "next_power_of_two", "div_ceil", "pow", "wrapping_sub", "wrapping_add", "wrapping_mul", "saturating_sub",
           "saturating_add", "abs", "count_ones", "reverse_bits", "is_multiple_of", "rotate_left", "to_le_bytes", "to_be_bytes", "unsigned_abs", "signum", "overflowing_sub",
           "overflowing_add", "abs_diff", "swap_bytes", "rem_euclid", "is_negative"):
    MODELS["num::" + _n] = _num
for _n in ("cmp::min", "cmp::max", "Ord::min", "Ord::max", "Ord::cmp", "PartialOrd::partial_cmp", "ToPrimitive::to_u64", "ToPrimitive::to_f64", "ToPrimitive::to_i64", "ToPrimitive::to_u128", "BigUint::bits"):
    MODELS[_n] = _num


BINS = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}


def on_integers(c):
    """the operator applied to machine integers, given by reference or not"""
    ts = [c.q.get("self")] + [x for x in c.q["a"] if isinstance(x, int)]
    return all(t is not None and re.fullmatch(r"[ui](8|16|32|64|128|size)", c.ip.P.ty(c.ip.P.peel(t))["s"]) for t in ts)


def _arith(c):
    op = c.key.split("::")[1]
    a = c.ip.snap(c.st, c.argv[0])
    if op in BINS and len(c.argv) == 2 and on_integers(c):
        return one(c, X.binop(BINS[op], a, c.ip.snap(c.st, c.argv[1])))
    b = c.ip.snap(c.st, c.argv[1]) if len(c.argv) > 1 else None
    return one(c, X.call("arith::" + op, None, (a, b) if b is not None else (a,)))


for _t, _m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem"), ("Shl", "shl"), ("Shr", "shr"), ("Neg", "neg"), ("BitAnd", "bitand"), ("BitOr", "bitor"), ("BitXor", "bitxor"), ("Not", "not")):
    MODELS["%s::%s" % (_t, _m)] = _arith


def _arith_assign(c):
    op = c.key.split("::")[1]
    a = base_ref(c)
    x = c.ip.snap(c.st, c.argv[0])
    y = c.ip.snap(c.st, c.argv[1])
    st = c.st.copy()
    if a.op == "ref":
        op = op.replace("_assign", "")
        c.ip.store_addr(st, a.d[0], a.d[1], X.binop(BINS[op], x, y) if op in BINS and on_integers(c) else X.call("arith::" + op, None, (x, y)))
    return [(UNIT, st)]


for _t in ("Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
    MODELS["%sAssign::%s_assign" % (_t, _t.lower())] = _arith_assign


@model("Default::default")
def m_default(c):
    t = None
    if "self" in c.q:
        t = c.ip.P.ty(c.q["self"])
    elif c.q["a"] and isinstance(c.q["a"][0], int):
        t = c.ip.P.ty(c.q["a"][0])
    s = (t or {}).get("s", "")
    if t and t["k"] == "adt" and t["p"] == "core::option::Option":
        return one(c, NONE)
    if t and t["k"] == "adt" and t["p"] == "alloc::vec::Vec":
        return one(c, mk("arr", None, ()))
    if s == "bool":
        return one(c, FALSE)
    if t and t["k"] == "prim":
        return one(c, const(0))
    return one(c, X.call("Default::default", None, (), s))
