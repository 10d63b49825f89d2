"""Views on the flows of the scheme layer (crate fhe): alternatives of merged values, elements of sequences,
polynomial operations, permission and secrecy of values, objects an entry returns or updates."""
from .common import *
from .mir import PEEL

POLY = "fhe_math::rq::Poly"
TOKEN = "fhe_traits::VariableTime"
ALLOWF = "allow_variable_time_computations"


class FhePol(Policy):
    """scheme-layer code is inlined, the polynomial layer stays opaque"""

    def __init__(self, drops=False):
        self._d = drops

    def inline(self, fn, ctx):
        return fn.crate in ("fhe", "fhe_traits")

    def want(self, key, name, callee):
        return True

    def drops(self):
        return self._d


def entries(P):
    for f in lib_fns(P, ("fhe",)):
        if f.kind in ("fn", "assoc") and f.reach and not f.derived:
            yield f


_flows = {}


def flows(P, R=None, pol=None, key="", only=None):
    """analysed exported functions of the scheme layer"""
    k = (id(P), key)
    if k not in _flows:
        r = []
        for f in entries(P):
            if only and not only(f):
                continue
            try:
                F = run(P, f, pol or FhePol())
                if F.ip.incomplete and R is not None:
                    R.bad("incomplete:" + f.name, "analysis of %s did not converge" % f.name)
                r.append(F)
            except Budget as b:
                if R is not None:
                    R.bad("budget:" + f.name, "analysis of %s did not converge: %s" % (f.name, b))
        _flows[k] = r
    return _flows[k]


def fn_named(P, name):
    l = P.by_name.get(name)
    return l[0] if l else None


# ------------------------------------------------------------------ alternatives


def phi_ins(ip, e):
    return [v for v in ip.phi_in.get(e, {}).values() if v is not e]


def alts(ip, e, seen=None, depth=0):
    """values e may be, merges expanded (loops: every iteration's value)"""
    seen = seen if seen is not None else set()
    if e in seen or depth > 60:
        return []
    if e.op == "phi":
        seen.add(e)
        r = []
        for v in phi_ins(ip, e):
            r += alts(ip, v, seen, depth + 1)
        return r
    if e.op == "join":
        r = []
        for v in e.a:
            r += alts(ip, v, seen, depth + 1)
        return r
    if e.op == "never":
        return []
    if e.op == "idx" and e.a[0].op in ("phi", "arr", "push", "coll", "with", "fill", "slice", "sub", "trunc", "popped", "extended", "struct", "it", "vfld", "reversed", "swapped"):
        seen.add(e)
        r = []
        for v in element_list(ip, e.a[0], e.a[1], set()):
            r += [v] if v is e else alts(ip, v, seen, depth + 1)
        return r or [e]
    if e.op in ("fld", "vfld") and e.a[0].op in ("phi", "join"):
        seen.add(e)
        r = []
        c = ("f", e.d) if e.op == "fld" else ("v",) + e.d
        for v in alts(ip, e.a[0], set(), depth + 1):
            if e.op == "vfld" and v.op == "struct" and v.d[1] is not None and v.d[1] != e.d[0]:
                continue
            r += alts(ip, proj(v, c), seen, depth + 1)
        return r
    return [e]


def element_list(ip, s, i, seen):
    """values an element (at i, or an arbitrary one when i is None) of sequence s may have"""
    if s in seen:
        return []
    seen.add(s)
    op = s.op
    ci = i.d if i is not None and i.op == "const" and type(i.d) is int else None
    if op == "arr":
        if ci is not None and ci < len(s.a):
            return [s.a[ci]]
        return list(s.a)
    if op == "fill":
        return [s.a[0]]
    if op == "coll":
        return [subst(s.a[0], {("pos", s.d): i})] if i is not None else [s.a[0]]
    if op == "push":
        return element_list(ip, s.a[0], i, seen) + [s.a[1]]
    if op == "mapins":
        return element_list(ip, s.a[0], None, seen) + [s.a[2]]
    if op == "call" and s.d[0] == "default":
        return []
    if op == "phi":
        r = []
        for v in phi_ins(ip, s):
            r += element_list(ip, v, i, seen)
        return r
    if op == "join":
        r = []
        for v in s.a:
            r += element_list(ip, v, i, seen)
        return r
    if op == "with":
        c = s.d
        if c[0] == "i":
            k = c[1]
            if ci is not None and k.op == "const" and k.d == ci or i is k:
                return [s.a[1]]
            if ci is not None and k.op == "const":
                return element_list(ip, s.a[0], i, seen)
            return element_list(ip, s.a[0], i, seen) + [s.a[1]]
        if c[0] in ("s", "x"):
            # an overlay on a part of the sequence: its elements, or an element place
            if c[0] == "x" and c[1] in ("slice::first_mut", "slice::last_mut", "fromend", "slice::get_mut"):
                return element_list(ip, s.a[0], i, seen) + [s.a[1]]
            r = element_list(ip, s.a[1], None if i is None or c[0] == "x" else None, seen)
            return element_list(ip, s.a[0], i, seen) + r
        return [X.index(s, i)] if i is not None else [mk("idx", None, (s, mk("any", None, ())))]
    if op in ("slice", "sub", "trunc", "popped", "reversed", "swapped", "removed", "sorted", "filled"):
        if op in ("slice", "sub") and is_leaf_seq(s.a[0]):
            return [mk("idx", None, (s.a[0], i or mk("any", None, ())))]
        return element_list(ip, s.a[0], None, seen)
    if op in ("extended", "inserted"):
        r = element_list(ip, s.a[0], None, seen)
        for x in s.a[1:]:
            r += element_list(ip, x, None, seen) or []
        return r
    if op == "it":
        k = s.d
        if k in ("map", "filter", "filter_map", "flat_map", "enum", "zip", "izip", "chain"):
            if k == "chain":
                r = []
                for x in s.a:
                    r += element_list(ip, x, None, seen)
                return r
            return [mk("idx", None, (s, i or mk("any", None, ())))]
        if s.a:
            return element_list(ip, s.a[0], i, seen)
    if op == "vfld" and s.a[0].op in ("phi", "join") or op == "fld" and s.a[0].op in ("phi", "join"):
        r = []
        for v in alts(ip, s):
            r += element_list(ip, v, i, seen)
        return r
    return [mk("idx", None, (s, i if i is not None else mk("any", None, ())))]


def is_leaf_seq(s):
    return s.op in ("arg", "fld", "vfld", "idx", "call")


def elements(ip, s):
    return element_list(ip, s, None, set())


# ------------------------------------------------------------------ types of values


def targs(t):
    return [a for a in t.get("a", []) if isinstance(a, int)]


class Types:
    """declared type of an access path"""

    def __init__(self, F):
        self.F = F
        self.P = F.ip.P
        self.memo = {}
        self.argt = {e: t for e, t, n in F.args}

    def of(self, e):
        if e in self.memo:
            return self.memo[e]
        self.memo[e] = None
        r = self._of(e)
        self.memo[e] = r
        return r

    def _of(self, e):
        P = self.P
        if e.op == "arg":
            t = self.argt.get(e)
            return P.peel(t) if t is not None else None
        if e.op == "with":
            return self.of(e.a[0])
        if e.op == "after":
            return self.of(e.a[1])
        if e.op == "phi":
            for v in phi_ins(self.F.ip, e):
                t = self.of(v)
                if t is not None:
                    return t
            return None
        if e.op == "idx":
            t = self.of(e.a[0])
            if t is None:
                return None
            ty = P.ty(t)
            if ty["k"] in ("slice", "array"):
                return P.peel(ty["e"])
            if ty["k"] == "adt" and targs(ty):
                return P.peel(targs(ty)[1 if "Map" in ty["p"] and len(targs(ty)) > 1 else 0])
            return None
        if e.op in ("slice", "sub", "trunc", "popped"):
            return self.of(e.a[0])
        if e.op in ("fld", "vfld"):
            t = self.of(e.a[0])
            if t is None:
                return None
            return field_type(P, t, e.d if e.op == "fld" else e.d[1], None if e.op == "fld" else e.d[0])
        if e.op == "call":
            f = fn_named(P, e.d[0])
            if f is not None and f.out is not None:
                return P.peel(f.out)
        return None

    def adt(self, e):
        if e.op == "struct":
            return e.d[0]
        t = self.of(e)
        if t is None:
            return None
        ty = self.P.ty(t)
        return ty["p"] if ty["k"] == "adt" else None


def field_type(P, t, name, variant=None):
    ty = P.ty(t)
    if ty["k"] == "tuple":
        a = targs(ty)
        return P.peel(a[int(name)]) if name.isdigit() and int(name) < len(a) else None
    if ty["k"] != "adt":
        return None
    a = targs(ty)
    if ty["p"] == "core::option::Option":
        return P.peel(a[0])
    if ty["p"] == "core::result::Result":
        return P.peel(a[0] if variant == "Ok" else a[1])
    ad = P.adts.get(ty["p"])
    if ad is None:
        return None
    for v in ad["vs"]:
        if variant is not None and v["n"] != variant:
            continue
        for f in v["f"]:
            if f["n"] == name:
                ft = P.peel(f["t"])
                fty = P.ty(ft)
                if fty["k"] == "param":
                    return None
                return ft
    return None


# ------------------------------------------------------------------ polynomial operations


class Op:
    """a call into the polynomial layer seen as an operation on values"""

    __slots__ = ("f", "call", "out", "args", "inplace", "i")


_op = {}


def op_of(P, e):
    """the polynomial-layer operation whose result is e (after its Ok / Some projection), else None"""
    x = e
    if x.op == "vfld" and x.d[0] in ("Ok", "Some"):
        x = x.a[0]
    i = None
    c = x
    if x.op == "after":
        i = x.d
        c = x.a[0]
    if c.op != "call":
        return None
    f = fn_named(P, c.d[0])
    if f is None or f.crate != "fhe_math":
        return None
    o = Op()
    o.f, o.call, o.out, o.args, o.inplace, o.i = f, c, e, c.a, x.op == "after", i
    return o


_ptm = {}


def is_poly_ty(P, t):
    k = (id(P), t)
    if k not in _ptm:
        _ptm[k] = P.mentions(t, lambda x: x.get("p") == POLY)
    return _ptm[k]


def poly_args(P, o):
    """indices of polynomial operands"""
    return [i for i, t in enumerate(o.f.ins) if i < len(o.args) and (is_poly_ty(P, t) or P.ty(P.peel(t))["k"] == "param" and iter_like(P, o.f, t))]


def iter_like(P, f, t):
    n = P.ty(P.peel(t)).get("n")
    return any(m == n and "iter" in b.lower() for m, b in f.gb)


def data_args(P, o):
    """indices of operands that carry coefficients: polynomials, number slices"""
    r = []
    for i, t in enumerate(o.f.ins):
        if i >= len(o.args):
            break
        ty = P.ty(P.peel(t))
        if ty.get("p") == POLY or is_poly_ty(P, t):
            r.append(i)
            continue
        s = ty["s"]
        if ty["k"] == "param":
            if iter_like(P, o.f, t):
                r.append(i)
            continue
        if ty.get("p", "").startswith(("fhe_math::rq::context", "alloc::sync", "fhe_math::rq::scaler", "fhe_math::rq::switcher", "fhe_math::rq::Subst", "fhe_traits")):
            continue
        if s in ("usize", "bool", "u32"):
            continue
        r.append(i)
    return r


def takes_token(P, f):
    return any(P.ty(P.peel(t)).get("p") == TOKEN for t in f.ins)


def bool_args(P, f):
    return [i for i, t in enumerate(f.ins) if P.tystr(t) == "bool"]


class Perms:
    """does a polynomial surely lack the permission?  Uses the contract verified by P02: a result is permitted only
    if every source is, or a token / flag grants it; and which functions clear it, decided on their own bodies."""

    _clear = {}

    def __init__(self, F, invariant=lambda types, e: False, relevant=lambda e: True):
        self.F = F
        self.relevant = relevant  # alternatives of a merge that matter
        self.ip = F.ip
        self.P = F.ip.P
        self.types = Types(F)
        self.inv = invariant
        self.memo = {}

    def clears(self, f):
        """every result / updated polynomial of f never has the permission, whatever its inputs"""
        k = (id(self.P), f.h)
        if k not in Perms._clear:
            from .rules.poly import ZqOpaque, out_polys
            Perms._clear[k] = False
            try:
                G = run(self.P, f, ZqOpaque())
                n = 0
                good = True
                for lab, o, facts, t in out_polys(self.P, G):
                    n += 1
                    fl = proj(o, ("f", ALLOWF))
                    good &= fl is FALSE or G.ip.holds(facts, fl) is False
                Perms._clear[k] = good and n > 0
            except Budget:
                pass
        return Perms._clear[k]

    def noperm(self, e, facts=None, seen=frozenset()):
        k = (e, id(facts))
        if k in self.memo:
            return self.memo[k]
        if e in seen:
            return True
        r = self._noperm(e, facts, seen | {e})
        if not seen:
            self.memo[k] = r
        return r

    def _noperm(self, e, facts, seen):
        P, ip = self.P, self.ip
        if e.op in ("phi", "join") or e.op == "idx" and e.a[0].op not in ("arg", "fld", "vfld", "call"):
            al = alts(ip, e)
            if al and not (len(al) == 1 and al[0] is e):
                return all(self.noperm(x, facts, seen) for x in al if self.relevant(x))
        if self.inv(self.types, e):
            return True
        if facts is not None:
            for c, v in facts.items():
                if v is False and c.op == "call" and c.d[0].endswith("allows_variable_time_computations") and c.a[0] is e:
                    return True
        o = op_of(P, e)
        if o is None:
            if e.op == "struct" and e.d[0] == POLY:
                return proj(e, ("f", ALLOWF)) is FALSE
            return False
        if takes_token(P, o.f):
            return False
        if o.inplace and o.i is not None and o.i >= 0 and not is_poly_ty(P, o.f.ins[o.i]):
            return False
        b = bool_args(P, o.f)
        if b:
            return all(o.args[i] is FALSE for i in b)
        if self.clears(o.f):
            return True
        pa = poly_args(P, o)
        if not pa:
            return True
        for i in pa:
            t = P.ty(P.peel(o.f.ins[i]))
            if t.get("p") == POLY:
                if self.noperm(o.args[i], facts, seen):
                    return True
            else:
                el = elements(ip, o.args[i])
                if el and all(self.noperm(x, facts, seen) for x in el):
                    return True
        return False


# ------------------------------------------------------------------ secrecy

LINEAR_TRAITS = {"Add", "Sub", "AddAssign", "SubAssign"}


def op_kind(P, o):
    """noise | sum | product | scaled | linear | create | other"""
    f = o.f
    tr = (f.trait or "").rsplit("::", 1)[-1]
    if f.sname == "small":
        return "noise"
    if tr in LINEAR_TRAITS:
        return "sum"
    pa = poly_args(P, o)
    if tr in ("Mul", "MulAssign"):
        return "product" if len(pa) >= 2 else "scaled"
    if f.sname == "dot_product":
        return "product"
    if f.sname in ("random", "random_from_seed"):
        return "uniform"
    if len(pa) == 1:
        return "linear"
    if not pa:
        return "create"
    return "other"


class Secrets:
    """which values depend on secret material that fresh noise has not masked yet.

    Additive structure of a polynomial is abstracted to a set of forms (secret, hidden, noise terms): every
    alternative a merge or loop may produce is covered by a form with the same or fewer noise terms."""

    def __init__(self, F, source):
        self.F = F
        self.ip = F.ip
        self.P = F.ip.P
        self.types = Types(F)
        self.source = source
        self._sec = {}
        self._form = {}

    def step(self, e):
        """('alt', values) | ('sum', values) | ('term',)"""
        ip, P = self.ip, self.P
        if e.op == "phi":
            return ("alt", phi_ins(ip, e))
        if e.op == "join":
            return ("alt", list(e.a))
        if e.op == "idx" and e.a[0].op not in ("arg", "fld", "vfld", "call") or e.op in ("fld", "vfld") and e.a[0].op in ("phi", "join"):
            al = [x for x in alts(ip, e) if x is not e]
            return ("alt", al) if al else ("term",)
        o = op_of(P, e)
        if o is None:
            return ("term",)
        k = op_kind(P, o)
        pa = poly_args(P, o)
        if k == "sum":
            return ("sum", [o.args[i] for i in pa])
        if k == "linear" and not (o.inplace and o.i != pa[0]):
            return ("sum", [o.args[pa[0]]])
        return ("term",)

    def term(self, t):
        o = op_of(self.P, t)
        k = op_kind(self.P, o) if o is not None else "leaf"
        if k == "noise":
            return frozenset([(True, False, frozenset([t]))])
        s = self.secret(t)
        return frozenset([(s, s and k == "product" and self.hiding(t), frozenset())])

    def forms(self, e):
        r = self._form.get(e)
        if r is not None:
            return r
        # nodes of the additive graph below e
        steps = {}
        st = [e]
        order = []
        while st:
            x = st.pop()
            if x in steps or x in self._form:
                continue
            s = self.step(x)
            steps[x] = s
            order.append(x)
            if s[0] != "term":
                st.extend(s[1])
        val = {x: frozenset() for x in order}
        for x in order:
            if steps[x][0] == "term":
                val[x] = self.term(x)
        get = lambda x: self._form.get(x) if x in self._form else val[x]
        ch = True
        n = 0
        while ch and n < 60:
            ch = False
            n += 1
            for x in reversed(order):
                s = steps[x]
                if s[0] == "term":
                    continue
                if s[0] == "alt":
                    r = frozenset().union(*[get(y) for y in s[1]]) if s[1] else frozenset([(False, False, frozenset())])
                else:
                    r = frozenset([(False, False, frozenset())])
                    for y in s[1]:
                        r = frozenset((a or a2, b or b2, c | c2) for a, b, c in r for a2, b2, c2 in get(y))
                        r = minimal(r)
                r = minimal(r | val[x])
                if r != val[x]:
                    val[x] = r
                    ch = True
        self._form.update(val)
        return val[e]

    def hiding(self, t):
        """a product of a secret with a public polynomial"""
        o = op_of(self.P, t)
        s = [self.secret(o.args[i]) for i in poly_args(self.P, o)]
        return any(s) and not all(s)

    def masked(self, e):
        """e depends on secrets and in every alternative that does, noise and a public multiplier hide them"""
        f = [x for x in self.forms(e) if x[0]]
        return bool(f) and all(h and n for s, h, n in f)

    def exposed(self, e):
        return [x for x in self.forms(e) if x[0] and not (x[1] and x[2])]

    def secret(self, e):
        """e depends on a secret otherwise than through a masked polynomial"""
        r = self._sec.get(e)
        if r is not None:
            return r
        self._sec[e] = False
        if self.source(self.types, e):
            r = True
        elif self.step(e)[0] == "term":
            r = self._search(e)
        elif is_polyval(self, e):
            r = bool(self.exposed(e))
        else:
            r = self._search(e)
        self._sec[e] = r
        return r

    def _search(self, e):
        P, ip = self.P, self.ip
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x is not e and x in self._sec and (self._sec[x] or op_of(P, x) is not None):
                if self._sec[x]:
                    return True
                continue
            if self.source(self.types, x):
                return True
            if x.op == "fld" and x.d in ("ctx", "par", "level", "seed", "ciphertext_level"):
                continue
            o = op_of(P, x)
            if o is not None:
                k = op_kind(P, o)
                if o.inplace and o.i is not None and o.i >= 0 and P.ty(P.peel(o.f.ins[o.i]))["k"] == "param":
                    continue  # the generator's state
                if k == "noise":
                    return True
                if k == "uniform" or o.f.out is not None and not o.inplace and P.adt_of(P.peel(o.f.out)) in ("fhe_math::rq::context::Context",):
                    continue
                if k in ("sum", "linear") and x is not e:
                    if self.secret(x):
                        return True
                    continue
                st.extend(o.args[i] for i in data_args(P, o))
                continue
            if x.op in ("after", "call"):
                c = x.a[0] if x.op == "after" else x
                if c.op == "call":
                    f = fn_named(P, c.d[0])
                    if f is not None and f.crate == "fhe_util":
                        if x.op == "after" and x.d is not None and x.d >= 0 and P.ty(P.peel(f.ins[x.d]))["k"] == "param":
                            continue
                        if "sample" in f.sname:
                            return True
                    if c.d[0] in ("len", "ptr_eq", "count"):
                        continue
                    if f is not None and f.crate == "fhe_math" and x.op == "call" and f.out is not None:
                        ty = P.ty(P.peel(f.out))
                        if ty["s"] in ("usize", "bool"):
                            continue
            st.extend(x.a)
            if x.op == "phi":
                st.extend(phi_ins(ip, x))
            elif x.op == "with":
                st.extend(y for y in x.d if isinstance(y, E))
        return False


def minimal(fs):
    """keep the weakest forms only"""
    r = set()
    for a in fs:
        if not any(b is not a and b != a and b[0] == a[0] and b[1] <= a[1] and b[2] <= a[2] for b in fs):
            r.add(a)
    return frozenset(r)


def is_polyval(S, e, seen=None):
    """the alternatives of e are polynomials produced by the polynomial layer"""
    P, ip = S.P, S.ip
    st, seen = [e], set()
    n = 0
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        s = S.step(x)
        if s[0] == "alt":
            st.extend(s[1])
            continue
        o = op_of(P, x)
        if o is not None:
            n += 1
            continue
        t = S.types.of(x)
        if t is not None and P.ty(t).get("p") == POLY:
            n += 1
            continue
        return False
    return n > 0


# ------------------------------------------------------------------ objects

from collections import namedtuple

# a workspace object an entry returns or updates; loops: the loops its enclosing collections are filled in;
# chain: enclosing workspace types
Obj = namedtuple("Obj", "adt v facts st lab loops chain")


class Everything:
    def __contains__(self, x):
        return True


def loop_of_phi(ip, e):
    """(ctx, blocks) of the loop whose head merges e, or None"""
    hd = e.d[0]
    if not isinstance(hd, tuple) or not hd:
        return None
    ctx, b = hd[:-1], hd[-1]
    if b == "h":
        return (ctx, Everything())
    f = ip.frames.get(ctx)
    if f is None:
        return None
    bl = f.body.loops().get(b)
    return (ctx, bl) if bl else None


def site_in(loop, site):
    ctx, blocks = loop
    n = len(ctx)
    return len(site) > n and site[:n] == ctx and site[n] in blocks


SEQ_CHAIN = ("push", "mapins", "with", "extended", "inserted", "slice", "sub", "trunc", "popped", "reversed", "swapped", "removed", "sorted", "filled")


def exhausted(facts, s):
    return mk("exhausted", s) in facts or mk("xexh", s) in facts


def covers(ip, facts, P, i):
    """updating the element at i in the loop headed by merge P updates every element, the loop having ended"""
    lens = {P} | {x for x in phi_ins(ip, P) if x.op != "with"}
    st = list(lens)
    while st:
        x = st.pop()
        if x.op == "phi":
            for y in phi_ins(ip, x):
                if y not in lens:
                    lens.add(y)
                    st.append(y)
    full = lambda n: n.op in ("call", "len", "cnt") and n.a and n.a[0] in lens and (n.op != "call" or n.d[0] == "len")
    if i.op == "pos":
        return "part" not in i.d and exhausted(facts, i.d)
    if i.op == "idx" and i.a[1].op == "pos" and i.a[0].op == "it" and i.a[0].d == "range" and len(i.a[0].a) == 2:
        lo, hi = i.a[0].a
        return lo.op == "const" and lo.d == 0 and full(hi) and "part" not in i.a[1].d and exhausted(facts, i.a[1].d)
    if i.op == "phi" and i.d[0] == P.d[0]:
        ins = phi_ins(ip, i)
        step = [x for x in ins if x.op == "bin" and x.d == "Add" and i in x.a and any(y.op == "const" and y.d == 1 for y in x.a)]
        zero = [x for x in ins if x.op == "const" and x.d == 0]
        if step and zero and len(step) + len(zero) == len(ins):
            return any(v is False and c.op == "bin" and c.d in ("Lt", "Ne") and c.a[0] is i and full(c.a[1]) for c, v in facts.items())
    return False


def positions(ip, s, facts=None):
    """(index label, element value, loops) for the elements of a sequence the program built; label suffix ~: an
    element modified in place, ^: a value overwritten since"""
    out = []
    seen = set()

    def back(e, phis, done):
        """phis of the current path that the chain below e leads back to"""
        r = set()
        st = [e]
        while st:
            x = st.pop()
            if x in done:
                continue
            done.add(x)
            if x.op == "phi":
                if x in phis:
                    r.add(x)
                st.extend(phi_ins(ip, x))
            elif x.op in SEQ_CHAIN:
                st.append(x.a[0])
            elif x.op == "join":
                st.extend(x.a)
        return r

    def go(x, phis):
        if x in seen:
            return
        seen.add(x)
        op = x.op
        if op == "phi" and facts is not None:
            ins = phi_ins(ip, x)
            upd = [y for y in ins if y.op == "with" and y.a[0] is x and y.d[0] == "i"]
            if upd and all(covers(ip, facts, x, y.d[1]) for y in upd):
                for y in upd:
                    out.append(("[~]", y.a[1], ()))
                n = len(out)
                for y in ins:
                    if y not in upd:
                        go(y, phis | {x})
                for j in range(n, len(out)):
                    if not out[j][0].endswith("^"):
                        out[j] = (out[j][0] + "^",) + out[j][1:]
                return
        if op == "arr":
            for i, y in enumerate(x.a):
                out.append(("[%d]" % i, y, ()))
        elif op == "fill":
            out.append(("[*]", x.a[0], ((("fill", x), ()),)))
        elif op == "coll":
            out.append(("[*]", x.a[0], ((x.d[:-2], Drive(x.d[-2])),)))
        elif op == "never":
            pass
        elif op == "phi":
            for y in phi_ins(ip, x):
                go(y, phis | {x})
        elif op == "join":
            for y in x.a:
                go(y, phis)
        elif op in ("push", "mapins") or op == "with" and x.d[0] in ("i", "x"):
            L = []
            for p in back(x.a[0], phis, set()):
                l = loop_of_phi(ip, p)
                if l is not None:
                    L.append(l)
            if op == "with" and any(n.op == "idx" and n.a[1] is x.d[1] for n in deps(ip, x.a[1]) if len(x.d) > 1):
                # an existing element, modified in place
                out.append(("[~]", x.a[-1], ()))
                go(x.a[0], phis)
                return
            lab = "[%s]" % x.d[1].d if op == "with" and x.d[0] == "i" and x.d[1].op == "const" else "[push%d]" % len([o for o in out]) if not L else "[*]"
            out.append((lab, x.a[-1], tuple(L)))
            go(x.a[0], phis)
        elif op in SEQ_CHAIN:
            for y in x.a[:1] if op not in ("extended", "inserted") else x.a:
                go(y, phis)
        elif op == "call" and x.d[0] == "default":
            pass
        else:
            for y in elements(ip, x):
                out.append(("[*]", y, ()))

    go(s, frozenset())
    return out


class Drive:
    """blocks marker of a closure-driven iteration"""

    def __init__(self, tag):
        self.tag = tag

    def __contains__(self, x):
        return x == self.tag


def objects(F, skip=()):
    """every workspace object an entry returns or updates, nested ones included"""
    P, ip = F.ip.P, F.ip
    f = F.fn
    b = f.body
    for o in F.outs:
        st = St(o.mem, o.facts)
        roots = [("result", ip.snap(st, o.val), b.locals[0])]
        for i in range(b.argc):
            t = P.ty(b.locals[i + 1])
            if t["k"] == "ref" and t.get("m"):
                v = o.mem.get(("A", i))
                if v is not None and v.op != "arg":
                    roots.append(("argument %s" % b.names.get(i + 1), ip.snap(st, v), t["e"]))
        for lab, v, t in roots:
            yield from _walk(P, ip, v, t, o.facts, st, lab, set(), (), (), skip)


def _walk(P, ip, v, t, facts, st, lab, seen, loops, chain, skip):
    t = P.peel(t)
    if (v, t, lab) in seen:
        return
    seen.add((v, t, lab))
    if v.op in ("arg",):
        return
    rec = lambda x, t2, l2, lo=loops, ch=chain: _walk(P, ip, x, t2, facts, st, l2, seen, lo, ch, skip)
    ty = P.ty(t)
    k = ty["k"]
    a = targs(ty)
    p = ty.get("p")
    seq = k in ("slice", "array") or k == "adt" and (p.endswith("vec::Vec") or "HashMap" in p or "HashSet" in p)
    if v.op in ("phi", "join") and not seq:
        al = alts(ip, v)
        for x in al:
            if x is not v:
                yield from rec(x, t, lab)
        if al:
            return
    if k == "tuple":
        for i, y in enumerate(a):
            yield from rec(proj(v, ("f", str(i))), y, lab + "." + str(i))
        return
    if seq:
        et = ty["e"] if k in ("slice", "array") else a[1] if "HashMap" in p else a[0]
        for il, x, L in positions(ip, v, facts):
            yield from rec(x, et, lab + il, loops + L)
        return
    if k != "adt":
        return
    if p in ("core::option::Option", "core::result::Result"):
        var, at = ("Some", a[0]) if p.endswith("Option") else ("Ok", a[0])
        if v.op == "struct" and v.d[1] in ("Err", "None"):
            return
        yield from rec(proj(v, ("v", var, "0")), at, lab)
        return
    ad = P.adts.get(p)
    if ad is None or p in skip:
        return
    yield Obj(p, v, facts, st, lab, loops, chain)
    if p == POLY:
        return
    if ad["kind"] == "struct" and v.op in ("struct", "with"):
        for fl in ad["vs"][0]["f"]:
            x = proj(v, ("f", fl["n"]))
            if v.op == "with" and x.op == "fld" and x.a[0].op in ("arg", "fld"):
                continue
            yield from rec(x, fl["t"], lab + "." + fl["n"], loops, chain + (p,))
    elif ad["kind"] == "enum" and v.op == "struct":
        for vs in ad["vs"]:
            if vs["n"] == v.d[1]:
                for fl in vs["f"]:
                    yield from rec(proj(v, ("v", v.d[1], fl["n"])), fl["t"], lab, loops, chain + (p,))


# ------------------------------------------------------------------ correlated alternatives


def phi_heads(e, ip=None):
    """top-level merge of e (through field projections), or None; with ip: loop heads do not count"""
    x = e
    while x.op in ("fld", "vfld"):
        x = x.a[0]
    if x.op != "phi" or ip is not None and loop_of_phi(ip, x) is not None:
        return None
    return x


def pick(ip, e, head, edge):
    """e when the merge point head was entered by edge"""
    if e.op in ("fld", "vfld"):
        v = pick(ip, e.a[0], head, edge)
        return e if v is e.a[0] else proj(v, ("f", e.d) if e.op == "fld" else ("v",) + e.d)
    if e.op == "phi" and e.d[0] == head:
        return ip.phi_in.get(e, {}).get(edge, e)
    return e


def cases(ip, vals, limit=200, loops=True, norm=None):
    """the tuple vals with merges replaced by their alternatives, the choices correlated by the edge taken"""
    out, work, n = [], [(tuple(vals), frozenset())], 0
    seen = set()
    while work:
        t, done = work.pop()
        if norm:
            t = tuple(norm(v) for v in t)
        if (t, done) in seen:
            continue
        seen.add((t, done))
        n += 1
        h = None
        for v in t:
            p = phi_heads(v, None if loops else ip)
            if p is not None and p.d[0] not in done:
                h = p
                break
        if h is None or n > limit:
            out.append(t)
            continue
        head = h.d[0]
        edges = set()
        for v in t:
            p = phi_heads(v)
            if p is not None and p.d[0] == head:
                edges |= set(ip.phi_in.get(p, {}))
        for ed in edges:
            work.append((tuple(pick(ip, v, head, ed) for v in t), done | {head}))
    return out


# ------------------------------------------------------------------ what polynomial-layer functions keep

_keep = {}


def poly_summary(P, f):
    """label -> (fields dict) of the polynomials f returns or updates, from its own body"""
    k = (id(P), f.h)
    if k not in _keep:
        from .rules.poly import ZqOpaque, out_polys
        _keep[k] = None
        try:
            G = run(P, f, ZqOpaque())
            r = []
            for lab, o, facts, t in out_polys(P, G):
                r.append((lab, o, facts))
            _keep[k] = (G, r)
        except Budget:
            pass
    return _keep[k]


def keeps_value(P, f):
    """index of the polynomial argument whose coefficients and context every output of f has unchanged, or None"""
    s = poly_summary(P, f)
    if s is None or not s[1]:
        return None
    G, outs = s
    src = set()
    for lab, o, facts in outs:
        c, x = proj(o, ("f", "coefficients")), proj(o, ("f", "ctx"))
        if c.op == "fld" and c.d == "coefficients" and c.a[0].op == "arg" and x.op == "fld" and x.d == "ctx" and x.a[0] is c.a[0]:
            src.add(c.a[0])
        else:
            return None
    if len(src) != 1:
        return None
    a = src.pop()
    for i, (e, t, n) in enumerate(G.args):
        if e is a:
            return i
    return None


def strip_flags(P, e):
    """e without trailing operations that only change permissions"""
    while True:
        o = op_of(P, e)
        if o is None:
            return e
        i = keeps_value(P, o.f)
        if i is None or o.inplace and o.i != i or i >= len(o.args):
            return e
        e = o.args[i]


def same_seq(ip, a, b, seen=None):
    """sequence a holds the same polynomials as b, permissions aside"""
    seen = seen if seen is not None else set()
    if a is b or a in seen:
        return True
    seen.add(a)
    P = ip.P
    if a.op == "phi":
        ins = phi_ins(ip, a)
        return bool(ins) and all(same_seq(ip, x, b, seen) for x in ins)
    if a.op == "join":
        return all(same_seq(ip, x, b, seen) for x in a.a)
    if a.op == "with":
        c = a.d
        if not same_seq(ip, a.a[0], b, seen):
            return False
        if c[0] == "i":
            v = strip_flags(P, a.a[1])
            return v.op == "idx" and v.a[1] is c[1] and (v.a[0] is a.a[0] or same_seq(ip, v.a[0], b, seen)) or any(v is X.index(y, c[1]) for y in (a.a[0], b))
        if c[0] == "x":
            v = strip_flags(P, a.a[1])
            return v.op == "sub" and v.a[0] is a.a[0] and mk("sub", tuple(x if not isinstance(x, E) else None for x in c[1:]), (a.a[0],) + tuple(x for x in c[1:] if isinstance(x, E))) is v
        if c[0] == "s":
            src = proj(a.a[0], c)
            return same_seq(ip, a.a[1], src, seen)
        return False
    if a.op == "coll":
        v = strip_flags(P, a.a[0])
        return v.op == "idx" and v.a[1].op == "pos" and v.a[1].d == a.d and "part" not in a.d and (v.a[0] is b or same_seq(ip, v.a[0], b, seen))
    return False
