"""Contexts of polynomials: which ring context the polynomials of a value live in, and equality of contexts modulo the
facts of a path."""
from .fhe import *

CT = "fhe::bfv::ciphertext::Ciphertext"
PT = "fhe::bfv::plaintext::Plaintext"
PK = "fhe::bfv::keys::public_key::PublicKey"
SK = "fhe::bfv::keys::secret_key::SecretKey"
KSK = "fhe::bfv::keys::key_switching_key::KeySwitchingKey"
GK = "fhe::bfv::keys::galois_key::GaloisKey"
RLK = "fhe::bfv::keys::relinearization_key::RelinearizationKey"
EK = "fhe::bfv::keys::evaluation_key::EvaluationKey"
EKB = "fhe::bfv::keys::evaluation_key::EvaluationKeyBuilder"
RGSW = "fhe::bfv::rgsw_ciphertext::RGSWCiphertext"
MUL = "fhe::bfv::ops::mul::Multiplicator"
CPC = "fhe::bfv::context::cipher_plain_context::CipherPlainContext"
CLV = "fhe::bfv::context::level::ContextLevel"
MP = "fhe::bfv::parameters::MultiplicationParameters"
CRP = "fhe::mbfv::crp::CommonRandomPoly"
PKS = "fhe::mbfv::public_key_gen::PublicKeyShare"
RKS = "fhe::mbfv::relin_key_gen::RelinKeyShare"
RKG = "fhe::mbfv::relin_key_gen::RelinKeyGenerator"
SKSS = "fhe::mbfv::secret_key_switch::SecretKeySwitchShare"
PKSS = "fhe::mbfv::public_key_switch::PublicKeySwitchShare"
SCALER = "fhe_math::rq::scaler::Scaler"


def F(x, *fs):
    for f in fs:
        x = proj(x, ("f", f) if isinstance(f, str) else f)
    return x


def CL(par, lvl):
    return mk("CL", None, (par, lvl))


def LV(pt):
    return mk("LV", None, (pt,))


SOME = ("v", "Some", "0")

# (type, field): context of the polynomials the field holds
POLYS = {
    (CT, "c"): lambda X: CL(F(X, "par"), F(X, "level")),
    (PT, "poly_ntt"): lambda X: CL(F(X, "par"), LV(X)),
    (KSK, "c0"): lambda X: CL(F(X, "par"), F(X, "ksk_level")),
    (KSK, "c1"): lambda X: CL(F(X, "par"), F(X, "ksk_level")),
    (EK, "monomials"): lambda X: CL(F(X, "par"), F(X, "ciphertext_level")),
    (CPC, "delta"): lambda X: F(X, "ciphertext_context"),
    (PKS, "p0_share"): lambda X: CL(F(X, "par"), const(0)),
    (RKS, "h0"): lambda X: CL(F(X, "par"), const(0)),
    (RKS, "h1"): lambda X: CL(F(X, "par"), const(0)),
    (SKSS, "h_share"): lambda X: CL(F(X, "ct", "par"), F(X, "ct", "level")),
}
# (type, field): the context stored in the field
CTXS = {
    (KSK, "ctx_ksk"): lambda X: CL(F(X, "par"), F(X, "ksk_level")),
    (KSK, "ctx_ciphertext"): lambda X: CL(F(X, "par"), F(X, "ciphertext_level")),
    (MUL, "base_ctx"): lambda X: CL(F(X, "par"), F(X, "level")),
}
# (type, path): what the path is always equal to
ALIAS = {
    (EK, ("gk", "*", "ksk", "par")): lambda X: F(X, "par"),
    (EK, ("gk", "*", "ksk", "ciphertext_level")): lambda X: F(X, "ciphertext_level"),
    (EK, ("gk", "*", "ksk", "ksk_level")): lambda X: F(X, "evaluation_key_level"),
    (GK, ("element", "ctx")): lambda X: CL(F(X, "ksk", "par"), F(X, "ksk", "ciphertext_level")),
    (RGSW, ("ksk1", "par")): lambda X: F(X, "ksk0", "par"),
    (RGSW, ("ksk1", "ksk_level")): lambda X: F(X, "ksk0", "ksk_level"),
    (RGSW, ("ksk1", "ciphertext_level")): lambda X: F(X, "ksk0", "ksk_level"),
    (RGSW, ("ksk0", "ciphertext_level")): lambda X: F(X, "ksk0", "ksk_level"),
    (PK, ("c", "par")): lambda X: F(X, "par"),
    (MUL, ("extender_lhs", "to")): lambda X: F(X, "mul_ctx"),
    (MUL, ("extender_rhs", "to")): lambda X: F(X, "mul_ctx"),
    (MUL, ("extender_lhs", "from")): lambda X: F(X, "base_ctx"),
    (MUL, ("extender_rhs", "from")): lambda X: F(X, "base_ctx"),
    (MUL, ("down_scaler", "to")): lambda X: F(X, "base_ctx"),
    (MUL, ("down_scaler", "from")): lambda X: F(X, "mul_ctx"),
}
# of parameter sets, established when they are built (P18 covers their construction)
LEVELS = {
    ("mul_params", "from"): lambda par, l: CL(par, l),
    ("mul_params", "extender", "from"): lambda par, l: CL(par, l),
    ("mul_params", "down_scaler", "to"): lambda par, l: CL(par, l),
    ("mul_params", "extender", "to"): lambda par, l: F(X.index(F(par, "context_levels"), l), "mul_params", "to"),
    ("cipher_plain_context", "ciphertext_context"): lambda par, l: CL(par, l),
    ("cipher_plain_context", "scaler", "to"): lambda par, l: F(X.index(F(par, "context_levels"), l), "cipher_plain_context", "plaintext_context"),
    ("poly_context",): lambda par, l: CL(par, l),
    ("level",): lambda par, l: l,
}


def comp(e):
    """last step of an access path"""
    if e.op == "fld":
        return e.d
    if e.op == "vfld":
        return ".".join(e.d)
    if e.op == "idx":
        return "*"
    return None


def phis_at(e, head, memo):
    if e in memo:
        return memo[e]
    memo[e] = False
    r = e.op == "phi" and e.d[0] == head or any(isinstance(x, E) and phis_at(x, head, memo) for x in e.a)
    memo[e] = r
    return r


ALL = ((0, None),)
ANY = mk("pos", ("any",))


def overlap(rest, lo, hi):
    return any((hi is None or a < hi) and (b is None or lo < b) for a, b in rest)


def minus(rest, lo, hi):
    r = []
    for a, b in rest:
        if not overlap(((a, b),), lo, hi):
            r.append((a, b))
            continue
        if a < lo:
            r.append((a, lo))
        if hi is not None and (b is None or hi < b):
            r.append((hi, b))
    return tuple(r)


def shift(rest, lo, hi):
    """rest within [lo, hi), counted from lo"""
    r = []
    for a, b in rest:
        a2, b2 = max(a, lo), b if hi is None else hi if b is None else min(b, hi)
        if b2 is None or a2 < b2:
            r.append((a2 - lo, None if b2 is None else b2 - lo))
    return tuple(r)


def unshift(rest, lo, hi):
    r = []
    for a, b in rest:
        a2, b2 = a + lo, hi if b is None else b + lo if hi is None else min(b + lo, hi)
        if b2 is None or a2 < b2:
            r.append((a2, b2))
    return tuple(r)


def written(s):
    """elements of a written-out array, or of a constant part of one"""
    if s.op == "arr":
        return s.a
    lo, hi = (x.d if x.op == "const" else x for x in s.a[1:3])
    if isinstance(lo, E) or isinstance(hi, E):
        return ()
    return s.a[0].a[lo or 0:hi]


class Ctx:
    def __init__(self, Fl, facts, types=None, depth=0, shared=None, assume=None):
        self.F, self.ip, self.P = Fl, Fl.ip, Fl.ip.P
        self.T = types or Types(Fl)
        self.facts = facts
        self.rep = {}
        self.memo = {}
        self.um = {}
        self.depth = depth
        self.busy = set()
        self.each = {}
        self.assume = assume or {}
        self.shared = shared if shared is not None else {}
        for a, b in self.equalities():
            self.union(a, b)

    # ---------------------------------------------------------- equalities of the path

    def spelled(self):
        """the facts of the path, those about every element of a written-out array given for each"""
        yield from self.facts.items()
        for c, v in forall_facts(self.facts):
            for x in small(c):
                if x.op == "idx" and x.a[1].op == "each" and (x.a[0].op == "arr" or x.a[0].op == "slice" and x.a[0].a[0].op == "arr"):
                    for y in written(x.a[0]):
                        if y.op == "ref" and y.d[0][0] == "A" and y.d[0][1] < len(self.F.args):
                            z = self.F.args[y.d[0][1]][0]
                            for q in y.d[1]:
                                z = proj(z, q)
                            y = z
                        yield repl_all(c, {x: y}), v

    def equalities(self):
        self.everyone()
        for c, v in self.spelled():
            if c.op == "bin" and c.d == "Eq" and v is True or c.op == "bin" and c.d == "Ne" and v is False or c.op == "call" and c.d[0] in ("ptr_eq", "eq") and v is True and len(c.a) == 2:
                yield c.a
            elif c.op == "bin" and c.d == "Lt" and v is False and self.facts.get(mk("bin", "Lt", (c.a[1], c.a[0]))) is False:
                yield c.a

    def everyone(self):
        for c, v in forall_facts(self.facts):
            if c.op == "bin" and c.d == "Eq" and v is True:
                for x, y in (c.a, c.a[::-1]):
                    s = ctx_subject(x)
                    if s is not None and s.op == "idx" and s.a[1].op in ("each", "pos"):
                        self.each.setdefault(s.a[0], []).append(y)

    def find(self, x):
        while x in self.rep:
            x = self.rep[x]
        return x

    def union(self, a, b):
        a, b = self.canon(a), self.canon(b)
        if a is b:
            return
        # contexts of parameter levels and constants make the best representatives
        rank = lambda x: (any(k == "each" for k, _ in x.sites), 0 if x.op == "const" else 1 if x.op == "CL" else 2 if x.op == "arg" else 3, len(show(x, 12)))
        if rank(b) > rank(a):
            a, b = b, a
        if b.op == "CL" and b.a[1] is not a and any(x is a for x in small(b.a[1])):
            # the level was computed from a itself: name it
            b = CL(b.a[0], mk("lvof", a))
        self.rep[a] = b
        self.memo = {}
        self.um = {}
        if a.op == "CL" and b.op == "CL" and a.a[0] is b.a[0]:
            # the contexts of the levels of one parameter set differ
            self.union(a.a[1], b.a[1])

    # ---------------------------------------------------------- canonical values

    def canon(self, e):
        if e in self.memo:
            return self.memo[e]
        self.memo[e] = e
        r = self._canon(e)
        self.memo[e] = r
        return r

    def _canon(self, e):
        if e.op in ("const", "arg", "ref"):
            return self.find(e)
        s = ctx_subject(e)
        if s is None and e.op == "fld" and e.d == "ctx" and self.is_poly(e.a[0]):
            s = e.a[0]
        if s is not None:
            return self.find(self.U(s))
        x = self.alias(e)
        if x is not None:
            return self.canon(x)
        if e.op == "fld":
            x = self.made(e)
            if x is not None:
                return self.canon(x)
        if e.op in ("phi", "pos", "each"):
            return self.find(e)
        r = self.level(e)
        if r is not None:
            return self.find(self.canon(r))
        if e.a:
            a = tuple(self.canon(y) if isinstance(y, E) else y for y in e.a)
            e2 = e
            if any(x is not y for x, y in zip(a, e.a)):
                if e.op in ("fld", "vfld"):
                    e2 = proj(a[0], ("f", e.d) if e.op == "fld" else ("v",) + e.d)
                elif e.op == "idx":
                    e2 = X.index(a[0], a[1])
                elif e.op == "bin":
                    e2 = binop(e.d, *a)
                else:
                    e2 = mk(e.op, e.d, a)
            r = self.level(e2)
            if r is not None:
                return self.find(self.canon(r))
            if e2 is not e and e2 not in self.memo:
                return self.canon(e2)
            e = e2
        return self.find(e)

    def is_poly(self, x):
        o = op_of(self.P, x)
        if o is not None:
            return self.after_op(o) is not None
        return self.T.adt(x) == POLY

    def level(self, e):
        """len(par.moduli) - len(moduli of the context of level l) is l"""
        if e.op == "bin" and e.d == "Sub":
            a, b = moduli_of(e.a[0]), moduli_of(e.a[1])
            if a is not None and b is not None and a.op == "fld" and a.d == "moduli":
                par = self.canon(a.a[0])
                c = self.canon(b.a[0]) if b.op in ("fld", "call") else None
                if c is not None and c.op == "CL" and c.a[0] is par:
                    return c.a[1]
        if e.op == "fld" and e.a[0].op == "CL" and False:
            return None
        if e.op == "vfld" and e.d[0] == "Some" and e.a[0].op == "fld" and e.a[0].d == "next_context":
            c = self.canon(e.a[0].a[0])
            if c.op == "CL":
                return CL(c.a[0], binop("Add", c.a[1], const(1)))
        return None

    def alias(self, e):
        """what the invariants of the object holding e say it equals"""
        path = []
        x = e
        while True:
            c = comp(x)
            if c is None:
                return None
            path.insert(0, c)
            x = x.a[0]
            if len(path) > 6:
                return None
            if len(path) >= 2 and path[0] == "*" and path[1:] and x.op == "fld" and x.d == "context_levels":
                t = LEVELS.get(tuple(path[1:]))
                if t is not None:
                    i = self.at(e, len(path) - 1)
                    return t(x.a[0], i.a[1])
            if x.op in ("arg", "fld", "vfld", "idx"):
                t = self.T.adt(x)
                if t is None:
                    continue
                k = (t, tuple(path))
                if k in ALIAS:
                    return ALIAS[k](x)
                if len(path) == 1 and (t, path[0]) in CTXS:
                    return CTXS[t, path[0]](x)

    def at(self, e, n):
        for _ in range(n):
            e = e.a[0]
        return e

    def made(self, e):
        """the field e of a structure of the polynomial layer built by a call"""
        path = [e.d]
        x = e.a[0]
        while x.op == "fld":
            path.insert(0, x.d)
            x = x.a[0]
        o = op_of(self.P, x)
        if o is None:
            return None
        s = out_summary(self.P, o.f)
        if s is None:
            return None
        G, vals = s
        r = set()
        for v in vals:
            for p in path:
                v = proj(v, ("f", p))
            y = self.instance(G, v, o)
            if y is None:
                return None
            r.add(y)
        return r.pop() if len(r) == 1 else None

    def instance(self, G, v, o):
        m = {}
        for (a, t, n), y in zip(G.args, o.args):
            m[a] = y
        if any(x.op not in ("arg", "fld", "vfld", "const", "idx") for x in small(v)):
            return None
        return repl_all(v, m)

    # ---------------------------------------------------------- contexts of polynomials

    def U(self, e):
        """context of polynomial e (of every polynomial in sequence e)"""
        if e in self.um:
            return self.um[e]
        if e in self.busy:
            return mk("ctxof", None, (e,))
        self.busy.add(e)
        r = self._U(e)
        self.busy.discard(e)
        if not self.busy:
            self.um[e] = r
        return r

    def _U(self, e):
        P = self.P
        if e in self.assume:
            return self.canon(self.assume[e])
        o = op_of(P, e)
        if o is not None:
            s = self.after_op(o)
            if s is None:
                return mk("ctxof", None, (e,))
            G, cs = s
            r = set()
            for c in cs:
                own = [z for (a, ty, n), z in zip(G.args, o.args) if c is proj(a, ("f", "ctx")) and is_poly_ty(P, ty)]
                y = self.U(own[0]) if own else self.drawn(G, c, o) or self.instance(G, c, o)
                if y is None:
                    y = mk("ctxof", None, (e,))
                r.add(self.canon(y))
            return r.pop() if len(r) == 1 else mk("ctxof", None, (e,))
        if e.op in ("fld", "vfld"):
            x = e.a[0]
            if x.op in ("arg", "fld", "vfld", "idx") or x.op == "phi":
                t = self.T.adt(x) if x.op != "phi" else None
                if (t, e.d) in POLYS:
                    return self.canon(POLYS[t, e.d](x))
        if e.op == "idx" and e.a[1].op == "const" and type(e.a[1].d) is int:
            x = self.elem(e.a[0], e.a[1].d)
            if x is not e:
                return self.U(x)
        if e.op == "idx":
            s = e.a[0]
            if s in self.each:
                return self.canon(self.each[s][0])
            if s.op in ("fld", "vfld", "phi", "idx", "slice", "coll", "arr", "push", "with", "join", "fill", "rev", "sub"):
                if s.op in ("fld", "idx") and self.base(s).op == "arg" and not self.owned(s):
                    return mk("ctxof", None, (e,))
                return self.U(s)
            return mk("ctxof", None, (e,))
        if e.op in ("sub", "trunc", "popped", "rev"):
            return self.U(e.a[0])
        if e.op == "slice":
            return self.U(e.a[0])
        if e.op == "struct" and e.d[1] in ("Ok", "Some", "Owned", "Borrowed") and len(e.a) == 1:
            return self.U(e.a[0])
        if e.op in ("coll", "fill"):
            return self.U(e.a[0])
        vs = self.inner(e) or self.opened(e)
        if vs:
            vs = [x for x in vs if not empty(x)]
            r = {self.U(x) for x in vs}
            if len(r) == 1:
                return r.pop()
            return mk("ctxof", None, (e,))
        h = self.head(e)
        if h is not None:
            return self.merged(e, h)
        return mk("ctxof", None, (e,))

    def drawn(self, G, c, o):
        """the context c of the polynomials an iterator argument yields"""
        if c.op != "fld" or c.d != "ctx" or c.a[0].op != "idx" or c.a[0].a[1].op not in ("each", "pos"):
            return None
        for (a, ty, n), z in zip(G.args, o.args):
            if c.a[0].a[0] is a:
                for x in self.yielded(z):
                    u = self.canon(self.U(x))
                    if u.op != "ctxof" and not any(k == "each" for k, _ in u.sites):
                        return u
        return None

    def yielded(self, z):
        """the elements iterator z yields, named by the loops whose facts hold for all of them"""
        if z.op == "it" and z.d == "map" and len(z.a) == 2 and z.a[1].op == "clos":
            for x in self.yielded(z.a[0]):
                y = applied(self.P, z.a[1], x)
                if y is not None:
                    self.typed(x, _out[id(self.P), z.a[1].d][0].args[1][1])
                    yield y
            return
        if z.op == "it" and z.d in ("iter", "into_iter", "cloned", "copied", "rev") and len(z.a) == 1:
            yield from self.yielded(z.a[0])
            return
        seen = set()
        for c, v in forall_facts(self.facts):
            for x in small(c):
                if x.op == "idx" and x.a[0] is z and x.a[1].op == "each" and x not in seen:
                    seen.add(x)
                    yield x

    def typed(self, x, t):
        """x is what a closure takes: its type is known from there"""
        if self.T.of(x) is None:
            self.T.memo = {k: v for k, v in self.T.memo.items() if v is not None}
            self.T.memo[x] = self.P.peel(t)

    def elem(self, s, k):
        """element number k of sequence s"""
        if s.op == "arr" and k < len(s.a):
            return s.a[k]
        if s.op == "slice":
            lo = s.a[1].d if s.a[1].op == "const" else None if s.a[1].op == "const" else s.a[1]
            if not isinstance(lo, E):
                return self.elem(s.a[0], k + (lo or 0))
        if s.op == "with" and s.d[0] == "i":
            i = s.d[1].d if isinstance(s.d[1], E) and s.d[1].op == "const" else s.d[1]
            if type(i) is int:
                return s.a[1] if i == k else self.elem(s.a[0], k)
        if s.op == "with" and s.d[0] == "s":
            lo, hi = (x.d if isinstance(x, E) and x.op == "const" else x for x in s.d[1:3])
            if not isinstance(lo, E) and not isinstance(hi, E):
                if k >= (lo or 0) and (hi is None or k < hi):
                    return self.elem(s.a[1], k - (lo or 0))
                return self.elem(s.a[0], k)
        return X.index(s, const(k))

    def after_op(self, o):
        """(flow, contexts the polynomial operation o gives its result)"""
        s = ctx_summary(self.P, o.f)
        if s is None:
            return None
        G, rows = s
        i = o.i if o.inplace else None
        okd = not o.inplace or self.facts.get(mk("is", "Ok", (o.call,))) is True
        rs = {c for j, c, failed in rows if j == i and not (failed and okd)}
        return (G, rs) if rs else None

    def base(self, e):
        while e.op in ("fld", "vfld", "idx"):
            e = e.a[0]
        return e

    def owned(self, s):
        while s.op in ("fld", "vfld", "idx"):
            x = s.a[0]
            if s.op == "fld" and (self.T.adt(x), s.d) in POLYS:
                return True
            s = x
        return False

    def inner(self, e):
        """the parts sequence e is assembled from"""
        if e.op == "arr":
            return list(e.a)
        if e.op == "push":
            return [x for x in e.a if x.op != "arr" or x.a]
        if e.op == "with":
            if e.d[0] in ("i", "x", "s"):
                return [e.a[0], e.a[1]]
        if e.op == "join":
            return list(e.a)
        if e.op == "extended":
            return list(e.a)
        return None

    def opened(self, e):
        """the alternatives of an access path into a sequence the program built"""
        path, x = [], e
        while x.op in ("fld", "vfld", "idx"):
            path.append(x)
            x = x.a[0]
        if not path or path[-1].op != "idx":
            return None
        if len(path) == 1 and self.P is not None and self.is_poly_elem(e):
            return None
        if x.op in ("slice", "sub", "trunc", "popped", "rev"):
            ys = [X.index(x.a[0], ANY)]
        elif x.op == "with" and x.d[0] in ("i", "x"):
            ys = [x.a[1], X.index(x.a[0], ANY if x.d[0] == "i" else path[-1].a[1])]
        elif x.op == "with" and x.d[0] == "s":
            ys = [X.index(x.a[1], ANY), X.index(x.a[0], ANY)]
        elif x.op == "push":
            ys = [x.a[1], X.index(x.a[0], ANY)]
        elif x.op in ("join", "extended"):
            ys = [X.index(y, ANY) for y in x.a]
        elif x.op == "arr":
            ys = list(x.a)
        else:
            return None
        r = []
        for y in ys:
            for q in reversed(path[:-1]):
                y = proj(y, ("f", q.d)) if q.op == "fld" else proj(y, ("v",) + q.d) if q.op == "vfld" else X.index(y, q.a[1])
            r.append(y)
        return r

    def is_poly_elem(self, e):
        return True

    def head(self, e):
        x = e
        while x.op in ("fld", "vfld", "idx"):
            x = x.a[0]
        return x if x.op == "phi" else None

    def edges(self, e, h):
        """(edge, value) of e for every way merge point h is entered"""
        return [(ed, repl(e, h, v)) for ed, v in self.ip.phi_in.get(h, {}).items()]

    def merged(self, e, h):
        L = loop_of_phi(self.ip, h)
        if self.depth > 8:
            return mk("ctxof", None, (e,))
        ts = set()
        for ed, v in self.edges(e, h):
            if v is e or empty(v):
                continue
            back = L is not None and ed[1][0] != "entry" and ed[1][0] in L[1]
            if not back:
                ts.add(self.on(h, ed).U(v))
        if not ts and L is not None:
            for ed, v in self.edges(e, h):
                for x in added(v):
                    ts.add(self.on(h, ed).U(x))
        if len(ts) > 1:
            ts = {self.canon(t) for t in ts}
        if len(ts) != 1:
            return mk("ctxof", None, (e,))
        t = ts.pop()
        if phis_at(t, h.d[0], {}):
            return mk("ctxof", None, (e,))
        if L is None:
            return self.canon(t)
        hyp = frozenset({(e, t, ALL)})
        if all(v is e or empty(v) or self.on(h, ed, hyp).holds(v, t, hyp) for ed, v in self.edges(e, h)):
            return self.canon(t)
        return self.canon(t) if self.holds(e, t) else mk("ctxof", None, (e,))

    def on(self, h, ed, hyp=frozenset()):
        """the prover for values as they were when the merge point of h was entered by edge ed"""
        fs = self.ip.edge_facts.get((h.d[0], h.d[1]) + ed)
        if fs is None:
            fs = {}
        known = dict(self.assume)
        for e, t, rest in hyp:
            if rest == ALL and e.op == "phi":
                known[e] = t
        k = (h.d[0], h.d[1], ed, frozenset(known.items()))
        if k not in self.shared:
            self.shared[k] = None
            self.shared[k] = Ctx(self.F, fs, self.T, self.depth + 1, self.shared, known)
        return self.shared[k] or Ctx(self.F, fs, self.T, self.depth + 20, self.shared, known)

    def mapped(self, e, t, hyp):
        """e is what a loop that rewrote every element of a sequence left: the rewritten elements have context t"""
        ins = self.ip.phi_in.get(e, {})
        upd = [(ed, y) for ed, y in ins.items() if y.op == "with" and y.a[0] is e and y.d[0] == "i"]
        ent = {y for y in ins.values() if y.op != "with" and y is not e}
        if not upd or len(ent) != 1 or len(upd) + 1 < len([y for y in ins.values() if y is not e]):
            return False
        z = ent.pop()
        for ed, y in upd:
            if not covers(self.ip, self.facts, e, y.d[1]):
                return False
            m = {X.index(e, y.d[1]): X.index(z, y.d[1])}
            v = repl_all(y.a[1], m)
            if any(x is e for x in small(v)):
                return False
            C = self.on(e, ed, hyp)
            memo = {}
            C = Ctx(self.F, {repl_all(c, m, memo): b for c, b in C.facts.items()}, self.T, self.depth + 1, self.shared, C.assume)
            if not C.holds(v, t, hyp):
                return False
        return True

    def holds(self, e, t, hyp=frozenset(), rest=ALL):
        """every polynomial in e (the elements in rest when e is a sequence) has context t"""
        t = self.canon(t)
        if not rest:
            return True
        k = (e, t, rest)
        if k in hyp or empty(e):
            return True
        if len(hyp) > 60:
            return False
        if e in self.each and any(self.canon(y) is t for y in self.each[e]):
            return True
        if e.op in ("arg", "fld", "vfld"):
            rest = self.checked(e, t, rest)
            if not rest:
                return True
        if e.op == "idx" and e.a[1].op == "const" and type(e.a[1].d) is int:
            return self.holds(e.a[0], t, hyp, ((e.a[1].d, e.a[1].d + 1),))
        if e.op == "idx" and self.is_seq(e.a[0]):
            if e.a[0] in self.each and any(self.canon(y) is t for y in self.each[e.a[0]]):
                return True
            return self.holds(e.a[0], t, hyp, ALL)
        if e.op == "coll" or e.op == "fill":
            return self.holds(e.a[0], t, hyp)
        if e.op == "struct" and e.d[1] in ("Ok", "Some", "Owned", "Borrowed"):
            return self.holds(e.a[0], t, hyp, rest)
        if e.op == "arr":
            return all(self.holds(x, t, hyp) for i, x in enumerate(e.a) if overlap(rest, i, i + 1))
        if e.op == "push":
            return self.holds(e.a[0], t, hyp, rest) and self.holds(e.a[1], t, hyp)
        if e.op in ("join", "extended"):
            return all(self.holds(x, t, hyp, rest) for x in e.a)
        if e.op == "with" and e.d[0] == "i":
            i = e.d[1]
            if isinstance(i, E) and i.op == "const":
                i = i.d
            if type(i) is int:
                return (not overlap(rest, i, i + 1) or self.holds(e.a[1], t, hyp)) and self.holds(e.a[0], t, hyp, minus(rest, i, i + 1))
            return self.holds(e.a[1], t, hyp) and self.holds(e.a[0], t, hyp, rest)
        if e.op == "with" and e.d[0] == "x":
            return self.holds(e.a[1], t, hyp) and self.holds(e.a[0], t, hyp, rest)
        if e.op == "with" and e.d[0] == "s":
            lo, hi = (x.d if isinstance(x, E) and x.op == "const" else x for x in e.d[1:3])
            if isinstance(lo, E) or isinstance(hi, E):
                return self.holds(e.a[1], t, hyp) and self.holds(e.a[0], t, hyp, rest)
            lo = lo or 0
            return self.holds(e.a[1], t, hyp, shift(rest, lo, hi)) and self.holds(e.a[0], t, hyp, minus(rest, lo, hi))
        if e.op == "slice":
            lo, hi = e.a[1].d if e.a[1].op == "const" else e.a[1], e.a[2].d if e.a[2].op == "const" else e.a[2]
            if isinstance(lo, E) or isinstance(hi, E):
                return self.holds(e.a[0], t, hyp, ALL)
            return self.holds(e.a[0], t, hyp, unshift(rest, lo or 0, hi))
        if e.op in ("sub", "trunc", "popped", "rev"):
            return self.holds(e.a[0], t, hyp, ALL)
        o = op_of(self.P, e)
        if o is not None and self.canon(self.U(e)) is t:
            return True
        if o is not None:
            s = self.after_op(o)
            G, own = s if s else (None, set())
            if o.inplace:
                # in-place operations keep the context of the polynomial they update
                if own and o.i < len(G.args) and own == {proj(G.args[o.i][0], ("f", "ctx"))}:
                    return self.holds(o.args[o.i], t, hyp)
            elif len(own) == 1:
                c = own.pop()
                for (a, ty, n), y in zip(G.args, o.args):
                    if c is proj(a, ("f", "ctx")) and is_poly_ty(self.P, ty):
                        return self.holds(y, t, hyp)
        h = self.head(e)
        if self.canon(self.U(e)) is t:
            return True
        if e.op == "phi" and self.mapped(e, t, hyp):
            return True
        vs = self.opened(e)
        if vs is not None:
            return all(self.holds(x, t, hyp | {k}, rest) for x in vs)
        if h is not None:
            p = h.d[0]
            hyp2 = hyp | {k}
            for ed, v in self.edges(e, h):
                m = {}
                for q in phi_set(t, p):
                    m[q] = self.ip.phi_in.get(q, {}).get(ed, q)
                t2 = repl_all(t, m) if m else t
                if v is e and t2 is t:
                    continue
                if not self.on(h, ed, hyp2).holds(v, t2, hyp2, rest):
                    return False
            return True
        self.shared.setdefault("why", []).append((e, self.canon(self.U(e)), t))
        return False

    def checked(self, e, t, rest):
        """the elements of e among rest that the path did not compare with t"""
        for s, ys in self.each.items():
            if s.op == "slice" and s.a[0] is e and any(self.canon(y) is t for y in ys):
                lo, hi = (x.d if x.op == "const" else x for x in s.a[1:3])
                if not isinstance(lo, E) and not isinstance(hi, E):
                    rest = minus(rest, lo or 0, hi)
        while rest and rest[0][0] < 4:
            i = rest[0][0]
            x = self.U(X.index(e, const(i)))
            if x.op == "ctxof" and x.a[0] is not X.index(e, const(i)):
                break
            if self.find(x) is not t and self.canon(x) is not t:
                break
            rest = minus(rest, i, i + 1)
        return rest

    def is_seq(self, s):
        t = self.T.of(s)
        if t is None:
            return True
        ty = self.P.ty(t)
        return ty["k"] in ("slice", "array") or ty["k"] == "adt"

    def same(self, a, b):
        """polynomials a and b have the same context"""
        u, v = self.canon(self.U(a)), self.canon(self.U(b))
        if u is v and u.op != "ctxof" or a is b:
            return True
        if u is v:
            return True
        return self.holds(a, v) or self.holds(b, u)


def ctx_subject(e):
    """p when e is the context of polynomial p"""
    if e.op == "call" and e.d[0].endswith("::ctx") and len(e.a) == 1:
        return e.a[0]
    if e.op == "fld" and e.d == "ctx" and e.a[0].op == "call":
        return None
    return None


def moduli_of(e):
    """x when e is the number of moduli of x"""
    if e.op in ("call", "len", "cnt") and len(e.a) == 1 and (e.op != "call" or e.d[0] == "len"):
        y = e.a[0]
        if y.op == "fld" and y.d == "moduli":
            return y
        if y.op == "call" and y.d[0].endswith("Context::moduli"):
            return y
    return None


def empty(e):
    return e.op == "arr" and not e.a or e.op == "call" and e.d[0] in ("default", "new") and not e.a or e.op == "never" or e.op == "struct" and e.d[1] in ("None", "Err")


def added(v):
    """elements a step of a loop adds to sequence v"""
    while v.op in ("push", "with", "extended"):
        yield v.a[1]
        v = v.a[0]
    if v.op == "coll":
        yield v.a[0]


def repl(e, h, v):
    if e is h:
        return v
    b = repl(e.a[0], h, v)
    if e.op == "fld":
        return proj(b, ("f", e.d))
    if e.op == "vfld":
        return proj(b, ("v",) + e.d)
    return X.index(b, e.a[1])


def repl_all(e, m, memo=None):
    """e with the values in m replaced"""
    memo = memo if memo is not None else {}
    if e in m:
        return m[e]
    if e in memo:
        return memo[e]
    memo[e] = e
    if not e.a:
        return e
    a = tuple(repl_all(x, m, memo) if isinstance(x, E) else x for x in e.a)
    if all(x is y for x, y in zip(a, e.a)):
        r = e
    elif e.op == "idx":
        r = X.index(a[0], a[1])
    elif e.op == "fld":
        r = proj(a[0], ("f", e.d))
    elif e.op == "vfld":
        r = proj(a[0], ("v",) + e.d)
    elif e.op == "bin":
        r = binop(e.d, *a)
    else:
        r = mk(e.op, e.d, a)
    memo[e] = r
    return r


def phi_set(e, head, seen=None):
    seen = seen if seen is not None else set()
    r = set()
    st = [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and x.d[0] == head:
            r.add(x)
        st.extend(y for y in x.a if isinstance(y, E))
    return r


def small(e, seen=None):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(y for y in x.a if isinstance(y, E))


_cs = {}


def ctx_summary(P, f):
    """(flow, [(argument index or None for the result, context of the polynomial, the call may have failed)])"""
    k = (id(P), f.h)
    if k in _cs:
        return _cs[k]
    _cs[k] = None
    s = poly_summary(P, f)
    if s is None or not s[1]:
        return None
    G, outs = s
    failed = {id(o.facts): o.val.op == "struct" and o.val.d[1] in ("Err", "None") for o in G.outs}
    idx = {"argument %s" % n: i for i, (a, t, n) in enumerate(G.args)}
    r = []
    for lab, v, facts in outs:
        c = proj(v, ("f", "ctx"))
        if c.op == "phi":
            for q, b in facts.items():
                if b is True and q.op == "bin" and q.d == "Eq" and c in q.a:
                    y = q.a[0] if q.a[1] is c else q.a[1]
                    if y.op != "phi":
                        c = y
        if c.op == "fld" and c.d == "ctx":
            x = c.a[0]
            if x.op == "vfld" and x.d[0] in ("Ok", "Some"):
                x = x.a[0]
            if x.op == "call" and fn_named(P, x.d[0]) is None:
                i = generic_ctx(P, x.d[0])
                if i is not None and i < len(x.a):
                    c = x.a[i]
        r.append((idx.get(lab), c, failed.get(id(facts), False)))
    _cs[k] = (G, r)
    return _cs[k]


def applied(P, clos, x):
    """what closure clos makes of x, when that is a part of x or of what it captured"""
    f = P.fns.get(clos.d)
    k = (id(P), clos.d)
    if k not in _out:
        _out[k] = None
        try:
            G = run(P, f, FhePol()) if f is not None else None
            if G and len(G.outs) == 1 and not G.outs[0].facts and len(G.args) == 2:
                v = G.outs[0].val
                if v.op == "ref" and v.d[0][0] == "A":
                    w = G.args[v.d[0][1]][0]
                    for q in v.d[1]:
                        w = proj(w, q)
                    v = w
                if all(y.op in ("arg", "fld", "vfld", "idx", "const") for y in small(v)):
                    _out[k] = (G, v)
        except Budget:
            pass
    if _out[k] is None:
        return None
    G, v = _out[k]
    return repl_all(v, {G.args[1][0]: x, **{proj(G.args[0][0], ("f", str(i))): y for i, y in enumerate(clos.a)}, **{proj(G.args[0][0], ("f", i)): y for i, y in enumerate(clos.a)}})


def generic_ctx(P, name):
    """the argument every implementation of a trait function of the polynomial layer takes the context of its result from"""
    k = (id(P), name, "generic")
    if k in _cs:
        return _cs[k]
    _cs[k] = None
    tr, _, n = name.rpartition("::")
    js = set()
    for f in P.fns.values():
        if f.crate == "fhe_math" and f.sname == n and f.trait == tr and f.kind != "trait" and f.body is not None:
            s = ctx_summary(P, f)
            if s is None:
                return None
            for i, c, failed in s[1]:
                if i is None and not failed:
                    js |= {j for j, (a, t, m) in enumerate(s[0].args) if c is a} or {None}
    _cs[k] = js.pop() if len(js) == 1 else None
    return _cs[k]


_out = {}


def out_summary(P, f):
    """(flow, values) a function of the polynomial layer may return on success"""
    k = (id(P), f.h)
    if k not in _out:
        from .rules.poly import ZqOpaque
        _out[k] = None
        if f.out is not None:
            try:
                G = run(P, f, ZqOpaque())
                vals = []
                for o in G.outs:
                    v = G.ip.snap(St(o.mem, o.facts), o.val)
                    for x in alts(G.ip, v):
                        if x.op == "struct" and x.d[1] in ("Err", "None"):
                            continue
                        if x.op == "struct" and x.d[1] in ("Ok", "Some") and len(x.a) == 1:
                            x = x.a[0]
                        vals.append(x)
                _out[k] = (G, vals)
            except Budget:
                pass
    return _out[k]
