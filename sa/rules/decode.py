"""Decoders return only well-formed objects (P11)."""
import itertools

from ..fhe import *
from ..ctxs import *
from .evalkey import Space, last
from ..common import whole
from .levels import at_most, below, lin
from .types import stable
from .wire import is_proto, proto_root

RQ = "fhe_math::proto::rq::Rq"
POLY = "fhe_math::rq::Poly"
PAR = "fhe::bfv::parameters::BfvParameters"


class Paths(FhePol):
    """every path of a decoder on its own; the decoders it calls are checked where they are defined"""

    split = 256

    def __init__(self, P):
        FhePol.__init__(self)
        self.P_ = P

    def inline(self, fn, ctx):
        return FhePol.inline(self, fn, ctx) and not (fn.body and is_decoder(self.P_, fn))


class RqPaths(FhePol):
    """the polynomial layer inlined down to residue arithmetic and transforms"""

    split = 256

    def inline(self, fn, ctx):
        n = fn.name
        if fn.crate == "fhe_traits":
            return True
        return fn.crate == "fhe_math" and not any(k in n for k in ("::zq::", "::ntt::", "::rns::")) and fn.sname not in ("into_ntt", "into_ntt_shoup", "into_power_basis", "zero")


def is_decoder(P, f):
    if f.sname in ("from_bytes", "try_deserialize"):
        return True
    return f.sname == "try_convert_from" and any(is_proto(P.ty(P.peel(t)).get("p")) for t in f.ins or ())


def is_len(x):
    return x.op in ("len", "cnt") and len(x.a) == 1 or x.op == "call" and x.d[0] == "len" and len(x.a) == 1


def length(x):
    return mk("call", ("len", None, None), (x,))


def add(a, b):
    if a is None or b is None:
        return None
    if a.op == "const" and b.op == "const":
        return const(a.d + b.d)
    return mk("bin", "Add", (a, b))


# ---------------------------------------------------------- lengths of sequences the path built

class Size:
    def __init__(self, C, facts, st):
        self.C, self.ip, self.facts, self.st = C, C.ip, facts, st

    def of(self, s, depth=0):
        """length of sequence s as an expression, None when unknown"""
        if depth > 30 or s is None:
            return None
        op = s.op
        if op == "arr":
            return const(len(s.a))
        if op == "fill":
            return s.a[1]
        if op == "coll":
            return self.turns(s.a[1], s.a[0], None, depth)
        if op == "push":
            return add(self.of(s.a[0], depth + 1), const(1))
        if op == "join":
            r = const(0)
            for x in s.a:
                r = add(r, self.of(x, depth + 1))
            return r
        if op == "call" and last(s.d[0]) in ("default", "new", "with_capacity") and not any(is_seq_like(x) for x in s.a):
            return const(0)
        if op == "call" and len(s.a) == 1 and last(s.d[0]) in ("into_boxed_slice", "into_vec", "to_vec", "clone", "to_owned", "deref", "as_ref", "as_slice"):
            return self.of(s.a[0], depth + 1)
        if op in ("with", "swapped", "reversed", "sorted", "filled"):
            return self.of(s.a[0], depth + 1)
        if op == "slice":
            lo, hi = s.a[1:3]
            n = self.of(s.a[0], depth + 1) if not isinstance(hi, E) or hi.op == "const" and hi.d is None else hi
            if n is None:
                return None
            if not isinstance(lo, E) or lo.op == "const" and not lo.d:
                return n
            return mk("bin", "Sub", (n, lo))
        if op == "phi":
            return self.merged(s, depth)
        if op in ("never", "popped", "removed", "extended", "inserted", "trunc", "sub"):
            return None
        return length(s)

    def merged(self, s, depth):
        ins = [x for x in phi_ins(self.ip, s) if x is not s and x.op != "never"]
        loop = [x for x in ins if any(y is s for y in chain(self.ip, x))]
        base = [x for x in ins if x not in loop]
        bs = [self.of(x, depth + 1) for x in base]
        if not bs or any(b is None or self.C.canon(b) is not self.C.canon(bs[0]) for b in bs):
            return None
        if not loop:
            return bs[0]
        # one push per turn
        el = set()
        for x in loop:
            if x.op != "push":
                return bs[0] if all(kept(y, s) for y in loop) else None
            if settled(self.ip, x.a[0], s) is not s:
                return None
            el.add(x.a[1])
        n = self.count(s, el, depth)
        return add(bs[0], n)

    def count(self, s, el, depth):
        """turns of the loop headed by s"""
        L = loop_of_phi(self.ip, s)
        if L is None:
            return None
        ctx, b = L
        if s.d[0][-1] == "h":
            return self.all_turns(ctx + ("n",), depth)
        for site in self.ip.pulled:
            if site_in(L, site) and len(site) == len(ctx) + 1 and exhausted(self.facts, site) and not inner(self.ip, L, site):
                return self.all_turns(site, depth)
        # counted by hand
        for c, v in self.facts.items():
            if c.op == "bin" and c.d == "Lt" and v is False and c.a[0].op == "phi" and c.a[0].d[0] == s.d[0]:
                i, ins = c.a[0], phi_ins(self.ip, c.a[0])
                step = [x for x in ins if x.op == "bin" and x.d == "Add" and i in x.a and any(y.op == "const" and y.d == 1 for y in x.a)]
                zero = [x for x in ins if x.op == "const" and x.d == 0]
                if step and len(zero) == 1 and len(step) + 1 == len(ins):
                    return c.a[1]
        return None

    def all_turns(self, site, depth):
        # iterators of other paths: what held there contradicts what holds here
        its = [it for it, fs in self.ip.pulled.get(site, {}).items() if not any(type(v) is bool and type(self.facts.get(c)) is bool and self.facts[c] is not v for c, v in fs.items())]
        ns = [self.turns(it, None, site, depth) for it in its]
        if ns and all(n is not None and self.C.canon(n) is self.C.canon(ns[0]) for n in ns):
            return ns[0]
        return None

    def turns(self, it, elem, site, depth):
        """number of elements of an iterator"""
        if depth > 30:
            return None
        it = self.ip.snap(self.st, it)
        if it.op == "ref":
            it = self.ip.deref_all(self.st, it)
        if it.op != "it":
            return self.of(it, depth + 1)
        k, a = it.d, it.a
        if k == "range" and len(a) == 2:
            return a[1] if a[0].op == "const" and a[0].d == 0 else mk("bin", "Sub", (a[1], a[0]))
        if k in ("iter", "map", "enum", "rev", "copied", "cloned", "inspect", "peekable", "fuse", "rows", "byref"):
            x = self.ip.snap(self.st, a[0])
            return self.turns(x, None, site, depth + 1) if x.op == "it" else self.of(x, depth + 1)
        if k in ("zip", "izip"):
            ns = [self.turns(x, None, site, depth + 1) for x in a]
            if all(n is not None and self.C.canon(n) is self.C.canon(ns[0]) for n in ns):
                return ns[0]
        return None


def inner(ip, L, site):
    """the site belongs to a loop inside L"""
    ctx, blocks = L
    f = ip.frames.get(ctx)
    return f is not None and any(site[len(ctx)] in bl and len(bl) < len(blocks) for bl in f.body.loops().values())


def kept(x, s):
    """x is s with elements replaced"""
    while x is not s:
        if x.op not in ("with", "swapped", "reversed", "sorted", "filled") or not x.a:
            return False
        x = x.a[0]
    return True


def is_seq_like(x):
    return x.op in ("arr", "coll", "phi", "push", "join", "fill", "slice", "call")


def chain(ip, x):
    """what x was made from by sequence operations, across merges"""
    seen, st = set(), [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        yield y
        if y.op in SEQ_CHAIN:
            st.append(y.a[0])
        elif y.op == "join":
            st.extend(y.a)
        elif y.op == "phi":
            st.extend(phi_ins(ip, y))


# ---------------------------------------------------------- numeric evaluation of path conditions

def bare(C):
    """names of values, whatever the path has established about them"""
    if "bare" not in C.shared:
        C.shared["bare"] = Ctx(C.F, {}, C.T)
    return C.shared["bare"]


class Num(Space):
    """values of canonical expressions for a choice of the quantities they depend on"""

    def __init__(self, C, G):
        Space.__init__(self, G, {"N": None})
        self.C = bare(C)
        self.facts = {c: v for c, v in C.facts.items() if type(v) is bool and c.op in ("bin", "not", "call")}

    def ev(self, e, asg):
        if e in asg:
            return asg[e]
        k = self.C.canon(e)
        if k in asg:
            return asg[k]
        if degree_of(e):
            return None
        if e.op in ("call", "cast") and len(e.a) == 1 and (e.op == "cast" or e.d[0].startswith("cast<") or last(e.d[0]) in ("from", "into")):
            v = self.ev(e.a[0], asg)
            return int(v) if isinstance(v, bool) else v
        return Space.ev(self, e, asg)

    def name(self, *xs):
        """the names expressions have here"""
        return {y for x in xs for y in (x, self.C.canon(x))}

    def about(self, keys):
        """the facts that depend on the given quantities"""
        r = {}
        for c, v in self.facts.items():
            if any(x in keys or self.C.canon(x) in keys for x in small(c)):
                r[c] = v
        return r


def degree_of(e):
    return e.op == "fld" and e.d in ("degree", "polynomial_degree") or e.op == "call" and last(e.d[0]) == "degree"


def dead(N, facts, asg):
    return any(N.truth(c, v, asg) is False for c, v in facts.items())


# ---------------------------------------------------------- obligations

class Obligations:
    def __init__(self, R, Fl, o, C, S, outs):
        self.R, self.F, self.o, self.C, self.S = R, Fl, o, C, S
        self.ip = Fl.ip
        self.where = "%s %s" % (o.adt.rsplit("::", 1)[-1], stable(Fl.fn))
        self.outs = outs

    def check(self, cond, what, msg):
        self.R.check(bool(cond), "%s %s" % (what, self.where), "%s returns a %s %s" % (self.F.fn.name, self.o.adt.rsplit("::", 1)[-1], msg), "%s: %s" % (self.where, what))

    # levels of the parameter set

    def level(self, x, par, name):
        n = length(F(par, "context_levels"))
        C = self.C
        self.check(at_most(C, x, n, 1) or at_most(C, x, mk("len", None, (F(par, "context_levels"),)), 1), name, "whose %s need not be a level of its parameters" % name)

    def equal(self, a, b, what, msg):
        a, b = self.C.canon(a), self.C.canon(b)
        self.check(a is b or lin(a) == lin(b) or at_most(self.C, a, b) and at_most(self.C, b, a), what, msg)

    # sizes, for every value they can have

    def at_least(self, s, k, what, msg):
        """the sequence has at least k elements"""
        n = self.S.of(s)
        ok = False
        if n is not None:
            ok = grows(n) and self.every(n, range(0, k + 6), lambda v: v is not None and v >= k)
        self.check(ok, what, msg)

    def exactly(self, s, k, what, msg):
        n = self.S.of(s)
        ok = False
        if n is not None:
            ok = self.every(n, (*range(0, k + 6), 64, 1000, 1 << 32), lambda v: v == k)
        self.check(ok, what, msg)

    def every(self, n, range_, good):
        """good holds of size n for every length the conditions of the path leave open"""
        N = Num(self.C, self.F)
        vs = lens_in(N.C, n)
        if len(vs) > 1:
            return False
        fs = N.about(set(vs))
        others = [x for x in {y for c in fs for y in lens_in(N.C, c)} if x not in vs]
        if len(others) > 3:
            return False
        fs.update(N.about(set(others)))
        for m in range_:
            for rest in itertools.product((0, 1, 2, 31, 32, 33, 1000), repeat=len(others)):
                asg = dict.fromkeys(vs, m)
                asg.update(zip(others, rest))
                if not good(N.ev(n, asg)) and not dead(N, fs, asg):
                    return False
        return True


def grows(n):
    """the size is a sum of lengths"""
    t = lin(n)
    return all(v > 0 for v in t[0].values())


def lens_in(C, n):
    r = []
    for x in small(n):
        if is_len(x) and C.canon(x) not in r:
            r.append(C.canon(x))
    return r


def seed_ok(v):
    """no seed, or the whole received field converted with the conversion's success checked"""
    if v.op == "struct":
        if v.d[1] == "None":
            return True
        v = v.a[0]
    while v.op == "call" and len(v.a) == 1 and last(v.d[0]) in ("try_into", "try_from", "into", "from", "clone", "deref", "unwrap") or v.op == "vfld" and v.d[0] in ("Ok", "Some"):
        v = v.a[0]
    return v.op == "fld"


def ciphertext(b, X):
    par = F(X, "par")
    b.level(F(X, "level"), par, "level")
    b.at_least(F(X, "c"), 2, "polynomial count", "that may have fewer than two polynomials")
    b.check(seed_ok(F(X, "seed")), "seed", "whose seed is not the whole seed that was received")


def key_switching(b, X):
    par = F(X, "par")
    for l in ("ciphertext_level", "ksk_level"):
        b.level(F(X, l), par, l)
    b.check(seed_ok(F(X, "seed")), "seed", "whose seed is not the whole seed that was received")
    digits(b, X)


def moduli_terms(C, X, which):
    """(names of the number of moduli, names of the first modulus) of the context at a level of X, as the path spells them"""
    facts, C = C.facts, bare(C)
    ctx = C.canon(F(X, which))
    counts, firsts = set(), set()
    for c in list(facts) + [F(X, "log_base")]:
        for x in small(c):
            if is_len(x) and of_ctx(C, x.a[0], ctx):
                counts |= {x, C.canon(x)}
            if x.op == "idx" and x.a[1].op == "const" and x.a[1].d == 0 and (of_ctx(C, x.a[0], ctx) or C.canon(x.a[0]) is C.canon(F(X, "par", "moduli"))):
                # the contexts of all levels start with the first modulus
                firsts |= {x, C.canon(x)}
    return counts, firsts


def of_ctx(C, x, ctx):
    if x.op == "call" and last(x.d[0]) == "moduli" and len(x.a) == 1 or x.op == "fld" and x.d in ("moduli", "q"):
        return C.canon(x.a[0]) is ctx
    return False


def digits(b, X):
    """decomposition base and number of polynomials are those the constructor gives a key at these levels"""
    C = b.C
    kn, kf = moduli_terms(C, X, "ctx_ksk")
    cn, _ = moduli_terms(C, X, "ctx_ciphertext")
    N = Num(C, b.F)
    C = N.C
    base = N.name(F(X, "log_base"))
    sizes = [b.S.of(F(X, f)) for f in ("c0", "c1")]
    unknown = [f for f, s in zip(("c0", "c1"), sizes) if s is None]
    for f in unknown:
        b.check(False, "count " + f, "with a number of polynomials %s that is not known" % f)
    vs = [set(lens_in(C, s)) if s is not None else set() for s in sizes]
    same = C.canon(F(X, "ctx_ksk")) is C.canon(F(X, "ctx_ciphertext"))
    fb = N.about(kn | kf | base | cn)
    fm = [N.about(v) for v in vs]
    wrong, bad = None, [None, None]
    vs = [v - (kn | kf | cn) for v in vs]
    for nk in (1, 2, 3, 9):
        for nc in ((nk,) if same else (1, 2, 3, 4, 9)):
            for L in range(2, 63) if nk == 1 else (40,):
                for q in {(1 << L) - 1, (1 << (L - 1)) + 1}:
                    LL = (q - 1).bit_length()
                    want = LL // 2 if nk == 1 else 0
                    if nk == 1 and not want:
                        continue
                    for B in {0, 1, want - 1, want, want + 1, LL, 64, 1 << 20}:
                        if B < 0:
                            continue
                        asg = dict.fromkeys(cn, nc)
                        asg.update(dict.fromkeys(kn, nk))
                        asg.update(dict.fromkeys(kf, q))
                        asg.update(dict.fromkeys(base, B))
                        if dead(N, fb, asg):
                            continue
                        if B != want:
                            wrong = wrong or (B, nk, LL)
                            continue
                        n = -(-LL // want) if want else nc
                        for i in (0, 1):
                            if unknown or bad[i]:
                                continue
                            for m in {0, 1, 2, 3, 4, n - 1, n, n + 1, 2 * n, 64, 1000}:
                                a2 = dict(asg)
                                a2.update(dict.fromkeys(vs[0] | vs[1], m))
                                if N.ev(sizes[i], a2) == n or dead(N, fm[i], a2):
                                    continue
                                bad[i] = (m, nk, LL, n)
    b.check(wrong is None, "decomposition base", "whose decomposition base may be %s for %s moduli of %s bits" % (wrong or (0, 0, 0)))
    for i, f in enumerate(("c0", "c1")):
        b.check(bad[i] is None, "count " + f, "that may have %s polynomials %s for %s moduli of %s bits, where the constructor makes %s" % ((bad[i] or (0,) * 4)[0], f, *(bad[i] or (0,) * 4)[1:]))


def public_key(b, X):
    b.equal(F(X, "c", "level"), const(0), "level", "whose ciphertext need not be at level 0")
    b.exactly(F(X, "c", "c"), 2, "polynomial count", "that need not have two polynomials")


def rgsw(b, X):
    l = F(X, "ksk0", "ciphertext_level")
    for f in (("ksk0", "ksk_level"), ("ksk1", "ksk_level"), ("ksk1", "ciphertext_level")):
        b.equal(F(X, *f), l, "level " + ".".join(f), "whose %s need not be its level" % ".".join(f))


def evaluation_key(b, X):
    par = F(X, "par")
    b.level(F(X, "ciphertext_level"), par, "ciphertext_level")
    b.check(at_most(b.C, F(X, "evaluation_key_level"), F(X, "ciphertext_level")), "evaluation_key_level", "whose key level may exceed its ciphertext level")
    for lab, k, v, facts in entries_of(b, F(X, "gk")):
        C = Ctx(b.F, facts, b.C.T) if facts is not b.C.facts else b.C
        for f, g in (("ciphertext_level", "ciphertext_level"), ("ksk_level", "evaluation_key_level")):
            a, w = C.canon(F(v, "ksk", f)), C.canon(F(X, g))
            b.check(a is w or at_most(C, a, w) and at_most(C, w, a), "gk " + f, "holding a key whose %s need not be its own" % f)
        b.check(C.canon(k) is C.canon(F(v, "element", "exponent")), "gk exponent", "holding a key under another exponent than its own")


def entries_of(b, m):
    """(label, key, value, facts) of what was put in the map"""
    seen, st = set(), [m]
    n = 0
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "mapins":
            n += 1
            yield "mapins", x.a[1], x.a[2], facts_at(b, x)
            st.append(x.a[0])
        elif x.op == "phi":
            st.extend(phi_ins(b.ip, x))
        elif x.op == "coll" and x.a[0].op in ("arr", "tuple", "tup", "struct") and len(x.a[0].a) == 2:
            n += 1
            yield "coll", x.a[0].a[0], x.a[0].a[1], facts_at(b, x)
        elif x.op == "call" and last(x.d[0]) in ("new", "default", "with_capacity") or x.op == "arr" and not x.a:
            pass
        elif x.op == "vfld":
            st.append(x.a[0])
        else:
            b.check(False, "gk", "whose keys are not known")
    b.R.count("key_sets", 1)
    b.check(n, "gk", "that never holds a key")


def facts_at(b, x):
    """what holds for every element put in a map by the loop: facts where the insertion meets the head of its loop"""
    for p, ins in b.ip.phi_in.items():
        for ed, v in ins.items():
            if v is x and p.op == "phi":
                fs = b.ip.edge_facts.get((p.d[0], p.d[1]) + ed)
                if fs:
                    return fs
    return dict(forall_facts(b.C.facts)) if x.op == "coll" else b.C.facts


def galois_key(b, X):
    e = F(X, "element")
    ok = False
    for x in small(e):
        if x.op == "call" and x.d[0].endswith("SubstitutionExponent::new") and len(x.a) == 2:
            want = CL(F(X, "ksk", "par"), F(X, "ksk", "ciphertext_level"))
            ok = b.C.canon(x.a[0]) is b.C.canon(want)
    b.check(ok and e.op == "vfld" and e.d[0] == "Ok" and e.a[0].op == "call", "element", "whose element was not made for the context of its ciphertexts")


def relinearization_key(b, X):
    K = F(X, "ksk")
    kn, _ = moduli_terms(b.C, K, "ctx_ksk")
    N = Num(b.C, b.F)
    b.check(kn and dead(N, N.about(kn), dict.fromkeys(kn, 1)), "moduli", "whose key may live modulo a single prime")


def secret_key(b, X):
    n = b.S.of(F(X, "coeffs"))
    par = F(X, "par")
    deg = set()
    for c in b.C.facts:
        for x in small(c):
            if x.op == "fld" and x.d == "polynomial_degree" and b.C.canon(x.a[0]) is b.C.canon(par) or x.op == "call" and last(x.d[0]) == "degree" and x.a and b.C.canon(x.a[0]) is b.C.canon(par):
                deg.add(x)
    deg = deg or {F(par, "polynomial_degree")}
    b.check(n is not None and any(b.C.canon(n) is b.C.canon(d) or at_most(b.C, n, d) and at_most(b.C, d, n) for d in deg), "coefficient count", "that need not have as many coefficients as its parameters' degree")


SHAPES = {CT: ciphertext, KSK: key_switching, PK: public_key, RGSW: rgsw, EK: evaluation_key, GK: galois_key, RLK: relinearization_key, SK: secret_key}


def nested(b, X):
    """contexts of the polynomials, and agreement of the parts"""
    C = b.C
    for (t, fl), g in POLYS.items():
        if t == b.o.adt:
            x = F(X, fl)
            b.check(empty(x) or C.holds(x, g(X)), "context " + fl, "whose %s need not live in the context of its level" % fl)
    for (t, fl), g in CTXS.items():
        if t == b.o.adt:
            b.check(C.canon(F(X, fl)) is C.canon(g(X)), fl, "whose %s is not that of its level" % fl)
    for (t, pa), g in ALIAS.items():
        if t == b.o.adt and "*" not in pa:
            b.check(C.canon(F(X, *pa)) is C.canon(g(X)), ".".join(pa), "whose %s is not what the rest of it says" % ".".join(pa))


def fields_of(P, adt):
    return [(f["n"], f["t"]) for f in P.adts[adt]["vs"][0]["f"]]


def decoded_by(P, v):
    """the decoder call whose success gave v"""
    while v.op == "call" and len(v.a) == 1 and last(v.d[0]) in ("clone", "deref"):
        v = v.a[0]
    if v.op == "vfld" and v.d[0] == "Ok" and v.a[0].op == "call" and last(v.a[0].d[0]) in ("try_convert_from", "from_bytes", "try_deserialize") and len(v.a[0].a) == 2:
        return v.a[0]
    return None


def roots_of(v):
    """v and what it is a part of"""
    while True:
        yield v
        if v.op in ("fld", "vfld", "idx") and v.a:
            v = v.a[0]
        else:
            return


def decoded(G, o):
    """the decoder calls the object is made of"""
    r = []
    for x in [o.v, *o.facts]:
        for y in deps(G.ip, x):
            if y.op == "vfld" and decoded_by(G.ip.P, y) and y not in r:
                r.append(y)
    return r


def context(G, o, T):
    """the prover, knowing what holds of everything a decoder has returned"""
    facts = dict(o.facts)
    for d in decoded(G, o):
        if T.adt(d) == CT:
            facts[mk("bin", "Lt", (length(F(d, "c")), const(2)))] = False
            facts[mk("bin", "Lt", (F(d, "level"), length(F(d.a[0].a[1], "context_levels"))))] = True
    C = Ctx(G, facts, T)
    for c in [o.v, *o.facts]:
        for x in small(c):
            if x.op == "cast" or x.op == "call" and x.d[0].startswith("cast<"):
                t = T.of(x.a[0])
                if t is not None and G.ip.P.tystr(t) in ("u8", "u16", "u32"):
                    C.union(x, x.a[0])
    return C


def of_parameters(b, d, par):
    """what a decoder returned has the parameters the decoder was given, here the caller's"""
    C = b.C
    a = d.a[0].a[1]
    t = C.T.adt(d)
    if t == POLY:
        return
    b.check(par is not None and C.canon(a) is C.canon(par), "nested parameters", "holding a part decoded for other parameters than those supplied")
    C.union(F(d, "par") if any(f == "par" for f, _ in fields_of(b.ip.P, t)) else F(d, "ksk", "par"), par) if t in SHAPES and t not in (RGSW,) and par is not None else None


def p11(R, tier):
    R.rule("levels", "on every path on which a decoder succeeds, each level of the object is a level of the supplied parameters, and nested levels agree as the constructors make them agree")
    R.rule("counts", "the number of polynomials (coefficients) of the object is one the constructors produce: the conditions of the path exclude every other value, evaluated over all modulus sizes")
    R.rule("base", "the decomposition base is that of the key's modulus, evaluated over all modulus sizes")
    R.rule("contexts", "every polynomial decoded was decoded in the context of the object's level")
    R.rule("polynomials", "a polynomial is returned only when its declared representation and degree are those expected, its byte length is the sum of the expected lengths over every modulus, and every coefficient is below its modulus")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        fs = flows(P, R, Paths(P), key="decode", only=lambda f: is_decoder(P, f))
        for G in fs:
            if G.fn.out is None:
                continue
            par = next((e for e, t, n in G.args if P.ty(P.peel(t)).get("p") == PAR), None)
            oks = [o for o in G.outs if not (o.val.op == "struct" and o.val.d[1] == "Err")]
            T = Types(G)
            good = {id(o.facts) for o in oks}
            n = 0
            R.fn(G.fn)
            for o in objects(G):
                if id(o.facts) not in good or o.adt not in SHAPES:
                    continue
                n += 1
                C = context(G, o, T)
                b = Obligations(R, G, o, C, Size(C, o.facts, o.st), oks)
                for d in decoded(G, o):
                    of_parameters(b, d, par)
                if decoded_by(P, o.v):
                    # well-formed by the decoder that made it
                    R.count("handed_on")
                    continue
                if any(y is not o.v and decoded_by(P, y) for y in roots_of(o.v)):
                    R.count("handed_on")
                    continue
                R.count(o.adt.rsplit("::", 1)[-1])
                nested(b, o.v)
                if any(f == "par" for f, _ in fields_of(P, o.adt)):
                    b.check(C.canon(F(o.v, "par")) is C.canon(par), "parameters", "with other parameters than those supplied")
                SHAPES[o.adt](b, o.v)
            R.count("decoders", 1 if n else 0)
            R.count("paths", len(oks))
        rq(R, P)
    R.floor("decoders", 12)
    for t, n in ((CT, 3), (KSK, 1), (PK, 1), (RGSW, 1), (EK, 1), (GK, 1), (RLK, 1), (SK, 1), ("handed_on", 8), ("rq_decoders", 4)):
        R.floor(t.rsplit("::", 1)[-1], n)


# ---------------------------------------------------------- polynomials

def rq(R, P):
    tags = {v["n"].lower(): i for i, v in enumerate(P.adts["fhe_math::proto::rq::Representation"]["vs"])}
    for f in P.fns.values():
        if f.crate != "fhe_math" or not f.body or f.kind == "closure" or f.out is None or not is_decoder(P, f):
            continue
        if "rq::Poly<" not in P.tystr(f.out) and "rq::Poly" not in f.name:
            continue
        G = run(P, f, RqPaths())
        R.fn(f)
        R.count("rq_decoders")
        name = stable(f)
        n = 0
        for o in G.outs:
            v = G.ip.snap(St(o.mem, o.facts), o.val)
            if v.op == "struct" and v.d[1] == "Err":
                continue
            n += 1
            if v.op == "struct" and v.d[1] == "Ok" and v.a[0].op == "vfld" and v.a[0].d[0] == "Ok":
                v = v.a[0].a[0]
            if v.op == "call" and last(v.d[0]) == "try_convert_from":
                # the bytes, decoded and handed on
                x = v.a[0]
                ok = len(v.a) == 3 and x.op == "vfld" and x.d[0] == "Ok" and x.a[0].op == "call" and last(x.a[0].d[0]) == "decode" and v.a[1].op == "arg"
                R.check(ok, "handed on " + name, "%s does not hand the whole message and the caller's context to the conversion" % f.name, name)
                continue
            one_poly(R, P, G, o, v, tags)
        R.check(n, "never succeeds " + name, "%s never succeeds" % f.name)


def one_poly(R, P, G, o, v, tags):
    f, ip = G.fn, G.ip
    name = stable(f)
    C = Ctx(G, o.facts, Types(G))
    msg = next((e for e, t, n in G.args if P.ty(P.peel(t)).get("p") == RQ), None)
    ctx = next((e for e, t, n in G.args if P.ty(P.peel(t)).get("p", "").endswith("rq::context::Context") or "Context" in P.tystr(t)), None)
    if msg is None or ctx is None:
        R.bad("arguments " + name, "%s: message or context argument not found" % f.name)
        return
    say = lambda c, what, m: R.check(bool(c), "%s %s" % (what, name), "%s accepts a polynomial %s" % (f.name, m), "%s: %s" % (name, what))
    # representation
    rep = next((k for k in tags if k and ("Poly<fhe_math::rq::%s>" % k).lower() in f.name.lower()), None)
    N = Num(C, G)
    r = N.name(F(msg, "representation"))
    fr = N.about(r)
    left = [i for i in (*range(-1, len(tags) + 1), 100) if not dead(N, fr, dict.fromkeys(r, i))]
    say(rep is not None and left == [tags[rep]], "representation", "declared to be in another representation")
    # degree
    d = [x for c in o.facts for x in small(c) if x.op in ("cast",) and x.a[0] is F(msg, "degree") or x is F(msg, "degree") or x.op == "call" and last(x.d[0]).startswith("cast") and x.a and x.a[0] is F(msg, "degree")]
    deg = F(ctx, "degree")
    say(any(C.canon(x) is C.canon(deg) for x in d), "degree", "declared with another degree than the context's")
    # length of the bytes
    data = F(msg, "coefficients")
    say(any(total(G, o, C, x, ctx, d + [deg]) for c, t in o.facts.items() if c.op == "bin" and (c.d == "Eq" and t is True or c.d == "Ne" and t is False)
            for x, y in (c.a, c.a[::-1]) if is_len(y) and y.a[0] is data), "byte length", "whose bytes are not as many as its coefficients take")
    # coefficients
    q = F(ctx, "q")
    seqs = {x for c in [v, *o.facts] for x in deps(ip, c) if x.op == "call" and last(x.d[0]) == "deserialize_vec"}
    # what ends up in the matrix: each received coefficient was compared with its modulus where it was added
    n = 0
    for e, facts in added(G, o, v):
        n += 1
        m = settled(ip, e.a[0]).a[0]
        say(m.op == "idx" and m.a[0] is q and compared(e, e.a[0], m, facts), "range", "with coefficients that are not below their modulus")
    say(n, "coefficients", "whose coefficients are not the received ones")


def settled(ip, x, stop=None):
    """x, when it is a merge that never changes, what it merges"""
    for _ in range(8):
        if x.op != "phi" or x is stop:
            break
        ins = {y for y in phi_ins(ip, x) if y is not x}
        if len(ins) != 1:
            break
        x = ins.pop()
    return x


def added(G, o, v):
    """(coefficient, facts) where received coefficients are put together"""
    ip = G.ip

    def got(e):
        if e.op != "idx":
            return False
        s = settled(ip, e.a[0])
        return s.op == "call" and last(s.d[0]) == "deserialize_vec"
    for x in deps(ip, v):
        if x.op == "phi":
            for ed, y in ip.phi_in.get(x, {}).items():
                if y.op == "push" and got(y.a[1]):
                    yield y.a[1], ip.edge_facts.get((x.d[0], x.d[1]) + ed) or {}
        elif x.op == "coll" and got(x.a[0]):
            yield x.a[0], o.facts


def compared(e, s, m, facts):
    for c, t in facts.items():
        for a, b, k in below(c, t):
            if k >= 1 and a.op == "idx" and a.a[0] is s and strip_deref(b) is strip_deref(m) and (a is e or whole(facts, c)):
                return True
    return False


def strip_deref(x):
    while x.op == "call" and len(x.a) == 1 and last(x.d[0]) in ("deref", "clone", "modulus", "into", "from") or x.op == "fld" and x.d == "p":
        x = x.a[0]
    return x


def total(G, o, C, x, ctx, degs):
    """x adds up serialization_length(degree) over every modulus of the context"""
    ip = G.ip
    q = F(ctx, "q")
    calls, seen, st = 0, set(), [x]
    while st:
        e = st.pop()
        if e in seen:
            continue
        seen.add(e)
        if e.op == "phi":
            st.extend(phi_ins(ip, e))
        elif e.op == "bin" and e.d == "Add":
            if not any(y.op == "phi" for y in e.a):
                return False
            st.extend(e.a)
        elif e.op == "const" and e.d == 0:
            pass
        elif e.op == "sum" or e.op == "call" and last(e.d[0]) == "sum":
            st.append(e.a[0])
        elif e.op in ("it", "coll") and e.a:
            st.append(e.a[0])
        elif e.op == "call" and last(e.d[0]) == "serialization_length" and len(e.a) == 2:
            m, d = e.a
            if not (m.op == "idx" and m.a[0] is q and any(C.canon(d) is C.canon(k) for k in degs)):
                return False
            i = m.a[1]
            if i.op != "pos" or "part" in i.d:
                return False
            calls += 1
        else:
            return False
    return calls > 0
