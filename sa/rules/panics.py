"""Decoders never panic (P12)."""
from ..fhe import *
from ..ctxs import *
from ..ineq import Ineq, last, is_cast
from ..common import program, run
from .decode import Size, is_decoder, decoded_by, length, PAR, POLY, RQ
from .types import stable

INDEX = ("Index::index", "IndexMut::index_mut")
SPLIT = ("slice::split_at", "slice::split_at_mut")
CHUNKS = ("slice::chunks", "slice::chunks_mut", "slice::chunks_exact", "slice::chunks_exact_mut", "slice::windows", "Iterator::step_by")
COPY = ("slice::copy_from_slice", "slice::clone_from_slice")
LOG = ("num::ilog2", "num::ilog10", "num::ilog")
DIVIDE = ("num::div_ceil", "num::rem_euclid", "num::div_euclid", "num::next_multiple_of")
PLACE = ("Vec::remove", "Vec::swap_remove", "Vec::insert", "Vec::split_off", "VecDeque::remove", "slice::swap", "Vec::drain", "Vec::truncate_")
ARITH = ("Add", "Sub", "Mul", "Shl", "Shr", "Neg")


class Sites(FhePol):
    """every path of a decoder on its own, down to the decoders it calls and the arithmetic kernels"""

    split = 256
    record = INDEX + SPLIT + CHUNKS + COPY + LOG + DIVIDE + PLACE
    arith = ARITH

    def __init__(self, P, root):
        FhePol.__init__(self)
        self.P_, self.root = P, root

    def inline(self, fn, ctx):
        if not fn.body or is_decoder(self.P_, fn):
            return False
        return inside(fn)


KERNELS = ("::zq::", "::ntt::", "::rns::", "::rq::scaler::", "::rq::switcher::")


def inside(fn):
    n = fn.name
    if fn.crate in ("fhe_traits", "fhe_util"):
        return True
    if fn.crate == "fhe":
        return True
    return fn.crate == "fhe_math" and not any(k in n for k in KERNELS) and fn.sname not in ("into_ntt", "into_ntt_shoup", "into_power_basis", "zero", "random_from_seed", "new_arc")


def rows(ip, x):
    """the polynomial whose matrix x is a row of"""
    if x.op != "idx":
        return None
    seen, st = set(), [x.a[0]]
    base = set()
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "phi":
            st.extend(phi_ins(ip, y))
        elif y.op in ("with", "filled", "swapped"):
            st.append(y.a[0])
        elif y.op == "fld" and y.d in ("coefficients", "coefficients_shoup"):
            base.add(y.a[0])
        else:
            return None
    return base.pop() if len(base) == 1 else None


class Lens(Size):
    def of(self, s, depth=0):
        if s is not None and s.op == "idx":
            p = rows(self.ip, s)
            if p is not None:
                return F(self.C.U(p) if self.C.is_poly(p) else F(p, "ctx"), "degree")
        return Size.of(self, s, depth)


def axioms(I, x):
    """what the invariants of the library's objects say about a quantity"""
    one = const(1)
    if x.op == "fld" and x.d in ("degree", "polynomial_degree"):
        if not is_message(I.C, x.a[0]):
            yield const(8), x, 0
            yield x, const(65536), 0
    if x.op == "len" or x.op == "call" and x.d[0] == "len":
        s = x.a[0]
        if s.op == "fld" and s.d in ("moduli", "context_levels", "q", "moduli_sizes") and not is_message(I.C, s.a[0]):
            yield one, x, 0
            if s.d in ("moduli", "context_levels", "moduli_sizes"):
                for f in ("moduli", "context_levels", "moduli_sizes"):
                    if f != s.d:
                        y = length(F(s.a[0], f))
                        yield x, y, 0
                        yield y, x, 0
        if s.op == "call" and last(s.d[0]) == "moduli":
            yield one, x, 0


def is_message(C, e):
    """e is a received message or a part of one"""
    return any("::proto::" in (C.T.adt(x) or "") for x in (e, *parents(e)))


class Site:
    def __init__(self, G, e, T):
        self.G, self.e, self.ip = G, e, G.ip
        facts = dict(e.st.facts)
        for d in {y for x in [*e.args, *facts] for y in deps(G.ip, x) if y.op == "vfld" and decoded_by(G.ip.P, y)}:
            if T.adt(d) == CT:
                facts[mk("bin", "Lt", (length(F(d, "c")), const(2)))] = False
                facts[mk("bin", "Lt", (F(d, "level"), length(F(d.a[0].a[1], "context_levels"))))] = True
        self.C = Ctx(G, facts, T)
        self.I = Ineq(self.C, Lens(self.C, facts, e.st), axioms)

    def arg(self, i):
        e = self.e
        return self.ip.snap(e.st, self.ip.deref_all(e.st, e.args[i]))

    def le(self, a, b, s=0):
        return self.I.proves(a, b, s)

    def len(self, x):
        return length(x)


def bits_of(P, t):
    from ..ineq import BITS
    return BITS.get(P.tystr(P.peel(t))) if t is not None else None


def safe(S):
    """(kind, holds) for the site"""
    e, ip, P = S.e, S.ip, S.ip.P
    if e.kind == "panic":
        return "panic " + last(str(e.name)), no_panic(S)
    if e.kind == "assert":
        if e.name == "bounds":
            return "bounds", S.le(S.arg(1), S.arg(0), 1)
        if e.name in ("div0", "rem0"):
            c = S.e.info
            while c.op == "not":
                c = c.a[0]
            if c.op == "bin" and c.d in ("Eq", "Ne"):
                d = [x for x in c.a if not (x.op == "const" and x.d == 0)]
                return e.name, not d and c.d == "Ne" or len(d) == 1 and S.le(const(1), d[0])
            return e.name, c.op == "const"
        return e.name, False
    if e.kind == "arith":
        return arith(S)
    if e.key in INDEX:
        return "index", indexed(S)
    if e.key in SPLIT:
        return "split", S.le(S.arg(1), length(S.arg(0))) or eaten(S, S.arg(0), S.arg(1))
    if e.key in CHUNKS:
        return "chunks", S.le(const(1), S.arg(1))
    if e.key in COPY:
        a, b = length(S.arg(0)), length(S.arg(1))
        return "copy", S.le(a, b) and S.le(b, a)
    if e.key in LOG:
        return "log of zero", S.le(const(1), S.arg(0))
    if e.key in DIVIDE:
        return "div0", S.le(const(1), S.arg(1))
    if e.key in PLACE:
        n, i = length(S.arg(0)), S.arg(1)
        if e.key == "slice::swap":
            return "index", S.le(i, n, 1) and S.le(S.arg(2), n, 1)
        if i.op == "struct":
            return "index", indexed(S)
        return "index", S.le(i, n, 0 if e.key in ("Vec::insert", "Vec::split_off") else 1)
    return None, True


def no_panic(S):
    if S.I.impossible():
        return True
    e = S.e
    if e.key == "Result::unwrap" or e.key == "Result::expect":
        v = S.arg(0)
        if v.op == "call" and last(v.d[0]) == "from_shape_vec":
            sh, data = v.a[0], v.a[1]
            if sh.op in ("tuple", "tup", "struct") and len(sh.a) == 2:
                n = X.binop("Mul", *sh.a)
                return S.le(n, length(data)) and S.le(length(data), n)
        if v.op == "call" and v.d[0].endswith("zq::Modulus::new"):
            return S.le(const(2), v.a[0]) and S.le(v.a[0], const(1 << 62), 1)
    if e.key in ("Option::unwrap", "Option::expect"):
        v = S.arg(0)
        if v.op == "call" and last(v.d[0]) == "to_u64" and v.a[0].op == "call" and last(v.a[0].d[0]) == "rem" and len(v.a[0].a) == 2:
            # less than a word
            t = S.ip.P.tystr(S.C.T.of(v.a[0].a[1])) if S.C.T.of(v.a[0].a[1]) is not None else ""
            return t in ("u8", "u16", "u32", "u64", "usize")
    return False


def arith(S):
    e = S.e
    n = e.name
    a = [S.ip.snap(e.st, x) for x in e.args]
    t = S.ip.P.tystr(e.info) if e.info is not None else ""
    t = t.strip("()").split(",")[0].strip()
    from ..ineq import BITS
    w = BITS.get(t)
    if n in ("Shl", "Shr"):
        return "shift", w is not None and S.le(a[1], const(w), 1)
    if t[:1] == "i" or t[:1] == "f":
        return n.lower(), t[:1] == "f"
    if n == "Sub":
        return "sub", S.le(a[1], a[0])
    if w is None or not any(received(S, S.C.canon(x)) for x in a):
        # lengths, levels and indices do not come near the word size
        return n.lower(), True
    if n == "Add":
        for x, y in (a, a[::-1]):
            if x.op == "phi" and S.le(y, const(1 << 32)):
                # would take as many turns
                return "add", True
        return "add", S.le(X.binop("Add", *a), const(1 << w), 1)
    ks = [next((k for k in range(0, w + 1, 4) if S.le(x, const(1 << k))), None) for x in a]
    return "mul", None not in ks and sum(ks) < w


def received(S, e):
    """a number read from the message"""
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("fld", "vfld", "idx") and is_message(S.C, x):
            return True
        if x.op == "bin" or is_cast(x):
            st.extend(x.a)
        elif x.op == "phi":
            st.extend(phi_ins(S.ip, x))
    return False


def parents(x):
    while x.op in ("fld", "vfld", "idx", "slice") and x.a:
        x = x.a[0]
        yield x


# ---------------------------------------------------------- what partial functions of the arithmetic layer ask for

def is_degree(S, e):
    """a power of two, at least 8"""
    e = S.I.norm(e)
    if e.op == "fld" and e.d in ("degree", "polynomial_degree") and not is_message(S.C, e.a[0]):
        return True
    for c, v in S.C.facts.items():
        if c.op == "call" and last(c.d[0]) == "is_power_of_two" and v is True and S.I.norm(c.a[0]) is e:
            return S.le(const(8), e)
    return False


def nonzero(S, e):
    if e.op == "call" and last(e.d[0]) in ("modulus", "one", "product"):
        return True
    if e.op == "call" and last(e.d[0]) in ("into", "from", "clone") and len(e.a) == 1:
        return nonzero(S, e.a[0])
    return e.op == "const" and bool(e.d) or S.le(const(1), e)


CONTRACTS = {
    "zq::Modulus::serialization_length": lambda S, a: ("a number of coefficients that is a multiple of 8", is_degree(S, a[1])),
    "ntt::native::NttOperator::new": lambda S, a: ("a power of two of at least 8", is_degree(S, a[1])),
    "ntt::tfhe::NttOperator::new": lambda S, a: ("a power of two of at least 8", is_degree(S, a[1])),
    "ntt::supports_ntt": lambda S, a: ("a power of two of at least 8", is_degree(S, a[1])),
    "scaler::ScalingFactor::new": lambda S, a: ("a denominator that is not zero", nonzero(S, a[1])),
    "primes::generate_prime": lambda S, a: ("a divisor that is not zero", S.le(const(1), a[1])),
}


def contract(S):
    n = S.e.name or ""
    for k, f in CONTRACTS.items():
        if n.endswith(k):
            return f(S, [S.ip.snap(S.e.st, S.ip.deref_all(S.e.st, x)) for x in S.e.args])
    return None


def typed(G):
    """types of access paths, through the results of library calls"""
    T = Types(G)
    for e in G.evs:
        if e.kind == "call" and e.ret is not None and e.callee is None:
            t = e.fn.body.blocks[e.blk]["t"]
            for v in e.ret if isinstance(e.ret, (list, tuple)) else (e.ret,):
                v = v[0] if isinstance(v, tuple) else v
                if isinstance(v, E) and v.op == "call" and t[0] == "call":
                    ty = G.ip.place_ty(e.fn.body, t[3])
                    if ty is not None:
                        T.memo[v] = G.ip.P.peel(ty)
    return T


def set_aside(S, kind):
    """sites that need arithmetic this analysis does not do (DESIGN.md)"""
    f = S.e.fn.name
    if kind == "index" and "BfvParametersBuilder::build" in f:
        i = S.arg(1)
        return i.op == "struct" and i.a and i.a[-1].op == "call" and last(i.a[-1].d[0]) == "div_ceil"
    return False


def p12(R, tier):
    R.rule("sites", "every panic, unwrap, bounds check, slicing, copy, division, shift, subtraction and message-dependent sum or product a decoder can run is unreachable or within bounds: its condition follows from the facts of every path to it by linear inequalities, parity and the objects' invariants")
    R.rule("contracts", "the partial functions of the arithmetic layer are called with arguments they are defined for")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        for f in P.fns.values():
            if not f.body or f.kind == "closure" or f.out is None or not is_decoder(P, f):
                continue
            G = run(P, f, Sites(P, f))
            T = typed(G)
            R.fn(f)
            R.count("decoders")
            done = {}
            for e in G.evs:
                if e.kind not in ("panic", "assert", "arith", "std", "call"):
                    continue
                S = Site(G, e, T)
                if e.kind == "call":
                    r = contract(S)
                    if r is None:
                        continue
                    what, ok = "call of %s" % last(e.name), r[1]
                    say = "calls %s without %s" % (last(e.name), r[0])
                else:
                    kind, ok = safe(S)
                    if kind is None:
                        continue
                    what, say = kind, SAY.get(kind.split()[0], "may panic (%s)") % (kind,) if "%s" in SAY.get(kind.split()[0], "may panic (%s)") else SAY[kind.split()[0]]
                    if ok is False and set_aside(S, kind):
                        R.count("set aside")
                        continue
                k = (e.fn.h, what, tuple(G.ip.snap(e.st, x) for x in e.args))
                R.count(what.split()[0] if e.kind != "call" else "contracts")
                if ok:
                    R.ok("%s: %s in %s" % (stable(f), what, e.fn.sname))
                elif k not in done:
                    done[k] = 1
                    R.bad("%s %s in %s" % (what, ", ".join(show(x, 3)[:40] for x in k[2]), stable(e.fn)), "%s: %s %s: %s" % (f.name, e.fn.name, say, " ; ".join(show(x, 4)[:90] for x in k[2])))
    R.floor("decoders", 16)
    for k, n in (("panic", 2), ("index", 4), ("sub", 4), ("shift", 3), ("copy", 2), ("contracts", 4)):
        R.floor(k, n)


SAY = {"index": "may index out of bounds", "bounds": "may index out of bounds", "split": "may split out of bounds", "copy": "may copy between different lengths", "chunks": "may use a chunk or step size of zero",
       "div0": "may divide by zero", "rem0": "may divide by zero", "shift": "may shift by the width or more", "sub": "may subtract below zero", "add": "may overflow an addition", "mul": "may overflow a multiplication", "neg": "may overflow a negation"}


def indexed(S):
    s, i = S.arg(0), S.arg(1)
    t = S.C.T.adt(s)
    if t is not None and t.endswith("Map") or s.op == "mapins":
        return any(c.op == "call" and c.d[0] == "has_key" and v is True and S.C.canon(c.a[0]) is S.C.canon(s) and S.C.canon(c.a[1]) is S.C.canon(i) for c, v in S.C.facts.items())
    n = length(s)
    if i.op == "struct":
        k = last(i.d[0])
        lo = i.a[0] if k in ("Range", "RangeFrom", "RangeInclusive") else const(0)
        hi = i.a[-1] if k in ("Range", "RangeInclusive", "RangeTo", "RangeToInclusive") else n
        inc = 1 if "Inclusive" in k else 0
        if k == "RangeFull":
            return True
        if S.le(lo, hi, -inc) and S.le(hi, n, inc):
            return True
        return not inc and partial_sum(S, lo, hi, n)
    return S.le(i, n, 1)


# ---------------------------------------------------------- consecutive pieces

def partial_sum(S, lo, hi, n):
    """pieces cut one after the other, as many as the terms of a sum known to be the whole length"""
    if lo.op != "phi":
        return False
    d = steps(S, lo)
    if d is None:
        return False
    site, step = d
    t = S.I.lin(hi)
    S.I.lin(lo, -1, t)
    S.I.lin(step, -1, t)
    if t[0] or t[1]:
        return False
    return adds_up(S, step, site, n)


def adds_up(S, step, site, n):
    """the steps of all elements add up to n"""
    mine = terms(S, step, site)
    n = S.C.canon(n)
    for c, v in S.C.facts.items():
        if c.op == "bin" and (c.d == "Eq" and v is True or c.d == "Ne" and v is False):
            for x, y in (c.a, c.a[::-1]):
                if S.C.canon(y) is n and mine is not None and summed(S, x) == mine:
                    return True
    return False


def eaten(S, rest, k):
    """rest starts as a sequence and loses its first k elements every turn, k adding up to its length"""
    if rest.op != "phi":
        return False
    L = loop_of_phi(S.ip, rest)
    if L is None or L[1].__class__.__name__ == "Everything":
        return False
    start = set()
    for v in phi_ins(S.ip, rest):
        if v is rest or v.op == "never":
            continue
        if v.op == "slice" and v.a[0] is rest and v.a[1] is k and (not isinstance(v.a[2], E) or v.a[2].op == "const" and v.a[2].d is None):
            continue
        start.add(v)
    sites = {s for _, s in k.sites if site_in(L, s)}
    if len(start) != 1 or len(sites) != 1:
        return False
    return adds_up(S, k, sites.pop(), length(start.pop()))


def steps(S, p):
    """(site, step): p starts at 0 and grows by step for every element the loop takes"""
    L = loop_of_phi(S.ip, p)
    if L is None:
        return None
    step, zero = None, False
    for v in phi_ins(S.ip, p):
        if v is p or v.op == "never":
            continue
        if v.op == "const" and v.d == 0:
            zero = True
        elif v.op == "bin" and v.d == "Add" and p in v.a:
            w = v.a[1] if v.a[0] is p else v.a[0]
            if step is not None and w is not step:
                return None
            step = w
        else:
            return None
    if step is None or not zero:
        return None
    sites = {s for k, s in step.sites if site_in(L, s)} if L[1].__class__.__name__ != "Everything" else {L[0] + ("n",)}
    return (sites.pop(), step) if len(sites) == 1 else None


def terms(S, step, site):
    """what is added for each element, and the sequences the elements come from"""
    if "part" in site:
        return None
    pos = mk("pos", site)
    its = S.ip.pulled.get(site, ())
    ns = {S.I.norm(n) if n is not None else None for n in (S.I.size.turns(i, None, site, 0) for i in its)}
    if len(ns) != 1 or None in ns:
        return None
    return (repl_all(S.C.canon(step), {pos: mk("pos", ("any",))}), ns.pop())


def summed(S, x):
    while x.op == "phi":
        d = steps(S, x)
        if d is None:
            return None
        site, step = d
        if not (x.d[0][-1] == "h" or exhausted(S.C.facts, site)):
            return None
        return terms(S, step, site)
    if x.op in ("sum",) or x.op == "call" and last(x.d[0]) == "sum":
        y = x.a[0]
        if y.op == "coll":
            for k, s in y.a[0].sites:
                if s == y.d:
                    t = terms(S, y.a[0], s)
                    if t is not None:
                        return t
    return None
