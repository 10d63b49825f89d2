"""P07: secret material is wiped before its memory is released.

Decided at the places where the compiler releases memory: every (elaborated) drop of a value whose type owns
polynomial coefficients or machine-word vectors, in every exported scheme-layer function, its helpers and the
polynomial-layer functions they apply to secrets."""
from ..fhe import *
from .crypto import source_of, stable, SECRET_TYPES, SK, RKG, PT

ZING = "zeroize::Zeroizing"
WORDS = {"u64", "i64", "u32", "i32", "u128", "i128", "usize", "isize", "f64"}
SEQ = ("alloc::vec::Vec", "alloc::boxed::Box", "alloc::vec::into_iter::IntoIter", "alloc::collections::vec_deque::VecDeque")
MAPS = ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap")
PROTO_SK = "fhe::proto::bfv::SecretKey"
OPAQUE = ("alloc::sync::Arc", "alloc::rcs", "alloc::rc")


class Carriers:
    """which types own secret-capable heap memory that nothing wipes on release"""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.wiping_ = {}
        self.drops = {}
        self.errors = {P.ty(i["self"]).get("p") for i in P.impls if str(i.get("trait")).endswith("error::Error")}
        for i in P.impls:
            if i.get("trait") == "core::ops::drop::Drop":
                t = P.ty(i["self"])
                if t["k"] == "adt":
                    for n, h in i["items"]:
                        if n == "drop" and h in P.fns:
                            self.drops[t["p"]] = P.fns[h]

    def carrier(self, t, depth=0):
        """type t (not a reference) owns unwiped words"""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = False
        r = self._carrier(t, depth)
        self.memo[t] = r
        return r

    def words(self, t):
        ty = self.P.ty(t)
        return ty["s"] in WORDS or ty["k"] in ("array", "slice", "tuple") and self.words(ty["e"] if "e" in ty else -1) if ty["k"] in ("array", "slice") else ty["s"] in WORDS

    def _carrier(self, t, depth):
        P = self.P
        ty = P.ty(t)
        k = ty["k"]
        if depth > 12:
            return False
        if k == "tuple":
            return any(self.carrier(x, depth + 1) for x in targs(ty))
        if k in ("slice", "array"):
            return (k == "slice" and self.words(ty["e"])) or self.carrier(ty["e"], depth + 1)
        if k != "adt":
            return False
        p, a = ty["p"], targs(ty)
        if p == ZING or p.startswith(OPAQUE):
            return False
        if p == POLY:
            return True
        if p in SEQ and a:
            return self.words(a[0]) or self.carrier(a[0], depth + 1)
        if p in MAPS:
            return any(self.carrier(x, depth + 1) for x in a[:2])
        if p in ("core::option::Option", "core::result::Result"):
            return any(self.carrier(x, depth + 1) for x in a)
        if p == "alloc::borrow::Cow":
            return any(self.carrier(x, depth + 1) for x in a if isinstance(x, int))
        if p.startswith("ndarray::ArrayBase"):
            return "OwnedRepr" in ty["s"]
        ad = P.adts.get(p)
        if ad is None or p in self.errors or self.wiping(p):
            return False
        return any(self.carrier(f["t"], depth + 1) for v in ad["vs"] for f in v["f"])

    def fields(self, p):
        """fields of struct p owning words that their own types do not wipe"""
        return [f for v in self.P.adts[p]["vs"] for f in v["f"] if self.carrier(f["t"])]

    def wiping(self, p):
        """dropping a value of type p wipes all the words it owns"""
        if p in self.wiping_:
            return self.wiping_[p]
        self.wiping_[p] = False
        fs = self.fields(p)
        r = not fs or p in self.drops and not unwiped(self, self.drops[p], p)
        self.wiping_[p] = r
        return r


def targs(ty):
    return [x for x in ty.get("a", ()) if isinstance(x, int)] if ty["k"] == "adt" else list(ty.get("a") or ty.get("es") or ())


def wipe_call(e):
    return e.op == "after" and e.a[0].op == "call" and str(e.a[0].d[0]).split("::")[-1] in ("zeroize", "zeroize_flat_type")


def swept(ip, x, facts):
    """x is the outcome of a loop that wiped each element of a sequence"""
    ins = list(ip.phi_in.get(x, {}).values())
    upd = [y for y in ins if y.op == "with" and y.a[0] is x and y.d[0] == "i"]
    if not upd or not all(covers(ip, facts, x, y.d[1]) and (wipe_call(y.a[1]) or y.a[1].op == "const" and y.a[1].d == 0) for y in upd):
        return False
    seen, st = set(), [y for y in ins if y not in upd]
    while st:
        y = st.pop()
        if y is x:
            return False
        if y in seen:
            continue
        seen.add(y)
        if y.op == "phi":
            st += phi_ins(ip, y)
    return True


def live(ip, v, facts):
    """alternatives of v that were not wiped last"""
    out, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            if not swept(ip, x, facts):
                st += phi_ins(ip, x)
        elif not (wipe_call(x) or x.op == "never" or x.op == "struct" and x.d[1] == "None" or x.op == "arr" and not x.a):
            out.append(x)
    return out


def wiped(ip, v, facts):
    return v.op != "never" and not live(ip, v, facts)


def unwiped(C, f, p):
    """fields of self (type p) that f does not wipe on some exit"""
    P = C.P
    out = set()
    F = run(P, f, FhePol())
    if F.ip.incomplete or not F.outs:
        return ["(analysis incomplete)"]
    for o in F.outs:
        root = o.mem.get(("A", 0))
        for fd in C.fields(p):
            v = proj(root, ("f", fd["n"])) if root is not None else None
            if v is not None:
                v = F.ip.snap(St(o.mem, o.facts), v)
            if v is None or not wiped(F.ip, v, o.facts):
                out.add(fd["n"])
    return sorted(out)


def leaves(C, ip, v, t, facts, path=(), depth=0):
    """(path, value, 'poly' | 'words') of the unwiped word stores a value owns"""
    P = C.P
    if depth > 14 or v is None or not C.carrier(t):
        return
    ty = P.ty(t)
    k, a = ty["k"], targs(ty)
    p = ty.get("p")
    rec = lambda x, t2, n: leaves(C, ip, x, t2, facts, path + ((n,) if n else ()), depth + 1)
    if v.op in ("never",):
        return
    if p == POLY:
        yield path, v, "poly"
        return
    if k == "tuple":
        for i, x in enumerate(a):
            yield from rec(proj(v, ("f", str(i))), x, str(i))
        return
    if p in ("core::option::Option", "core::result::Result"):
        for x in alts(ip, v) or [v]:
            for n, t2 in ((("Some", a[0]),) if p.endswith("Option") else (("Ok", a[0]), ("Err", a[1]))):
                if x.op == "struct" and x.d[1] != n or facts.get(mk("is", n, (x,))) is False:
                    continue
                if any(facts.get(mk("is", m, (x,))) is True for m in ("Ok", "Err", "Some", "None") if m != n):
                    continue
                yield from rec(proj(x, ("v", n, "0")), t2, "")
        return
    if p == "alloc::borrow::Cow":
        for x in alts(ip, v) or [v]:
            if x.op == "struct" and x.d[1] == "Borrowed":
                continue
            yield path, proj(x, ("v", "Owned", "0")), "words"
        return
    if p and p.startswith("ndarray"):
        yield path, v, "words"
        return
    if k in ("slice", "array") or p in SEQ or p in MAPS:
        e = ty["e"] if k in ("slice", "array") else a[-1 if p in MAPS and len(a) < 2 else 1 if p in MAPS else 0]
        if p in SEQ and P.ty(e)["k"] in ("slice",):
            e = P.ty(e)["e"]
        elif p == "alloc::boxed::Box" and P.ty(e)["k"] == "adt":
            yield from rec(v, e, "")
            return
        if C.words(e):
            yield path, v, "words"
            return
        if v.op == "it" or p.endswith("IntoIter"):
            return
        for x in element_list(ip, v, None, set()):
            yield from rec(x, e, "[]")
        return
    ad = P.adts.get(p)
    if ad:
        for vr in ad["vs"]:
            if ad["kind"] == "enum":
                if v.op == "struct" and v.d[1] != vr["n"] or facts.get(mk("is", vr["n"], (v,))) is False:
                    continue
            for f in vr["f"]:
                c = ("v", vr["n"], f["n"]) if ad["kind"] == "enum" else ("f", f["n"])
                yield from rec(proj(v, c), f["t"], f["n"])


def source7(P, F):
    base = source_of(P, F, False)

    def source(T, e):
        if base(T, e):
            return True
        return e.op == "fld" and e.d == "coeffs" and T.adt(e.a[0]) == PROTO_SK

    return source


def secret_leaf(ip, S, v, kind, facts):
    """alternatives of v that are secret and not wiped"""
    out = []
    for x in live(ip, v, facts):
        if kind == "poly":
            if S.exposed(x):
                out.append(x)
        elif S.secret(x):
            out.append(x)
    return out


def released(P, F):
    """(event, value, type) of every value released in the flow"""
    for ev in F.evs:
        if ev.kind not in ("drop", "dropcall"):
            continue
        fr = F.ip.frames.get(ev.ctx)
        if fr is None:
            continue
        t = fr.body.blocks[ev.blk]["t"]
        if ev.kind == "drop":
            ty = F.ip.place_ty(fr.body, t[1])
        else:
            o = t[2][0]
            ty = F.ip.place_ty(fr.body, o[1]) if o[0] in ("c", "m", "cp", "mv") or isinstance(o[1], list) else None
        if ty is not None:
            yield ev, ev.args[0], ty


def local_name(fr, t):
    try:
        return fr.body.names.get(t[1][0], "a temporary")
    except Exception:
        return "a temporary"


# ------------------------------------------------------------------ the polynomial layer


def draws(P, fn):
    """fn takes a generator: a mutable reference to a value of a type parameter"""
    for t in fn.ins or ():
        y = P.ty(t)
        if y["k"] == "ref" and y.get("m", True) and P.ty(y["e"])["k"] == "param":
            return True
    return False


def sampler(P, fn):
    """fn draws signed coefficients from a generator"""
    return fn.crate == "fhe_util" and fn.out is not None and "Vec<i" in P.tystr(fn.out) and draws(P, fn)


class Deep(Policy):
    split = 8

    def __init__(self, P):
        super().__init__()
        self.P = P

    def inline(self, fn, ctx):
        return fn.crate in ("fhe_math", "fhe_util") and not sampler(self.P, fn)

    def want(self, key, name, callee):
        return False

    def drops(self):
        return True


STOP = {"ctx", "allow_variable_time_computations", "has_lazy_coefficients", "_repr", "q", "ops", "degree"}


def depends(ip, e, args, samplers):
    """indices of the arguments whose content e depends on; 'noise' for sampled coefficients"""
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("len", "cnt", "is", "disc", "clos"):
            continue
        if x.op == "arg":
            if x in args:
                out.add((args[x], None))
            continue
        if x.op == "fld":
            y = x.a[0]
            if x.d in STOP:
                continue
            if y.op == "arg" and y in args:
                out.add((args[y], x.d))
                continue
        if x.op == "call" and x.d[0] in samplers:
            out.add(("noise", None))
        if x.op == "phi":
            st += phi_ins(ip, x)
        if x.op == "ref":
            continue
        st += list(x.a)
    return out


_contract = {}


def contract(C, f):
    """[(argument or 'noise', place, facts about the representation, function)] memory f releases unwiped"""
    k = (id(C.P), f.h)
    if k in _contract:
        return _contract[k]
    P = C.P
    samplers = {g.name for g in P.fns.values() if sampler(P, g)}
    F = run(P, f, Deep(P))
    args = {}
    for i, (e, t, n) in enumerate(F.args):
        args[e] = i
    # contents of reference arguments are roots of their own
    out = []
    if F.ip.incomplete:
        out.append(("incomplete", "", (), f))
    for ev, v, t in released(P, F):
        fr = F.ip.frames[ev.ctx]
        for path, x, kind in leaves(C, F.ip, v, t, ev.st.facts if ev.st else {}):
            for y in alts(F.ip, x) or [x]:
                if wipe_call(y):
                    continue
                for d, fld in depends(F.ip, y, args, samplers):
                    if fld == "coefficients_shoup" and shoup_free(P, f, d):
                        continue
                    rep = tuple(("Eq Representation::%s{" % c.d if c.op == "is" else show(c, 8), b) for c, b in (ev.st.facts if ev.st else {}).items() if "::REPRESENTATION" in show(c, 8))
                    vt = d != "noise" and public(P, F, ev) or d != "noise" and any(b and show(c, 4).endswith("allow_variable_time_computations") for c, b in (ev.st.facts if ev.st else {}).items())
                    if vt:
                        continue
                    out.append((d, local_name(fr, fr.body.blocks[ev.blk]["t"]), rep, ev.fn))
    r = list(dict.fromkeys(out))
    _contract[k] = r
    return r


def public(P, F, ev):
    """the release happens only when a flag argument permits variable time: the data is public (decided by P01 and P06)"""
    flags = {e for e, t, n in F.args if P.tystr(t) == "bool"}
    return any(b and c in flags for c, b in (ev.st.facts if ev.st else {}).items())


def shoup_free(P, f, i):
    """argument i of f is a polynomial of a representation without a companion (decided by P15)"""
    s = P.tystr(f.ins[i]) if isinstance(i, int) and i < len(f.ins) else ""
    return "NttShoup" not in s and ("rq::Ntt" in s or "rq::PowerBasis" in s)


def rep_of(P, T, e, f, i):
    for t in (T.of(e), f.ins[i] if i < len(f.ins) else None):
        if t is None:
            continue
        for r in ("PowerBasis", "NttShoup", "Ntt"):
            if "rq::%s>" % r in P.tystr(t):
                return r
    o = op_of(P, e)
    if o is not None and o.f.out is not None:
        for r in ("PowerBasis", "NttShoup", "Ntt"):
            if "rq::%s>" % r in P.tystr(o.f.out):
                return r
        if o.args and o.f.out is not None:
            pa = poly_args(P, o)
            if pa:
                return rep_of(P, T, o.args[pa[0]], o.f, pa[0])
    if e.op == "phi":
        for x in phi_ins(T.F.ip, e):
            if x.op != "phi":
                r = rep_of(P, T, x, f, i)
                if r:
                    return r
    return None


def ret_rep(P, ip, ev):
    """representation of the polynomial a call produces, from the type of its destination"""
    fr = ip.frames.get(ev.ctx)
    t = fr.body.blocks[ev.blk]["t"] if fr is not None and isinstance(ev.blk, int) else ("",)
    if t[0] == "call":
        s = P.tystr(ip.place_ty(fr.body, t[3]))
        for r in ("PowerBasis", "NttShoup", "Ntt"):
            if "rq::%s>" % r in s:
                return r
    return None


def applies(rep, r):
    """facts about the representation constant are compatible with representation r"""
    if len({n for s, b in rep if b and "Eq " in s for n in ("PowerBasis", "NttShoup", "Ntt") if "Representation::%s{" % n in s}) > 1:
        return False
    if rep and r is None:
        return False  # depends on a representation the call does not show
    for s, b in rep:
        for n in ("PowerBasis", "NttShoup", "Ntt"):
            if "Representation::%s{" % n in s and "Eq " in s and r is not None:
                if (n == r) != b:
                    return False
    return True


def p07(R, tier):
    R.rule("drop", "a value released in a scheme-layer function (drop, overwriting, mem::drop or mem::forget) whose type owns polynomials or word vectors and does not wipe them itself holds no unmasked secret, unless wiped before")
    R.rule("callee", "a polynomial-layer function applied to a secret releases no unwiped copy of it")
    R.rule("type", "each secret container wipes every word store it owns when dropped and when zeroized")
    R.rule("held", "an unmasked secret placed in an object that outlives the call is owned by a field or type that wipes it")
    P = program("native")
    C = Carriers(P)
    # --- the containers
    for p in SECRET_TYPES:
        ad = P.adts.get(p)
        if ad is None:
            R.bad("missing " + p, "the secret container %s is gone" % p)
            continue
        R.count("secret containers")
        R.check(C.wiping(p), "type " + p, "dropping a %s leaves its %s in memory" % (p, ", ".join(f["n"] for f in C.fields(p))), "%s is wiped when dropped" % p)
    nz = 0
    for i in P.impls:
        if i.get("trait") != "zeroize::Zeroize" or i["crate"] not in ("fhe", "fhe_math"):
            continue
        t = P.ty(i["self"])
        if t["k"] != "adt" or t["p"] not in P.adts:
            continue
        for n, h in i["items"]:
            f = P.fns.get(h)
            if n != "zeroize" or f is None:
                continue
            nz += 1
            R.fn(f)
            owned = [x for v in P.adts[t["p"]]["vs"] for x in v["f"] if holds(C, x["t"])]
            bad = zeroize_misses(C, f, owned)
            R.check(not bad, "zeroize " + t["p"], "%s does not erase %s" % (f.name, ", ".join(bad)), "%s erases %s" % (f.name, ", ".join(x["n"] for x in owned)))
    R.count("erasing implementations", nz)
    R.floor("erasing implementations", 5)
    # --- releases
    for F in flows(P, R, FhePol(drops=True), "drops"):
        ip = F.ip
        S = Secrets(F, source7(P, F))
        T = S.types
        used = False
        for ev, v, t in released(P, F):
            fr = ip.frames[ev.ctx]
            nm = local_name(fr, fr.body.blocks[ev.blk]["t"])
            forget = ev.kind == "dropcall" and "forget" in str(ev.name)
            if forget and not C.carrier(t) and holds(C, t):
                R.check(not S.secret(v), "forget %s" % stable(ev.fn), "%s forgets a secret: it is never wiped" % ev.fn.name)
            if not C.carrier(t):
                if holds(C, t):
                    R.count("releases of wiping owners")
                continue
            R.count("releases examined")
            bad = []
            for path, x, kind in leaves(C, ip, v, t, ev.st.facts if ev.st else {}):
                R.count("stores released")
                bad += [(path, y) for y in secret_leaf(ip, S, x, kind, ev.st.facts if ev.st else {})]
            R.check(not bad, "drop %s" % stable(ev.fn),
                    "%s releases %s (%s) without wiping it (entry %s): it holds %s" % (ev.fn.name, nm, P.tystr(t)[:60], F.fn.name, ", ".join(show(y, 3) for _, y in bad[:2])),
                    "%s: %s holds no unmasked secret" % (ev.fn.name, nm))
            used = True
        for ev in F.evs:
            if ev.kind != "call" or ev.callee is None or ev.callee.crate not in ("fhe_math", "fhe_util"):
                continue
            f = ev.callee
            if f.sname in ("ctx", "zero", "moduli", "modulus"):
                continue
            sec = [i for i, a in enumerate(ev.args) if i < len(f.ins) and S.secret(a)]
            noise = draws(P, f)
            if not sec and not noise:
                continue
            R.count("calls on secrets examined")
            bad = []
            for d, nm, rep, at in contract(C, f):
                if d == "incomplete":
                    R.bad("incomplete " + f.name, "analysis of %s did not converge" % f.name)
                    continue
                if d == "noise" and noise and applies(rep, ret_rep(P, ip, ev)) or d in sec and applies(rep, rep_of(P, T, ev.args[d], f, d)):
                    bad.append((nm, at))
            R.check(not bad, "callee %s" % (stable(bad[0][1]) if bad else ""), "%s, applied to a secret in %s, releases %s unwiped in %s" % (f.name, ev.fn.name, bad and bad[0][0], bad and bad[0][1].name),
                    "%s in %s keeps no unwiped copy" % (f.sname, ev.fn.name))
            used = True
        # --- held
        for o in F.outs:
            v = ip.snap(St(o.mem, o.facts), o.val)
            for path, x, kind in leaves(C, ip, v, F.fn.body.locals[0], o.facts):
                if not path or path == ("[]",) or P.ty(F.fn.body.locals[0]).get("p") == PROTO_SK:
                    continue  # the serialized key is the caller's
                bad = secret_leaf(ip, S, x, kind, o.facts)
                R.count("stores returned in objects")
                R.check(not bad, "held %s %s" % (stable(F.fn), ".".join(path)), "%s returns an object whose %s holds a secret nothing wipes: %s" % (F.fn.name, ".".join(path), ", ".join(show(y, 3) for y in bad[:1])),
                        "%s: %s" % (F.fn.name, ".".join(path)))
        if used:
            R.fn(F.fn)
    R.floor("releases examined", 100)
    R.floor("calls on secrets examined", 60)
    R.floor("releases of wiping owners", 60)


_holds = {}


def holds(C, t, depth=0):
    """type t owns words, wiped on release or not"""
    P = C.P
    k = (id(P), t)
    if k in _holds:
        return _holds[k]
    _holds[k] = False
    ty = P.ty(t)
    r = False
    if C.carrier(t):
        r = True
    elif ty["k"] in ("tuple", "slice", "array"):
        r = any(holds(C, x, depth + 1) for x in (targs(ty) if ty["k"] == "tuple" else [ty["e"]]))
    elif ty["k"] == "adt" and not ty["p"].startswith(OPAQUE):
        if ty["p"] in P.adts:
            r = any(holds(C, f["t"], depth + 1) for v in P.adts[ty["p"]]["vs"] for f in v["f"])
        else:
            r = any(holds(C, x, depth + 1) for x in targs(ty))
    _holds[k] = r
    return r


def zeroize_misses(C, f, owned):
    P = C.P
    F = run(P, f, Zpol())
    if F.ip.incomplete or not F.outs:
        return ["(analysis incomplete)"]
    miss = set()
    for o in F.outs:
        st = St(o.mem, o.facts)
        root = o.mem.get(("A", 0))
        for fd in owned:
            v = F.ip.snap(st, proj(root, ("f", fd["n"]))) if root is not None else None
            if v is None or not erased(C, F.ip, v, fd["t"], o.facts):
                miss.add(fd["n"])
    return sorted(miss)


class Zpol(Policy):
    split = 8

    def inline(self, fn, ctx):
        return fn.crate in ("fhe", "fhe_math", "fhe_traits")

    def want(self, key, name, callee):
        return False


def erased(C, ip, v, t, facts, depth=0):
    if wiped(ip, v, facts):
        return True
    if depth > 6:
        return False
    P = C.P
    # no store to wipe on this path: the store is absent, or not one contiguous slice
    for c, b in facts.items():
        if c.op == "is" and any(y is v or y.op in ("after", "with") and v in (y.a[0],) for y in (c.a[0],) + c.a[0].a) and (c.d, b) in (("Some", False), ("None", True)):
            return True
    ty = P.ty(t)
    if ty["k"] == "adt" and ty["p"] == "core::option::Option":
        return erased(C, ip, proj(v, ("v", "Some", "0")), targs(ty)[0], facts, depth + 1)
    if ty["k"] == "adt" and ty["p"] == ZING and targs(ty):
        return erased(C, ip, v, targs(ty)[0], facts, depth + 1)
    if ty["k"] == "adt" and ty["p"] in P.adts:
        fs = [x for w in P.adts[ty["p"]]["vs"] for x in w["f"] if holds(C, x["t"])]
        return bool(fs) and all(erased(C, ip, proj(v, ("f", x["n"])), x["t"], facts, depth + 1) for x in fs)
    return False
