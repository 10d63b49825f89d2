"""Secrets: constant-time processing (P06), fresh noise (P05), randomness provenance (P08), wire permissions (P03)."""
import re
from ..fhe import *

SK = "fhe::bfv::keys::secret_key::SecretKey"
RKG = "fhe::mbfv::relin_key_gen::RelinKeyGenerator"
PT = "fhe::bfv::plaintext::Plaintext"
SECRET_TYPES = (SK, PT, RKG, "fhe::bfv::plaintext_vec::PlaintextVec", "fhe::bfv::keys::evaluation_key::EvaluationKeyBuilder")


def secret_fields(P):
    """fields of the secret containers that hold the secret itself: vectors of coefficients, polynomials"""
    return {(SK, "coeffs"), (RKG, "u")}


def source_of(P, F, plaintexts=False):
    sf = secret_fields(P)
    enc = plaintexts and (F.fn.trait or "").rsplit("::", 1)[-1] == "FheEncrypter"

    def source(T, e):
        if e.op != "fld":
            return False
        a = T.adt(e.a[0])
        if (a, e.d) in sf:
            return True
        return enc and a == PT and e.d == "poly_ntt"

    return source


def stable(f):
    return re.sub(r"\{closure#\d+\}", "{closure}", f.name)


def rkg_inv(types, e):
    """u of a multiparty generator never carries the permission (established where it is built)"""
    return e.op == "fld" and e.d == "u" and types.adt(e.a[0]) == RKG


# ------------------------------------------------------------------ P06


def p06(R, tier):
    R.rule("operand", "at every call into the polynomial layer, an operand polynomial that depends on a secret not masked by fresh noise surely lacks the permission (never granted where it was made, cleared since, or a product with such a polynomial)")
    R.rule("conversion", "conversions of secret coefficients get the constant-time flag value FALSE, no function taking a public-data token and no *_vt function is applied to them")
    R.rule("container", "secret polynomials stored in a container that outlives the call (decrypted plaintexts, multiparty randomness) lack the permission")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        for F in flows(P, R):
            S = Secrets(F, source_of(P, F, True))
            T = Secrets(F, source_of(P, F, False))
            pm = Perms(F, rkg_inv, T.secret)
            used = False
            for ev in F.evs:
                if ev.kind != "call" or ev.callee is None or ev.callee.crate not in ("fhe_math", "fhe_util"):
                    continue
                f = ev.callee
                sec = [i for i, a in enumerate(ev.args) if i < len(f.ins) and S.secret(a)]
                # the state of a generator is not data
                sec = [i for i in sec if not rng_param(P, f, i)]
                if not sec:
                    continue
                used = True
                R.count("secret_calls")
                key = "%s <- %s [%s]" % (f.sname, stable(ev.fn), stable(F.fn))
                where = "%s (entry %s)" % (ev.where(), F.fn.name)
                badp = [i for i in sec if P.ty(P.peel(f.ins[i])).get("p") == POLY and T.secret(ev.args[i]) and not pm.noperm(ev.args[i], ev.st.facts)]
                R.check(not badp, "operand " + key, "%s is applied at %s to a secret polynomial that may carry the permission: %s" % (f.name, where, ", ".join(show(ev.args[i], 4) for i in badp)),
                        "%s at %s: secret operand never permitted" % (f.sname, ev.where()))
                fl = [i for i in bool_args(P, f) if ev.args[i] is not FALSE and not caller_flag(F, ev.args[i])]
                if f.sname == "small" or not is_poly_ty(P, f.out):
                    fl = []
                R.check(not fl, "flag " + key, "%s converts secret data at %s with a permission flag that is not constantly false" % (f.name, where))
                tk = [i for i, t in enumerate(f.ins) if P.ty(P.peel(t)).get("p") == TOKEN and not caller_token(F, ev.args[i])]
                R.check(not tk, "token " + key, "%s is given a public-data token at %s for a value that still depends on a secret" % (f.name, where))
                R.check(not re.search(r"_vt(_|$)", f.sname), "vt " + key, "variable-time %s is applied at %s to secret data" % (f.name, where))
            for o in objects(F):
                if o.adt != POLY or not o.chain or o.chain[-1] not in SECRET_TYPES:
                    continue
                if not T.secret(o.v):
                    continue
                used = True
                R.count("containers")
                R.check(pm.noperm(o.v, o.facts), "container %s %s" % (stable(F.fn), o.lab), "the secret polynomial %s built by %s may carry the permission" % (o.lab, F.fn.name),
                        "%s %s: secret polynomial never permitted" % (F.fn.name, o.lab))
            if used:
                R.fn(F.fn)
    R.floor("secret_calls", 120)
    R.floor("containers", 2)


def caller_flag(F, e):
    return any(e is a for a, t, n in F.args)


def caller_token(F, e):
    """the token the caller of the entry presented"""
    return any(e is a for a, t, n in F.args)


def rng_param(P, f, i):
    t = P.ty(P.peel(f.ins[i]))
    return t["k"] == "param" and any(m == t.get("n") and "CryptoRng" in b for m, b in f.gb)


# ------------------------------------------------------------------ P05


def noise_calls(e):
    """calls producing noise inside e"""
    return e


def base_site(t):
    """(call site without element stamps, stamps) of a noise term"""
    c = call_of(t)
    s = c.d[1] or ()
    st = tuple(x[1] for x in s if isinstance(x, tuple) and x and x[0] == "@")
    return tuple(x for x in s if not (isinstance(x, tuple) and x and x[0] == "@")), st


def call_of(t):
    x = t
    while x.op in ("vfld", "after"):
        x = x.a[0]
    return x


def injective(i, loop):
    """index i differs in every iteration of loop"""
    if i.op in ("pos", "each"):
        return site_in(loop, i.d) or i.d[:len(loop[0])] == loop[0]
    if i.op == "idx" and i.a[0].op == "it" and i.a[0].d in ("range", "enum", "enumerate") or i.op == "fld" and i.d == "0" and i.a[0].op == "idx":
        return any(injective(x, loop) for x in i.a[-1:] if x.op != "idx") or i.op == "fld" and injective(i.a[0].a[1], loop)
    if i.op == "phi":
        return i.d[0][:-1] == loop[0]
    if i.op == "bin" and i.d in ("Add", "Sub", "Mul") and any(x.op == "const" for x in i.a):
        return any(injective(x, loop) for x in i.a)
    return False


def fresh_in(t, loop):
    s, stamps = base_site(t)
    if site_in(loop, s):
        return True
    return any(injective(i, loop) for i in stamps)


def p05(R, tier):
    R.rule("masked", "every polynomial placed in a published object, in each alternative that depends on a secret, is a sum containing a product of a secret with a public polynomial and a noise polynomial drawn in this call with the parameters' variance")
    R.rule("fresh", "the masking noise is drawn inside every loop that fills the collections around the polynomial, is not the mask of another published polynomial, and is not a factor of a published product")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        for F in flows(P, R):
            S = Secrets(F, source_of(P, F, True))
            pub = [o for o in objects(F, SECRET_TYPES) if o.adt == POLY and o.chain]
            pos = {}
            for o in pub:
                fs = [x for x in S.forms(o.v) if x[0]] if S.step(o.v)[0] != "term" else ([(True, False, frozenset())] if S.secret(o.v) else [])
                if not fs:
                    continue
                R.fn(F.fn)
                key = "%s %s" % (stable(F.fn), o.lab)
                R.count("published")
                bad = [x for x in fs if not (x[1] and x[2])]
                R.check(not bad, "masked " + key, "%s publishes %s, which depends on a secret %s" % (F.fn.name, o.lab, "without an error polynomial" if bad and not bad[0][2] else "without a product hiding it"),
                        "%s %s: secret hidden by fresh noise" % (F.fn.name, o.lab))
                if bad:
                    continue
                fresh = [frozenset(t for t in x[2] if all(fresh_in(t, l) for l in o.loops)) for x in fs]
                R.check(all(fresh), "fresh " + key, "%s: the error polynomial masking %s is not drawn anew for each element" % (F.fn.name, o.lab))
                for x in fs:
                    for t in x[2]:
                        v = call_of(t).a[1]
                        R.check(v.op == "fld" and v.d == "variance", "variance " + key, "%s: the error polynomial masking %s is not drawn with the variance of the parameters (%s)" % (F.fn.name, o.lab, show(v, 3)))
                if "[~]" in o.lab:
                    continue
                for x in fresh:
                    pos.setdefault(o.lab, []).append(x)
            # one noise polynomial, one published polynomial
            factors = set()
            for o in pub:
                factors |= product_noise(S, o.v)
            for lab in sorted(pos):
                others = set()
                for l2 in pos:
                    if l2 != lab:
                        for x in pos[l2]:
                            others |= x
                own = [x - others - factors for x in pos[lab]]
                shared = [x for x, y in zip(pos[lab], own) if x and not y]
                R.check(not shared, "shared %s %s" % (stable(F.fn), lab), "%s: the error polynomial masking %s also appears in another published polynomial" % (F.fn.name, lab))
    R.floor("published", 12)


def product_noise(S, e):
    """noise polynomials that occur as factors of products in the additive structure of e"""
    r = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        s = S.step(x)
        if s[0] != "term":
            st.extend(s[1])
            continue
        o = op_of(S.P, x)
        if o is not None and op_kind(S.P, o) == "product":
            for y in deps(S.ip, x):
                if y is not x:
                    o2 = op_of(S.P, y)
                    if o2 is not None and op_kind(S.P, o2) == "noise":
                        r.add(y)
    return r


# ------------------------------------------------------------------ P08

RNG_EXT = re.compile(r"^rand(_core|_chacha)?::")


def rng_state(ip, e, seen=None):
    """origins of a generator value"""
    seen = seen if seen is not None else set()
    if e in seen:
        return set()
    seen.add(e)
    if e.op == "after":
        return rng_state(ip, e.a[1], seen)
    if e.op in ("phi", "join"):
        r = set()
        for x in phi_ins(ip, e) if e.op == "phi" else e.a:
            r |= rng_state(ip, x, seen)
        return r
    if e.op == "with":
        return rng_state(ip, e.a[0], seen)
    return {e}


def rng_kind(F, e):
    """caller | os | seeded | other"""
    P = F.ip.P
    if e.op == "arg":
        for a, t, n in F.args:
            if a is e:
                ty = P.ty(P.peel(t))
                if ty["k"] == "param":
                    b = {x for m, x in F.fn.gb if m == ty.get("n")}
                    return "caller" if any(x.endswith("::CryptoRng") for x in b) else "other"
                return "other"
    if e.op == "call":
        if e.d[0] in ("rand::rngs::thread::rng", "rand::rng"):
            return "os"
        if e.d[0].rsplit("::", 1)[-1] in ("from_seed",) and len(e.a) == 1:
            return "seeded"
    return "other"


def rng_ok(F, e):
    o = rng_state(F.ip, e)
    return bool(o) and all(rng_kind(F, x) in ("caller", "os") for x in o)


def seed_ok(F, e, depth=0, seen=frozenset()):
    """a seed freshly drawn, received from outside, or copied from a stored one"""
    ip = F.ip
    if depth > 6 or e in seen:
        return e in seen
    if e.op in ("phi", "join"):
        al = [x for x in alts(ip, e)]
        return bool(al) and all(seed_ok(F, x, depth + 1, seen | {e}) for x in al)
    if e.op == "after" and e.a[0].op == "call" and (RNG_EXT.match(e.a[0].d[0])) and len(e.a[0].a) >= 2 and e.d == 1:
        return gen_ok(F, e.a[0].a[0], depth, seen | {e})
    if e.op == "call" and RNG_EXT.match(e.d[0]) and e.a and e.d[0].rsplit("::", 1)[-1] in ("random", "next_u64", "gen"):
        return gen_ok(F, e.a[0], depth, seen | {e})
    return wire(ip, e)


def gen_ok(F, g, depth, seen):
    o = rng_state(F.ip, g)
    for x in o:
        k = rng_kind(F, x)
        if k in ("caller", "os"):
            continue
        if k == "seeded" and seed_ok(F, x.a[0], depth + 1, seen):
            continue
        return False
    return bool(o)


def wire(ip, e):
    """data of an argument (stored or received), merely converted"""
    n = 0
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "arg":
            n += 1
            continue
        if x.op == "const":
            return False
        if x.op in ("fld", "vfld", "idx"):
            st.append(x.a[0])
            continue
        if x.op == "call" and x.d[0].rsplit("::", 1)[-1] in ("try_from", "try_into", "decode", "into", "from", "to_vec", "as_slice", "clone"):
            st.extend(x.a[:1])
            continue
        if x.op in ("slice", "sub"):
            return False
        if x.op in ("phi", "join"):
            st.extend(phi_ins(ip, x) if x.op == "phi" else x.a)
            continue
        return False
    return n > 0


def p08(R, tier):
    R.rule("generator", "the generator operand of every sampling call (error, randomness, common random values, secret coefficients, seeds) is the caller's CryptoRng-bounded generator or the thread generator; a seeded generator only draws seeds of public expansions")
    R.rule("seed", "the seed of every public expansion is entirely drawn from such a generator in this call, or is received / stored data; two polynomials of an object never share one")
    R.rule("sampler", "inside the sampling functions every draw uses the generator parameter; a deterministic generator is built only from a seed parameter")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        for F in flows(P, R):
            used = False
            seeds_drawn = set()
            for ev in F.evs:
                if ev.kind not in ("call", "std"):
                    continue
                f = ev.callee
                nm = ev.name or ""
                key = "%s <- %s [%s]" % (nm.rsplit("::", 1)[-1], stable(ev.fn), stable(F.fn))
                where = "%s (entry %s)" % (ev.where(), F.fn.name)
                if f is not None and f.crate in ("fhe_math", "fhe_util"):
                    for i in range(min(len(f.ins), len(ev.args))):
                        if rng_param(P, f, i):
                            used = True
                            R.count("samplings")
                            R.check(rng_ok(F, ev.args[i]), "generator " + key, "%s at %s draws from %s" % (f.name, where, ", ".join(show(x, 3) for x in rng_state(F.ip, ev.args[i]))),
                                    "%s at %s: caller's or thread generator" % (f.sname, ev.where()))
                    if f.sname == "random_from_seed":
                        used = True
                        R.count("expansions")
                        R.check(seed_ok(F, ev.args[1]), "seed " + key, "the seed expanded at %s is not freshly drawn: %s" % (where, show(ev.args[1], 5)),
                                "%s: seed drawn or received" % ev.where())
                elif RNG_EXT.match(nm):
                    m = nm.rsplit("::", 1)[-1]
                    if m in ("rng", "default"):
                        continue
                    if m == "from_seed" or m.startswith(("seed_from", "from_rng")):
                        R.count("seeded_generators")
                        R.check(m == "from_seed" and seed_ok(F, ev.args[0]), "seed " + key, "the deterministic generator built at %s is not seeded from fresh or received data: %s" % (where, show(ev.args[0], 5)))
                        continue
                    if not ev.args:
                        continue
                    used = True
                    R.count("draws")
                    R.check(m in ("fill", "fill_bytes", "random") and gen_ok(F, ev.args[0], 0, frozenset()), "draw " + key, "%s at %s draws from %s" % (nm, where, ", ".join(show(x, 3) for x in rng_state(F.ip, ev.args[0]))))
            # seeds of one object
            sp = {}
            for o in objects(F, SECRET_TYPES):
                if o.adt != POLY or not o.chain or "[~]" in o.lab:
                    continue
                for x in expansions(F, o.v):
                    sd = x.a[1]
                    sp.setdefault(sd, set()).add((o.lab, o.chain[-1]))
                    R.count("published_expansions")
                    key = "%s %s" % (stable(F.fn), o.lab)
                    R.check(all(seed_varies(F, sd, l) for l in o.loops), "shared-seed " + key, "%s: every element of %s expands the same seed" % (F.fn.name, o.lab))
            for sd, labs in sp.items():
                l = sorted({a for a, b in labs})
                R.check(len(l) == 1, "shared-seed %s" % stable(F.fn), "%s: %s expand the same seed" % (F.fn.name, ", ".join(l)))
            if used:
                R.fn(F.fn)
        samplers(P, R)
    R.floor("samplings", 20)
    R.floor("expansions", 6)
    R.floor("draws", 5)
    R.floor("sampler_draws", 3)


def expansions(F, e):
    """public expansions e may be (through linear operations)"""
    P = F.ip.P
    r = set()
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("phi", "join"):
            st.extend(alts(F.ip, x))
            continue
        o = op_of(P, x)
        if o is None:
            continue
        if o.f.sname == "random_from_seed":
            r.add(o.call)
        elif op_kind(P, o) == "linear":
            st.append(o.args[poly_args(P, o)[0]])
    return r


def seed_varies(F, sd, loop):
    """the seed differs in every iteration"""
    for x in alts(F.ip, sd):
        if x.op == "after" and x.a[0].op == "call":
            s = x.a[0].d[1] or ()
            st = tuple(y[1] for y in s if isinstance(y, tuple) and y and y[0] == "@")
            s = tuple(y for y in s if not (isinstance(y, tuple) and y and y[0] == "@"))
            if site_in(loop, s) or any(injective(i, loop) for i in st):
                continue
            return False
        if x.op == "call" and x.d[1]:
            if site_in(loop, tuple(y for y in x.d[1] if not isinstance(y, tuple))):
                continue
            return False
        if x.op == "idx" and injective(x.a[1], loop):
            continue
        if any(k in ("pos", "each") and s[:len(loop[0])] == loop[0] for k, s in x.sites):
            continue
        return False
    return True


class AllInline(Policy):
    def inline(self, fn, ctx):
        return False

    def want(self, key, name, callee):
        return True


def samplers(P, R):
    """fhe_util / fhe_math functions that draw randomness"""
    for f in lib_fns(P, ("fhe_math", "fhe_util")):
        if f.kind not in ("fn", "assoc"):
            continue
        has = any(rng_param(P, f, i) for i in range(len(f.ins)))
        direct = any(draws(P, h) for h in body_calls(P, f))
        if not has and not direct:
            continue
        try:
            F = run(P, f, AllInline())
        except Budget as b:
            R.bad("budget:" + f.name, str(b))
            continue
        R.fn(f)
        bykey = {}
        if not f.reach and not has:
            pass
        for ev in F.evs:
            if ev.kind not in ("call", "std"):
                continue
            nm = ev.name or ""
            key = "sampler %s in %s" % (nm.rsplit("::", 1)[-1], stable(f))
            g = ev.callee
            if g is not None and g.crate in ("fhe_math", "fhe_util"):
                for i in range(min(len(g.ins), len(ev.args))):
                    if rng_param(P, g, i):
                        R.count("sampler_draws")
                        R.check(sampler_src(F, ev.args[i], has), key, "%s: %s draws from %s" % (ev.where(), nm, show(ev.args[i], 3)))
            elif RNG_EXT.match(nm):
                m = nm.rsplit("::", 1)[-1]
                if m == "from_seed":
                    R.count("sampler_seeds")
                    ok = seed_param(F, ev.args[0])
                    R.check(ok, key, "%s: a deterministic generator is built from %s" % (ev.where(), show(ev.args[0], 4)))
                elif m.startswith("seed_from"):
                    # constants searched for a property of the modulus, not samples
                    R.check(not has and not is_poly_ty(P, f.out), key, "%s: a generator with a fixed seed is used in %s" % (ev.where(), f.name))
                elif m in ("rng",):
                    R.check(not has, key, "%s: %s ignores the generator it was given" % (ev.where(), f.name))
                elif ev.args and m not in ("new", "new_inclusive"):
                    if not has and not any(k == "call" for k, s in ev.args[0].sites) and False:
                        continue
                    R.count("sampler_draws")
                    R.check(sampler_src(F, ev.args[0], has), key, "%s: %s draws from %s" % (ev.where(), nm, show(ev.args[0], 3)))


def sampler_src(F, e, has):
    """the generator parameter; where there is none, one expanded from a seed parameter or a fixed public one"""
    for x in rng_state(F.ip, e):
        k = rng_kind(F, x)
        if k == "caller":
            continue
        if has:
            return False
        if k == "seeded" and seed_param(F, x.a[0]):
            continue
        if x.op == "call" and x.d[0].rsplit("::", 1)[-1].startswith("seed_from"):
            continue
        if k == "os":
            continue
        return False
    return True


def seed_param(F, e):
    """computed from arguments, all of the seed included"""
    d = deps(F.ip, e)
    return any(x.op == "arg" for x in d)


def body_calls(P, f):
    out = []
    for b in f.body.blocks:
        t = b["t"]
        if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
            out.append(t[1][1]["fn"])
    return out


def draws(P, q):
    n = q.get("p") or q.get("n") or ""
    return bool(RNG_EXT.match(str(n)))


# ------------------------------------------------------------------ P03


def p03(R, tier):
    from .poly import ZqOpaque, out_polys
    R.rule("decode", "every function turning bytes or a wire message into a polynomial returns it without the permission, or exactly with the flag its caller passed; the wire field never reaches the flag")
    R.rule("encode", "the wire field for the permission is constantly false")
    R.rule("scheme", "scheme-layer decoders convert received polynomials with the flag constantly false; polynomials of decoded public keys lack the permission")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        for f in lib_fns(P, ("fhe_math",)):
            if f.kind not in ("fn", "assoc") or not f.reach or f.derived:
                continue
            rq_in = any(wire_type(P, t) for t in f.ins)
            rq_out = P.mentions(f.out, lambda t: t.get("p", "").endswith("::proto::rq::Rq")) if f.out is not None else False
            if not rq_in and not rq_out:
                continue
            try:
                F = run(P, f, ZqOpaque())
            except Budget as b:
                R.bad("budget:" + f.name, str(b))
                continue
            R.fn(f)
            if rq_in and is_poly_ty(P, f.out):
                fa = [a for a, t, n in F.args if P.tystr(t) == "bool"]
                for lab, o, facts, t in out_polys(P, F):
                    R.count("decoded")
                    fl = proj(o, ("f", ALLOWF))
                    if fl.op == "fld" and fl.a[0].op in ("vfld", "call"):
                        # the conversion it forwards to, an entry of its own
                        c = fl.a[0] if fl.a[0].op == "call" else fl.a[0].a[0]
                        if c.op == "call" and any(x is FALSE for x in c.a) and not any(x.op == "arg" and x in fa or x is TRUE for x in c.a):
                            fl = FALSE
                    okf = fl is FALSE or F.ip.holds(facts, fl) is False or any(fl is a or fl is not TRUE and only_args(F.ip, fl, fa) for a in fa)
                    if not okf and fl is TRUE and any(F.ip.holds(facts, a) is True for a in fa):
                        okf = True
                    R.check(okf, "decode " + stable(f), "%s:%s %s returns a polynomial whose permission is %s" % (f.file, f.line, f.name, show(fl, 4)),
                            "%s: permission %s" % (f.name, show(fl, 3)))
            if rq_out:
                for o in F.outs:
                    st = St(o.mem, o.facts)
                    v = F.ip.snap(st, o.val)
                    fl = proj(v, ("f", "allow_variable_time"))
                    R.count("encoded")
                    R.check(fl is FALSE, "encode " + stable(f), "%s:%s %s writes %s into the permission field of the wire message" % (f.file, f.line, f.name, show(fl, 4)),
                            "%s: wire permission constantly false" % f.name)
        for F in flows(P, R):
            if not decoder(P, F.fn):
                continue
            R.fn(F.fn)
            pm = Perms(F)
            for ev in F.evs:
                f = ev.callee
                if ev.kind != "call" or f is None or f.crate != "fhe_math" or not is_poly_ty(P, f.out):
                    continue
                if not any(wire_type(P, t) for t in f.ins):
                    continue
                R.count("wire_conversions")
                b = [i for i in bool_args(P, f) if ev.args[i] is not FALSE]
                R.check(not b, "flag %s <- %s [%s]" % (f.sname, stable(ev.fn), stable(F.fn)), "%s converts received data at %s with a permission flag that is not constantly false" % (f.name, ev.where()),
                        "%s at %s: flag false" % (f.sname, ev.where()))
            for o in objects(F):
                if o.adt == POLY and any(c in SECRET_DEP for c in o.chain) and "^" not in o.lab:
                    R.count("key_polys")
                    R.check(pm.noperm(o.v, o.facts), "key %s %s" % (stable(F.fn), o.lab), "%s decodes %s with a polynomial that may carry the permission" % (F.fn.name, o.lab),
                            "%s %s: never permitted" % (F.fn.name, o.lab))
    R.floor("decoded", 4)
    R.floor("encoded", 1)
    R.floor("wire_conversions", 6)
    R.floor("key_polys", 1)


SECRET_DEP = ("fhe::bfv::keys::public_key::PublicKey", SK, PT)


def only_args(ip, e, ok):
    """e is computed from the given arguments only"""
    d = [x for x in deps(ip, e) if x.op in ("arg", "call", "fld")]
    return bool(d) and all(x in ok for x in d)


def wire_type(P, t):
    ty = P.ty(P.peel(t))
    if ty["k"] == "slice" and P.tystr(ty["e"]) == "u8":
        return True
    return "::proto::" in ty.get("p", "")


def decoder(P, f):
    return any(wire_type(P, t) for t in f.ins)
