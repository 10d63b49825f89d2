"""P20: misuse of representations, tokens and protocol rounds does not compile.

Two halves.  (A) compile-fail witnesses: small client functions type-checked by the compiler against the
metadata of the current tree; each forbidden one must be rejected while its legitimate twin, the same text
with the permitted type, is accepted (so a rejection is about the type, not about a misspelt program).
(B) enumeration of the exported interface (signatures, fields, trait implementations) for anything that would
let a client reach the same misuse by another name."""
import json, os, subprocess, tempfile, itertools, re, concurrent.futures
from .. import facts
from ..common import program

REPS = ["PowerBasis", "Ntt", "NttShoup"]
POLY = "fhe_math::rq::Poly"
TOKENS = ("fhe_traits::PublicData", "fhe_traits::VariableTime")
SHARE = "fhe::mbfv::relin_key_gen::RelinKeyShare"
PRE = """#![allow(unused, dead_code)]
use std::sync::Arc;
use fhe_traits::*;
use fhe_math::rq::{*, traits::TryConvertFrom, scaler::Scaler, switcher::Switcher};
use fhe::mbfv::{*, round::*};
use fhe::bfv::*;
use num_bigint::BigUint;
fn any<T>() -> T { loop {} }
fn needs_default<T: Default>() {}
"""
# what a rejection may be about; anything else (syntax, unresolved name) is a fault of the witness
CODES = {"E0277", "E0308", "E0369", "E0368", "E0599", "E0600", "E0603", "E0616", "E0423", "E0624", "E0271", "E0061",
         "E0451", "E0282", "E0283", "E0614", "E0305", "E0631", "E0432", "E0433", "E0425", "E0533", "E0639"}
NAMES = {"E0432", "E0433", "E0425"}


def witnesses():
    """[(key, what, code, permitted twin or None)]"""
    W = []

    def add(key, what, bad, good=None):
        W.append((key, what, bad, good))

    ops = {
        "add": ("let _ = {l} + {r};", {("PowerBasis", "PowerBasis"), ("Ntt", "Ntt")}),
        "sub": ("let _ = {l} - {r};", {("PowerBasis", "PowerBasis"), ("Ntt", "Ntt")}),
        "mul": ("let _ = {l} * {r};", {("Ntt", "Ntt"), ("Ntt", "NttShoup")}),
    }
    asg = {"add": "+=", "sub": "-=", "mul": "*="}
    for op, (t, ok) in ops.items():
        good0 = sorted(ok)[0]
        for a, b in itertools.product(REPS, REPS):
            if (a, b) in ok:
                continue
            for form, l, r in (("ref", "any::<&Poly<%s>>()", "any::<&Poly<%s>>()"),
                               ("val", "any::<Poly<%s>>()", "any::<Poly<%s>>()"),
                               ("val-ref", "any::<Poly<%s>>()", "any::<&Poly<%s>>()"),
                               ("ref-val", "any::<&Poly<%s>>()", "any::<Poly<%s>>()")):
                add("%s %s %s %s" % (op, a, b, form), "%s of a %s and a %s polynomial" % (op, a, b),
                    t.format(l=l % a, r=r % b),
                    t.format(l=l % good0[0], r=r % good0[1]) if form == "ref" else None)
            for form in ("&", ""):
                body = "let mut x = any::<Poly<%s>>(); x " + asg[op] + " any::<" + form + "Poly<%s>>();"
                add("%s-assign %s %s %s" % (op, a, b, form or "val"), "in-place %s of a %s and a %s polynomial" % (op, a, b),
                    body % (a, b), body % good0 if form else None)
    for form in ("&", ""):
        add("neg NttShoup " + (form or "val"), "negation of a NttShoup polynomial", "let _ = -any::<%sPoly<NttShoup>>();" % form,
            "let _ = -any::<%sPoly<Ntt>>();" % form)
    add("scalar NttShoup", "scalar product of a NttShoup polynomial",
        "let _ = any::<&Poly<NttShoup>>() * any::<&BigUint>();", "let _ = any::<&Poly<Ntt>>() * any::<&BigUint>();")
    add("scalar-assign NttShoup", "scalar product of a NttShoup polynomial",
        "let mut x = any::<Poly<NttShoup>>(); x *= any::<&BigUint>();", "let mut x = any::<Poly<Ntt>>(); x *= any::<&BigUint>();")
    # operations of the power basis only
    for name, t in (
        ("switch_down", "let mut x = any::<Poly<{R}>>(); let _ = x.switch_down();"),
        ("switch_down_to", "let mut x = any::<Poly<{R}>>(); let _ = x.switch_down_to(any::<&Arc<Context>>());"),
        ("multiply_inverse_power_of_x", "let mut x = any::<Poly<{R}>>(); let _ = x.multiply_inverse_power_of_x(1);"),
    ):
        for r in ("Ntt", "NttShoup"):
            add("%s %s" % (name, r), "%s on a %s polynomial" % (name, r), t.format(R=r), t.format(R="PowerBasis"))
    for name in ("switch", "scale"):
        t = "let x = any::<Poly<{R}>>(); let _ = x.%s(any());" % name
        add("%s NttShoup" % name, "%s on a NttShoup polynomial" % name, t.format(R="NttShoup"), t.format(R="Ntt"))
    for r in ("PowerBasis", "NttShoup"):
        t = "let _ = dot_product(any::<Vec<Poly<{A}>>>().iter(), any::<Vec<Poly<{B}>>>().iter());"
        add("dot_product %s" % r, "dot product over %s polynomials" % r, t.format(A=r, B="Ntt"), t.format(A="Ntt", B="Ntt"))
        add("dot_product right %s" % r, "dot product over %s polynomials" % r, t.format(A="Ntt", B=r), None)
    for a, b in itertools.permutations(REPS, 2):
        add("retag %s %s" % (a, b), "a %s polynomial used where a %s one is expected" % (a, b),
            "let x = any::<Poly<%s>>(); let y: Poly<%s> = x;" % (a, b), "let x = any::<Poly<%s>>(); let y: Poly<%s> = x;" % (b, b))
        for c in ("Into<Poly<%s>>", "AsRef<Poly<%s>>", "AsMut<Poly<%s>>", "std::borrow::Borrow<Poly<%s>>"):
            n = c.split("<")[0]
            if n == "Into":
                continue
            t = "fn f<T: %s>(_: T) {} f(any::<&mut Poly<%s>>());" % (c % b, "%s")
            add("%s %s %s" % (n, a, b), "a %s polynomial seen through %s as a %s one" % (a, n, b), t % a, None)
        add("deref %s %s" % (a, b), "a %s polynomial dereferenced as a %s one" % (a, b),
            "let x = any::<&Poly<%s>>(); let y: &Poly<%s> = x;" % (a, b), "let x = any::<&Poly<%s>>(); let y: &Poly<%s> = x;" % (b, b))
    # the state of a polynomial
    for f in ("allow_variable_time_computations", "has_lazy_coefficients", "coefficients_shoup", "ctx", "coefficients", "_repr"):
        add("Poly." + f, "access to the internal field %s of a polynomial" % f, "let mut p = any::<Poly<Ntt>>(); let _ = &mut p.%s;" % f,
            "let mut p = any::<Poly<Ntt>>(); let _ = p.ctx();")
    # tokens
    add("PublicData ctor", "forging the public-data token", "let _ = PublicData(());", "let _ = PublicData::assert_public();")
    add("VariableTime ctor", "forging the variable-time token from its field", "let _ = VariableTime(any::<PublicData>());",
        "let _ = VariableTime::new(any::<PublicData>());")
    for t in ("PublicData", "VariableTime"):
        add(t + " field", "reading the token's field", "let _ = any::<%s>().0;" % t, None)
        add(t + " default", "a default token", "needs_default::<%s>();" % t, "needs_default::<bool>();")
        for s in ("()", "bool", "u8"):
            add("%s from %s" % (t, s), "a token converted from %s" % s, "let _: %s = any::<%s>().into();" % (t, s), None)
    add("VariableTime new bool", "a variable-time token from a boolean", "let _ = VariableTime::new(true);",
        "let _ = VariableTime::new(any::<PublicData>());")
    add("VariableTime new unit", "a variable-time token from nothing", "let _ = VariableTime::new();",
        "let _ = VariableTime::new(any::<PublicData>());")
    good = "let mut p = any::<Poly<Ntt>>(); p.allow_variable_time_computations(any::<VariableTime>());"
    for a in ("true", "()", "any::<PublicData>()", ""):
        add("allow " + (a or "nothing"), "granting variable-time permission with %s instead of the token" % (a or "no argument"),
            "let mut p = any::<Poly<Ntt>>(); p.allow_variable_time_computations(%s);" % a, good)
    good = "let _ = Poly::<PowerBasis>::try_convert_from_public(any::<&[u64]>(), any(), any::<VariableTime>());"
    for a in ("true", "()", "any::<PublicData>()", None):
        args = "any::<&[u64]>(), any()" + (", " + a if a else "")
        add("convert " + (a or "nothing"), "a public conversion without the token",
            "let _ = Poly::<PowerBasis>::try_convert_from_public(%s);" % args, good)
    # rounds
    add("round foreign", "a round of the client's own", "struct Mine; impl Round for Mine {} let _ = any::<Box<RelinKeyShare<Mine>>>();", None)
    add("round of a client type", "a share of a type that is no round", "struct Mine; let _ = any::<Option<Box<RelinKeyShare<Mine>>>>();",
        "struct Mine; let _ = any::<Option<Box<RelinKeyShare<R1>>>>();")
    agg = "let _ = <{O} as Aggregate<{S}>>::from_shares(any::<Vec<{S}>>());"
    outs = ["PublicKey", "Ciphertext", "Plaintext", "RelinearizationKey", "RelinKeyShare<R1>", "RelinKeyShare<R1Aggregated>", "RelinKeyShare<R2>"]
    for s, o in SHARES.items():
        for x in outs:
            if x != o:
                add("aggregate %s %s" % (s, x), "shares %s aggregated to %s" % (s, x), agg.format(S=s, O=x), agg.format(S=s, O=o) if o else None)
    for r in ("R1", "R2"):
        t = ROUND2
        add("round_2 " + r, "round 2 on an unaggregated share of %s" % r, t.format(R=r), t.format(R="R1Aggregated"))
    for a, b in itertools.permutations(("R1", "R1Aggregated", "R2"), 2):
        add("share %s %s" % (a, b), "a share of %s used as one of %s" % (a, b),
            "let x: RelinKeyShare<%s> = any(); let y: RelinKeyShare<%s> = x;" % (a, b),
            "let x: RelinKeyShare<%s> = any(); let y: RelinKeyShare<%s> = x;" % (b, b))
        add("share into %s %s" % (a, b), "a share of %s converted to one of %s" % (a, b),
            "let x: RelinKeyShare<%s> = any(); let y: RelinKeyShare<%s> = x.into();" % (a, b), None)
    for f in ("par", "h0", "h1", "last_round", "_phantom_data"):
        add("RelinKeyShare." + f, "access to the field %s of a share" % f, "let mut s: RelinKeyShare<R1> = any(); let _ = &mut s.%s;" % f, None)
    for s, f in (("PublicKeyShare", "p0_share"), ("PublicKeySwitchShare", "h0_share"), ("SecretKeySwitchShare", "h_share"), ("DecryptionShare", "sks_share")):
        add("%s.%s" % (s, f), "access to the field %s of a share" % f, "let mut s: %s = any(); let _ = &mut s.%s;" % (s, f), None)
    return W


SHARES = {  # share -> what aggregating it yields
    "PublicKeyShare": "PublicKey",
    "PublicKeySwitchShare": "Ciphertext",
    "SecretKeySwitchShare": "Ciphertext",
    "DecryptionShare": "Plaintext",
    "RelinKeyShare<R1>": "RelinKeyShare<R1Aggregated>",
    "RelinKeyShare<R1Aggregated>": None,
    "RelinKeyShare<R2>": "RelinearizationKey",
}


ROUND2 = "let g: RelinKeyGenerator = any(); let mut rng = rng(); let s: Arc<RelinKeyShare<{R}>> = any(); let _ = g.round_2(&s, &mut rng);"


class Compiler:
    def __init__(self):
        d = facts.build("native")
        m = json.load(open(os.path.join(d, "meta", "deps.json")))
        self.args = ["rustc", "--edition", "2024", "--crate-type", "lib", "--emit=metadata", "--error-format=json", "--cap-lints=allow"]
        for n, p in m["extern"].items():
            self.args += ["--extern", "%s=%s" % (n, p)]
        for x in [os.path.join(d, "meta")] + m["dirs"]:
            self.args += ["-L", "dependency=" + x]
        self.env = facts._env()
        # of several versions of rand in the tree, the one the library's signatures mean
        base = self.args
        for p in m["rand"]:
            self.args = base + ["--extern", "rand=" + p]
            if self(unit([ROUND2.format(R="R1Aggregated")])[0])[1]:
                break

    def __call__(self, src):
        """[(code, first line, message)] of the errors, and whether it compiled"""
        with tempfile.TemporaryDirectory(dir=facts.BUILD) as t:
            f = os.path.join(t, "w.rs")
            open(f, "w").write(src)
            r = subprocess.run(self.args + ["-o", os.path.join(t, "libw.rmeta"), f], env=self.env, cwd=t,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        errs = []
        for l in r.stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level", "").startswith("error") and d["spans"]:
                code = (d.get("code") or {}).get("code")
                for s in d["spans"]:
                    if s["is_primary"]:
                        errs.append((code, s["line_start"], d["message"]))
        return errs, r.returncode == 0, r.stderr


def unit(bodies):
    """one source text holding the given bodies, and the line of each"""
    lines = PRE.rstrip("\n").split("\n")
    at = []
    for i, b in enumerate(bodies):
        at.append(len(lines) + 1)
        g = "<G: rand::CryptoRng>" if "rng()" in b else ""
        if g:
            b = b.replace("let mut rng = rng();", "let mut rng = any::<G>();")
        lines.append("fn w%d%s() { %s }" % (i, g, b))
    return "\n".join(lines) + "\n", at


def compile_all(R, C):
    W = witnesses()
    goods = sorted({g for *_, g in W if g})
    src, at = unit(goods)
    errs, ok, raw = C(src)
    bad_twins = set()
    if not ok:
        where = {l for _, l, _ in errs}
        bad_twins = {g for g, l in zip(goods, at) if l in where}
        if not bad_twins:
            raise RuntimeError("permitted programs do not compile: " + raw[:600])
    R.count("permitted programs accepted", len(goods) - len(bad_twins))
    R.floor("permitted programs accepted", 20)
    # all forbidden programs at once, then alone those no error was reported for
    src, at = unit([b for _, _, b, _ in W])
    errs, ok, raw = C(src)
    by = {}
    for c, l, m in errs:
        by.setdefault(l, []).append((c, m))
    todo = []
    for (k, what, b, g), l in zip(W, at):
        if g in bad_twins:
            R.count("witnesses whose permitted twin is not accepted")
            continue
        es = by.get(l, [])
        if any(c in CODES - NAMES for c, _ in es):
            R.ok("%s: rejected (%s)" % (what, es[0][0]))
            R.count("forbidden programs rejected")
        else:
            todo.append((k, what, b))

    def one(t):
        src, at = unit([t[2]])
        return C(src)

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (k, what, b), (errs, ok, raw) in zip(todo, ex.map(one, todo)):
            if ok:
                R.bad("compiles:" + k, "the compiler accepts %s: `%s`" % (what, b))
            elif any(c in CODES for c, _, _ in errs):
                R.ok("%s: rejected (%s)" % (what, errs[0][0]))
                R.count("forbidden programs rejected")
            else:
                raise RuntimeError("witness %s fails for another reason: %s" % (k, raw[:600]))
    R.floor("forbidden programs rejected", 150)


# ------------------------------------------------------------------ the exported interface


def inside(P, t, depth=0, seen=()):
    """every type occurring in a type, through references, tuples, slices and the arguments of generic types"""
    if isinstance(t, int):
        if t in seen or depth > 8:
            return
        seen = seen + (t,)
        t = P.ty(t)
    if not isinstance(t, dict):
        return
    yield t
    for k in ("e", "a", "es", "ts", "ins", "out"):
        v = t.get(k)
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, int):
                yield from inside(P, x, depth + 1, seen)


def polys(P, i):
    """representations of the polynomials in a type: concrete names or parameters"""
    out = []
    for t in inside(P, i):
        if t.get("k") == "adt" and t["p"] == POLY:
            a = P.ty(t["a"][0]) if t["a"] else {}
            out.append(a.get("n") if a.get("k") == "param" else a.get("s", "?").split("::")[-1])
    return out


def shares(P, i):
    """(share type, round) of the shares in a type"""
    out = []
    for t in inside(P, i):
        if t.get("k") != "adt":
            continue
        n = t["p"].split("::")[-1]
        if t["p"] == SHARE:
            a = P.ty(t["a"][0]) if t["a"] else {}
            r = a.get("n") if a.get("k") == "param" else a.get("s", "R1").split("::")[-1]
            out.append((n, r))
        elif t["p"].startswith("fhe::mbfv::") and n in SHARES:
            out.append((n, ""))
    return out


def has_token(P, i):
    return [t["p"] for t in inside(P, i) if t.get("k") == "adt" and t["p"] in TOKENS]


def bounds_closure(P, f, param):
    """concrete representations a type parameter of f ranges over"""
    bs = {b.split("::")[-1] for p, b in (f.gb or ()) if p == param}
    reps = set(REPS)
    if "ScaleRepresentation" in bs:
        reps &= {P.ty(i["self"])["s"].split("::")[-1] for i in P.impls if i.get("trait") and i.get("trait").endswith("::ScaleRepresentation")}
    return reps


CONVERSIONS = {  # transforms between representations; anything else must keep the representation
    "to_power_basis", "into_power_basis", "into_ntt", "into_ntt_shoup",
}


def p20(R, tier):
    R.rule("witness", "each forbidden client program is rejected by the compiler, its permitted twin accepted")
    R.rule("token", "no exported function, constant or field yields a token except the explicit assertion, or from a token")
    R.rule("repr", "no exported function takes polynomials of two representations, except the product of Ntt with NttShoup")
    R.rule("round", "no exported function or aggregation turns one round's share into something but its own next step")
    C = Compiler()
    compile_all(R, C)
    P = program("native")
    # --- hidden state
    for n in TOKENS + (POLY, SHARE) + tuple(a for a in P.adts if a.startswith("fhe::mbfv::") and a.split("::")[-1] in SHARES):
        a = P.adts.get(n)
        if a is None:
            R.bad("missing:" + n, "the type %s is gone" % n)
            continue
        for v in a["vs"]:
            for f in v["f"]:
                R.check(f["vis"] != "pub", "field:%s.%s" % (n, f["n"]), "field %s of %s is public: clients can forge it" % (f["n"], n), "%s.%s is private" % (n, f["n"]))
                R.count("fields hidden")
    # --- exported functions and constants
    for f in P.fns.values():
        if f.exported_const is not None:
            R.count("exported constants examined")
            R.check(not has_token(P, f.exported_const), "token:" + f.name, "the exported constant %s is a token" % f.name, f.name)
        if not f.reach or f.kind == "closure":
            continue
        R.count("exported functions and constants examined")
        ins = list(f.ins or ())
        tok = has_token(P, f.out)
        if tok:
            src = [t for i in ins for t in has_token(P, i)]
            kind = "token"
            if "fhe_traits::VariableTime" in tok and not src:
                R.bad("token:" + f.name, "%s hands out the variable-time token without the public-data assertion" % f.name)
            elif not src and not (f.crate == "fhe_traits" and f.sname == "assert_public"):
                R.bad("token:" + f.name, "%s hands out a public-data token without an assertion" % f.name)
            else:
                R.ok("%s: token from %s" % (f.name, src or "explicit assertion"))
            R.count("functions yielding a token")
        # a bare boolean standing for the permission
        if f.crate in ("fhe_math", "fhe") and any(P.ty(i).get("s") == "bool" for i in ins) and (polys(P, f.out) or any(polys(P, i) for i in ins)):
            R.count("functions taking a boolean with polynomials")
            n = "%s::%s" % (f.trait, f.sname) if f.trait else f.name
            R.bad("flag:" + n, "%s lets clients pass a plain boolean next to a polynomial: permission without the token" % n)
        # polynomials
        pi = [(k, r) for k, i in enumerate(ins) for r in polys(P, i)]
        reps = {r for _, r in pi}
        if f.crate == "fhe_math" and len(pi) >= 2 and len(reps) > 1 and len({k for k, _ in pi}) > 1:
            al = reps == {"Ntt", "NttShoup"} and f.sname in ("mul", "mul_assign")
            R.check(al, "mixed:" + f.name, "%s takes polynomials of the representations %s together" % (f.name, ", ".join(sorted(reps))),
                    "%s: product of Ntt with NttShoup" % f.name)
            R.count("functions on two representations")
        po = polys(P, f.out)
        if pi and po:
            R.count("functions from polynomials to polynomials")
            gen = [r for r in po if r not in REPS and r not in reps]
            R.check(not gen, "retag:" + f.name, "%s lets the caller choose the representation of its result" % f.name, f.name)
            t = P.ty(f.out)
            if t.get("k") == "ref" and f.crate == "fhe_math":
                R.check(set(po) <= reps, "view:" + f.name, "%s shows a %s polynomial as a %s one" % (f.name, sorted(reps), sorted(set(po))), f.name)
        # shares
        si = {s for i in ins for s in shares(P, i)}
        so = set(shares(P, f.out))
        for s in so:
            R.count("functions yielding a share")
            if s in si:
                R.ok("%s: %s" % (f.name, s))
                continue
            if s[0] != "RelinKeyShare":
                good = not si
            elif s[1] == "R1":
                good = not si
            elif s[1] == "R2":
                good = ("RelinKeyShare", "R1Aggregated") in si and len(si) == 1
            elif s[1] == "R1Aggregated":
                good = f.trait == "fhe::mbfv::aggregate::Aggregate"
            else:
                good = False
            R.check(good, "round:" + f.name, "%s makes a share %s%s from %s" % (f.name, s[0], s[1] and "<%s>" % s[1], sorted(si) or "nothing"),
                    "%s: %s" % (f.name, s))
    R.floor("exported functions and constants examined", 250)
    R.floor("functions yielding a token", 4)
    R.floor("functions from polynomials to polynomials", 30)
    R.floor("functions yielding a share", 6)
    # --- aggregations
    n = 0
    for i in P.impls:
        if i.get("trait") != "fhe::mbfv::aggregate::Aggregate":
            continue
        self_, share = P.ty(i["ta"][0]), i["ta"][1]
        ss = shares(P, share)
        if not ss:
            R.ok("aggregation of %s" % P.ty(share).get("s"))
            continue
        n += 1
        out = self_.get("s", "?")
        for s in ss:
            rounds = [s[1]] if s[1] in ("", "R1", "R1Aggregated", "R2") else ["R1", "R1Aggregated", "R2"]
            for r in rounds:
                want = SHARES[s[0] + (r and "<%s>" % r)]
                os_ = shares(P, i["ta"][0])
                got = ("%s<%s>" % os_[0] if os_ and os_[0][1] else out.split("::")[-1])
                R.check(want == got, "aggregate:%s:%s:%s" % (s[0], r, got), "shares %s%s aggregate to %s" % (s[0], r and "<%s>" % r, got),
                        "%s%s aggregates to %s" % (s[0], r and "<%s>" % r, got))
    R.count("aggregations examined", n)
    R.floor("aggregations examined", 6)
    # --- rounds stay sealed
    for i in P.impls:
        if i.get("trait") and i.get("trait").endswith("mbfv::round::Round"):
            t = P.ty(i["self"])
            R.check(t.get("k") == "adt" and t["p"].split("::")[-1] in ("R1", "R1Aggregated", "R2"), "sealed:" + t.get("s", "?"),
                    "%s is a round" % t.get("s"), "round %s" % t.get("s"))
