"""Compatible operands (P10)."""
import re
from ..fhe import *
from ..ctxs import *

UNITS = {CT, PT, PK, SK, KSK, GK, RLK, EK, RGSW, MUL}
# parameters of a unit, and the level it is for (None: any level)
PARS = {CT: ("par",), PT: ("par",), PK: ("par",), SK: ("par",), KSK: ("par",), GK: ("ksk", "par"), RLK: ("ksk", "par"), EK: ("par",), RGSW: ("ksk0", "par"), MUL: ("par",)}
LVLS = {CT: ("level",), KSK: ("ciphertext_level",), GK: ("ksk", "ciphertext_level"), RLK: ("ksk", "ciphertext_level"), EK: ("ciphertext_level",),
        RGSW: ("ksk0", "ciphertext_level"), MUL: ("level",)}


def stable(f):
    return re.sub(r"\{closure#\d+\}", "{closure}", f.name)


def level_of(u, t):
    if t == PT:
        return LV(u)
    return F(u, *LVLS[t]) if t in LVLS else None


def units(P, Fl):
    """(argument, type of object, is a sequence of them) of an entry"""
    for a, t, n in Fl.args:
        ty = P.ty(P.peel(t))
        if ty.get("p") in UNITS:
            yield a, ty["p"], False
            continue
        for u in UNITS:
            if ty["k"] == "param":
                if any(m == ty.get("n") and "iter" in b.lower() and u in b for m, b in Fl.fn.gb):
                    yield a, u, True
            elif ty["k"] in ("slice", "array") or ty.get("p", "").endswith("vec::Vec"):
                k = ty["e"] if "e" in ty else targs(ty)[0]
                if P.ty(P.peel(k)).get("p") == u:
                    yield a, u, True


def elems_seen(facts, a):
    """elements of sequence a the facts of a path speak about: arbitrary ones"""
    r = set()
    for c, v in forall_facts(facts):
        for x in small(c):
            if x.op == "idx" and x.a[0] is a and x.a[1].op == "each":
                r.add(x)
    return r


def insts(facts, u, seq):
    return elems_seen(facts, u) if seq else {u}


def made_of(ip, v):
    return deps(ip, v)


def p10(R, tier):
    P = program("native")
    mixes(P, R)
    tied(P, R)
    R.floor("operations on two polynomials of one context", 150)
    R.floor("combinations of operands checked", 25)


def resolved(t):
    return not any(x.op in ("ctxof", "phi", "pos", "each") for x in small(t))


def mixes(P, R):
    """every binary polynomial operation acts on polynomials of one context"""
    R.rule("one context", "every operation on two polynomials that the scheme layer performs gets polynomials of the same ring context")
    for Fl in flows(P, R):
        if Fl.fn.name.find("::mbfv::") >= 0 and not Fl.fn.sname == "new":
            continue
        T = Types(Fl)
        for e in Fl.evs:
            if e.kind != "call" or e.callee is None or e.callee.crate != "fhe_math":
                continue
            o = Op()
            o.f, o.args = e.callee, e.args
            k = poly_args(P, o)
            if len(k) < 2:
                continue
            a, b = [e.args[i] for i in k][:2]
            C = Ctx(Fl, e.st.facts, T)
            if C.same(a, b):
                R.count("operations on two polynomials of one context")
                R.ok()
                continue
            u, v = C.canon(C.U(a)), C.canon(C.U(b))
            if not resolved(u) or not resolved(v):
                R.count("operations whose contexts were not resolved")
                continue
            R.bad("mix:%s:%s" % (stable(Fl.fn), e.callee.sname), "%s:%s %s: %s combines a polynomial of context %s with one of context %s" % (
                Fl.fn.file, Fl.fn.line, Fl.fn.name, e.callee.sname, show(u, 6)[:120], show(v, 6)[:120]))


class Tie(FhePol):
    split = 16


def seq_type(Fl, a):
    """the objects an iterator argument yields, judged by the fields the entry uses"""
    fs = set()
    vals = [c for o in Fl.outs for c in o.facts] + [x for e in Fl.evs for x in e.args]
    for v in vals:
        for x in small(v):
            if x.op == "fld" and x.a[0].op == "idx" and x.a[0].a[0] is a:
                fs.add(x.d)
    return PT if "poly_ntt" in fs else CT if "c" in fs and "level" in fs else None


def used(P, Fl):
    """arguments whose polynomials enter an operation on polynomials, or the result"""
    r = set()
    for e in Fl.evs:
        if e.kind == "call" and e.callee is not None and e.callee.crate == "fhe_math":
            for x in e.args:
                for y in deps(Fl.ip, x):
                    if y.op == "arg":
                        r.add(y)
    return r


def nothing(C, facts, u, t):
    """the path established that ciphertext u has no polynomials"""
    if t != CT:
        return False
    c = F(u, "c")
    for k, v in facts.items():
        if v is True and k.op == "bin" and k.d == "Eq" and any(x.op == "len" and x.a[0] is c or x.op == "call" and x.d[0] == "len" and x.a[0] is c for x in k.a) and any(x.op == "const" and x.d == 0 for x in k.a):
            return True
        if v is True and k.op == "call" and k.d[0].endswith("is_empty") and k.a and k.a[0] is c:
            return True
    return False


class ElemTypes(Types):
    """types of access paths, with those of the elements of iterator arguments"""

    def __init__(self, Fl, us):
        super().__init__(Fl)
        self.of_elems = {a: t for a, t, sq in us if sq}

    def adt(self, e):
        if e.op == "idx" and e.a[0] in self.of_elems:
            return self.of_elems[e.a[0]]
        return super().adt(e)


def replaced(Fl, o, u, t):
    """the object behind a mutable reference is overwritten: its old parameters and level are gone"""
    i = u.d[0]
    v = Fl.ip.snap(St(o.mem, o.facts), o.mem[("A", i)]) if ("A", i) in o.mem else None
    if t != CT or v is None or v is u:
        return False
    p, l = F(v, "par"), F(v, "level")
    return not any(y is u for x in (p, l) for y in deps(Fl.ip, x))


def len_terms(facts, c):
    """what a path knows the number of elements of c to equal"""
    r = []
    for k, v in list(facts.items()):
        if (v is True and k.op == "bin" and k.d == "Eq") or (v is False and k.op == "bin" and k.d == "Ne"):
            for x, y in (k.a, k.a[::-1]):
                if is_len(x, c):
                    r.append(y)
    return r


def is_len(x, c):
    return (x.op in ("len", "cnt") or x.op == "call" and x.d[0].rsplit("::", 1)[-1] in ("len", "count")) and len(x.a) == 1 and x.a[0] is c


def uses(Fl, c):
    """(constant positions, sites of whole traversals) at which operations on polynomials read sequence c"""
    ks, ws, lo = set(), set(), None
    for e in Fl.evs:
        if e.kind != "call" or e.callee is None or e.callee.crate != "fhe_math" or e.callee.sname in META:
            continue
        for x in e.args:
            for y in small(x):
                if y.op == "idx" and y.a[0] is c:
                    if y.a[1].op == "const":
                        ks.add(y.a[1].d)
                    else:
                        ws.add(y.a[1])
    return ks, ws


META = {"ctx", "allows_variable_time_computations", "len", "moduli", "degree"}


def lockstep(Fl, c, d):
    """an operation on polynomials takes elements of c and d at the same position of a traversal"""
    for e in Fl.evs:
        if e.kind != "call" or e.callee is None or e.callee.crate != "fhe_math":
            continue
        at = [{y.a[1] for x in e.args for y in small(x) if y.op == "idx" and y.a[0] is s and y.a[1].op != "const"} for s in (c, d)]
        if at[0] & at[1]:
            return True
    return False


def tied(P, R):
    R.rule("tied operands", "an exported operation on several ciphertexts, plaintexts or keys completes only on paths that established equal parameters, equal levels where both have one, and equal numbers of polynomials where those are combined one by one")
    for Fl in flows(P, R, Tie(), "p10", lambda f: any(P.ty(P.peel(t)).get("p") in UNITS or P.ty(P.peel(t))["k"] in ("param", "slice") for t in f.ins)):
        use = used(P, Fl)
        us = [u for u in units(P, Fl) if u[0] in use]
        us += [(a, seq_type(Fl, a), True) for a, t, n in Fl.args if a in use and P.ty(P.peel(t))["k"] == "param" and seq_type(Fl, a)]
        if not us:
            continue
        T = ElemTypes(Fl, us)
        fails = {}
        pairs = [(x, y) for i, x in enumerate(us) for y in (us[i:] if x[2] else us[i + 1:])]
        steps = {(a, b) for (a, t, sq), (b, t2, sq2) in pairs if t == CT and t2 == CT and not sq and not sq2 and lockstep(Fl, F(a, "c"), F(b, "c"))}
        for o in Fl.outs:
            v = Fl.ip.snap(St(o.mem, o.facts), o.val)
            if v.op == "struct" and v.d[1] in ("Err",):
                continue
            C = Ctx(Fl, o.facts, T)
            for (a, t, sq), (b, t2, sq2) in pairs:
                if nothing(C, o.facts, a, t) or nothing(C, o.facts, b, t2) or replaced(Fl, o, a, t) or replaced(Fl, o, b, t2):
                    continue
                both = [(x, y) for x in insts(o.facts, a, sq) for y in insts(o.facts, b, sq2)]
                if not any(agree(C, F(x, *PARS[t]), F(y, *PARS[t2])) for x, y in both):
                    fails["par:%s:%s" % (a.d[1], b.d[1])] = "that their parameters are equal"
                if level_of(a, t) is not None and level_of(b, t2) is not None and not any(agree(C, level_of(x, t), level_of(y, t2)) for x, y in both):
                    fails["level:%s:%s" % (a.d[1], b.d[1])] = "that their levels are equal"
                if t == CT and t2 == CT and (sq or (a, b) in steps):
                    if not any(same_len(C, o.facts, F(x, "c"), F(y, "c")) for x, y in both):
                        fails["len:%s:%s" % (a.d[1], b.d[1])] = "that they have equally many polynomials"
            for a, t, sq in us:
                if t != CT or sq or replaced(Fl, o, a, t) or nothing(C, o.facts, a, t):
                    continue
                ks, ws = uses(Fl, F(a, "c"))
                if not ks or ws or max(ks) == 0:
                    continue
                n = max(ks) + 1
                if not any(C.canon(y).op == "const" and C.canon(y).d == n for y in len_terms(o.facts, F(a, "c"))):
                    fails["count:%s" % a.d[1]] = "that it has exactly %d polynomials, though it uses only these" % n
        R.count("combinations of operands checked", len(pairs) + len(steps))
        for k in sorted(fails):
            R.bad("%s:%s" % (stable(Fl.fn), k), "%s:%s %s may complete on %s without having established %s" % (Fl.fn.file, Fl.fn.line, Fl.fn.name, " and ".join(dict.fromkeys(k.split(":")[1:])), fails[k]))
        R.fn(Fl.fn)
        if not fails:
            R.ok("%s: %d operand combinations" % (Fl.fn.name, len(pairs) + len(steps)), max(1, len(pairs) + len(steps)))


def each_free(t):
    return not any(k == "each" for k, _ in t.sites)


def agree(C, x, y):
    x, y = C.canon(x), C.canon(y)
    return x is y and each_free(x)


def same_len(C, facts, c, d):
    if c is d:
        return any(each_free(C.canon(y)) for y in len_terms(facts, c))
    if any(is_len(y, d) for y in len_terms(facts, c)):
        return True
    x, y = [{C.canon(z) for z in len_terms(facts, s) if z.op == "const"} for s in (c, d)]
    return bool(x & y) or C.canon(c) is C.canon(d)
