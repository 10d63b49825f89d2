"""Multiparty aggregation (P17)."""
import re
from ..fhe import *


def last(n):
    return n.rsplit("::", 1)[-1]


AGG = "fhe::mbfv::aggregate::Aggregate"
PAR = "fhe::bfv::parameters::BfvParameters"
META = {"ctx", "len", "moduli", "modulus", "context_at_level", "context_level_at", "degree", "level", "is_empty", "switch_map", "plaintext_big"}
PULLS = ("Iterator::next", "DoubleEndedIterator::next_back")
ADAPT = ("Iterator::for_each", "Iterator::try_for_each", "Iterator::fold", "Iterator::try_fold", "Iterator::all", "Iterator::any", "Iterator::find", "Iterator::position",
         "Iterator::count", "Iterator::last", "Iterator::nth", "Iterator::sum")


def stable(f):
    return re.sub(r"\{closure#\d+\}", "{closure}", f.name)


class AggPol(FhePol):
    record = PULLS + ADAPT


def islen(e, ip, seen=()):
    if e.op == "phi" and e not in seen:
        return all(islen(x, ip, seen + (e,)) for x in phi_ins(ip, e))
    return e in seen or e.op == "call" and last(e.d[0]) == "len"


def varies(i, ip):
    """an index that runs over the elements of a collection"""
    if i.op == "idx" and i.a[0].op == "it" and i.a[0].d == "range" and len(i.a[0].a) >= 2:
        lo, hi = i.a[0].a[:2]
        return lo.op == "const" and lo.d == 0 and islen(hi, ip) and i.a[1].op in ("pos", "each") and "part" not in i.a[1].d
    return i.op in ("pos", "each") and "part" not in i.d


def path_of(e, root, ip):
    """(index of the share, field path) when e is a field of an element of the share sequence root"""
    path = []
    while True:
        if e.op == "fld":
            path.append(e.d)
        elif e.op == "vfld":
            path.append(".".join(e.d))
        elif e.op == "idx":
            if e.a[0] is root:
                return e.a[1], tuple(reversed(path))
            t = e.a[0]
            if t.op == "slice" and (t.a[0] is root or t.a[0].op == "coll" and t.a[0].a[0].op == "idx" and t.a[0].a[0].a[0] is root) and t.a[1].op == "const" and type(t.a[1].d) is int \
                    and t.a[2].op == "const" and t.a[2].d is None and e.a[1].op in ("pos", "each"):
                return mk("tail", t.a[1].d, (e.a[1],)), tuple(reversed(path))
            if e.a[1].op == "const":
                path.append("[%s]" % e.a[1].d)
            elif not varies(e.a[1], ip):
                return None
        else:
            return None
        e = e.a[0]


class Sums:
    """values as sums of polynomials taken from the shares"""

    def __init__(self, ip, root):
        self.ip, self.P, self.root = ip, ip.P, root
        self.memo = {}

    def lin(self, x):
        """{atom: times}, or None when x is not a plain sum; atoms are (index, path, 'one' | 'each'), or merge points being evaluated"""
        if x in self.memo:
            return self.memo[x]
        self.memo[x] = {("self", x): 1}
        r = self._lin(x)
        self.memo[x] = r
        if r is not None and any(a[0] == "self" for a in r):
            del self.memo[x]
        return r

    def add(self, *ts):
        r = {}
        for t in ts:
            if t is None:
                return None
            for k, n in t.items():
                r[k] = r.get(k, 0) + n
        return r

    def _lin(self, x):
        P, ip = self.P, self.ip
        if x.op == "vfld" and x.d[0] in ("Ok", "Some") and x.a[0].op in ("call", "phi"):
            if x.a[0].op == "call":
                return self.call(x.a[0], x)
        pa = path_of(x, self.root, self.ip)
        if pa is not None:
            i = pa[0]
            return {(i, pa[1], "one"): 1}
        if x.op == "call":
            return self.call(x, x)
        if x.op == "after":
            c = x.a[0]
            f = fn_named(P, c.d[0])
            if f is None:
                return None
            tr = last(f.trait or "")
            if x.d == 0 and tr == "AddAssign" and len(c.a) == 2:
                return self.add(self.lin(c.a[0]), self.lin(c.a[1]))
            if x.d == 0 and len([t for t in f.ins if is_poly_ty(P, t)]) == 1 and f.sname not in ("neg",) and (keeps_value(P, f) == 0 or f.sname.startswith("compute_")):
                return self.lin(c.a[0])
            return None
        if x.op == "idx" and varies(x.a[1], self.ip):
            return self.lin(x.a[0])
        if x.op == "coll":
            return None if "part" in x.d else self.lin(x.a[0])
        if x.op == "with" and x.d[0] == "i" and isinstance(x.d[1], E) and varies(x.d[1], self.ip):
            v, base = self.lin(x.a[1]), self.lin(x.a[0])
            if v is None or base is None:
                return None
            return v
        if x.op == "with" and x.d[0] == "s" and len(x.a) == 2:
            return None
        if x.op == "struct" and x.d[1] in ("Ok", "Some") and len(x.a) == 1:
            return self.lin(x.a[0])
        if x.op == "phi":
            ins = ip.phi_in.get(x, {})
            L = loop_of_phi(ip, x)
            if L is None:
                rs = [self.lin(v) for k, v in ins.items() if v is not x]
                return rs[0] if rs and all(r == rs[0] for r in rs) else None
            ent, back = [], []
            for (ps, ek), v in ins.items():
                (back if ek[0] != "entry" and ek[0] in L[1] else ent).append(v)
            es = [self.lin(v) for v in ent if v is not x]
            if not es or any(e != es[0] or e is None for e in es):
                return None
            bs = []
            for v in back:
                b = {("self", x): 1} if v is x else self.lin(v)
                if b is None:
                    return None
                b = dict(b)
                if b.pop(("self", x), 0) != 1:
                    return None
                bs.append(b)
            if any(b != bs[0] for b in bs):
                return {("skipped", x): 1}
            if not bs:
                return es[0]
            inc = {}
            for k, n in bs[0].items():
                if k[0] in ("self", "skipped"):
                    inc[k] = n
                elif k[0].op in ("pos", "each", "tail") and any(site_in(L, s) for kd, s in k[0].sites):
                    if k[2] == "each" and self.elementwise(L):
                        inc[k] = n
                    else:
                        inc[(k[0], k[1], "each")] = n
                elif self.elementwise(L, x):
                    inc[k] = n
                else:
                    inc[("again",) + k[:2]] = n
            return self.add(es[0], inc)
        return None

    def elementwise(self, L, x=None):
        """the loop visits the elements of one collection and updates each in place"""
        if x is None:
            return False
        for v in phi_ins(self.ip, x):
            if v.op == "with" and v.d[0] == "i" and isinstance(v.d[1], E) and any(site_in(L, s) for k, s in v.d[1].sites):
                return True
        return False

    def call(self, c, x):
        P = self.P
        f = fn_named(P, c.d[0])
        n = last(c.d[0])
        if f is not None and f.crate == "fhe_math":
            tr = last(f.trait or "")
            if tr == "Add" and len(c.a) == 2:
                return self.add(self.lin(c.a[0]), self.lin(c.a[1]))
            if n == "zero":
                return {}
            pa = [i for i, t in enumerate(f.ins) if i < len(c.a) and is_poly_ty(P, t)]
            if len(pa) == 1 and (n.startswith("into_") or n in ("from_parts", "clone", "into", "from") or keeps_value(P, f) is not None):
                return self.lin(c.a[pa[0]])
            return None
        if f is None and n in ("into", "from", "into_boxed_slice", "into_vec", "clone", "to_vec", "to_owned", "collect", "from_parts") and len(c.a) == 1:
            return self.lin(c.a[0])
        return None

    def forms(self, v, seen=None):
        """the largest sums v is computed from"""
        seen = seen if seen is not None else set()
        if v in seen:
            return
        seen.add(v)
        l = self.lin(v)
        if l is not None:
            yield v, l
            return
        if v.op == "call" and last(v.d[0]) in META or v.op == "fld" and v.d in ("par", "ctx"):
            return
        for x in (phi_ins(self.ip, v) if v.op == "phi" else v.a):
            if isinstance(x, E):
                yield from self.forms(x, seen)


def share_fields(P, t, pub):
    """(contributions, public values): field paths of polynomials inside a share"""
    con, public = [], []
    ad = P.adts.get(P.ty(t).get("p"))
    for fl in ad["vs"][0]["f"]:
        ft = P.peel(fl["t"])
        ty = P.ty(ft)
        if ty.get("p") in (PAR, "core::marker::PhantomData"):
            continue
        if ty.get("p") == POLY or ty["k"] == "slice" or ty.get("p", "").endswith("vec::Vec"):
            (public if (P.ty(t)["p"], fl["n"]) in pub else con).append((fl["n"],))
        elif ty.get("p") in P.adts:
            if (P.ty(t)["p"], fl["n"]) in pub:
                public.append((fl["n"],))
            else:
                c, q = share_fields(P, ft, pub)
                con += [(fl["n"],) + x for x in c]
                public += [(fl["n"],) + x for x in q]
    return con, public


def copied(P, ip, v):
    """v is (part of) an argument, unchanged"""
    v = strip_flags(P, v)
    while v.op in ("fld", "vfld", "idx"):
        v = v.a[0]
    return v.op == "arg"


def public_fields(P, R):
    """(type, field) of shares holding what every party was given: never computed by the party"""
    kinds = {}
    for F in flows(P, R, key="", only=None):
        if "::mbfv::" not in F.fn.name or F.fn.sname in ("from_shares",):
            continue
        for o in objects(F):
            ad = P.adts.get(o.adt)
            if "::mbfv::" not in o.adt or ad is None or o.v.op != "struct":
                continue
            for fl in ad["vs"][0]["f"]:
                kinds.setdefault((o.adt, fl["n"]), []).append(all(copied(P, F.ip, x) for x in alts(F.ip, proj(o.v, ("f", fl["n"])))))
    return {k for k, v in kinds.items() if v and all(v)}


def p17(R, tier):
    R.rule("sum", "in the aggregate, each polynomial a share contributes occurs in exactly one kind of sum, with every share supplied counted once")
    R.rule("nonempty", "an aggregate is returned only when there was at least one share")
    R.rule("public", "the public values the shares carry are kept in the aggregate")
    R.rule("rounds", "shares of one round have one kind of aggregate, and no implementation is generic over the round")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        pub = public_fields(P, R)
        rounds = {}
        for f in lib_fns(P, ("fhe",)):
            if f.sname != "from_shares" or f.trait != AGG or f.body is None:
                continue
            S = share_type(P, f)
            if S is None:
                R.check(delegates(P, f), "delegate " + stable(f), "%s does not hand all shares to another aggregation" % f.name, f.name)
                continue
            n = stable(f)
            R.fn(f)
            R.count("aggregations")
            ty = P.ty(S)
            markers = [a for a in ty.get("a", []) if isinstance(a, int)]
            if markers:
                R.check(all(P.ty(a)["k"] == "adt" for a in markers), "rounds " + n, "%s aggregates shares of any round" % f.name, "%s: round fixed" % f.name)
                rounds.setdefault(ty["s"], []).append(f)
            ip = Interp(P, AggPol(), max_steps=100000)
            outs, evs = ip.run_entry(f)
            if ip.incomplete:
                R.bad("incomplete " + n, "the analysis of %s did not converge" % f.name)
            root = mk("arg", (0, f.body.names.get(1, "arg0")))
            pulls = set()
            for e in evs:
                if e.kind == "std" and e.key in PULLS and reads(ip, e, root):
                    pulls.add(e.ctx + (e.blk,))
            con, public = share_fields(P, S, pub)
            R.check(bool(con), "anchor " + n, "no contribution found in %s" % ty["s"], None)
            some = False
            for o in outs:
                if o.val.op == "struct" and o.val.d[1] == "Err":
                    continue
                some = True
                if not (o.val.op == "struct" and o.val.d[1] == "Ok"):
                    R.bad("sum %s unknown" % n, "%s returns something not understood: %s" % (f.name, show(o.val, 3)))
                    continue
                v = ip.snap(St(o.mem, o.facts), o.val.a[0])
                judge(R, P, ip, f, n, root, v, o.facts, pulls, con, public)
            R.check(some, "anchor result " + n, "%s never succeeds" % f.name, None)
        for s, fs in rounds.items():
            R.check(len(fs) == 1, "rounds " + s, "shares of type %s have several kinds of aggregate: %s" % (s, ", ".join(x.name for x in fs)), "%s: one aggregate" % s)
    R.floor("aggregations", 6)


def reads(ip, e, root):
    work, seen = [ip.snap(e.st, e.args[0])], set()
    while work:
        v = work.pop()
        if v is root:
            return True
        if v in seen:
            continue
        seen.add(v)
        if v.op == "it":
            work += [x for x in v.a if isinstance(x, E)]
        elif v.op == "coll":
            work.append(v.a[1])
        elif v.op in ("phi",):
            work += phi_ins(ip, v)
        elif v.op in ("slice", "after", "reversed", "popped"):
            work += [v.a[-1] if v.op == "after" else v.a[0]]
    return False


def share_type(P, f):
    """the type of shares an implementation of Aggregate takes, when it is a struct"""
    for t in f.ta or ():
        ty = P.ty(t) if isinstance(t, int) else {}
        if t != f.self_ty and ty.get("k") == "adt" and ty["p"] in P.adts:
            return t
    return None


def delegates(P, f):
    """every exit hands all elements, unwrapped, to another aggregation, or reports a failed element"""
    ip = Interp(P, AggPol(), max_steps=100000)
    outs, evs = ip.run_entry(f)
    root = mk("arg", (0, f.body.names.get(1, "arg0")))
    ok = False
    for o in outs:
        v = ip.snap(St(o.mem, o.facts), o.val)
        if v.op == "struct" and v.d[1] == "Err":
            continue
        if not (v.op == "call" and last(v.d[0]) == "from_shares" and v.a):
            return False
        x = v.a[0]
        if x.op == "coll":
            if not unwrapped(x.a[0], root, x.d):
                return False
        elif x.op == "phi" and loop_of_phi(ip, x) is not None:
            L = loop_of_phi(ip, x)
            for (ps, ek), y in ip.phi_in[x].items():
                if ek[0] == "entry" or ek[0] not in L[1]:
                    if not (y.op == "arr" and not y.a or y.op == "call" and last(y.d[0]) in ("new", "default", "with_capacity")):
                        return False
                elif not (y.op == "push" and y.a[0] is x and unwrapped(y.a[1], root, None) and any(site_in(L, s) and mk("exhausted", s) in o.facts for k, s in y.a[1].sites)):
                    return False
        else:
            return False
        ok = True
    return ok


def unwrapped(e, root, site):
    if not (e.op == "vfld" and e.d == ("Ok", "0") and e.a[0].op == "idx" and e.a[0].a[0] is root and e.a[0].a[1].op == "pos"):
        return False
    s = e.a[0].a[1].d
    return "part" not in s and (site is None or s == site)


def judge(R, P, ip, f, n, root, v, facts, pulls, con, public):
    S = Sums(ip, root)
    fs = list(S.forms(v))
    for p in con:
        name = ".".join(p)
        with_ = [(x, l) for x, l in fs if any(k[0] not in ("self", "skipped", "again") and same_path(k[1], p) or k[0] == "again" and same_path(k[2], p) for k in l)]
        R.check(bool(with_), "sum %s %s missing" % (n, name), "%s: %s of the shares does not contribute to the aggregate" % (f.name, name), "%s: %s contributes" % (f.name, name))
        for x, l in with_:
            why = total(ip, l, p, pulls, facts)
            R.check(why is None, "sum %s %s" % (n, name), "%s: the aggregate does not contain %s of every share exactly once: %s" % (f.name, name, why), "%s: every %s once" % (f.name, name))
    for x, l in fs:
        for k in l:
            if k[0] == "skipped":
                R.bad("sum %s skipped" % n, "%s: some shares are skipped by the aggregation on some path" % f.name)
    for p in public:
        R.check(any(k[0] not in ("self", "skipped", "again") and k[1][:len(p)] == p for x, l in fs for k in l) or any(uses(ip, x, root, p) for x in [v]), "public %s %s" % (n, ".".join(p)),
                "%s: the aggregate does not carry %s of the shares" % (f.name, ".".join(p)), "%s: keeps %s" % (f.name, ".".join(p)))


def uses(ip, v, root, p):
    for y in deps(ip, v):
        pa = path_of(y, root, ip) if y.op in ("fld", "vfld", "idx") else None
        if pa is not None and pa[1][:len(p)] == p:
            return True
    return False


def same_path(a, p):
    return a == p


def total(ip, l, p, pulls, facts):
    pos = {}
    for k, m in l.items():
        if k[0] == "again" and same_path(k[2], p):
            return "the same share is added in every iteration"
        if k[0] in ("self", "skipped", "again") or not same_path(k[1], p):
            continue
        if m != 1:
            return "a share is counted %d times" % m
        pos[k[0]] = k[2]
    got = set()
    single = False
    consts, tails = set(), set()
    for i, kind in pos.items():
        if i.op == "tail":
            tails.add(i.d)
            i = i.a[0]
        if i.op in ("pos", "each"):
            if "part" in i.d:
                return "only part of the shares are visited"
            got.add(i.d)
            if kind == "each":
                if mk("exhausted", i.d) not in facts and mk("xexh", i.d) not in facts:
                    return "the loop over the shares may end early"
            else:
                single = True
        elif i.op == "const" and type(i.d) is int:
            consts.add(i.d)
            single = True
        else:
            return "share %s is singled out" % show(i, 3)
    if (consts or tails) and (len(tails) != 1 or consts != set(range(min(tails)))):
        return "only the shares at some positions are added"
    if pulls - got:
        return "a share is taken and not added"
    if not single and not nonempty(facts):
        return "it succeeds without any share"
    return None


def nonempty(facts):
    for c, v in facts.items():
        if c.op == "bin" and c.d == "Eq" and v is False and any(z.op == "const" and z.d == 0 for z in c.a) and any(z.op == "call" and last(z.d[0]) == "len" for z in c.a):
            return True
        if c.op == "bin" and c.d == "Lt" and v is True and c.a[0].op == "const" and c.a[1].op == "call" and last(c.a[1].d[0]) == "len":
            return True
        if c.op == "call" and last(c.d[0]) == "is_empty" and v is False:
            return True
    return False
