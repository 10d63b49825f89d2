"""Levels, contexts and polynomials in step (P19); invariants of the scheme's objects."""
from ..fhe import *
from ..ctxs import *
from .poly import ZqOpaque
from .types import stable


def failed(Fl, facts):
    """the exit with these facts returns an error"""
    return any(o.facts is facts and o.val.op == "struct" and o.val.d[1] in ("Err", "None") for o in Fl.outs)


def fixed(t):
    return not any(x.op in ("ctxof", "phi", "pos", "each", "lvof") for x in small(t))


def rooted(e):
    """e is reached from an argument without passing a field whose context is known"""
    while e.op in ("fld", "vfld", "idx"):
        e = e.a[0]
    return e.op == "arg"


def verdict(C, prove):
    """'ok', 'bad' (a polynomial of another context, or one nothing was established about), 'open'"""
    C.shared["why"] = []
    if prove():
        return "ok", None
    for e, u, t in C.shared["why"]:
        if u.op == "ctxof" and rooted(u.a[0]):
            return "bad", "nothing establishes the context of %s" % show(u.a[0], 4)
        if u is not t and fixed(u) and fixed(t):
            return "bad", "%s has context %s, not %s" % (show(e, 3)[:60], show(u, 4), show(t, 4))
        if fixed(u) and u.op == "CL" and t.op == "CL" and t.a[1].op == "phi":
            for v in C.ip.phi_in.get(t.a[1], {}).values():
                t2 = C.canon(CL(t.a[0], v))
                if fixed(t2) and t2 is not u:
                    return "bad", "%s has context %s, but the level may be %s" % (show(e, 3)[:60], show(u, 4), show(v, 4))
    return "open", None


# ---------------------------------------------------------- linear inequalities

def lin(e, k=1, acc=None):
    """(coefficients, constant) of integer expression e"""
    if acc is None:
        acc = [{}, 0]
    if e.op == "const" and type(e.d) is int:
        acc[1] += k * e.d
    elif e.op == "bin" and e.d in ("Add", "Sub"):
        lin(e.a[0], k, acc)
        lin(e.a[1], k if e.d == "Add" else -k, acc)
    else:
        acc[0][e] = acc[0].get(e, 0) + k
        if not acc[0][e]:
            del acc[0][e]
    return acc


def below(c, v):
    """pairs (a, b, s): the condition says a <= b - s"""
    if c.op != "bin":
        return
    a, b = c.a[0], c.a[1] if len(c.a) > 1 else None
    d = c.d
    if v is False:
        d = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}.get(d)
    elif v is not True:
        return
    if d == "Lt":
        yield a, b, 1
    elif d == "Le":
        yield a, b, 0
    elif d == "Gt":
        yield b, a, 1
    elif d == "Ge":
        yield b, a, 0
    elif d == "Eq":
        yield a, b, 0
        yield b, a, 0


def at_most(C, x, y, s=0):
    """the facts establish x <= y - s"""
    t = lin(C.canon(x))
    lin(C.canon(y), -1, t)
    t[1] += s
    if not t[0]:
        return t[1] <= 0
    for c, v in C.facts.items():
        for a, b, k in below(c, v):
            g = lin(C.canon(a))
            lin(C.canon(b), -1, g)
            g[1] += k
            if g[0] == t[0] and t[1] <= g[1]:
                return True
    return False


def inductive(C, e, test, hyp=()):
    """test holds for e itself, or for every value it has where its merge point is entered"""
    if e in hyp or test(C, e):
        return True
    if e.op == "phi":
        h2 = hyp + (e,)
        ins = C.ip.phi_in.get(e, {})
        return bool(ins) and all(v is e or inductive(C.on(e, ed), v, test, h2) for ed, v in ins.items())
    return False


def rises(C, e, old, hyp=()):
    """e is old plus a number of steps"""
    if e is old or e in hyp:
        return True
    if e.op == "bin" and e.d == "Add":
        a, b = e.a
        if a.op == "const":
            a, b = b, a
        return rises(C, a, old, hyp)
    if e.op == "phi":
        ins = C.ip.phi_in.get(e, {})
        return bool(ins) and all(rises(C.on(e, ed), v, old, hyp + (e,)) for ed, v in ins.items())
    return at_most(C, old, e)


def p19(R, tier):
    P = program("native")
    in_step(P, R)
    shapes(P, R)
    R.floor("ciphertexts whose polynomials follow their level", 40)
    R.floor("level changes", 2)
    R.floor("polynomials whose matrix follows their context", 80)


def in_step(P, R):
    R.rule("in step", "every ciphertext a library function returns or updates records the level whose context all of its polynomials have")
    R.rule("down only", "a function that changes the level of a ciphertext adds steps to it, each guarded by the last level; one that takes a target level ends at it or fails")
    for Fl in flows(P, R):
        T = Types(Fl)
        done = set()
        for o in objects(Fl):
            if o.adt != CT or failed(Fl, o.facts):
                continue
            c = F(o.v, "c")
            key = (c, F(o.v, "par"), F(o.v, "level"), id(o.facts))
            if key in done:
                continue
            done.add(key)
            C = Ctx(Fl, o.facts, T)
            name = stable(Fl.fn)
            if not empty(c):
                r, msg = verdict(C, lambda: C.holds(c, CL(F(o.v, "par"), F(o.v, "level"))) or Ctx(Fl, {}, T).holds(c, CL(F(o.v, "par"), F(o.v, "level"))))
                if r == "ok":
                    R.ok("%s (%s): all polynomials have the context of the recorded level" % (name, o.lab))
                    R.count("ciphertexts whose polynomials follow their level", 1)
                elif r == "bad":
                    R.bad("%s: level and polynomials of %s" % (name, o.lab), "%s returns or leaves a ciphertext (%s) whose polynomials do not have the context of its level: %s" % (Fl.fn.name, o.lab, msg))
                else:
                    R.count("undecided", 1)
            if o.lab.startswith("argument"):
                moved(R, Fl, C, o, name)


def moved(R, Fl, C, o, name):
    """level changes of a ciphertext argument"""
    i = next((k for k, (a, t, n) in enumerate(Fl.args) if o.lab == "argument %s" % n), None)
    if i is None:
        return
    old, par, new = F(Fl.args[i][0], "level"), F(o.v, "par"), F(o.v, "level")
    if new is old:
        return
    ls = sources(C, new)
    if old not in ls or any(x is not old and x.op != "arg" for x in ls):
        # overwritten as a whole
        return
    R.count("level changes", 1)
    R.check(rises(C, new, old), "%s: upwards" % name, "%s may leave %s at a lower level than it had" % (Fl.fn.name, o.lab), "%s: levels only rise" % name)
    R.check(inductive(C, new, lambda D, e: e is old or any(at_most(D, e, n, 1) for n in lens(D, par))), "%s: past the last level" % name,
            "%s may leave %s at a level past the last one of its parameters" % (Fl.fn.name, o.lab), "%s: never past the last level" % name)
    tg = [a for a, t, n in Fl.args if C.P.ty(t).get("s") == "usize"]
    if len(tg) == 1:
        t = tg[0]
        R.check(counted(C, old, new, t) or at_most(C, t, new) and inductive(C, new, lambda D, e: at_most(D, e, t)), "%s: target" % name,
                "%s reports success without having brought %s to the requested level" % (Fl.fn.name, o.lab), "%s: ends at the requested level" % name)


def counted(C, old, new, t):
    """new is old plus one for every number from old to t"""
    L = loop_of_phi(C.ip, new) if new.op == "phi" else None
    if L is None:
        return False
    ins = C.ip.phi_in.get(new, {})
    for ed, v in ins.items():
        back = ed[1][0] != "entry" and ed[1][0] in L[1]
        if back and not (v.op == "bin" and v.d == "Add" and set(v.a) == {new, const(1)}) or not back and v is not old:
            return False
    for c, b in C.facts.items():
        its = C.ip.pulled.get(c.d, ()) if c.op == "exhausted" and b is True and site_in(L, c.d) else ()
        if its and all(spans(C, it, old, t) for it in its):
            return True
    return False


def spans(C, it, lo, hi):
    if it.op != "it" or it.d != "range" or len(it.a) != 2:
        return False
    k = lin(C.canon(it.a[1]))
    lin(C.canon(it.a[0]), -1, k)
    lin(C.canon(hi), -1, k)
    lin(C.canon(lo), 1, k)
    return not k[0] and not k[1]


def sources(C, e):
    """what level e counts steps from"""
    st, seen, r = [e], set(), set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            st.extend(C.ip.phi_in.get(x, {}).values())
        elif x.op == "bin" and x.d in ("Add", "Sub"):
            st.extend(y for y in x.a if y.op != "const")
        else:
            r.add(x)
    return r


def lens(C, par):
    """the number of levels of par, as the path spells it"""
    s = C.canon(F(par, "context_levels"))
    r = set()
    for c in C.facts:
        for x in small(c):
            if x.op in ("call", "len", "cnt") and len(x.a) == 1 and C.canon(x.a[0]) is s and (x.op != "call" or x.d[0] == "len"):
                r.add(x)
    return r


# ---------------------------------------------------------- rows of the coefficient matrix

# in-place matrix operations that keep its dimensions
KEEPS = ("zeroize", "assign", "fill", "mapv_inplace", "map_inplace", "swap", "par_mapv_inplace", "scaled_add", "as_slice_mut", "outer_iter_mut", "iter_mut", "row_mut", "column_mut", "view_mut", "indexed_iter_mut", "axis_iter_mut")


class Rows:
    """number of rows of a matrix a function of the polynomial layer builds or changes"""

    def __init__(self, G):
        self.G, self.ip, self.P = G, G.ip, G.ip.P
        self.T = Types(G)
        self.memo = {}

    def of(self, e, facts):
        k = (e, id(facts))
        if k not in self.memo:
            self.memo[k] = None
            self.memo[k] = self._of(e, facts)
        return self.memo[k]

    def _of(self, e, facts):
        if e.op == "fld" and e.d == "coefficients" and self.T.adt(e.a[0]) == POLY:
            return F(e.a[0], "ctx", "q")
        if e.op == "fld" and e.d == "coefficients" and e.a[0].op in ("call", "vfld", "after"):
            return F(e.a[0], "ctx", "q")
        if e.op == "vfld" and e.d[0] in ("Ok", "Some"):
            return self.of(e.a[0], facts)
        if e.op == "struct" and e.d[1] in ("Ok", "Some"):
            return self.of(e.a[0], facts)
        if e.op == "call":
            n = e.d[0].rsplit("::", 1)[-1]
            if n in ("zeros", "from_shape_vec", "from_elem", "from_shape_fn", "ones", "default", "uninit", "from_shape_simple_fn") and e.a:
                d = e.a[0]
                d = proj(d, ("f", "0")) if d.op != "arr" else d.a[0]
                return rows_of(d)
            if n in ("to_owned", "clone", "into_owned", "mapv", "map", "view", "into", "to_vec", "as_standard_layout") and e.a:
                return self.of(e.a[0], facts)
            return None
        if e.op == "with":
            return self.of(e.a[0], facts)
        if e.op == "after":
            n = e.a[0].d[0].rsplit("::", 1)[-1] if e.a[0].op == "call" else ""
            r = self.of(e.a[1], facts)
            if n == "remove_index" and r is not None:
                return mk("less", None, (r,))
            f = fn_named(self.P, e.a[0].d[0]) if e.a[0].op == "call" else None
            if n in KEEPS or f is not None:
                return r
            return None
        if e.op == "phi":
            r = set()
            for ed, v in self.ip.phi_in.get(e, {}).items():
                if v is e or empty(v):
                    continue
                r.add(self.of(v, facts))
            r.discard(None) if L_of(self.ip, e) else None
            return r.pop() if len(r) == 1 else None
        if e.op == "arg":
            for c, v in facts.items():
                if c.op == "bin" and (c.d == "Eq" and v is True or c.d == "Ne" and v is False):
                    for x, y in (c.a, c.a[::-1]):
                        if dims_of(x) is e:
                            return rows_of(y if y.op not in ("arr",) else y.a[0])
        return None


def L_of(ip, e):
    return loop_of_phi(ip, e)


def rows_of(d):
    """the sequence whose length d is"""
    if d.op in ("call", "len", "cnt") and len(d.a) == 1 and (d.op != "call" or d.d[0] == "len"):
        return d.a[0]
    return d


def dims_of(x):
    """the matrix whose dimensions (or first dimension) x is"""
    if x.op == "idx" and x.a[1].op == "const" and x.a[1].d == 0:
        x = x.a[0]
    elif x.op == "fld" and x.d in ("0", 0):
        x = x.a[0]
    if x.op == "call" and x.d[0].rsplit("::", 1)[-1] in ("shape", "dim", "nrows", "raw_dim") and x.a:
        return x.a[0]
    return None


def shapes(P, R):
    R.rule("one row per modulus", "every polynomial a function of the polynomial layer builds or updates has a coefficient matrix with one row per modulus of the context it records")
    for f in sorted(P.fns.values(), key=lambda f: f.name):
        if f.crate != "fhe_math" or f.body is None or f.kind in ("closure", "trait"):
            continue
        if not (f.out is not None and is_poly_ty(P, f.out) or any(P.ty(t)["k"] == "ref" and P.ty(t).get("m") and is_poly_ty(P, t) for t in f.ins)):
            continue
        G = run(P, f, ZqOpaque())
        R.fn(f)
        N = Rows(G)
        for o in objects(G):
            if o.adt != POLY or failed(G, o.facts):
                continue
            q = F(o.v, "ctx", "q")
            ok, r = follows(N, F(o.v, "coefficients"), q, o.facts)
            if r is None:
                R.count("undecided", 1)
                continue
            R.count("polynomials whose matrix follows their context", 1)
            R.check(ok, "%s: rows of %s" % (stable(f), o.lab), "%s returns or leaves a polynomial (%s) whose matrix has as many rows as %s has entries, while its context has %s" % (f.name, o.lab, show(r, 5), show(q, 5)),
                    "%s: matrix of %s follows its context" % (stable(f), o.lab))


def follows(N, c, q, facts):
    """(matrix c has one row per entry of q, the rows it has)"""
    r = N.of(c, facts)
    if r is q or r is not None and below_by_one(N.G, r, q):
        return True, r
    # both changed by one loop: step by step
    if c.op == "phi":
        qs = [x for x in small(q) if x.op == "phi" and x.d[0] == c.d[0]]
        if qs:
            M = Rows(N.G)
            M.memo[c, id(facts)] = q
            for ed, v in N.ip.phi_in.get(c, {}).items():
                m = {x: N.ip.phi_in.get(x, {}).get(ed, x) for x in qs}
                ok, r = follows(M, v, repl_all(q, m), facts) if v is not c else (True, r)
                if not ok:
                    return False, r
            return True, q
    return False, r


def below_by_one(G, r, q):
    """r is one row less than the context whose next context q belongs to"""
    if r.op == "less" and q.op == "fld" and q.d == "q":
        x = q.a[0]
        if x.op == "vfld" and x.d[0] == "Some" and x.a[0].op == "fld" and x.a[0].d == "next_context":
            return r.a[0] is F(x.a[0].a[0], "q")
    return False
