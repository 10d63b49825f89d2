"""Evaluation keys perform exactly the operations they support (P16).

The set of automorphism keys an operation applies, the set its capability query looks up and the set the
builder generates are extracted from the code as descriptors (an exponent expression, the loop variables in it
with their ranges or recurrences, the conditions it is reached under) and compared as sets for every ring degree,
expansion size and rotation index."""
import re
from ..fhe import *
from ..ctxs import *

BLD = "fhe::bfv::keys::evaluation_key::EvaluationKeyBuilder"
# operation, query, builder option; how the argument of the query follows from that of the operation
PAIRS = (("computes_inner_sum", "supports_inner_sum", "enable_inner_sum"),
         ("rotates_rows", "supports_row_rotation", "enable_row_rotation"),
         ("rotates_columns_by", "supports_column_rotation_by", "enable_column_rotation"),
         ("expands", "supports_expansion", "enable_expansion"))
U64 = (1 << 64) - 1


class Unknown(Exception):
    pass


class KeyPol(FhePol):
    """operations of automorphism keys and of ciphertexts are opaque"""
    record = ("HashSet::insert", "BTreeSet::insert", "Vec::push", "HashMap::insert", "BTreeMap::insert", "Extend::extend", "HashSet::extend")

    def inline(self, fn, ctx):
        if fn.crate != "fhe":
            return fn.crate == "fhe_traits"
        if fn.self_ty is not None and self.P.ty(fn.self_ty).get("p") == GK:
            return False
        return "ops::" not in fn.name


def last(n):
    return n.rsplit("::", 1)[-1]


def degree_like(e):
    return e.op == "fld" and e.d == "polynomial_degree"


def loopvar(e):
    """e varies with an iteration: an element of a range or of a collection, or a position"""
    return e.op == "idx" and e.a[1].op in ("pos", "each") or e.op in ("pos", "each")


class Space:
    """values of exponent expressions in one function for one choice of the quantities they depend on"""

    def __init__(self, G, env):
        self.G, self.ip, self.env = G, G.ip, env
        self.nargs = {}
        for i, (a, t, n) in enumerate(G.args):
            self.nargs[a] = i

    # ------------------------------------------------------------ evaluation

    def ev(self, e, asg):
        """value of e; None when it depends on something the environment does not fix"""
        if e in asg:
            return asg[e]
        o = e.op
        if o == "const":
            return e.d if type(e.d) in (int, bool) else None
        if degree_like(e):
            return self.env["N"]
        if o == "fld" and e.d in self.env.get("flags", ()):
            return self.env["flags"][e.d]
        if e in self.nargs and self.nargs[e] in self.env.get("args", ()):
            return self.env["args"][self.nargs[e]]
        if o in ("phi", "pos", "each"):
            return None
        if o == "idx":
            if e.a[0].op == "fld" and e.a[0].d == "rot_to_gk_exponent":
                k = self.ev(e.a[1], asg)
                return None if k is None else ("rot", k)
            return None
        if o == "not":
            v = self.ev(e.a[0], asg)
            return None if not isinstance(v, (bool, int)) else (not v) if isinstance(v, bool) else None
        if o == "cast":
            return self.ev(e.a[0], asg)
        if o == "call":
            n = last(e.d[0])
            if n == "has_key":
                m, k = e.a
                if m.op == "fld" and m.d == "rot_to_gk_exponent":
                    v = self.ev(k, asg)
                    return None if not isinstance(v, int) else v in self.env["table"](self.env["N"])
                return None
            if n in ("deref", "clone", "into", "cast") and len(e.a) == 1:
                return self.ev(e.a[0], asg)
            vs = [self.ev(x, asg) for x in e.a]
            if any(not isinstance(v, int) for v in vs):
                return None
            try:
                if n in ("ilog2", "checked_ilog2"):
                    return vs[0].bit_length() - 1 if vs[0] > 0 else None
                if n == "next_power_of_two":
                    return 1 if vs[0] <= 1 else 1 << (vs[0] - 1).bit_length()
                if n == "is_power_of_two":
                    return vs[0] > 0 and vs[0] & (vs[0] - 1) == 0
                if n == "trailing_zeros":
                    return (vs[0] & -vs[0]).bit_length() - 1 if vs[0] else 64
                if n == "leading_zeros":
                    return 64 - vs[0].bit_length()
                if n == "count_ones":
                    return bin(vs[0]).count("1")
                if n in ("pow", "saturating_pow", "wrapping_pow"):
                    return vs[0] ** vs[1] & U64 if vs[1] < 4096 else None
                if n in ("min", "max"):
                    return min(vs) if n == "min" else max(vs)
                if n == "saturating_sub":
                    return max(vs[0] - vs[1], 0)
                if n == "div_ceil":
                    return -(-vs[0] // vs[1]) if vs[1] else None
            except IndexError:
                pass
            return None
        if o == "bin":
            a, b = (self.ev(x, asg) for x in e.a)
            if e.d in ("BitAnd", "BitOr", "And", "Or") and (isinstance(a, bool) or isinstance(b, bool)):
                con = e.d in ("BitAnd", "And")
                if a is None or b is None:
                    return (False if con else True) if (a if a is not None else b) is (not con) else None
                return (a and b) if con else (a or b)
            if a is None or b is None:
                return None
            if e.d in ("Eq", "Ne"):
                return (a == b) == (e.d == "Eq")
            if not isinstance(a, int) or not isinstance(b, int):
                return None
            try:
                return {"Add": lambda: a + b & U64, "Sub": lambda: a - b if a >= b else None, "Mul": lambda: a * b & U64, "Div": lambda: a // b if b else None,
                        "Rem": lambda: a % b if b else None, "Shl": lambda: a << b & U64 if b < 64 else None, "Shr": lambda: a >> b if b < 64 else None,
                        "BitOr": lambda: a | b, "BitAnd": lambda: a & b, "BitXor": lambda: a ^ b, "Lt": lambda: a < b, "Le": lambda: a <= b,
                        "Gt": lambda: a > b, "Ge": lambda: a >= b}[e.d]()
            except KeyError:
                return None
        return None

    def truth(self, c, v, asg):
        """does the condition c == v hold: True, False or None"""
        x = self.ev(c, asg)
        return None if x is None or not isinstance(x, bool) else x == v

    def maybe(self, c, asg, sure):
        """a condition that successful runs may meet either way"""
        if c in sure or self.ev(c, asg) is not None or list(self.free(c, asg)):
            return False
        return c.op == "bin" or c.op == "not" or c.op == "fld" or c.op == "arg" or c.op == "call" and last(c.d[0]) in ("eq", "is_empty")

    def dead(self, facts, asg):
        return any(self.truth(c, v, asg) is False for c, v in facts.items())

    def edge(self, h, ed):
        return self.ip.edge_facts.get((h.d[0], h.d[1]) + ed) or {}

    # ------------------------------------------------------------ enumeration

    def free(self, e, asg, seen=None):
        """the outermost varying parts of e that are not assigned"""
        seen = set() if seen is None else seen
        if e in asg or e in seen or not (e.sites or e.op == "phi"):
            return
        seen.add(e)
        if e.op == "phi" or loopvar(e):
            yield e
            return
        for x in e.a:
            yield from self.free(x, asg, seen)

    def vals(self, e, facts, asg=None, sure=None):
        """all values e takes where the facts hold; with sure, only those taken on every successful run"""
        r = set()
        for a in self.over(list(self.free(e, asg or {})), facts, asg or {}):
            if sure is not None and any(self.maybe(c, a, sure) for c in facts):
                continue
            v = self.ev(e, a)
            if v is None:
                raise Unknown(show(e, 4))
            r.add(v)
        return r

    def over(self, todo, facts, asg):
        todo = [x for x in todo if x not in asg]
        if not todo:
            if not self.dead(facts, asg):
                yield asg
            return
        v, rest = todo[0], todo[1:]
        pre = []
        if v.op == "idx" and v.a[0].op == "it" and v.a[0].d in ("range", "rangei"):
            for b in v.a[0].a:
                pre += [x for x in self.free(b, asg) if x is not v]
        elif v.op == "phi":
            lp = loop_of_phi(self.ip, v)
            for k, x in self.ip.phi_in.get(v, {}).items():
                for y in self.free(x, asg):
                    if y is v or y.op == "phi" and y.d[0] == v.d[0]:
                        continue
                    if lp and any(s[0] in ("pos", "each", "phi") and isinstance(s[1], tuple) and site_in(lp, s[1]) for s in y.sites):
                        continue
                    pre.append(y)
        if any(x not in asg for x in pre):
            if len(todo) > 40:
                raise Unknown("nested too deeply")
            yield from self.over(pre + todo, facts, asg)
            return
        for x in self.steps(v, facts, asg):
            yield from self.over(rest, facts, {**asg, v: x} if not isinstance(x, dict) else {**asg, **x})

    def steps(self, v, facts, asg):
        """the values of one varying quantity"""
        if v.op == "idx":
            s, i = v.a
            if "part" in (i.d if isinstance(i.d, tuple) else ()):
                raise Unknown("partial iteration")
            if s.op == "it" and s.d == "range" and len(s.a) == 2:
                lo, hi = (self.ev(x, asg) for x in s.a)
                if lo is None or hi is None:
                    raise Unknown(show(s, 4))
                yield from range(lo, hi)
                return
            if s.op == "it" and s.d == "rangei" and len(s.a) == 2:
                lo, hi = (self.ev(x, asg) for x in s.a)
                if lo is None or hi is None:
                    raise Unknown(show(s, 4))
                yield from range(lo, hi + 1)
                return
            yield from self.members(s, asg)
            return
        if v.op != "phi":
            raise Unknown(show(v, 3))
        lp = loop_of_phi(self.ip, v)
        ins = self.ip.phi_in.get(v, {})
        if lp is None:
            for k, x in ins.items():
                fs = self.edge(v, k)
                if not self.dead(fs, asg):
                    yield from self.vals(x, fs, asg)
            return
        fam = {v}
        grow = [v]
        while grow:
            p = grow.pop()
            for k, x in self.ip.phi_in.get(p, {}).items():
                for y in self.free(x, asg):
                    if y.op == "phi" and y.d[0] == v.d[0] and y not in fam:
                        fam.add(y)
                        grow.append(y)
        inside = lambda k: self.back(lp, k, v)
        state = {}
        for p in fam:
            en = [x for k, x in self.ip.phi_in[p].items() if not inside(k)]
            if len(en) != 1:
                raise Unknown(show(p, 3))
            state[p] = self.ev(en[0], asg)
        backs = {k: self.edge(v, k) for k in ins if inside(k)}
        for _ in range(70000):
            if state[v] is None:
                raise Unknown(show(v, 3))
            a = {**asg, **state}
            yield dict(state)
            nxt = None
            guarded = False
            for k, fs in backs.items():
                if self.dead(fs, a):
                    guarded = True
                    continue
                new = {}
                for p in fam:
                    x = self.ip.phi_in[p].get(k)
                    new[p] = None if x is None else self.ev(x, a)
                if nxt is not None and nxt != new:
                    raise Unknown(show(v, 3))
                nxt = new
            if nxt is None:
                if not guarded:
                    raise Unknown(show(v, 3))
                return
            if nxt[v] == state[v]:
                raise Unknown("no progress")
            state = nxt
        raise Unknown("unbounded")

    # ------------------------------------------------------------ sets

    def sure(self):
        """conditions every successful run meets in one way"""
        r = None
        for o in self.G.outs:
            if o.val.op == "struct" and o.val.d[1] == "Err":
                continue
            r = set(o.facts) if r is None else r & set(o.facts)
        return r or set()

    def members(self, s, asg, seen=None):
        """the elements of a set value built by insertions"""
        seen = set() if seen is None else seen
        if s in seen:
            return set()
        seen.add(s)
        if s.op == "fld" and s.d in self.env.get("flags", ()) and isinstance(self.env["flags"][s.d], frozenset):
            return set(self.env["flags"][s.d])
        if s.op == "phi":
            r = set()
            for k, x in self.ip.phi_in.get(s, {}).items():
                if not self.dead(self.edge(s, k), asg):
                    r |= self.members(x, asg, seen)
            return r
        if s.op == "after" and s.a[0].op == "call" and last(s.a[0].d[0]) == "insert" and len(s.a[0].a) == 2:
            c = s.a[0]
            r = self.members(s.a[1], asg, seen)
            hit = [e for e in self.G.evs if e.kind in ("call", "std") and e.st is not None and last(e.name or "") == "insert" and len(e.args) == 2 and e.args[0] is c.a[0] and e.args[1] is c.a[1]]
            if not hit:
                raise Unknown("insertion")
            for e in hit:
                if not self.dead(e.st.facts, {}):
                    r |= self.vals(c.a[1], e.st.facts, None, self.sure())
            return r
        if s.op in ("arr",):
            r = set()
            for x in s.a:
                r |= self.vals(x, {}, asg)
            return r
        if s.op == "call" and last(s.d[0]) in ("clone", "new", "default", "to_owned", "with_capacity"):
            return self.members(s.a[0], asg, seen) if s.a else set()
        if s.op == "push":
            return self.members(s.a[0], asg, seen) | self.vals(s.a[1], {}, asg)
        if s.op == "it" and s.d in ("iter", "copied", "cloned", "into_iter", "drain"):
            return self.members(s.a[0], asg, seen)
        raise Unknown(show(s, 4))

    # ------------------------------------------------------------ the answer of a query

    def looked_up(self, v, facts, key, seen=(), depth=0):
        """the keys that are present whenever the answer v is true; None when v is not true"""
        t = self.ev(v, {}) if v.op != "phi" else None
        if t is False:
            return None
        r = set()
        for c, b in list(facts.items()) + list(forall_facts(facts)):
            if b is not True:
                continue
            if c.op == "call" and c.d[0] == "has_key" and key(c.a[0]):
                r |= self.vals(c.a[1], facts)
            elif c in seen:
                r.add(c)
            elif c.op in ("phi", "bin") and depth < 4:
                y = self.looked_up(c, {x: b for x, b in facts.items() if x is not c}, key, seen, depth + 1)
                r |= y or set()
        if not depth and not seen:
            for h in {(p.d[0], p.d[1]): p for c in facts for p in self.free(c, {}) if p.op == "phi"}.values():
                r |= self.every_turn(h, key)
        if v.op == "call" and v.d[0] == "has_key" and key(v.a[0]):
            return r | self.vals(v.a[1], {c: b for c, b in facts.items()})
        if v.op == "bin" and v.d in ("BitAnd", "And"):
            for x in v.a:
                y = self.looked_up(x, facts, key, seen)
                if y is None:
                    return None
                r |= y
            return r
        if v.op == "phi":
            if v in seen:
                return r | {v}
            lp = loop_of_phi(self.ip, v)
            acc = None
            first = None
            for k, x in self.ip.phi_in.get(v, {}).items():
                fs = self.edge(v, k)
                if lp is None and self.dead(fs, {}):
                    continue
                y = self.looked_up(x, fs, key, seen + (v,))
                if lp is not None and self.back(lp, k, v):
                    if y is None:
                        continue
                    acc = y if acc is None else acc & y
                elif y is not None:
                    first = y if first is None else first & y
            if lp is None:
                return r if first is None and not self.ip.phi_in.get(v) else None if first is None else r | first
            if first is None and (acc is None or v in acc):
                return None
            if acc is None:
                return r | (first or set())
            if v not in acc:
                return r      # the answer of earlier iterations is forgotten
            return r | (first or set()) | (acc - {v})
        return r

    def every_turn(self, h, key):
        """the keys found in every iteration of the loop headed by h, which was left by its condition"""
        lp = loop_of_phi(self.ip, h)
        if lp is None:
            return set()
        backs = [self.edge(h, k) for k in self.ip.phi_in.get(h, {}) if self.back(lp, k, h)]
        r = set()
        for c, b in (backs[0].items() if backs else ()):
            if b is True and c.op == "call" and c.d[0] == "has_key" and key(c.a[0]) and all(fs.get(c) is True for fs in backs):
                r |= self.vals(c.a[1], backs[0])
        return r

    def query(self, key):
        """the keys present whenever the query answers true (None: it never does)"""
        r = None
        for o in self.G.outs:
            if self.dead(o.facts, {}):
                continue
            v = self.ip.snap(St(o.mem, o.facts), o.val)
            y = self.looked_up(v, o.facts, key)
            if y is not None:
                y = {x for x in y if not isinstance(x, E)}
                r = y if r is None else r & y
        return r

    # ------------------------------------------------------------ the result of an operation

    def applied(self, e, isop):
        """on every way the value e is computed an automorphism key was applied (least fixed point over the loops)"""
        prev = {}
        for _ in range(12):
            memo = {}
            r = self._applied(e, isop, memo, prev)
            if memo == prev:
                break
            prev = memo
        return r

    def _applied(self, e, isop, memo, prev):
        if e in memo:
            return memo[e]
        if e.op in ("call", "after") and isop(e if e.op == "call" else e.a[0]):
            memo[e] = True
            return True
        if e.op in ("const", "arg", "fld", "pos", "each"):
            return False
        memo[e] = prev.get(e, False)
        if e.op == "phi":
            lp = loop_of_phi(self.ip, e)
            r = None
            for k, x in self.ip.phi_in.get(e, {}).items():
                if lp is not None and not self.back(lp, k, e):
                    continue
                if lp is None and self.dead(self.edge(e, k), {}):
                    continue
                y = self._applied(x, isop, memo, prev)
                r = y if r is None else r and y
            r = bool(r)
        else:
            r = any([self._applied(x, isop, memo, prev) for x in e.a])
        memo[e] = r
        return r

    def back(self, lp, k, v):
        """the edge k of the merge v closes the loop (an edge from another partition of the paths enters it)"""
        p = k[1][0]
        return k[1][1] == v.d[1] and self.inside(lp, p)

    def inside(self, lp, p):
        return p in lp[1] if not isinstance(lp[1], Everything) else p not in ("entry", 1)


def own_map(S, G, m):
    """m is the key map of the evaluation key the function works on"""
    return m.op == "fld" and m.d == "gk" and m.a[0] is G.args[0][0]


def of_key(P, name):
    f = fn_named(P, name)
    return f is not None and f.self_ty is not None and P.ty(f.self_ty).get("p") == GK


def key_ops(P, G):
    """(event, exponent or None): every use of an automorphism key on a ciphertext"""
    for e in G.evs:
        if e.kind != "call" or e.st is None or not of_key(P, e.callee.name if e.callee is not None else e.name) or not e.args:
            continue
        f = e.callee if e.callee is not None else fn_named(P, e.name)
        if not any(P.ty(P.peel(t)).get("p") == CT for t in f.ins):
            continue
        k = e.args[0]
        while k.op in ("ref",) and k.a:
            k = k.a[0]
        yield e, (k.a[1] if k.op == "idx" and own_map(None, G, k.a[0]) else None)


def sizes(n):
    if n <= 64:
        return range(1, n + 1)
    return sorted({x for k in range(0, n.bit_length()) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1, 3 << k >> 1) if 1 <= x <= n})


def rots(n):
    return range(1, n // 2) if n <= 64 else sorted({x for k in range(0, n.bit_length()) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1) if 1 <= x < n // 2})


def domain(op, tier):
    """choices of ring degree and arguments: (degree, operation arguments, query arguments)"""
    top = 15 if tier == "quick" else 17
    for b in range(3, top + 1):
        n = 1 << b
        if op == "expands":
            for s in sizes(n):
                yield n, {2: s}, {1: max(0, (s - 1).bit_length())}, {1: max(0, (s - 1).bit_length())}
        elif op == "rotates_columns_by":
            for i in rots(n):
                yield n, {2: i}, {1: i}, {1: i}
        else:
            yield n, {}, {}, {}


def text(ks, n):
    g = lambda k: "3^%s mod %d" % (k[1], 2 * n) if isinstance(k, tuple) else str(k)
    return ", ".join(g(k) for k in sorted(ks, key=str)[:4])


def inherent(P, name, owner):
    r = [f for f in entries(P) if f.sname == name and f.self_ty is not None and P.ty(f.self_ty).get("p") == owner]
    return r[0] if len(r) == 1 else None


def changes(v, old):
    """{field: new value} by which the returned object differs from the receiver, or None"""
    d = {}
    while v.op == "with" and v.d[0] in ("f", "v"):
        d.setdefault(v.d[-1] if v.d[0] == "f" else v.d, v.a[1])
        v = v.a[0]
    return d if v is old else None


def p16(R, tier):
    P = program("native")
    R.rule("fits", "an operation of an evaluation key returns a ciphertext only where the path implies equal parameters, two polynomials and the level of the key")
    R.rule("keys", "the automorphism keys an operation applies are those its query looks up and those the builder generates once the capability is enabled, for every degree and argument")
    R.rule("present", "a key is applied only after it was found, and no result is computed without the keys needed")
    R.rule("map", "keys are stored under their own exponent, with the levels of the evaluation key, and decoders rebuild the same tables as the builder")
    pol = KeyPol()
    pol.P = P
    runs = {}

    def flow(owner, name):
        f = inherent(P, name, owner)
        if f is None:
            return None
        if f not in runs:
            runs[f] = run(P, f, pol)
            R.fn(f)
        return runs[f]

    table = tables(P, R, pol)
    build = flow(BLD, "build")
    made = gens(P, build) if build else []
    R.check(build is not None, "build", "the builder's build function was not found", "build found")
    for op, q, en in PAIRS:
        G, Q, B = flow(EK, op), flow(EK, q), flow(BLD, en)
        if not R.check(G is not None and Q is not None and B is not None, "%s:missing" % op, "operation, query or option not found: %s, %s, %s" % (op, q, en), "%s/%s/%s" % (op, q, en)):
            continue
        fits(P, R, op, G)
        uses(P, R, op, G)
        sets(P, R, op, q, en, G, Q, B, build, made, table, tier)
    options(P, R, {en: flow(BLD, en) for _, _, en in PAIRS})
    if build:
        keymap(P, R, build, made)
    R.floor("exits:fit", 4)
    R.floor("sets:compared", 100)
    R.floor("key applications", 5)


def options(P, R, Bs):
    """no option undoes what another one enabled"""
    ch = {}
    for en, B in Bs.items():
        if B is None:
            continue
        for o in B.outs:
            v = B.ip.snap(St(o.mem, o.facts), o.val)
            if v.op == "struct" and v.d[1] == "Ok":
                for f, x in (changes(v.a[0], B.args[0][0]) or {}).items():
                    ch.setdefault(f, {}).setdefault(en, []).append((x, F(B.args[0][0], f)))
    for f, by in sorted(ch.items(), key=str):
        for en, xs in sorted(by.items()):
            grows = all(old in deps_of(x) or x.op == "const" and x.d is True for x, old in xs)
            R.check(len(by) == 1 or grows, "option %s:%s" % (en, f), "%s replaces the field %s, which %s also sets" % (en, f, ", ".join(sorted(set(by) - {en}))), "%s sets %s" % (en, f))


def deps_of(x):
    return set(small(x))


def fits(P, R, op, G):
    """facts at every exit that returns a ciphertext"""
    me, ct = G.args[0][0], G.args[1][0]
    for o in G.outs:
        v = G.ip.snap(St(o.mem, o.facts), o.val)
        if v.op != "struct" or v.d[1] != "Ok":
            continue
        C = Ctx(G, o.facts)
        n = [x for c in o.facts for x in small(c) if x.op == "call" and last(x.d[0]) == "len" and len(x.a) == 1 and inner_of(x.a[0], ct)]
        R.check(C.same(F(me, "par"), F(ct, "par")), "%s:params" % op, "returns a ciphertext without establishing that the ciphertext has the parameters of the key", "%s: parameters" % op)
        R.check(C.same(F(me, "ciphertext_level"), F(ct, "level")), "%s:level" % op, "returns a ciphertext without establishing that the ciphertext is at the level of the key", "%s: level" % op)
        R.check(any(C.same(x, mk("const", 2)) for x in n), "%s:count" % op, "returns a ciphertext without establishing that the ciphertext has two polynomials", "%s: two polynomials" % op)
        R.count("exits:fit", 1)


def inner_of(x, ct):
    """x is the sequence of polynomials of ct"""
    if x.op == "fld" and x.d == "c":
        x = x.a[0]
    elif x.op == "call" and last(x.d[0]) == "deref":
        x = x.a[0]
    else:
        return False
    return x is ct


def uses(P, R, op, G):
    for e, k in key_ops(P, G):
        if k is None:
            R.count("undecided: key not from the map", 1)
            continue
        R.count("key applications", 1)
        ok = any(b is True and c.op == "call" and c.d[0] == "has_key" and own_map(None, G, c.a[0]) and c.a[1] is k for c, b in e.st.facts.items())
        R.check(ok, "%s:absent" % op, "an automorphism key is applied without having been found in the map", "%s: key %s found first" % (op, show(k, 3)[:60]))


def gens(P, G):
    """[(insertion event, exponent, generated key)] of the builder"""
    r = []
    for e in G.evs:
        if e.kind in ("call", "std") and e.st is not None and last(e.name or "") == "insert" and len(e.args) == 3:
            c = e.args[2]
            while c.op in ("vfld",) or c.op == "fld":
                c = c.a[0]
            if c.op == "call" and of_key(P, c.d[0]):
                r.append((e, e.args[1], c))
    return r


def sets(P, R, op, q, en, G, Q, B, build, made, table, tier):
    if not made:
        return
    enabled = []
    for o in B.outs:
        v = B.ip.snap(St(o.mem, o.facts), o.val)
        if v.op == "struct" and v.d[1] == "Ok":
            d = changes(v.a[0], B.args[0][0])
            enabled.append((o, d))
    if not R.check(bool(enabled), "%s:never" % en, "the option is never granted", en):
        return
    if any(d is None for _, d in enabled):
        R.count("undecided: option", 1)
        return
    seen = set()
    for n, oargs, qargs, bargs in domain(op, tier):
        what = "degree %d%s" % (n, "".join(", argument %d" % x for x in oargs.values()))
        try:
            SB = Space(B, {"N": n, "table": table, "args": bargs, "flags": {"column_rotation": frozenset()}})
            flags = None
            for o, d in enabled:
                if SB.dead(o.facts, {}):
                    continue
                fl = {"inner_sum": False, "row_rotation": False, "expansion_level": 0, "column_rotation": frozenset()}
                for f, x in d.items():
                    y = SB.ev(x, {})
                    if y is None:
                        y = frozenset(SB.members(x, {}))
                    fl[f] = y
                flags = fl
            SG = Space(G, {"N": n, "table": table, "args": oargs})
            used, live = set(), False
            oks = [o for o in G.outs if o.val.op == "struct" and o.val.d[1] == "Ok" and not SG.dead(o.facts, {})]
            live = bool(oks)
            for e, k in key_ops(P, G):
                if k is None:
                    raise Unknown("key not from the map")
                used |= SG.vals(k, e.st.facts)
            looked = Space(Q, {"N": n, "table": table, "args": qargs}).query(lambda m: own_map(None, Q, m))
            if flags is None:
                gen = None
            else:
                SK = Space(build, {"N": n, "table": table, "args": {}, "flags": flags})
                gen = set()
                for e, k, c in made:
                    gen |= SK.vals(k, e.st.facts, None, SK.sure())
        except Unknown as x:
            R.count("undecided: %s %s" % (op, x), 1)
            continue
        R.count("sets:compared", 1)
        key = lambda s: "%s:%s" % (op, s)
        if not live or looked is None or gen is None:
            if "dead" not in seen:
                seen.add("dead")
                R.bad(key("dead"), "%s: %s" % (what, "the operation never succeeds" if not live else "%s never answers yes" % q if looked is None else "%s never grants the option" % en))
            continue
        for a, b, s, m in ((used, looked, "unqueried", "applies keys that %s does not look up" % q), (looked, used, "unused", "does not apply keys that %s looks up" % q),
                           (used | looked, gen, "ungenerated", "needs keys the builder does not generate after %s" % en)):
            if a - b and s not in seen:
                seen.add(s)
                R.bad(key(s), "%s: %s %s (%s)" % (what, op, m, text(a - b, n)))
            elif s not in seen:
                R.ok("%s at %s: %d keys" % (s, what, len(a)) if n == 8 else None)
        if used and "skip" not in seen:
            isop = lambda c: of_key(P, c.d[0])
            for o in oks:
                v = G.ip.snap(St(o.mem, o.facts), o.val)
                if not SG.applied(v.a[0], isop):
                    seen.add("skip")
                    R.bad(key("skipped"), "%s: a ciphertext is returned although no automorphism key was applied on some path" % what)
                    break
            else:
                R.ok()


def keymap(P, R, G, made):
    ip = G.ip
    for e, k, c in made:
        same = k in c.a
        R.check(same, "build:exponent", "a generated key is stored under an exponent other than its own", "key %s stored under its exponent" % show(k, 3)[:60])
    for o in G.outs:
        v = ip.snap(St(o.mem, o.facts), o.val)
        if v.op != "struct" or v.d[1] != "Ok" or v.a[0].op != "struct":
            continue
        ek = v.a[0]
        for e, k, c in made:
            f = fn_named(P, c.d[0])
            for nm, fl in (("ciphertext_level", "ciphertext_level"), ("galois_key_level", "evaluation_key_level")):
                want = F(ek, fl)
                C = Ctx(G, o.facts)
                R.check(any(C.same(x, want) for x in c.a), "build:%s" % fl, "keys are generated for a %s other than the one the evaluation key records" % fl, "build: %s" % fl)


def tables(P, R, pol):
    """the rotation table is the same function of the parameters in every evaluation key and builder made; its domain"""
    forms, dom = {}, None
    for f in entries(P):
        if "evaluation_key" not in f.name:
            continue
        G = run(P, f, pol)
        new = any(x.op == "struct" and x.d[0] in (EK, BLD) and F(x, "rot_to_gk_exponent").op != "fld"
                  for o in G.outs for x in small(G.ip.snap(St(o.mem, o.facts), o.val)))
        if not new:
            continue
        R.fn(f)
        for e in G.evs:
            if e.kind in ("call", "std") and e.st is not None and last(e.name or "") == "insert" and len(e.args) == 3 and not any(x.op == "call" and of_key(P, x.d[0]) for x in small(e.args[2])):
                try:
                    d = tuple(frozenset(Space(G, {"N": n}).vals(e.args[1], e.st.facts)) for n in (8, 64, 4096))
                except Unknown as x:
                    R.count("undecided: rotation table %s" % x, 1)
                    continue
                forms.setdefault((d, shape(e.args[2], e.args[1])), set()).add(f.name)
                dom = (G, e)
    R.count("rotation tables built", sum(len(x) for x in forms.values()))
    R.floor("rotation tables built", 2)
    R.check(len(forms) <= 1, "rot table", "rotation tables are built differently: %s" % "; ".join("%s in %s" % (k[1], ", ".join(sorted(x))) for k, x in sorted(forms.items(), key=lambda t: t[0][1])),
            "one way to build rotation tables: %s" % "; ".join(k[1] for k in forms))
    memo = {}

    def domain(n):
        if n not in memo:
            memo[n] = frozenset(Space(dom[0], {"N": n}).vals(dom[1].args[1], dom[1].st.facts)) if dom else frozenset(range(1, n // 2))
        return memo[n]
    return domain


def shape(v, k, d=0):
    """a form of the value v that names neither the key k's loop variable nor where the parameters come from"""
    if v is k:
        return "i"
    if degree_like(v):
        return "N"
    if d > 14:
        return ".."
    if v.op == "const":
        return str(v.d)
    if v.op == "cast":
        return shape(v.a[0], k, d)
    n = v.d[0] if v.op == "call" else "%s%s" % (v.op, "" if v.d is None or v.op == "phi" else v.d)
    a = [shape(x, k, d + 1) for x in v.a]
    if v.op == "bin" and v.d in ("Add", "Mul"):
        a.sort()
    return "%s(%s)" % (last(n) if v.op == "call" else n, ", ".join(a))
