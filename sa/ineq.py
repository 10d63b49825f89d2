"""Linear inequalities over the quantities of a path: does x <= y - s follow from its facts?"""
from math import gcd

from .fhe import *
from .ctxs import small
from .rules.levels import below

BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


def last(n):
    return n.rsplit("::", 1)[-1]


def is_cast(e):
    return len(e.a) == 1 and (e.op == "cast" or e.op == "call" and e.d[0].startswith("cast<"))


def cast_to(e):
    return e.d if e.op == "cast" else e.d[0][5:-1]


class Ineq:
    """size(seq) gives lengths of sequences, known(atom) constraints that hold of any value of that kind"""

    def __init__(self, C, size=None, axioms=None, limit=400):
        self.C, self.ip, self.size, self.axioms, self.limit = C, C.ip, size, axioms, limit
        self.base = None
        self.atoms = {}
        self.busy = set()

    # ------------------------------------------------------------ linear terms

    def lin(self, e, k=1, acc=None):
        if acc is None:
            acc = [{}, 0]
        e = self.norm(e)
        if e.op == "const" and type(e.d) in (int, bool):
            acc[1] += k * int(e.d)
            return acc
        if e.op == "bin" and e.d in ("Add", "Sub"):
            self.lin(e.a[0], k, acc)
            self.lin(e.a[1], k if e.d == "Add" else -k, acc)
            return acc
        if e.op == "bin" and e.d == "Mul":
            for x, y in (e.a, e.a[::-1]):
                x = self.norm(x)
                if x.op == "const" and type(x.d) is int:
                    return self.lin(y, k * x.d, acc)
            e = X.binop("Mul", *e.a)
            if e.op == "bin" and e.d == "Mul":
                x, y = self.lin(e.a[0]), self.lin(e.a[1])
                if len(x[0]) + len(y[0]) + bool(x[1]) + bool(y[1]) > 2:
                    # spelled as a sum of products
                    for p, m in [*x[0].items(), (None, x[1])]:
                        for q, n in [*y[0].items(), (None, y[1])]:
                            c = k * m * n
                            if not c:
                                continue
                            if p is None and q is None:
                                acc[1] += c
                                continue
                            z = p if q is None else q if p is None else X.binop("Mul", p, q)
                            acc[0][z] = acc[0].get(z, 0) + c
                            if not acc[0][z]:
                                del acc[0][z]
                    return acc
        if e.op == "bin" and e.d == "Shl":
            y = self.norm(e.a[1])
            if y.op == "const" and type(y.d) is int and y.d < 64:
                return self.lin(e.a[0], k << y.d, acc)
        acc[0][e] = acc[0].get(e, 0) + k
        if not acc[0][e]:
            del acc[0][e]
        return acc

    def norm(self, e):
        """the canonical spelling of e; casts that lose nothing are dropped"""
        for _ in range(20):
            c = self.C.canon(e)
            if is_cast(c) and self.widens(c):
                e = c.a[0]
                continue
            n = self.measured(c)
            if n is not None and n is not c:
                e = n
                continue
            return c
        return c

    def measured(self, c):
        if self.size is None or c in self.busy:
            return None
        if c.op in ("len", "cnt") and len(c.a) == 1 or c.op == "call" and c.d[0] == "len" and len(c.a) == 1:
            self.busy.add(c)
            try:
                n = self.size.of(c.a[0]) if c.op != "cnt" else self.size.turns(c.a[0], None, None, 0)
                return None if n is None else self.C.canon(n)
            finally:
                self.busy.discard(c)
        return None

    def bits(self, e):
        if is_cast(e):
            return BITS.get(cast_to(e))
        if e.op == "len" or e.op == "cnt" or e.op == "call" and e.d[0] == "len":
            return 60
        if e.op == "call" and last(e.d[0]) in ("ilog2", "leading_zeros", "trailing_zeros", "count_ones"):
            return 7
        t = self.C.T.of(e)
        return BITS.get(self.C.P.tystr(t)) if t is not None else None

    def signed(self, e):
        if is_cast(e):
            return cast_to(e)[:1] == "i"
        t = self.C.T.of(e)
        return t is not None and self.C.P.tystr(t)[:1] == "i"

    def widens(self, e):
        to, b = cast_to(e), self.bits(e.a[0])
        if to not in BITS:
            return False
        if b is None:
            # the integers of the code are word sized
            b = 64
        if self.signed(e.a[0]) and to[0] == "u":
            return False
        if to[0] == "i" and BITS[to] == b and ("w", e) not in self.busy:
            self.busy.add(("w", e))
            try:
                if self.proves(e.a[0], const(1 << (b - 1)), 1, 1):
                    return True
            finally:
                self.busy.discard(("w", e))
        return BITS[to] - (to[0] == "i") >= b or BITS[to] >= b and to[0] == "i" and b <= 63

    # ------------------------------------------------------------ constraints

    def le(self, a, b, s=0):
        """a <= b - s as a constraint (sum of terms <= 0)"""
        t = self.lin(a)
        self.lin(b, -1, t)
        return [t[0], t[1] + s]

    def facts(self):
        if self.base is None:
            self.base = []
            for c, v in list(self.C.facts.items()):
                while c.op == "not":
                    c, v = c.a[0], not v
                if type(v) is not bool or c.op != "bin":
                    continue
                for a, b, s in below(c, v):
                    self.base.append(self.le(a, b, s))
                d = c.d if v else {"Eq": "Ne", "Ne": "Eq"}.get(c.d)
                if d == "Ne":
                    for a, b in (c.a, c.a[::-1]):
                        b = self.norm(b)
                        if b.op == "const" and b.d == 0 and not self.signed(a):
                            self.base.append(self.le(const(1), a))
        return self.base

    def about(self, x):
        """constraints every value of this kind satisfies"""
        if x in self.atoms:
            return self.atoms[x]
        r = self.atoms[x] = []
        if not self.signed(x):
            r.append([{x: -1}, 0])
            b = self.bits(x)
            if b:
                r.append([{x: 1}, 1 - (1 << b)])
        one, a = const(1), x.a
        if x.op == "idx" and a[0].op == "it" and a[0].d in ("range", "rangei", "rangefrom"):
            it = a[0]
            r.append(self.le(it.a[0], x))
            if len(it.a) > 1:
                r.append(self.le(x, it.a[1], 1 if it.d == "range" else 0))
        elif x.op == "pos":
            its = self.ip.pulled.get(x.d, ())
            ns = [self.size.turns(i, None, x.d, 0) for i in its] if self.size else []
            if ns and all(n is not None and self.C.canon(n) is self.C.canon(ns[0]) for n in ns):
                r.append(self.le(x, ns[0], 1))
        elif x.op == "bin":
            y = self.norm(a[1]) if len(a) > 1 else None
            k = y.d if y is not None and y.op == "const" and type(y.d) is int else None
            if x.d == "Shr" and k is not None and k < 64:
                k = 1 << k
            if x.d == "Mul" and self.signed(x) and ("m", x) not in self.busy:
                self.busy.add(("m", x))
                if all(self.proves(const(0), z, 0, 1) for z in a):
                    r.append(self.le(const(0), x))
                self.busy.discard(("m", x))
            if x.d in ("Div", "Shr"):
                if k:
                    t = self.lin(a[0], -1)
                    t[0][x] = t[0].get(x, 0) + k
                    r.append(t)
                    t = self.lin(a[0])
                    t[0][x] = t[0].get(x, 0) - k
                    r.append([t[0], t[1] - k + 1])
                else:
                    r.append(self.le(x, a[0]))
            elif x.d == "Rem":
                if self.odd(x):
                    r.append(self.le(one, x))
                r.append(self.le(x, a[1], 1))
                r.append(self.le(x, a[0]))
                if k:
                    # a = k * (a / k) + a % k
                    for g in (1, -1):
                        t = self.lin(a[0], -g)
                        self.lin(mk("bin", "Div", (a[0], a[1])), g * k, t)
                        t[0][x] = t[0].get(x, 0) + g
                        r.append(t)
            elif x.d == "BitAnd":
                if self.odd(x):
                    r.append(self.le(one, x))
                r += [self.le(x, a[0]), self.le(x, a[1])]
            elif x.d == "BitOr":
                r += [self.le(a[0], x), self.le(a[1], x), self.le(x, mk("bin", "Add", a))]
            elif x.d == "Shl" and self.norm(a[0]) is one:
                r.append(self.le(one, x))
                for g in list(self.logs()):
                    # 1 << l with l < log2(y)
                    if self.proves(a[1], g, 1, 1):
                        t = self.lin(g.a[0], -1)
                        t[0][x] = t[0].get(x, 0) + 2
                        r.append(t)
                    elif self.proves(a[1], g, 0, 1):
                        r.append(self.le(x, g.a[0]))
        elif x.op == "phi":
            if self.odd(x):
                r.append(self.le(one, x))
            r += self.kept_below(x)
        elif x.op == "call":
            n = last(x.d[0])
            if n == "min" and len(a) == 2:
                r += [self.le(x, a[0]), self.le(x, a[1])]
            elif n == "max" and len(a) == 2:
                r += [self.le(a[0], x), self.le(a[1], x)]
            elif n == "saturating_sub":
                r += [self.le(x, a[0]), self.le(mk("bin", "Sub", a), x)]
            elif n == "next_power_of_two":
                r.append(self.le(a[0], x))
                r.append(self.le(one, x))
            elif n in ("leading_zeros", "trailing_zeros", "count_ones"):
                r.append(self.le(x, const(64)))
                if n == "leading_zeros" and len(a) == 1:
                    for k in (3, 1, 0):
                        if self.proves(const(1 << k), a[0], 0, 1):
                            r.append(self.le(x, const(63 - k)))
                            break
            elif n == "ilog2":
                r.append(self.le(x, const(63)))
                r.append(self.le(x, a[0], 1))
            elif n == "div_ceil":
                y = self.norm(a[1])
                r.append(self.le(x, a[0]))
                if y.op == "const" and type(y.d) is int and y.d > 0:
                    t = self.lin(a[0])
                    t[0][x] = t[0].get(x, 0) - y.d
                    r.append(t)
                    t = self.lin(a[0], -1)
                    t[0][x] = t[0].get(x, 0) + y.d
                    r.append([t[0], t[1] - y.d + 1])
        if self.axioms is not None:
            for p, q, s in self.axioms(self, x) or ():
                r.append(self.le(p, q, s))
        return r

    def kept_below(self, x):
        """bounds every value the merge point lets in respects"""
        if ("b", x) in self.busy:
            return []
        self.busy.add(("b", x))
        try:
            ins = [self.norm(v) for v in phi_ins(self.ip, x) if v is not x and v.op != "never"]
            r = []
            for v in ins:
                if v.op == "bin" and v.d == "BitAnd":
                    bs = [(y, 0) for y in v.a]
                elif v.op == "bin" and v.d == "Rem":
                    bs = [(v.a[1], 1)]
                else:
                    continue
                for b, s in bs:
                    if any(y is x for y in small(b)):
                        continue
                    if all(self.proves(w, b, s, 1) for w in ins):
                        r.append(self.le(x, b, s))
            return r
        finally:
            self.busy.discard(("b", x))

    def parity(self, e, hyp):
        """0, 1 or None"""
        e = self.norm(e)
        if e in hyp:
            return hyp[e]
        if e.op == "const":
            return e.d & 1 if type(e.d) is int else None
        r = self.parity_of(e, hyp)
        if r is not None:
            return r
        if e.op == "fld" and e.d in ("degree", "polynomial_degree"):
            t = self.C.T.adt(e.a[0])
            if t is not None and "::proto::" not in t:
                # powers of two
                return 0
        for c, v in self.C.facts.items():
            while c.op == "not":
                c, v = c.a[0], not v
            if type(v) is not bool:
                continue
            if c.op == "call" and last(c.d[0]) == "is_power_of_two" and v and self.norm(c.a[0]) is e and self.proves(const(2), e, 0, 1):
                return 0
            if c.op == "call" and last(c.d[0]) == "is_multiple_of" and len(c.a) == 2 and self.norm(c.a[0]) is e and c.a[1].op == "const" and c.a[1].d == 2:
                return 0 if v else 1
            if c.op == "bin" and c.d in ("Eq", "Ne"):
                for x, y in (c.a, c.a[::-1]):
                    x, y = self.norm(x), self.norm(y)
                    if y.op == "const" and y.d in (0, 1) and x.op == "bin" and (x.d == "BitAnd" and const(1) in [self.norm(z) for z in x.a] or x.d == "Rem" and self.norm(x.a[1]) is const(2)):
                        z = x.a[0] if self.norm(x.a[0]) is not const(1) else x.a[1]
                        if self.norm(z) is e:
                            return y.d if (c.d == "Eq") == v else 1 - y.d
        if e.op == "phi":
            for g in (1, 0):
                ins = [y for y in phi_ins(self.ip, e) if y is not e and y.op != "never"]
                if ins and all(self.parity(y, {**dict(hyp), e: g}) == g for y in ins):
                    return g
        return None

    def parity_of(self, e, hyp):
        p = lambda x: self.parity(x, hyp)
        if e.op == "bin":
            if e.d in ("Add", "Sub", "BitXor"):
                a, b = p(e.a[0]), p(e.a[1])
                return None if a is None or b is None else a ^ b
            if e.d in ("Mul", "BitAnd"):
                a, b = p(e.a[0]), p(e.a[1])
                return 0 if 0 in (a, b) else None if None in (a, b) else 1
            if e.d == "BitOr":
                a, b = p(e.a[0]), p(e.a[1])
                return 1 if 1 in (a, b) else None if None in (a, b) else 0
            if e.d == "Shl":
                k = self.norm(e.a[1])
                if k.op == "const" and k.d and k.d > 0:
                    return 0
            if e.d == "Rem" and p(e.a[1]) == 0:
                return p(e.a[0])
        return None

    def odd(self, e):
        if e in self.busy:
            return False
        self.busy.add(e)
        try:
            return self.parity(e, {}) == 1
        finally:
            self.busy.discard(e)

    def logs(self):
        seen = set()
        for t in list(self.facts()) + [[dict.fromkeys(self.atoms), 0]]:
            for x in t[0]:
                for y in small(x):
                    if y.op == "call" and last(y.d[0]) == "ilog2" and y not in seen:
                        seen.add(y)
                        yield y

    # ------------------------------------------------------------ the question

    def proves(self, x, y, s=0, depth=0):
        """x <= y - s on every execution of the path"""
        goal = self.le(y, x, 1 - s)
        return self.absurd(goal, depth)

    def impossible(self):
        """the facts of the path contradict each other"""
        return self.absurd([{}, 0], 0, everything=True)

    def absurd(self, goal, depth=0, everything=False):
        if not goal[0] and not everything:
            return goal[1] > 0
        cs = [goal]
        have, todo, n = set(goal[0]), list(goal[0]), 0
        pool = list(self.facts())
        if everything:
            cs += pool
            pool = []
            todo = [x for c in cs for x in c[0]]
            have = set(todo)
        while todo and n < 40:
            x = todo.pop(0)
            n += 1
            new = list(self.about(x))
            keep = []
            for c in pool:
                (new if x in c[0] else keep).append(c)
            pool = keep
            for c in new:
                cs.append(c)
                for y in c[0]:
                    if y not in have:
                        have.add(y)
                        todo.append(y)
        if depth < 1:
            cs += self.products(have)
        return eliminate(cs, self.limit)

    def products(self, atoms):
        """u <= v - s gives u * w <= v * w - s * w"""
        ps = [x for x in atoms if x.op == "bin" and x.d == "Mul"]
        r = []
        for p in ps[:8]:
            for q in ps[:8]:
                if p is q:
                    continue
                for i in (0, 1):
                    for j in (0, 1):
                        w = p.a[i]
                        if w is not q.a[j] or not self.proves(const(0), w, 0, 1):
                            continue
                        for s in (1, 0):
                            if self.proves(p.a[1 - i], q.a[1 - j], s, 1):
                                t = self.le(p, q)
                                self.lin(w, s, t)
                                r.append(t)
                                break
        return r


def tidy(c):
    t = {x: k for x, k in c[0].items() if k}
    if not t:
        return (frozenset(), c[1])
    g = 0
    for k in t.values():
        g = gcd(g, k)
    if g > 1:
        # sum(k*x) <= -c over the integers
        t = {x: k // g for x, k in t.items()}
        return (frozenset(t.items()), -((-c[1]) // g))
    return (frozenset(t.items()), c[1])


def eliminate(cs, limit):
    """the constraints have no common solution"""
    best = {}

    def put(best, c):
        t, k = tidy(c)
        if not t:
            return k > 0
        if t not in best or best[t] < k:
            best[t] = k
        return False
    for c in cs:
        if put(best, c):
            return True
    while best:
        pos, neg = {}, {}
        for t in best:
            for x, k in t:
                (pos if k > 0 else neg).setdefault(x, []).append(t)
        xs = set(pos) | set(neg)
        x = min(xs, key=lambda x: (len(pos.get(x, ())) * len(neg.get(x, ())), repr_key(x)))
        new = {}
        gone = set(pos.get(x, ())) | set(neg.get(x, ()))
        for t, k in best.items():
            if t not in gone:
                new[t] = k
        for p in pos.get(x, ()):
            dp = dict(p)
            for q in neg.get(x, ()):
                dq = dict(q)
                a, b = dp[x], -dq[x]
                r = {}
                for y, k in dp.items():
                    r[y] = r.get(y, 0) + b * k
                for y, k in dq.items():
                    r[y] = r.get(y, 0) + a * k
                r.pop(x, None)
                if put(new, (r, b * best[p] + a * best[q])):
                    return True
        if len(new) > limit:
            return False
        best = new
    return False


def repr_key(x):
    return id(x)
