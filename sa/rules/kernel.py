"""Indices of loops whose bounds are doubled or halved each round (the transforms' kernels): for every size a power of
two, the loop-control scalars are tabulated round by round and indices are linear forms over the elements of the inner
counted loops."""
from ..fhe import *
from ..mir import PEEL

W = 1 << 64
ROUNDS = 68
BIN = {"Add": lambda a, b: (a + b) % W, "Sub": lambda a, b: (a - b) % W, "Mul": lambda a, b: a * b % W,
       "Shl": lambda a, b: (a << (b & 63)) % W, "Shr": lambda a, b: a >> (b & 63), "Div": lambda a, b: a // b if b else None,
       "Rem": lambda a, b: a % b if b else None, "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b}
CMP = {"Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b,
       "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b}


class Form(dict):
    def key(self):
        return tuple(sorted(((id(k) if k is not None else 0), v) for k, v in self.items() if v))

    def num(self):
        return self.get(None, 0) if all(k is None or not v for k, v in self.items()) else None

    def plus(self, o, c=1):
        r = Form(self)
        for k, v in o.items():
            r[k] = r.get(k, 0) + c * v
        return Form({k: v for k, v in r.items() if v or k is None})

    def times(self, c):
        return Form({k: v * c for k, v in self.items()})


def C_(n):
    return Form({None: n})


class Rounds:
    """one outer loop driven by no iterator, with counted loops inside"""

    def __init__(self, ip, ctx, body, leaf, inside):
        """leaf: expression -> number or None; inside: heads of the loops around the place looked at, outermost first"""
        self.ip, self.ctx, self.leaf = ip, ctx, leaf
        self.loops = body.loops()
        self.preds = body
        self.inside = inside
        self.env = {}
        self.open = set()

    def counted(self, h):
        return self.ctx + (h,) in self.ip.pulled

    def iterator(self, h):
        r = list(self.ip.pulled[self.ctx + (h,)])
        return r[-1] if r else None

    def ev(self, x):
        if x in self.env:
            return self.env[x]
        n = self.leaf(x)
        if n is not None:
            return C_(n)
        if x.op == "const":
            return C_(x.d) if isinstance(x.d, int) and not isinstance(x.d, bool) else None
        if x.op == "cast":
            return self.ev(x.a[0])
        if x.op == "bin" and x.d in BIN:
            a, b = self.ev(x.a[0]), self.ev(x.a[1])
            if a is None or b is None:
                return None
            m, n = a.num(), b.num()
            if m is not None and n is not None:
                r = BIN[x.d](m, n)
                return None if r is None else C_(r)
            if x.d == "Add":
                return a.plus(b)
            if x.d == "Sub":
                return a.plus(b, -1)
            if x.d == "Mul":
                if n is not None:
                    return a.times(n)
                if m is not None:
                    return b.times(m)
            if x.d == "Shl" and n is not None:
                return a.times(1 << (n & 63))
            return None
        if x.op == "call" and x.a and len(x.a) == 2 and x.d[0].rsplit("::", 1)[-1] in ("max", "min"):
            a, b = self.ev(x.a[0]), self.ev(x.a[1])
            if a is None or b is None or a.num() is None or b.num() is None:
                return None
            return C_((max if x.d[0].endswith("max") else min)(a.num(), b.num()))
        if x.op == "idx" and x.a[0].op == "it" and x.a[0].d == "range" and x.a[1].op in ("pos", "each"):
            return Form({x: 1, None: 0})
        if x.op == "phi":
            return self.phi(x)
        return None

    def bounds(self, v):
        it = v.a[0]
        return self.ev(it.a[0]), self.ev(it.a[1])

    def phi(self, x):
        if x in self.open:
            return None
        hd = x.d[0]
        if hd[:-1] != self.ctx:
            return None
        h = hd[-1]
        if h not in self.loops:
            return self.merge(x)
        if not self.counted(h):
            return None
        ins, back = [], []
        for k, v in self.ip.phi_in[x].items():
            (back if k[1][0] in self.loops[h] else ins).append(v)
        self.open.add(x)
        try:
            base = self.one(self.ev(v) for v in ins)
        finally:
            self.open.discard(x)
        if base is None:
            return None
        me = Form({x: 1, None: 0})
        sub = Rounds(self.ip, self.ctx, self.preds, self.leaf, self.inside)
        sub.env = dict(self.env)
        sub.env[x] = me
        step = self.one(sub.ev(v) for v in back)
        if step is None:
            return None
        step = step.plus(me, -1)
        c = step.num()
        if c is None:
            return None
        if c == 0:
            return base
        it = self.iterator(h)
        if it is None or it.op != "it" or it.d != "range":
            return None
        lo, hi = self.ev(it.a[0]), self.ev(it.a[1])
        if lo is None or hi is None:
            return None
        if h in self.inside:
            i = mk("idx", None, (it, mk("pos", self.ctx + (h,))))
            return base.plus(Form({i: c, None: 0})).plus(lo, -c)
        n = hi.plus(lo, -1)
        if n.num() is not None and n.num() < 0:
            n = C_(0)
        return base.plus(n, c)

    def merge(self, x):
        self.open.add(x)
        try:
            r = []
            for k, v in self.ip.phi_in[x].items():
                fs = self.ip.edge_facts.get((x.d[0], x.d[1], k[0], k[1]))
                if fs and any(self.holds(c) is (not b) for c, b in fs.items()):
                    continue
                r.append(self.ev(v))
            return self.one(r)
        finally:
            self.open.discard(x)

    @staticmethod
    def one(fs):
        r = None
        for f in fs:
            if f is None:
                return None
            if r is None:
                r = f
            elif r.plus(f, -1).key() != ():
                if r.plus(f, -1).num() != 0:
                    return None
        return r

    def holds(self, c):
        if c.op == "not":
            r = self.holds(c.a[0])
            return None if r is None else not r
        if c.op == "bin" and c.d in CMP:
            a, b = self.ev(c.a[0]), self.ev(c.a[1])
            if a is None or b is None or a.num() is None or b.num() is None:
                return None
            return CMP[c.d](a.num(), b.num())
        return None

    def extreme(self, f, up):
        """largest or smallest value of a form over the elements of the loops; None: unknown, "empty": none"""
        for _ in range(20):
            vs = [k for k, v in f.items() if k is not None and v]
            if not vs:
                return f.get(None, 0)
            bs = {}
            for v in vs:
                lo, hi = self.bounds(v)
                if lo is None or hi is None:
                    return None
                if lo.num() is not None and hi.num() is not None and hi.num() <= lo.num():
                    return "empty"
                bs[v] = lo, hi
            inner = [v for v in vs if not any(v in b for w in vs if w is not v for b in bs[w])]
            if not inner:
                return None
            v = inner[0]
            c = f[v]
            lo, hi = bs[v]
            e = hi.plus(C_(1), -1) if (c > 0) == up else lo
            f = Form({k: w for k, w in f.items() if k is not v}).plus(e, c)
        return None


def enclosing(body, b):
    return sorted((h for h, bl in body.loops().items() if b in bl), key=lambda h: -len(body.loops()[h]))


def decide(ip, fn_body, ctx, blk, facts, indices, lengths, leaf):
    """True: every index is in bounds and they differ, in every round; False: in some round one is not; None: unknown.
    lengths: expressions; leaf(x, N): value of x for transforms of N points"""
    inside = enclosing(fn_body, blk)
    outer = [h for h in inside if ctx + (h,) not in ip.pulled]
    if len(outer) > 1 or outer and inside[0] != outer[0]:
        return None
    verdict = True
    for n in range(3, 63):
        R = Rounds(ip, ctx, fn_body, lambda x: leaf(x, 1 << n), inside)
        ls = [R.ev(x) for x in lengths]
        if any(x is None or x.num() is None for x in ls):
            return None
        room = min(x.num() for x in ls)
        phis, conds = [], [(c, b) for c, b in facts.items()]
        for h in inside:
            if h in outer:
                continue
            ks = [k for k in ip.edge_facts if k[0] == ctx + (h,) and k[3][0] not in fn_body.loops()[h]]
            if len(ks) == 1:
                conds += list(ip.edge_facts[ks[0]].items())
        if outer:
            h = outer[0]
            loop = fn_body.loops()[h]
            phis = [p for p in ip.phi_in if p.d[0] == ctx + (h,)]
            start, step = {}, {}
            for p in phis:
                for k, v in ip.phi_in[p].items():
                    (step if k[1][0] in loop else start).setdefault(p, []).append(v)
            for p in list(phis):
                v = R.one(R.ev(v) for v in start.get(p, ()))
                if v is None or v.num() is None:
                    phis.remove(p)
                else:
                    start[p] = v
            env = {p: start[p] for p in phis}
        else:
            env = {}
        for rnd in range(ROUNDS):
            R.env = dict(env)
            hs = [(c, b, R.holds(c)) for c, b in conds]
            dead = [c for c, b, v in hs if v is (not b)]
            nxt = {}
            if outer:
                B = Rounds(ip, ctx, fn_body, R.leaf, [outer[0]])
                B.env = dict(env)
                for p in phis:
                    v = B.one(B.ev(v) for v in step.get(p, ()))
                    if v is not None and v.num() is not None:
                        nxt[p] = C_(v.num() % W)
            if not dead:
                fs = [R.ev(x) for x in indices]
                if any(f is None for f in fs):
                    return None
                for f in fs:
                    hi, lo = R.extreme(f, True), R.extreme(f, False)
                    if hi is None or lo is None:
                        return None
                    if hi == "empty" or lo == "empty":
                        continue
                    if hi >= room or lo < 0:
                        return False
                for i, f in enumerate(fs):
                    for g in fs[:i]:
                        d = f.plus(g, -1)
                        hi, lo = R.extreme(d, True), R.extreme(d, False)
                        if hi is None or lo is None:
                            return None
                        if hi != "empty" and lo != "empty" and not (lo > 0 or hi < 0):
                            return False if d.num() is not None else None
            if not outer:
                break
            if all(p in nxt and nxt[p].num() == env[p].num() for p in env):
                break
            env = nxt
        else:
            # the condition that keeps the loop going is false for good
            if not dead or not all(stuck(c, env, nxt) for c in dead[:1]):
                return None
    return verdict


def stuck(c, env, nxt):
    ps = [p for p in env if p in walk(c)]
    return all(p in nxt and nxt[p].num() == env[p].num() for p in ps)


def walk(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(x.a)
    return seen
