"""Interprocedural, context-sensitive abstract interpretation of the MIR facts.

State = memory (root -> value) + guard facts (condition -> bool) that hold on the current path.
States at a program point are partitioned by the known variant / boolean of live locals; inside a
partition values are merged to phi nodes and guard facts are intersected.  Calls to workspace
functions are inlined (unless the policy makes them opaque), calls to the standard library are
modelled in sa.models, everything else is an opaque function of its (dereferenced) arguments.
"""
from .expr import *
from . import expr as X
from .mir import strip_generics, PEEL, STD_ENUMS
import re

IDENT_OWNERS = {
    "alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull",
    "core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop",
    "core::mem::maybe_dangling::MaybeDangling", "zeroize::Zeroizing",
}
MAXPART = 40
MAXITER = 60


class Out:
    __slots__ = ("val", "mem", "facts")

    def __init__(self, val, mem, facts):
        self.val = val
        self.mem = mem
        self.facts = facts


class St:
    __slots__ = ("mem", "facts", "raw")

    def __init__(self, mem, facts, raw=None):
        self.mem = mem
        self.facts = facts
        self.raw = raw  # facts before they were restated at a back edge

    def copy(self):
        return St(dict(self.mem), dict(self.facts))


class Ev:
    __slots__ = ("kind", "name", "key", "fn", "line", "ctx", "blk", "args", "st", "ret", "callee", "info")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def where(self):
        return "%s:%s" % (self.fn.file, self.line)

    def __repr__(self):
        return "<Ev %s %s in %s %s>" % (self.kind, self.name, self.fn.name, self.where())


class Policy:
    """what to inline; which calls to record"""

    max_depth = 14
    record = ()  # further library calls to record as events, by model key
    arith = ()  # arithmetic operations to record as events
    part_fields = ()
    errmark = False  # call decided() / assumed() whenever a state commits to a condition / a variant of a value
    split = 0  # keep paths with different facts apart, up to that many per point

    def decided(self, ip, st, c, val):
        """st commits to condition c having value val"""
        if c.op == "is":
            self.assumed(ip, st, c, val)

    def inline(self, fn, ctx):
        return True

    def want(self, key, name, callee):
        return True

    def drops(self):
        return False

    # hook: called for opaque workspace calls; may return list of (E, facts_to_add) to refine outcomes
    def opaque_result(self, ip, st, name, callee, callE, argv):
        return None


class Budget(Exception):
    pass


class Interp:
    def __init__(self, P, policy=None, max_steps=400000):
        self.P = P
        self.policy = policy or Policy()
        self.phi_in = {}
        self.edge_facts = {}
        self.heads = {}
        self.kept = set()
        self.collapsed = {}
        self.mergepts = {}
        self.pulled = {}  # iteration site -> {iterator seen there: facts common to its paths}
        self.pstack = ()
        self.kid = {}
        self.sticky = {}
        self.memo = {}
        self.promo = {}
        self.fnid = {}
        self.fnof = []
        self.steps = 0
        self.max_steps = max_steps
        self.events = []
        self.incomplete = []
        self.loopcache = {}
        self.frames = {}  # ctx -> function
        self.fnq = {}  # library functions used as values
        self.cur = None  # (frame, block) being executed
        self.inlined = set()
        self.tsub = {}
        from . import models
        self.models = models

    # ------------------------------------------------------------ entry
    def fid(self, fn):
        i = self.fnid.get(fn.h)
        if i is None:
            i = self.fnid[fn.h] = len(self.fnof)
            self.fnof.append(fn)
        return i

    def tparam(self, ctx, name):
        """what a generic parameter stands for in a frame: ADT path, or an opaque token"""
        for n in range(len(ctx), 0, -1):
            m = self.tsub.get(ctx[:n])
            if m is not None:
                return m.get(name, "<%s>" % name if n == 1 else "<%s@%d>" % (name, hash(ctx[:n])))
        return "<%s>" % name

    def tname(self, ctx, t):
        ty = self.P.ty(t)
        if ty["k"] == "param":
            return self.tparam(ctx, ty["n"])
        if ty["k"] == "adt" and not [a for a in ty.get("a", []) if isinstance(a, int)]:
            return ty["p"]
        return ty["s"]

    def set_tsub(self, ctx, fn, fr, q):
        if not fn.gp:
            self.tsub[ctx] = {}
            return
        a = q.get("ra") if q.get("rh") == fn.h else q.get("a") if q.get("h") == fn.h else None
        m = {}
        if a is not None and len(a) == len(fn.gp):
            for n, t in zip(fn.gp, a):
                m[n] = self.tname(fr.ctx, t) if isinstance(t, int) else str(t)
        self.tsub[ctx] = m

    def run_entry(self, fn, args=None, facts=None, mem=None, tsub=None):
        """analyse fn with symbolic arguments; returns (outs, events)"""
        self.tsub[(self.fid(fn),)] = dict(tsub or {})
        P = self.P
        mem = dict(mem or {})
        argv = []
        b = fn.body
        for i in range(b.argc):
            if args is not None and i < len(args) and args[i] is not None:
                argv.append(args[i])
                continue
            t = P.ty(b.locals[i + 1])
            n = b.names.get(i + 1, "arg%d" % i)
            a = mk("arg", (i, n))
            if t["k"] in ("ref", "ptr"):
                root = ("A", i)
                mem.setdefault(root, a)
                argv.append(ref(root, (), bool(t.get("m"))))
            else:
                argv.append(a)
        outs, evs = self.exec_fn(fn, argv, mem, dict(facts or {}), (self.fid(fn),))
        self.events = evs
        return outs, evs

    # ------------------------------------------------------------ memory
    def root_val(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "A":
                v = mk("arg", (root[1], "arg%d" % root[1]))
            elif root[0] == "D":
                v = root[1]
            elif root[0] == "L":
                v = mk("undef", root[2])
            else:
                v = mk("undef", str(root))
        return v

    def read_addr(self, st, root, path):
        v = self.root_val(st, root)
        for c in path:
            if v.op == "ref":
                v = self.read_addr(st, v.d[0], v.d[1])
            v = proj(v, c)
        return v

    def deref(self, st, e):
        """value behind e (one reference level)"""
        if e.op == "ref":
            return self.read_addr(st, e.d[0], e.d[1])
        return e

    def deref_all(self, st, e):
        n = 0
        while e.op == "ref" and n < 12:
            e = self.read_addr(st, e.d[0], e.d[1])
            n += 1
        return e

    def snap(self, st, e, memo=None, depth=0):
        """replace references by the values they point to"""
        if not e.hr:
            return e
        if memo is None:
            memo = {}
        r = memo.get(e)
        if r is not None:
            return r
        if depth > 40:
            return mk("deep", None, ())
        if e.op == "ref":
            r = self.snap(st, self.read_addr(st, e.d[0], e.d[1]), memo, depth + 1)
        else:
            a = tuple(self.snap(st, x, memo, depth + 1) for x in e.a)
            if e.op == "with":
                c = tuple(self.snap(st, x, memo, depth + 1) if isinstance(x, E) else x for x in e.d)
                r = mk("with", c, a)
            elif e.op == "fld":
                r = proj(a[0], ("f", e.d))
            elif e.op == "vfld":
                r = proj(a[0], ("v",) + e.d)
            elif e.op == "idx":
                r = X.index(a[0], a[1])
            else:
                r = mk(e.op, e.d, a)
        memo[e] = r
        return r

    def store_addr(self, st, root, path, val):
        base = self.root_val(st, root)
        # a reference stored inside the path: follow it
        v = base
        for i, c in enumerate(path):
            if v.op == "ref":
                return self.store_addr(st, v.d[0], v.d[1] + path[i:], val)
            if i < len(path):
                v = proj(v, c)
        st.mem[root] = X.write(base, path, val)

    def mutrefs(self, st, e, out, seen):
        """addresses reachable from e through mutable references"""
        if not e.hr or e in seen:
            return
        seen.add(e)
        if e.op == "ref":
            if e.d[2]:
                out.append((e.d[0], e.d[1]))
            self.mutrefs(st, self.read_addr(st, e.d[0], e.d[1]), out, seen)
            return
        for x in e.a:
            self.mutrefs(st, x, out, seen)

    def box_source(self, body, local):
        """the place a temporary copy of a box was taken from"""
        m = getattr(body, "boxcopies", None)
        if m is None:
            m, n = {}, {}
            for b in body.blocks:
                for s in b["s"]:
                    if s[0] == "=" and not s[1][1]:
                        n[s[1][0]] = n.get(s[1][0], 0) + 1
                        if s[2][0] == "use" and s[2][1][0] == "cp" and self.P.ty(body.locals[s[1][0]]).get("p") == "alloc::boxed::Box":
                            m[s[1][0]] = s[2][1][1]
            m = {k: v for k, v in m.items() if n[k] == 1}
            body.boxcopies = m
        return m.get(local)

    def addr(self, st, fr, place):
        root = ("L", fr.ctx, place[0])
        path = ()
        for c in place[1]:
            if c == "*":
                v = self.read_addr(st, root, path)
                if v.op == "ref":
                    root, path = v.d[0], v.d[1]
                elif v.op in ("phi", "call", "fld", "vfld", "idx", "after", "arg", "join") and not path and root[0] == "L":
                    # pointer-like value we do not know: give it a pseudo heap cell
                    t = self.P.ty(fr.body.locals[place[0]])
                    if t["k"] in ("ref", "ptr"):
                        root, path = ("D", v), ()
            elif c[0] == "f":
                if c[3] in IDENT_OWNERS:
                    continue
                name = c[2] if (c[3] and c[3] != "closure") else str(c[1])
                if path and path[-1][0] == "d":
                    path = path[:-1] + (("v", path[-1][1], name),)
                else:
                    path = path + (("f", name),)
            elif c[0] == "i":
                iv = self.read_addr(st, ("L", fr.ctx, c[1]), ())
                path = path + (("i", iv),)
            elif c[0] == "c":
                if c[2]:
                    path = path + (("x", "fromend", c[1]),)
                else:
                    path = path + (("i", const(c[1])),)
            elif c[0] == "s":
                path = path + (("x", "sub", str(c)),)
            elif c[0] == "d":
                path = path + (("d", c[2]),)
        if path and path[-1][0] == "d":
            path = path[:-1]
        path = tuple(c for c in path if c[0] != "d")
        return root, path

    def read_place(self, st, fr, place):
        root, path = self.addr(st, fr, place)
        return self.read_addr(st, root, path)

    # ------------------------------------------------------------ operands / rvalues
    def operand(self, st, fr, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read_place(st, fr, o[1])
        if k == "k":
            return self.constant(st, fr, o[1])
        return mk("rtc", str(o[1:]))

    def ctor(self, q):
        """(type, variant, fields) of a tuple constructor used as a function"""
        a, _, v = strip_generics(q["p"]).rpartition("::")
        if v in ("Some", "Ok", "Err") and a in ("core::option::Option", "core::result::Result"):
            return (a, v, ("0",))
        ad = self.P.adts.get(a)
        for w in ad["vs"] if ad else ():
            if w["n"] == v:
                return (a, v, tuple(f["n"] for f in w["f"]))
        ad = self.P.adts.get(a + "::" + v)
        if ad and ad["kind"] == "struct":
            return (a + "::" + v, None, tuple(f["n"] for f in ad["vs"][0]["f"]))
        return None

    def constant(self, st, fr, c):
        if "fn" in c:
            q = c["fn"]
            h = q.get("rh") or q["h"]
            if h not in self.P.fns:
                n = self.ctor(q)
                if n is not None:
                    return mk("ctor", n)
                h = h + repr(q.get("ra") or q.get("a"))
                self.fnq[h] = q
            return mk("fn", h)
        if c.get("promoted") is not None and c.get("dh") in self.P.fns:
            return self.promoted(st, self.P.fns[c["dh"]], c["promoted"], fr)
        if "v" in c:
            v = c["v"]
            t = self.P.ty(c["t"])["s"]
            if t == "bool":
                return TRUE if v in ("1", "true") else FALSE
            try:
                return const(int(v))
            except ValueError:
                return const(v)
        if "def" in c and c.get("ct") and c.get("ca"):
            a = self.tname(fr.ctx, c["ca"][0]) if isinstance(c["ca"][0], int) else str(c["ca"][0])
            f = self.P.assoc_consts.get((a, c["ct"], c["def"].rsplit("::", 1)[-1]))
            if f is not None and len(f.body.blocks) <= 6:
                r = self.promoted(st, f, None, fr)
                if r is not None:
                    return r
            return mk("const", "def:<%s as %s>" % (a, c["def"]))
        if "def" in c:
            if c.get("dh") in self.P.fns and c.get("promoted") is None:
                f = self.P.fns[c["dh"]]
                if f.kind == "const" and len(f.body.blocks) <= 6:
                    r = self.promoted(st, f, None, fr)
                    if r is not None:
                        return r
            return mk("const", "def:" + c["def"])
        t = self.P.ty(c["t"])
        if t["k"] == "tuple" and not t.get("a"):
            return UNIT
        if t["k"] == "closure":
            return mk("clos", t.get("h"), ())
        return const(c.get("s", "?"))

    def promoted(self, st, fn, idx, fr):
        ts = ()
        if idx is not None and fn.gp:
            ts = tuple((n, self.tparam(fr.ctx, n)) for n in fn.gp)
        key = (fn.h, idx, ts)
        root = ("P", fn.h, idx, ts)
        if key not in self.promo:
            self.promo[key] = mk("const", "promoted:%s:%s" % (fn.name, idx))
            try:
                body = fn.body if idx is None else fn.proms[idx]
            except IndexError:
                body = None
            if body is not None:
                sub = (("P", fn.h, idx, ts),)
                self.tsub[sub] = dict(ts)
                outs, _ = self.exec_body(fn, body, [], {}, {}, sub)
                if len(outs) == 1:
                    o = outs[0]
                    self.promo[key] = self.snap(St(o.mem, {}), o.val)
        v = self.promo[key]
        if idx is None:
            return v
        st.mem[root] = v
        return ref(root)

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "rep":
            return mk("fill", None, (self.operand(st, fr, r[1]),))
        if k in ("ref", "raw"):
            root, path = self.addr(st, fr, r[2])
            v = None
            return ref(root, path, r[1] == "mut")
        if k == "cast":
            if r[1] == "BoxDerefTransmute" and r[2][0] in ("cp", "mv") and r[2][1][1] and r[2][1][1][-1][:2] == ["f", 0]:
                # a pointer to what the box holds
                src = self.box_source(fr.body, r[2][1][0]) if len(r[2][1][1]) == 1 else None
                root, path = self.addr(st, fr, src or [r[2][1][0], r[2][1][1][:-1]])
                return ref(root, path, True)
            v = self.operand(st, fr, r[2])
            if r[1] in ("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat"):
                if v.op == "const":
                    return v
                return mk("cast", self.P.tystr(r[3]), (v,))
            return v
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            op = r[1]
            if op.endswith("WithOverflow"):
                op = op[: -len("WithOverflow")]
                return tup(X.binop(op, a, b), FALSE)
            if op.endswith("Unchecked"):
                op = op[: -len("Unchecked")]
            return X.binop(op, a, b)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not" and self.is_bool(fr, r[2]):
                return bnot(a)
            if r[1] == "PtrMetadata":
                return self.models.length(self, st, self.deref_all(st, a))
            return mk("un", r[1], (a,))
        if k == "disc":
            v = self.read_place(st, fr, r[1])
            v = self.deref_all(st, v)
            t = self.place_ty(fr.body, r[1])
            adt = None
            if t is not None:
                adt = self.P.adt_of(t)
            var = is_variant(v)
            if var is not None:
                vs = self.P.variants(v.d[0])
                if vs and var in vs:
                    return const(vs.index(var))
            return mk("disc", adt, (v,))
        if k == "agg":
            a = [self.operand(st, fr, o) for o in r[2]]
            kk = r[1]["k"]
            if kk == "adt":
                p = r[1]["p"]
                if p in IDENT_OWNERS and a:
                    return a[0]
                vs = self.P.variants(p)
                vn = r[1]["vn"] if vs is not None else None
                if r[1].get("union"):
                    return a[0] if a else UNIT
                return struct(p, vn, r[1]["fs"], a)
            if kk == "tuple":
                return tup(*a)
            if kk == "array":
                return mk("arr", None, tuple(a))
            if kk == "closure":
                c = mk("clos", r[1]["h"], tuple(a))
                if self.P.keeps_state(r[1]["h"]):
                    # what it captured by value and changes lives from one call to the next
                    root = ("K", fr.ctx, r[1]["h"])
                    st.mem[root] = c
                    return ref(root, (), True)
                return c
            if kk in ("rawptr",) and a:
                return a[0]
            return mk("agg", kk, tuple(a))
        if k == "tls":
            return mk("tls", str(r[1:]))
        return mk("rv", str(k))

    def is_bool(self, fr, o):
        t = None
        if o[0] in ("cp", "mv"):
            t = self.place_ty(fr.body, o[1])
        elif o[0] == "k":
            t = o[1]["t"]
        return t is not None and self.P.tystr(t) == "bool"

    def place_ty(self, body, place):
        P = self.P
        t = body.locals[place[0]]
        var = None
        for c in place[1]:
            ty = P.ty(t)
            if c == "*":
                if ty["k"] in ("ref", "ptr"):
                    t = ty["e"]
                elif ty["k"] == "adt" and ty.get("a"):
                    n = [a for a in ty["a"] if isinstance(a, int)]
                    if not n:
                        return None
                    t = n[0]
                else:
                    return None
            elif c[0] == "d":
                var = c[2]
            elif c[0] == "f":
                r = None
                if ty["k"] == "tuple":
                    n = [a for a in ty["a"] if isinstance(a, int)]
                    r = n[c[1]] if c[1] < len(n) else None
                elif ty["k"] == "adt":
                    n = [a for a in ty.get("a", []) if isinstance(a, int)]
                    p = ty["p"]
                    if p == "core::option::Option":
                        r = n[0]
                    elif p == "core::result::Result":
                        r = n[0] if var == "Ok" else n[1]
                    elif p == "core::ops::control_flow::ControlFlow":
                        r = n[0] if var == "Break" else n[1]
                    elif p in IDENT_OWNERS and n:
                        r = t
                    elif p in P.adts:
                        a = P.adts[p]
                        for v in a["vs"]:
                            if var is None or v["n"] == var:
                                if c[1] < len(v["f"]):
                                    r = v["f"][c[1]]["t"]
                                break
                var = None
                if r is None:
                    return None
                t = r
            elif c[0] in ("i", "c"):
                if ty["k"] in ("array", "slice"):
                    t = ty["e"]
                elif ty["k"] == "adt" and ty.get("a"):
                    t = ty["a"][0]
                else:
                    return None
            elif c[0] == "s":
                pass
        return t

    # ------------------------------------------------------------ facts
    def holds(self, facts, c):
        """True/False if decided by facts, else None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == "not":
            r = self.holds(facts, c.a[0])
            return None if r is None else not r
        r = facts.get(c)
        if r is not None:
            return r
        if c.op == "is":
            v = is_variant(c.a[0])
            if v is not None:
                return v == c.d
            # another variant known
            for k in facts_of_variant(facts, c.a[0]):
                return k == c.d
        if c.op == "bin" and c.d in ("BitAnd", "BitOr"):
            a, b = self.holds(facts, c.a[0]), self.holds(facts, c.a[1])
            if c.d == "BitAnd":
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            else:
                if a or b:
                    return True
                if a is False and b is False:
                    return False
        if c.op == "bin" and c.d == "Lt":
            # a<b known false if b<a or a==b known
            if facts.get(mk("bin", "Lt", (c.a[1], c.a[0]))) is True:
                return False
            if facts.get(X.eq(c.a[0], c.a[1])) is True:
                return False
        if c.op == "bin" and c.d == "Eq":
            x, y = c.a
            if x.op == "const":
                x, y = y, x
            if y.op == "const":
                for k, v in facts.items():
                    if v is True and k.op == "bin" and k.d == "Eq" and x in k.a:
                        o = k.a[1] if k.a[0] is x else k.a[0]
                        if o.op == "const" and o is not y and type(o.d) is int and type(y.d) is int:
                            return False
                if facts.get(mk("bin", "Lt", (x, y))) is True or facts.get(mk("bin", "Lt", (y, x))) is True:
                    return False
        return None

    def assume(self, st, c, val):
        """returns refined state or None if infeasible"""
        if c.op == "not":
            return self.assume(st, c.a[0], not val)
        h = self.holds(st.facts, c)
        if h is not None:
            return st if h == val else None
        f = dict(st.facts)
        self._add(f, c, val)
        st2 = St(st.mem, f)
        if self.policy.errmark:
            self.policy.decided(self, st2, c, val)
        return st2

    def _add(self, f, c, val):
        if c.op == "not":
            return self._add(f, c.a[0], not val)
        if c is TRUE or c is FALSE:
            return
        f[c] = val
        if c.op == "bin" and c.d == "BitAnd" and val:
            self._add(f, c.a[0], True)
            self._add(f, c.a[1], True)
        if c.op == "bin" and c.d == "BitOr" and not val:
            self._add(f, c.a[0], False)
            self._add(f, c.a[1], False)
        if c.op == "call" and c.d[0] == "ptr_eq" and val:
            e = X.eq(c.a[0], c.a[1])
            if e is not TRUE:
                self._add(f, e, True)

    # ------------------------------------------------------------ function execution
    def exec_fn(self, fn, argv, mem, facts, ctx):
        key = (fn.h, tuple(argv), frozenset(mem.items()), frozenset(facts.items()))
        m = self.memo.get(ctx)
        if m is not None and m[0] == key:
            return m[1]
        self.inlined.add(fn.h)
        r = self.exec_body(fn, fn.body, argv, mem, facts, ctx)
        self.memo[ctx] = (key, r)
        return r

    def exec_body(self, fn, body, argv, mem, facts, ctx):
        fr = Frame()
        fr.fn = fn
        fr.body = body
        fr.ctx = ctx
        mem = dict(mem)
        for i, a in enumerate(argv):
            mem[("L", ctx, i + 1)] = a
        rpo = body.rpo()
        order = {b: i for i, b in enumerate(rpo)}
        loops = body.loops()
        live = body.live_in()
        incoming = {b: {} for b in rpo}  # (pred, key) -> St
        processed = {}  # (b,key) -> (mem, facts)
        blkout = {}  # b -> {key: [(succ, St)]}
        bev = {}
        bouts = {}
        incoming[0][("entry", (), 0)] = St(mem, facts)
        self.frames[ctx] = fn
        import heapq
        work = [0]
        inwork = {0}
        heap = [order[0]]
        niter = {}
        inloop = set()
        for h, bl in loops.items():
            inloop |= set(bl) | {h}
        fr.loops = loops
        fr.order = order
        while heap:
            oi = heapq.heappop(heap)
            b = rpo[oi]
            if b not in inwork:
                continue
            inwork.discard(b)
            niter[b] = niter.get(b, 0) + 1
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("step budget exhausted in %s" % fn.name)
            groups = {}
            lv = sorted(live[b])
            split = self.policy.split
            for ek, st in incoming[b].items():
                k = self.pkey(st, ctx, lv, body)
                if split:
                    # outside loops: the facts; inside: those the outermost loop was entered with
                    if b in inloop and ek[1] and any(ek[0] in bl and (b in bl or b == h) for h, bl in loops.items()):
                        k = k + (ek[1][-1],)
                    else:
                        k = k + ("s%d" % self.kid.setdefault(frozenset(st.facts.items()), len(self.kid)),)
                groups.setdefault(k, []).append((ek, st))
            if split and len(groups) > self.policy.split:
                # too many: back to the ordinary partitions
                coarse = {}
                for k, l in groups.items():
                    coarse.setdefault(k[:-1], []).extend(l)
                groups = coarse
            if len(groups) > max(self.policy.split, MAXPART) or niter[b] > MAXITER:
                allst = [x for g in groups.values() for x in g]
                groups = {(): allst}
                if niter[b] > MAXITER + 30:
                    self.incomplete.append((fn.name, "no fixpoint at block %d" % b))
                    continue
            newout = {}
            changed_keys = False
            nev = {}
            nouts = {}
            for key, lst in groups.items():
                st = self.merge(fr, b, key, lst, loops.get(b))
                sig = (st.mem, st.facts)
                old = processed.get((b, key))
                if old is not None and old[0] == st.mem and old[1] == st.facts:
                    newout[key] = blkout[b][key]
                    nev[key] = bev[b][key]
                    if b in bouts and key in bouts[b]:
                        nouts[key] = bouts[b][key]
                    continue
                processed[(b, key)] = (dict(st.mem), dict(st.facts))
                evs = []
                outs = []
                self.pstack = self.pstack + (key,)
                newout[key] = self.run_block(fr, b, st.copy(), evs, outs)
                self.pstack = self.pstack[:-1]
                nev[key] = evs
                if outs:
                    nouts[key] = outs
            for k in list(processed):
                if k[0] == b and k[1] not in groups:
                    del processed[k]
            blkout[b] = newout
            bev[b] = nev
            bouts[b] = nouts
            # push to successors
            per = {}
            for key, lst in newout.items():
                cnt = {}
                for s, st in lst:
                    n = cnt.get(s, 0)
                    cnt[s] = n + 1
                    per.setdefault(s, {})[(b, key, n)] = st
            for s in set(body.succ()[b]):
                new = per.get(s, {})
                inc = incoming[s]
                old = {k: v for k, v in inc.items() if k[0] == b}
                ch = False
                for k in old:
                    if k not in new:
                        del inc[k]
                        ch = True
                for k, v in new.items():
                    v = self.edge(fr, b, s, v)
                    o = old.get(k)
                    if o is None or o.mem != v.mem or o.facts != v.facts:
                        inc[k] = v
                        ch = True
                if ch and inc and s not in inwork:
                    inwork.add(s)
                    heapq.heappush(heap, order[s])
                elif ch and not inc:
                    # became unreachable: clear
                    blkout.pop(s, None)
                    bev.pop(s, None)
                    bouts.pop(s, None)
        events = []
        for b in rpo:
            for k, e in bev.get(b, {}).items():
                events.extend(e)
        outs = []
        for b in rpo:
            for k, o in bouts.get(b, {}).items():
                outs.extend(o)
        outs = self.group_outs(fr, outs)
        return outs, events

    def pkey(self, st, ctx, lv, body):
        r = []
        pf = self.policy.part_fields
        for l in lv:
            v = st.mem.get(("L", ctx, l))
            if v is None:
                continue
            if v.op == "fn" or v.op == "clos" and not v.a:
                r.append((l, v.d))
                continue
            if pf:
                w = v.a[0] if v.op == "struct" and v.d[1] in ("Ok", "Some") and v.a else v
                for f in pf:
                    x = None
                    if w.op == "struct" and f in w.d[2]:
                        x = w.a[w.d[2].index(f)]
                    elif w.op == "with":
                        x = proj(w, ("f", f))
                    if x is TRUE or x is FALSE:
                        r.append((l, f, x.d))
            if v is TRUE or v is FALSE:
                r.append((l, v.d))
            elif v.op == "struct" and v.d[1] is not None:
                vv = v.d[1]
                if v.a and v.a[0].op == "struct" and v.a[0].d[1] is not None:
                    vv = vv + "." + v.a[0].d[1]
                elif v.a and v.a[0].op == "const" and type(v.a[0].d) is bool:
                    vv = vv + "." + str(v.a[0].d)
                r.append((l, vv))
        return tuple(r)

    def edge(self, fr, b, s, st):
        """adjust facts on a CFG edge: loop back edges rename, loop exits strip unproven element facts"""
        facts = st.facts
        lv, bo = fr.body.live_in()[s], fr.body.borrowed()
        kill = [r for r in st.mem if r[0] == "L" and r[1] == fr.ctx and r[2] not in lv and r[2] not in bo]
        if kill:
            st = St({r: v for r, v in st.mem.items() if not (r[0] == "L" and r[1] == fr.ctx and r[2] not in lv and r[2] not in bo)}, st.facts)
        for h, blocks in fr.loops.items():
            if b in blocks and s == h:
                inner = set()
                for h2, bl2 in fr.loops.items():
                    if h2 != h and h2 in blocks:
                        inner |= set(bl2)
                facts = self.rename_back(fr.ctx, (h, frozenset(blocks)), facts, inner)
            elif b in blocks and s not in blocks:
                facts = self.strip_exit(fr.ctx, blocks, facts)
        if facts is not st.facts:
            st = St(st.mem, facts, st.facts)
        return st

    @staticmethod
    def in_loop(ctx, blocks, site):
        n = len(ctx)
        return len(site) > n and site[:n] == ctx and site[n] in blocks

    @staticmethod
    def own_site(ctx, site, inner):
        tail = site[len(ctx):]
        if len(tail) == 1:
            return not (inner and tail[0] in inner)
        return len(tail) == 2 and tail[1] == "n" and isinstance(tail[0], str)

    def rename_back(self, ctx, hb, facts, inner=None):
        """facts at a loop back edge, restated for 'every element visited so far'"""
        h, blocks = hb
        out = {}
        for c, v in facts.items():
            if not c.sites:
                out[c] = v
                continue
            m = None
            drop = False
            old = None
            for kind, site in c.sites:
                if not self.in_loop(ctx, blocks, site):
                    continue
                if kind in ("phi", "call"):
                    drop = True
                    break
                if kind == "exh":
                    if v is True and c.op == "exhausted" and not self.own_site(ctx, site, inner):
                        out[mk("xexh", site)] = True
                    drop = True
                    break
                if kind == "xexh":
                    # established again in this iteration, or gone
                    drop = mk("exhausted", site) not in facts
                    break
                if kind == "pos":
                    if m is None:
                        m = {}
                    m[("pos", site)] = mk("each", site)
                if kind == "each" and self.own_site(ctx, site, inner):
                    old = site
            if drop:
                continue
            if old is not None:
                continue  # only what this iteration established for its element is restated
            if m:
                c = subst(c, m)
            out[c] = v
        return out

    def strip_exit(self, ctx, blocks, facts):
        out = None
        for c, v in facts.items():
            for kind, site in c.sites:
                if kind == "each" and self.in_loop(ctx, blocks, site):
                    if mk("exhausted", site) not in facts and mk("xexh", site) not in facts:
                        if out is None:
                            out = dict(facts)
                        out.pop(c, None)
                        break
        return out if out is not None else facts

    def group_outs(self, fr, outs):
        groups = {}
        for i, o in enumerate(outs):
            k = self.outkey(o.val)
            if self.policy.split:
                k = (k, frozenset(o.facts.items()))
            groups.setdefault(k, []).append((("o", i, 0), St({**o.mem, "ret": o.val}, o.facts)))
        if self.policy.split and len(groups) > self.policy.split:
            coarse = {}
            for k, l in groups.items():
                coarse.setdefault(k[0], []).extend(l)
            groups = coarse
        if len(groups) > max(self.policy.split, MAXPART):
            groups = {(): [x for g in groups.values() for x in g]}
        r = []
        for k, lst in groups.items():
            st = self.merge(fr, "ret", k, lst, None)
            val = st.mem.pop("ret")
            r.append(Out(val, st.mem, st.facts))
        return r

    def outkey(self, v):
        k = self.outkey0(v)
        pf = self.policy.part_fields
        if pf:
            w = v.a[0] if v.op == "struct" and v.d[1] in ("Ok", "Some") and v.a else v
            if w.op == "struct" or w.op == "with":
                for f in pf:
                    x = proj(w, ("f", f)) if w.op == "with" or f in w.d[2] else None
                    if x is TRUE or x is FALSE:
                        k = (k, f, x.d)
        return k

    @staticmethod
    def outkey0(v):
        if v is TRUE or v is FALSE:
            return v.d
        if v.op == "struct" and v.d[1] is not None:
            k = v.d[1]
            if v.a and v.a[0].op == "struct" and v.a[0].d[1] is not None:
                k += "." + v.a[0].d[1]
            elif v.a and v.a[0].op == "const" and type(v.a[0].d) is bool:
                k += "." + str(v.a[0].d)
            return k
        return ""

    # ------------------------------------------------------------ merging
    def merge(self, fr, b, key, lst, loop):
        """lst: [(edgekey, St)]"""
        ctx = fr.ctx
        skey = (ctx, b, key)
        if loop is not None:
            self.heading = ctx + (b,)
            self.heads.setdefault((ctx, b), {})[key, self.pstack] = [(ek, st) for ek, st in lst if ek[0] in loop]
        sticky = self.sticky.setdefault(skey + (self.pstack,), set()) if loop is not None else None
        if len(lst) == 1 and not sticky and (loop is None or not any(self.iterated(v, ctx, loop) for v in lst[0][1].mem.values())):
            return lst[0][1]
        lst = sorted(lst, key=lambda x: (str(x[0][0]), str(x[0][1]), x[0][2]))
        roots = None
        for _, st in lst:
            ks = set(st.mem)
            roots = ks if roots is None else roots & ks
        mem = {}
        pkey_ = key if not any(self.pstack) else (key, self.pstack)
        mems = [(ek, st) for ek, st in lst]
        for root in roots:
            vals = [(ek, st.mem[root], st) for ek, st in mems]
            if loop is not None:
                for _, v, _ in vals:
                    if self.iterated(v, ctx, loop):
                        self.turn = (ctx, loop)
                        break
            mem[root] = self.merge_val(vals, (ctx + (b,), pkey_, root), (), sticky)
            self.turn = None
        # facts
        if loop is not None:
            back = [st for ek, st in lst if ek[0] in loop]
            entry = [st for ek, st in lst if ek[0] not in loop]
        else:
            back, entry = [], [st for _, st in lst]
        facts = None
        for st in entry:
            facts = dict(st.facts) if facts is None else {c: v for c, v in facts.items() if st.facts.get(c) is v}
        if back:
            fb = None
            for st in back:
                fb = dict(st.facts) if fb is None else {c: v for c, v in fb.items() if st.facts.get(c) is v or self.vacuous(st, c, ctx, loop)}
                # facts about elements this path did not visit
            if facts is None:
                facts = fb
            else:
                new = {c: v for c, v in facts.items() if fb.get(c) is v}
                for c, v in fb.items():
                    if c not in new and c not in facts and any(k in ("each", "xexh") and self.in_loop(ctx, loop, s) for k, s in c.sites):
                        new[c] = v
                # entry facts about elements of this loop (from an outer iteration) must also survive the body
                facts = new
        return St(mem, facts or {})

    turn = None

    def iterated(self, v, ctx, loop):
        """v names something of one iteration of the loop: at its head that is the iteration before"""
        return any(k in ("pos", "call") and self.in_loop(ctx, loop, s) for k, s in v.sites) or any(self.in_loop(ctx, loop, s) and s != self.heading for s in self.merges_in(v))

    heading = None

    def merges_in(self, v):
        """where the merged values v is made of are merged"""
        r = self.mergepts.get(v)
        if r is None:
            st, r = [v], None
            while st:
                x = st[-1]
                if x in self.mergepts:
                    st.pop()
                    continue
                kids = list(x.a)
                if x.op == "with" and isinstance(x.d, tuple):
                    kids += [z for z in x.d if isinstance(z, E)]
                todo = [k for k in kids if k not in self.mergepts]
                if todo:
                    st += todo
                    continue
                st.pop()
                r = frozenset().union(*[self.mergepts[k] for k in kids])
                if x.op == "phi" and isinstance(x.d[0], tuple):
                    r |= {x.d[0]}
                self.mergepts[x] = r
            r = self.mergepts[v]
        return r

    def vacuous(self, st, c, ctx, loop):
        return False

    def merge_val(self, vals, base, path, sticky):
        v0 = vals[0][1]
        pid = base + (path,)
        if sticky is not None and pid in sticky:
            return self.phi(pid, vals)
        stale = self.turn is not None and self.iterated(v0, *self.turn)
        if all(v is v0 for _, v, _ in vals) and not (stale and v0.op not in SHAPES):
            return v0
        ops = {v.op for _, v, _ in vals}
        if any(v is TRUE or v is FALSE for _, v, _ in vals):
            cand = [v for _, v, _ in vals if v is not TRUE and v is not FALSE]
            for c in cand[:1]:
                if all(v is c or v is TRUE and self.holds(st.facts, c) is True or v is FALSE and self.holds(st.facts, c) is False for _, v, st in vals):
                    return c
        if ops == {"struct"} and len({v.d for _, v, _ in vals}) == 1 or (ops == {"tup"} or ops == {"arr"}) and len({len(v.a) for _, v, _ in vals}) == 1 and len(v0.a) < 40 \
                or ops == {"clos"} and len({v.d for _, v, _ in vals}) == 1 or ops == {"it"} and len({(v.d, len(v.a)) for _, v, _ in vals}) == 1:
            args = []
            for i in range(len(v0.a)):
                args.append(self.merge_val([(ek, v.a[i], st) for ek, v, st in vals], base, path + (i,), sticky))
            return mk(v0.op, v0.d, tuple(args))
        if ops == {"ref"}:
            if len({(v.d[0], v.d[1]) for _, v, _ in vals}) == 1:
                return ref(v0.d[0], v0.d[1], any(v.d[2] for _, v, _ in vals))
        if "with" in ops or ops == {"with"}:
            dec = [self.overlay(v) for _, v, _ in vals]
            bases = {d[0] for d in dec}
            if len(bases) == 1:
                bs = dec[0][0]
                comps = []
                for d in dec:
                    for c in d[1]:
                        if c not in comps:
                            comps.append(c)
                if all(c[0] == "f" for c in comps):
                    r = bs
                    for c in sorted(comps):
                        vs = [(ek, d[1].get(c, None) or proj(bs, c), st) for (ek, _, st), d in zip(vals, dec)]
                        r = X.write(r, (c,), self.merge_val(vs, base, path + (c,), sticky))
                    return r
        # struct vs overlay on something else, or anything else
        if sticky is not None:
            sticky.add(pid)
        return self.phi(pid, vals)

    @staticmethod
    def overlay(v):
        comps = {}
        while v.op == "with" and v.d[0] == "f":
            comps.setdefault(v.d, v.a[1])
            v = v.a[0]
        return v, comps

    def phi(self, pid, vals):
        e = mk("phi", pid)
        ins = {}
        refs = False
        for ek, v, st in vals:
            if v.hr:
                if v.op == "ref":
                    refs = True
                v = self.snap(st, v)
            ins[ek] = v
            self.edge_facts[pid[0], pid[1], self.pstack, ek] = st.facts if st.raw is None else st.raw
        # the same merge point reached from different partitions of the callers: all of their values
        old = self.phi_in.get(e)
        if old is None:
            self.phi_in[e] = {(self.pstack, ek): v for ek, v in ins.items()}
        else:
            new = {k: v for k, v in old.items() if k[0] != self.pstack}
            new.update({(self.pstack, ek): v for ek, v in ins.items()})
            self.phi_in[e] = new
        nonself = {v for v in ins.values() if v is not e}
        if len(nonself) == 1 and old is not None and not refs and e not in self.kept:
            # merged only because an earlier round brought an outdated value
            x = next(iter(nonself))
            if x.op != "const" and not x.hr and not (self.turn is not None and self.iterated(x, *self.turn)) and all(v is x or v is e for _, v, _ in vals) and e not in deps_of(x):
                n = self.collapsed.get(e, 0)
                if n < 4:
                    self.collapsed[e] = n + 1
                    return x
                self.kept.add(e)
        if refs and all(v.op == "ref" for _, v, _ in vals if v is not e):
            return ref(("D", e), (), any(v.d[2] for _, v, _ in vals if v.op == "ref"))
        return e

    # ------------------------------------------------------------ blocks
    def run_block(self, fr, b, st, evs, outs):
        blk = fr.body.blocks[b]
        fr.b = b
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                if self.policy.arith and s[2][0] in ("bin", "un") and s[2][1].removesuffix("WithOverflow") in self.policy.arith:
                    evs.append(Ev(kind="arith", name=s[2][1].removesuffix("WithOverflow"), key="arith", fn=fr.fn, line=None, ctx=fr.ctx, blk=b,
                                  args=tuple(self.operand(st, fr, o) for o in s[2][2:]), st=st, info=self.place_ty(fr.body, s[1])))
                v = self.rvalue(st, fr, s[2])
                place = s[1]
                if place[1]:
                    root, path = self.addr(st, fr, place)
                    self.store_addr(st, root, path, v)
                    if root[0] != "L":
                        self.note_store(fr, b, s, root, path, v, st, evs)
                else:
                    st.mem[("L", fr.ctx, place[0])] = v
            elif k == "dead":
                st.mem.pop(("L", fr.ctx, s[1]), None)
        t = blk["t"]
        k = t[0]
        self.cur = fr, b
        if k == "goto":
            return [(t[1], st)]
        if k == "drop":
            if self.policy.drops():
                root, path = self.addr(st, fr, t[1])
                evs.append(Ev(kind="drop", name="drop", key="drop", fn=fr.fn, line=None, ctx=fr.ctx, blk=b, args=(self.read_addr(st, root, path),), st=st, info=(root, path, t[3])))
            return [(t[2], st)]
        if k == "ret":
            val = st.mem.get(("L", fr.ctx, 0), UNIT)
            n = fr.ctx
            if val.hr:
                pass
            mem = {r: v for r, v in st.mem.items() if not (r[0] == "L" and r[1] == n)}
            val = self.detach(st, val, n)
            for r, v in list(mem.items()):
                if v.hr:
                    mem[r] = self.detach(st, v, n)
            outs.append(Out(val, mem, st.facts))
            return []
        if k == "switch":
            return self.switch(fr, b, st, t)
        if k == "assert":
            c = self.operand(st, fr, t[1])
            if not t[2]:
                c = bnot(c)
            evs.append(Ev(kind="assert", name=t[3], key="assert", fn=fr.fn, line=t[6] if len(t) > 6 else None, ctx=fr.ctx, blk=b,
                          args=tuple(self.operand(st, fr, o) for o in t[4]), st=st, info=c))
            s2 = self.assume(st, c, True)
            if s2 is None:
                return []
            return [(t[5], s2)]
        if k == "call":
            return self.call(fr, b, st, t, evs, outs)
        return []

    def detach(self, st, v, ctx):
        """references to dying locals become the values themselves"""
        if not v.hr:
            return v
        if v.op == "ref":
            if v.d[0][0] == "L" and v.d[0][1] == ctx:
                return self.detach(st, self.read_addr(st, v.d[0], v.d[1]), ctx)
            return v
        a = tuple(self.detach(st, x, ctx) for x in v.a)
        return mk(v.op, v.d, a)

    def note_store(self, fr, b, s, root, path, v, st, evs):
        last = None
        for c in reversed(path):
            if c[0] in ("f", "v"):
                last = c[-1]
                break
        if self.policy.want("store", last, None):
            evs.append(Ev(kind="store", name=last, key="store", fn=fr.fn, line=s[3], ctx=fr.ctx, blk=b, args=(v,), st=None, info=(root, path)))

    def switch(self, fr, b, st, t):
        v = self.operand(st, fr, t[1])
        isb = self.P.tystr(t[4]) == "bool"
        r = []
        if isb:
            tgt = {}
            for val, bb in t[2]:
                tgt[bool(int(val))] = bb
            for val in (True, False):
                if val not in tgt:
                    tgt[val] = t[3]
            for val in (True, False):
                s2 = self.assume(st, v, val)
                if s2 is not None:
                    r.append((tgt[val], s2 if s2 is not st else st.copy()))
            return r
        if v.op == "disc":
            x = v.a[0]
            vs = self.P.variants(v.d) if v.d else None
            seen = []
            s_else = st
            for val, bb in t[2]:
                name = vs[int(val)] if vs and int(val) < len(vs) else "#%s" % val
                seen.append(name)
                s2 = self.assume(st, mk("is", name, (x,)), True)
                if s2 is not None:
                    r.append((bb, s2 if s2 is not st else st.copy()))
                if s_else is not None:
                    s_else = self.assume(s_else, mk("is", name, (x,)), False)
            if s_else is not None and vs:
                rest = [n for n in vs if n not in seen]
                if not rest:
                    s_else = None
                elif len(rest) == 1:
                    s_else = self.assume(s_else, mk("is", rest[0], (x,)), True)
            if s_else is not None:
                r.append((t[3], s_else if s_else is not st else st.copy()))
            return r
        s_else = st
        for val, bb in t[2]:
            c = X.eq(v, const(int(val)))
            s2 = self.assume(st, c, True)
            if s2 is not None:
                r.append((bb, s2 if s2 is not st else st.copy()))
            if s_else is not None:
                s_else = self.assume(s_else, c, False)
        if s_else is not None:
            r.append((t[3], s_else if s_else is not st else st.copy()))
        return r

    # ------------------------------------------------------------ calls
    def call(self, fr, b, st, t, evs, outs):
        fo, args, dest, target, line = t[1], t[2], t[3], t[4], t[5]
        argv = [self.operand(st, fr, a) for a in args]
        site = fr.ctx + (b,)
        if fo[0] == "k" and "fn" in fo[1]:
            q = fo[1]["fn"]
            self.cur_dest = self.place_ty(fr.body, dest) if target is not None else None
            res = self.do_call(fr, b, st, q, argv, site, line, evs, target)
        else:
            f = self.operand(st, fr, fo)
            res = self.call_value(st, f, argv, site, line, evs, fr, b)
        if target is None:
            return []
        r = []
        for val, s2 in res:
            if s2 is st and len(res) > 1:
                s2 = st.copy()
            elif s2 is not st:
                s2 = s2.copy()
            root, path = self.addr(s2, fr, dest)
            self.store_addr(s2, root, path, val)
            r.append((target, s2))
        return r

    def returns_ref(self, q):
        f = self.cur_dest
        return f is not None and self.P.ty(f)["k"] in ("ref", "ptr")

    def call_value(self, st, f, argv, site, line, evs, fr, b, tag=()):
        """call a function value (closure / fn item / unknown); argv is the list of arguments"""
        g = f
        if g.op == "ref":
            g = self.deref_all(st, g)
        if g.op == "fn" and g.d in self.P.fns:
            return self.call_fn(st, self.P.fns[g.d], argv, site + tag, line, evs, fr, b)
        if g.op == "clos" and g.d in self.P.fns:
            fn = self.P.fns[g.d]
            t = self.P.ty(fn.body.locals[1])
            if t["k"] == "ref":
                if f.op == "ref":
                    env = f
                    while True:
                        n = self.deref(st, env)
                        if n.op != "ref":
                            break
                        env = n
                    croot = None
                else:
                    croot = ("C", site + tag)
                    st = st.copy()
                    st.mem[croot] = g
                    env = ref(croot, (), True)
            else:
                env = g
                croot = None
            n = fn.body.argc - 1
            if len(argv) != n:
                argv = (list(argv) + [mk("undef", "carg")] * n)[:n]
            return self.call_fn(st, fn, [env] + list(argv), site + tag, line, evs, fr, b, closure=True)
        if g.op == "fn" and g.d in self.fnq:
            dest, self.cur_dest = self.cur_dest, None
            r = self.do_call(fr, b, st, self.fnq[g.d], list(argv), site + tag, line, evs, True)
            self.cur_dest = dest
            return r
        if g.op == "ctor":
            return [(struct(g.d[0], g.d[1], g.d[2], argv), st)]
        return self.opaque(st, "<indirect>", None, [f] + list(argv), site + tag, line, evs, fr, b)

    def depth(self, ctx):
        return sum(1 for x in ctx if isinstance(x, int)) // 2

    def call_fn(self, st, fn, argv, site, line, evs, fr, b, closure=False, force=False, q=None):
        fid = self.fid(fn)
        ctx = site + ("f%d" % fid,)
        if not closure:
            self.set_tsub(ctx, fn, fr, q or {})
        if not force and ("f%d" % fid in site or fid == site[0] and not closure or sum(1 for x in site if isinstance(x, str) and x[0] == "f") > self.policy.max_depth):
            return self.opaque(st, fn.name, fn, argv, site, line, evs, fr, b)
        outs, ev = self.exec_fn(fn, argv, st.mem, st.facts, ctx)
        evs.extend(ev)
        return [(o.val, St(o.mem, o.facts)) for o in outs]

    def opaque(self, st, name, callee, argv, site, line, evs, fr, b, extra=None, pure=False):
        memo = {}
        snaps = tuple(self.snap(st, a, memo) for a in argv)
        muts = []
        if not pure:
            seen = set()
            for a in argv:
                self.mutrefs(st, a, muts, seen)
        impure = bool(muts) or name in self.models.IMPURE
        ce = X.call(name, site if impure else None, snaps, extra)
        st2 = st
        direct = {(a.d[0], a.d[1]): i for i, a in enumerate(argv) if a.op == "ref" and a.d[2]}
        if muts:
            st2 = st.copy()
            done = set()
            for root, path in muts:
                if (root, path) in done:
                    continue
                done.add((root, path))
                old = self.snap(st, self.read_addr(st, root, path), memo)
                i = direct.get((root, path), -1)
                self.store_addr(st2, root, path, mk("after", i, (ce, old)))
        if self.policy.want(name, name, callee):
            evs.append(Ev(kind="call", name=name, key=name, fn=fr.fn, line=line, ctx=fr.ctx, blk=b, args=snaps, st=st, ret=ce, callee=callee, info=argv))
        alt = self.policy.opaque_result(self, st2, name, callee, ce, argv)
        if alt is not None:
            return alt
        return [(ce, st2)]

    def resolve(self, q, st, argv):
        """workspace function for a fn reference, or None"""
        P = self.P
        for k in ("rh", "h"):
            h = q.get(k)
            if h in P.fns:
                f = P.fns[h]
                if k == "h" and q.get("trait") and f.intrait and not q.get("rh"):
                    # default method of a trait, unresolved self: try impls by value
                    g = self.by_value(q, st, argv)
                    return g or f
                return f
        if q.get("trait") and not q.get("rh"):
            return self.by_value(q, st, argv)
        return None

    def by_value(self, q, st, argv):
        c = self.P.impl_of.get(q["h"], [])
        if not c:
            return None
        if argv:
            v = self.deref_all(st, argv[0])
            if v.op == "struct":
                m = [f for f in c if self.P.adt_of(f.self_ty) == v.d[0]]
                if len(m) == 1:
                    return m[0]
        return None

    def do_call(self, fr, b, st, q, argv, site, line, evs, target):
        P = self.P
        name = strip_generics(q["p"])
        callee = self.resolve(q, st, argv)
        mkey = self.models.key(name)
        trait = q.get("trait")
        self.q = q
        if self.policy.want(mkey, name, callee) and (mkey in self.models.RECORD or mkey in self.policy.record):
            evs.append(Ev(kind="std", name=name, key=mkey, fn=fr.fn, line=line, ctx=fr.ctx, blk=b, args=tuple(argv), st=st, info=q))
        if callee is not None and mkey in ("FnOnce::call_once", "Fn::call", "FnMut::call_mut") and callee.kind == "closure":
            callee = None
        if callee is not None:
            # canonical treatment of Clone / PartialEq irrespective of how they are implemented
            if callee.trait in ("core::clone::Clone",) and callee.sname == "clone":
                return [(self.models.clone_val(self, st, argv[0]), st)]
            if callee.trait == "core::cmp::PartialEq" and callee.sname in ("eq", "ne"):
                return self.models.m_eq(self, st, argv, callee.sname == "ne")
            if callee.body is not None and self.policy.inline(callee, fr.ctx):
                r = self.call_fn(st, callee, argv, site, line, evs, fr, b, q=q)
                if self.policy.want("inlined", callee.name, callee):
                    evs.append(Ev(kind="inlined", name=callee.name, key=callee.name, fn=fr.fn, line=line, ctx=fr.ctx, blk=b, args=tuple(argv), st=st, ret=r, callee=callee))
                return r
            return self.opaque(st, callee.name, callee, argv, site, line, evs, fr, b)
        m = self.models.MODELS.get(mkey)
        if m is not None:
            c = Call()
            c.ip, c.fr, c.b, c.st, c.q, c.argv, c.site, c.line, c.evs, c.key, c.name = self, fr, b, st, q, argv, site, line, evs, mkey, name
            r = m(c)
            if r is not None:
                return r
        if target is None:
            evs.append(Ev(kind="panic", name=name, key=mkey, fn=fr.fn, line=line, ctx=fr.ctx, blk=b, args=tuple(argv), st=st))
            return []
        if argv and argv[0].op == "ref" and argv[0].d[2] and self.returns_ref(q):
            # a mutable place inside the receiver
            evs_n = len(evs)
            a = self.models.base_ref_of(self, st, argv[0])
            idx = tuple(self.snap(st, x) for x in argv[1:])
            return [(ref(a.d[0], a.d[1] + (("x", mkey) + idx,), True) if a.op == "ref" else a, st)]
        return self.opaque(st, name, None, argv, site, line, evs, fr, b, pure=mkey in self.models.PURE)

    # ------------------------------------------------------------ pseudo loops over iterators
    def drive(self, c, itv, body, tag="d", store_it=None):
        """abstractly iterate: body(item, st) -> list of ("next", None, st) | ("stop", val, st).
        returns (exhausted_states, stops)"""
        ctx = c.site + (tag,)
        blocks = _All()
        st0 = c.st
        back = {}
        key = ("drive",)
        loopfr = Frame()
        loopfr.ctx = ctx
        n = 0
        prev = None
        site = ctx + ("n",)
        while True:
            n += 1
            lst = [(("entry", (), 0), st0)] + [((1, k, 0), s) for k, s in back.items()]
            h = self.merge(loopfr, "h", key, lst, _Back()) if back else st0
            if prev is not None and prev.mem == h.mem and prev.facts == h.facts or n > 8:
                break
            prev = h
            stops = []
            newback = []
            for item, s in self.models.pull(self, c, h, itv, site):
                if item is None:
                    newback.append(s)
                    continue
                for kind, val, s2 in body(item, s):
                    if kind == "next":
                        newback.append(s2)
                    else:
                        stops.append((val, s2))
            back = {}
            for i, s in enumerate(newback):
                back[i] = St(s.mem, self.rename_back(ctx[:-1], (None, {tag}), s.facts), s.facts)
        f = dict(prev.facts)
        f[mk("exhausted", site)] = True
        self.last_site = site
        n = len(ctx)
        out = []
        for val, s in stops:
            # left early: nothing is known about all elements
            g = {c: v for c, v in s.facts.items() if not any(k == "each" and sx[:n] == ctx for k, sx in c.sites)}
            out.append((val, St(s.mem, g)))
        return [St(prev.mem, f)], out


class _All:
    def __contains__(self, x):
        return True


def deps_of(x):
    """every value written inside x"""
    seen, st = set(), [x]
    while st:
        y = st.pop()
        if y not in seen:
            seen.add(y)
            st.extend(y.a)
            if y.op == "with" and isinstance(y.d, tuple):
                st.extend(z for z in y.d if isinstance(z, E))
    return seen


SHAPES = ("ref", "fn")


class _Back:
    """edge classifier for drive(): back edges carry pred id 1; sites: everything below the drive ctx"""

    def __contains__(self, x):
        return x != "entry" and x != "undef"


class Frame:
    pass


class Call:
    pass


def facts_of_variant(facts, x):
    for n in ("Some", "None", "Ok", "Err", "Continue", "Break"):
        if facts.get(mk("is", n, (x,))) is True:
            yield n
