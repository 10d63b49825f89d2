"""Hash-consed symbolic values for the dataflow engine.

A value records where data came from (arguments, fields, elements, calls, merges); nothing is ever
executed and no solver is involved.  References are addresses (root, path); everything else is a tree.
"""

EMPTY = frozenset()


class E:
    __slots__ = ("op", "d", "a", "sites", "hr", "uid", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def _path_es(path):
    for c in path:
        for x in c[1:]:
            if isinstance(x, E):
                yield x


def mk(op, d=None, a=()):
    key = (op, d.__class__, d, a)
    e = _tab.get(key)
    if e is not None:
        return e
    e = E()
    e.op = op
    e.d = d
    e.a = a
    hr = op == "ref"
    s = EMPTY
    for x in a:
        if x.sites:
            s = s | x.sites if s else x.sites
        hr = hr or x.hr
    if op == "pos":
        s = s | {("pos", d)}
    elif op == "each":
        s = s | {("each", d)}
    elif op == "exhausted":
        s = s | {("exh", d)}
    elif op == "xexh":
        s = s | {("xexh", d)}
    elif op == "phi":
        s = s | {("phi", d[0])}
    elif op == "call" and d[1] is not None:
        s = s | {("call", d[1])}
    elif op == "ref":
        for x in _path_es(d[1]):
            s = s | x.sites
        if d[0][0] == "D":
            s = s | d[0][1].sites
    e.sites = s
    e.hr = hr
    _n[0] += 1
    e.uid = _n[0]
    _tab[key] = e
    return e


def const(v):
    return mk("const", v)


TRUE = const(True)
FALSE = const(False)
UNIT = mk("tup", None, ())


def call(name, site, args, extra=None):
    return mk("call", (name, site, extra), tuple(args))


def ref(root, path=(), mut=False):
    return mk("ref", (root, path, mut))


def struct(adt, variant, fields, args):
    return mk("struct", (adt, variant, tuple(fields)), tuple(args))


def some(x):
    return struct("core::option::Option", "Some", ("0",), (x,))


NONE = struct("core::option::Option", "None", (), ())


def ok(x):
    return struct("core::result::Result", "Ok", ("0",), (x,))


def err(x):
    return struct("core::result::Result", "Err", ("0",), (x,))


def tup(*xs):
    return mk("tup", None, tuple(xs))


def it(kind, *a):
    return mk("it", kind, tuple(a))


ENUM_ADTS = ("core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow")


def is_variant(x):
    """variant name when x is a known enum value, else None"""
    if x.op == "struct" and x.d[1] is not None:
        return x.d[1]
    return None


# ---------------------------------------------------------------- projection / update
# path components: ("f",name) ("v",variant,name) ("i",E) ("s",lo,hi) ("x",tag,...) opaque sub-place


def _same_comp(a, b):
    return a == b


def _disjoint(a, b):
    if a[0] == "f" and b[0] == "f":
        return a[1] != b[1]
    if a[0] == "i" and b[0] == "i":
        x, y = a[1], b[1]
        return x.op == "const" and y.op == "const" and x.d != y.d
    if a[0] == "v" and b[0] == "v":
        return a[1] != b[1] or a[2] != b[2]
    return False


def proj(base, c):
    k = c[0]
    op = base.op
    if k == "f":
        if op == "struct" and c[1] in base.d[2]:
            return base.a[base.d[2].index(c[1])]
        if op == "struct" and base.d[0] == "alloc::borrow::Cow":
            return proj(base.a[0], c)
        if op == "clos" and c[1].isdigit() and int(c[1]) < len(base.a):
            return base.a[int(c[1])]
        if op == "tup" and c[1].isdigit() and int(c[1]) < len(base.a):
            return base.a[int(c[1])]
        if op == "with":
            if base.d == c:
                return base.a[1]
            if _disjoint(base.d, c):
                return proj(base.a[0], c)
        return mk("fld", c[1], (base,))
    if k == "v":
        if op == "struct" and base.d[1] == c[1] and c[2] in base.d[2]:
            return base.a[base.d[2].index(c[2])]
        if op == "with":
            if base.d == c:
                return base.a[1]
            if _disjoint(base.d, c):
                return proj(base.a[0], c)
        return mk("vfld", (c[1], c[2]), (base,))
    if k == "i":
        return index(base, c[1])
    if k == "s":
        if op == "with" and base.d == c:
            return base.a[1]
        if c[1] is None and c[2] is None:
            return base
        return mk("slice", None, (base, c[1] or const(None), c[2] or const(None)))
    if k == "x":
        if op == "with" and base.d == c:
            return base.a[1]
        return mk("sub", tuple(x if not isinstance(x, E) else None for x in c[1:]), (base,) + tuple(x for x in c[1:] if isinstance(x, E)))
    raise AssertionError(c)


def index(base, i):
    op = base.op
    if op == "arr" and i.op == "const" and isinstance(i.d, int) and 0 <= i.d < len(base.a):
        return base.a[i.d]
    if op == "coll":
        r = subst(base.a[0], {("pos", base.d): i})
        pre = base.d[:-1]
        n = len(pre)
        if not (i.op == "pos" and i.d == base.d) and any(k == "call" and s[:n] == pre for k, s in r.sites):
            r = stamp(r, pre, i, {})
        return r
    if op == "fill":
        return base.a[0]
    if op == "with":
        c = ("i", i)
        if base.d == c:
            return base.a[1]
        if _disjoint(base.d, c):
            return index(base.a[0], i)
    if op == "push":
        pass
    if op == "call" and base.d[0] == "range":
        pass
    return mk("idx", None, (base, i))


def write(base, path, val):
    """functional update of base at path"""
    if not path:
        return val
    c = path[0]
    if len(path) > 1:
        val = write(proj(base, c), path[1:], val)
    op = base.op
    if c[0] == "f" and op in ("struct",) and c[1] in base.d[2]:
        i = base.d[2].index(c[1])
        return mk(op, base.d, base.a[:i] + (val,) + base.a[i + 1:])
    if c[0] == "v" and op == "struct" and base.d[1] == c[1] and c[2] in base.d[2]:
        i = base.d[2].index(c[2])
        return mk(op, base.d, base.a[:i] + (val,) + base.a[i + 1:])
    if c[0] == "f" and op in ("tup", "clos") and c[1].isdigit() and int(c[1]) < len(base.a):
        i = int(c[1])
        return mk(op, base.d, base.a[:i] + (val,) + base.a[i + 1:])
    if c[0] == "i" and op == "arr" and c[1].op == "const" and isinstance(c[1].d, int) and 0 <= c[1].d < len(base.a):
        i = c[1].d
        return mk(op, base.d, base.a[:i] + (val,) + base.a[i + 1:])
    # overlay; keep independent field overlays sorted so that order does not matter
    stack = []
    b = base
    while b.op == "with" and b.d != c and _disjoint(b.d, c):
        stack.append((b.d, b.a[1]))
        b = b.a[0]
    if b.op == "with" and b.d == c:
        b = b.a[0]
    else:
        if stack and c[0] not in ("f",):
            b = base
            stack = []
    if proj(b, c) is val and not stack:
        return b
    items = stack + [(c, val)]
    if all(x[0][0] == "f" for x in items):
        items.sort(key=lambda x: x[0][1])
    else:
        items = stack[::-1] + [(c, val)]
    for cc, vv in items:
        if proj(b, cc) is vv:
            continue
        b = mk("with", cc, (b, vv))
    return b


def subst(e, m, memo=None):
    """replace pos/phi leaves; keys of m: ("pos",site) etc -> E"""
    ks = m.keys()
    if not any(k in e.sites for k in ks):
        return e
    if memo is None:
        memo = {}
    r = memo.get(e)
    if r is not None:
        return r
    if e.op == "pos" and ("pos", e.d) in m:
        r = m[("pos", e.d)]
    elif e.op == "phi" and e in m:
        r = m[e]
    elif e.op == "ref":
        root, path, mut = e.d
        np_ = tuple(tuple(subst(x, m, memo) if isinstance(x, E) else x for x in c) for c in path)
        if root[0] == "D":
            root = ("D", subst(root[1], m, memo))
        r = ref(root, np_, mut)
    else:
        a = tuple(subst(x, m, memo) for x in e.a)
        if e.op == "idx":
            r = index(a[0], a[1])
        elif e.op == "fld":
            r = proj(a[0], ("f", e.d))
        elif e.op == "vfld":
            r = proj(a[0], ("v",) + e.d)
        elif e.op == "with":
            c = e.d
            c2 = tuple(subst(x, m, memo) if isinstance(x, E) else x for x in c)
            r = mk("with", c2, a)
        else:
            r = mk(e.op, e.d, a)
    memo[e] = r
    return r


def stamp(e, pre, i, memo):
    """results of the calls made while building a collection's element, for the element at i"""
    n = len(pre)
    if not any(k == "call" and s[:n] == pre for k, s in e.sites):
        return e
    r = memo.get(e)
    if r is not None:
        return r
    d = e.d
    if e.op == "call" and d[1] is not None and d[1][:n] == pre:
        d = (d[0], d[1] + (("@", i),)) + d[2:]
    elif e.op == "ref":
        return e
    r = mk(e.op, d, tuple(stamp(x, pre, i, memo) for x in e.a))
    memo[e] = r
    return r


def walk(e, f, seen=None):
    """pre-order over the DAG; f returns False to prune"""
    seen = seen if seen is not None else set()
    st = [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if f(x) is False:
            continue
        st.extend(x.a)


# ---------------------------------------------------------------- canonical booleans

NEG = {"Ne": "Eq", "Ge": "Lt", "Gt": "Le", "Le": "Lt"}


def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    return mk("not", None, (c,))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        if isinstance(a.d, (int, bool)) and isinstance(b.d, (int, bool)):
            return TRUE if int(a.d) == int(b.d) else FALSE
        if isinstance(a.d, str) and isinstance(b.d, str) and a.d.startswith('"') and b.d.startswith('"'):
            return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    va, vb = is_variant(a), is_variant(b)
    if va and vb and va != vb and a.d[0] == b.d[0]:
        return FALSE
    if a.uid > b.uid:
        a, b = b, a
    return mk("bin", "Eq", (a, b))


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "const" and b.op == "const" and isinstance(a.d, int) and isinstance(b.d, int):
        return TRUE if a.d < b.d else FALSE
    return mk("bin", "Lt", (a, b))


def binop(op, a, b):
    if op == "Eq":
        return eq(a, b)
    if op == "Ne":
        return bnot(eq(a, b))
    if op == "Lt":
        return lt(a, b)
    if op == "Gt":
        return lt(b, a)
    if op == "Ge":
        return bnot(lt(a, b))
    if op == "Le":
        return bnot(lt(b, a))
    if op in ("BitAnd", "BitOr"):
        for x, y in ((a, b), (b, a)):
            if x is TRUE:
                return y if op == "BitAnd" else TRUE
            if x is FALSE:
                return FALSE if op == "BitAnd" else y
        if a is b:
            return a
    if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and a.uid > b.uid:
        a, b = b, a
    if a.op == "const" and b.op == "const" and type(a.d) is int and type(b.d) is int:
        if op == "Add":
            return const(a.d + b.d)
        if op == "Sub" and a.d >= b.d:
            return const(a.d - b.d)
        if op == "Mul":
            return const(a.d * b.d)
    if op == "Sub" and b.op == "const" and b.d == 0:
        return a
    if op == "Add":
        for x, y in ((a, b), (b, a)):
            if x.op == "const" and x.d == 0 and type(x.d) is int:
                return y
        # (x - c) + c
    return mk("bin", op, (a, b))


def show(e, depth=6):
    if depth <= 0:
        return ".."
    o = e.op
    s = lambda x: show(x, depth - 1)
    if o == "arg":
        return str(e.d[1])
    if o == "const":
        return str(e.d)
    if o == "fld":
        return "%s.%s" % (s(e.a[0]), e.d)
    if o == "vfld":
        return "%s.%s.%s" % (s(e.a[0]), e.d[0], e.d[1])
    if o == "idx":
        return "%s[%s]" % (s(e.a[0]), s(e.a[1]))
    if o == "pos":
        return "#%s" % (e.d[-1],)
    if o == "each":
        return "*%s" % (e.d[-1],)
    if o == "phi":
        return "phi<%s>" % (",".join(map(str, e.d[0][-1:])) + ":" + str(e.d[2:]))
    if o == "struct":
        n = e.d[0].rsplit("::", 1)[-1]
        v = ("::" + e.d[1]) if e.d[1] else ""
        return "%s%s{%s}" % (n, v, ", ".join("%s:%s" % (f, s(x)) for f, x in zip(e.d[2], e.a)))
    if o == "tup":
        return "(%s)" % ", ".join(map(s, e.a))
    if o == "ref":
        r = e.d[0]
        return "&%s%s%s" % ("mut " if e.d[2] else "", "%s" % (r[0] + (str(r[2]) if r[0] == "L" else str(r[1]) if r[0] == "A" else "")), "".join("." + ",".join(str(y) for y in c[1:]) for c in e.d[1]))
    if o == "call":
        n = e.d[0].rsplit("::", 1)[-1]
        return "%s%s(%s)" % (n, "@" if e.d[1] is not None else "", ", ".join(map(s, e.a)))
    if o == "bin":
        return "(%s %s %s)" % (s(e.a[0]), e.d, s(e.a[1]))
    if o == "with":
        return "%s{.%s=%s}" % (s(e.a[0]), ",".join(str(y) for y in e.d[1:]), s(e.a[1]))
    return "%s%s(%s)" % (o, "" if e.d is None else "<%s>" % (e.d if not isinstance(e.d, tuple) else e.d[-1],), ", ".join(map(s, e.a)))
