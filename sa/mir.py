"""Program model over the driver's facts: functions, CFGs, dominators, loops, types, ADTs, impls."""
import re
from . import facts as _facts


def strip_generics(s):
    """`a::B::<X>::c` -> `a::B::c`; keeps `<impl ..>` and `<T as Tr>` forms."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s.startswith("::<", i) and not s.startswith("::<impl", i):
            d = 1
            i += 3
            while i < n and d:
                if s[i] == "<":
                    d += 1
                elif s[i] == ">" and s[i - 1] != "-":
                    d -= 1
                i += 1
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


def short(s):
    """Readable name: last path segments without crate/module noise."""
    s = strip_generics(s)
    return re.sub(r"\b(?:[a-z_0-9]+::)+(?=[A-Za-z_<{])", "", s)


class Body:
    __slots__ = ("argc", "locals", "names", "upvars", "blocks", "_succ", "_pred", "_rpo", "_dom", "_loops", "_live", "_borrowed", "boxcopies")

    def __init__(self, j):
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.names = {int(k): v for k, v in j["names"].items()}
        self.upvars = {int(k): v for k, v in j["upvars"].items()}
        self.blocks = j["blocks"]
        self._succ = self._pred = self._rpo = self._dom = self._loops = self._live = self._borrowed = None

    def succ(self):
        if self._succ is None:
            r = []
            for b in self.blocks:
                t = b["t"]
                k = t[0]
                if k == "goto":
                    s = [t[1]]
                elif k == "switch":
                    s = [x[1] for x in t[2]] + [t[3]]
                elif k == "drop":
                    s = [t[2]]
                elif k == "call":
                    s = [t[4]] if t[4] is not None else []
                elif k == "assert":
                    s = [t[5]]
                else:
                    s = []
                r.append(s)
            self._succ = r
        return self._succ

    def pred(self):
        if self._pred is None:
            p = [[] for _ in self.blocks]
            for i, s in enumerate(self.succ()):
                for x in s:
                    p[x].append(i)
            self._pred = p
        return self._pred

    def rpo(self):
        if self._rpo is None:
            seen = set()
            order = []
            stack = [(0, iter(self.succ()[0]))]
            seen.add(0)
            while stack:
                n, it = stack[-1]
                adv = False
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        stack.append((x, iter(self.succ()[x])))
                        adv = True
                        break
                if not adv:
                    order.append(n)
                    stack.pop()
            order.reverse()
            self._rpo = order
        return self._rpo

    def dom(self):
        """immediate-dominator based dominance: dict node -> set of dominators."""
        if self._dom is None:
            rpo = self.rpo()
            idx = {b: i for i, b in enumerate(rpo)}
            idom = {rpo[0]: rpo[0]}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    new = None
                    for p in self.pred()[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                a, c = p, new
                                while a != c:
                                    while idx[a] > idx[c]:
                                        a = idom[a]
                                    while idx[c] > idx[a]:
                                        c = idom[c]
                                new = a
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        idom = self.dom()
        if b not in idom:
            return False
        while True:
            if a == b:
                return True
            n = idom[b]
            if n == b:
                return False
            b = n

    def loops(self):
        """head -> set of blocks (natural loops)."""
        if self._loops is None:
            L = {}
            for b in self.rpo():
                for s in self.succ()[b]:
                    if self.dominates(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(self.pred()[x])
            self._loops = L
        return self._loops

    def borrowed(self):
        if self._borrowed is None:
            s = set()
            for b in self.blocks:
                for st in b["s"]:
                    if st[0] == "=" and st[2][0] in ("ref", "raw"):
                        p = st[2][2]
                        if "*" not in p[1]:
                            s.add(p[0])
            self._borrowed = s
        return self._borrowed

    def live_in(self):
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]
            de = [set() for _ in range(n)]

            def up(p, u, d, isdef=False):
                if isdef and not p[1]:
                    d.add(p[0])
                elif p[0] not in d:
                    u.add(p[0])
                for c in p[1]:
                    if c[0] == "i" and c[1] not in d:
                        u.add(c[1])

            def uo(o, u, d):
                if o[0] in ("cp", "mv"):
                    up(o[1], u, d)

            def urv(r, u, d):
                k = r[0]
                if k in ("use", "rep"):
                    uo(r[1], u, d)
                elif k in ("ref", "raw"):
                    up(r[2], u, d)
                elif k == "cast":
                    uo(r[2], u, d)
                elif k == "bin":
                    uo(r[2], u, d)
                    uo(r[3], u, d)
                elif k == "un":
                    uo(r[2], u, d)
                elif k == "disc":
                    up(r[1], u, d)
                elif k == "agg":
                    for o in r[2]:
                        uo(o, u, d)

            for i, b in enumerate(self.blocks):
                u, d = use[i], de[i]
                for st in b["s"]:
                    if st[0] == "=":
                        urv(st[2], u, d)
                        up(st[1], u, d, True)
                    elif st[0] == "sd":
                        up(st[1], u, d)
                    elif st[0] == "dead":
                        d.add(st[1])
                t = b["t"]
                if t[0] == "switch":
                    uo(t[1], u, d)
                elif t[0] == "drop":
                    up(t[1], u, d)
                elif t[0] == "call":
                    uo(t[1], u, d)
                    for a in t[2]:
                        uo(a, u, d)
                    up(t[3], u, d, True)
                elif t[0] == "assert":
                    uo(t[1], u, d)
                    for a in t[4]:
                        uo(a, u, d)
                elif t[0] == "ret":
                    u.add(0)
            live = [set() for _ in range(n)]
            ch = True
            order = list(reversed(self.rpo()))
            while ch:
                ch = False
                for b in order:
                    o = set()
                    for s in self.succ()[b]:
                        o |= live[s]
                    new = use[b] | (o - de[b])
                    if new != live[b]:
                        live[b] = new
                        ch = True
            self._live = live
        return self._live


class Fn:
    __slots__ = ("p", "name", "h", "kind", "file", "line", "vis", "reach", "unsafe", "ins", "out", "self_ty",
                 "trait", "ta", "th", "derived", "intrait", "root", "parent", "body", "proms", "crate", "prog", "sname", "gp", "gb", "exported_const")

    def __repr__(self):
        return "<Fn %s>" % self.p


class Program:
    def __init__(self, config="native", crates=None):
        self.config = config
        raw = _facts.load(config)
        self.tys = []
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.by_name = {}
        for cname in (crates or _facts.CRATES):
            d = raw[cname]
            off = len(self.tys)
            for t in d["tys"]:
                t = dict(t)
                for k in ("e",):
                    if k in t:
                        t[k] += off
                if "a" in t:
                    t["a"] = [x + off if isinstance(x, int) else x for x in t["a"]]
                self.tys.append(t)
            for a in d["adts"]:
                a = dict(a)
                a["crate"] = cname
                for v in a["vs"]:
                    for f in v["f"]:
                        f["t"] += off
                self.adts[a["p"]] = a
            for t in d["traits"]:
                self.traits[t["p"]] = t
            for im in d["impls"]:
                im = dict(im)
                im["crate"] = cname
                im["self"] += off
                if "ta" in im:
                    im["ta"] = [x + off if isinstance(x, int) else x for x in im["ta"]]
                self.impls.append(im)
            for f in d["fns"]:
                x = Fn()
                x.prog = self
                x.p = f["p"]
                x.name = strip_generics(f["p"])
                x.h = f["h"]
                x.kind = f["kind"]
                x.file = f["file"]
                x.line = f["line"]
                x.vis = f.get("vis", "priv")
                x.reach = f.get("reach", False)
                x.unsafe = f.get("unsafe", False)
                x.ins = [i + off for i in f.get("ins", [])]
                x.out = f["out"] + off if "out" in f else None
                x.exported_const = f["cty"] + off if f.get("creach") else None
                x.self_ty = f["self"] + off if "self" in f else None
                x.trait = f.get("trait")
                x.ta = [i + off if isinstance(i, int) else i for i in f.get("ta", [])]
                x.th = f.get("th")
                x.derived = f.get("derived", False)
                x.intrait = f.get("intrait")
                x.root = f.get("root")
                x.parent = f.get("parent")
                x.crate = cname
                x.gp = f.get("gp", [])
                x.gb = f.get("gb", [])
                x.sname = f.get("name") or x.name.rsplit("::", 1)[-1]
                self._rebase(f["body"], off)
                for pb in f["proms"]:
                    self._rebase(pb, off)
                x.body = Body(f["body"])
                x.proms = [Body(p) for p in f["proms"]]
                self.fns[x.h] = x
                self.by_name.setdefault(x.name, []).append(x)
        self.assoc_consts = {}
        for f in self.fns.values():
            if f.kind == "const":
                m = re.match(r"^<(.*) as (.*)>::(\w+)$", f.name)
                if m:
                    self.assoc_consts[(m.group(1), m.group(2), m.group(3))] = f
        self.impl_of = {}  # trait method hash -> impl fns
        for f in self.fns.values():
            if f.th:
                self.impl_of.setdefault(f.th, []).append(f)
        self.closures = {}
        for f in self.fns.values():
            if f.kind == "closure":
                self.closures.setdefault(f.parent, []).append(f)
        self._stateful = {}

    def keeps_state(self, h):
        """the closure changes something it captured by value"""
        if h not in self._stateful:
            f = self.fns.get(h)

            def own(pl):
                return pl[0] == 1 and len(pl[1]) > 1 and pl[1][0] == "*" and pl[1][1][0] == "f" and "*" not in pl[1][2:]

            def changes(b):
                t = b["t"]
                return t[0] == "call" and own(t[3]) or any(s[0] == "=" and (own(s[1]) or s[2][0] in ("ref", "raw") and s[2][1] not in ("shared", "const", "fake") and own(s[2][2])) for s in b["s"])

            self._stateful[h] = f is not None and any(changes(b) for b in f.body.blocks)
        return self._stateful[h]

    def _rebase(self, b, off):
        b["locals"] = [t + off for t in b["locals"]]

        def op(o):
            if o[0] == "k":
                k = o[1]
                k["t"] += off
                if "ca" in k:
                    k["ca"] = [x + off if isinstance(x, int) else x for x in k["ca"]]
                if "fn" in k:
                    q = k["fn"]
                    q["a"] = [x + off if isinstance(x, int) else x for x in q["a"]]
                    if "self" in q:
                        q["self"] += off
                    if "item" in q:
                        q["item"] += off
                    if "ra" in q:
                        q["ra"] = [x + off if isinstance(x, int) else x for x in q["ra"]]

        for bb in b["blocks"]:
            for s in bb["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k in ("use", "rep"):
                        op(r[1])
                    elif k == "cast":
                        op(r[2])
                        r[3] += off
                    elif k == "bin":
                        op(r[2])
                        op(r[3])
                    elif k == "un":
                        op(r[2])
                    elif k == "agg":
                        for o in r[2]:
                            op(o)
            t = bb["t"]
            if t[0] == "switch":
                op(t[1])
                t[4] += off
            elif t[0] == "drop":
                t[3] += off
            elif t[0] == "call":
                op(t[1])
                for o in t[2]:
                    op(o)
            elif t[0] == "assert":
                op(t[1])
                for o in t[4]:
                    op(o)

    # ---- types
    def ty(self, i):
        return self.tys[i]

    def tystr(self, i):
        return self.tys[i]["s"]

    def peel(self, i, boxes=True):
        """strip references, Box/Arc/Rc/Zeroizing/Cow"""
        while True:
            t = self.tys[i]
            if t["k"] in ("ref", "ptr"):
                i = t["e"]
            elif boxes and t["k"] == "adt" and t["p"] in PEEL and t["a"]:
                i = next(a for a in t["a"] if isinstance(a, int))
            else:
                return i

    def adt_of(self, i, boxes=True):
        t = self.tys[self.peel(i, boxes)]
        return t["p"] if t["k"] == "adt" else None

    def mentions(self, i, pred, seen=None):
        """does a type mention (transitively through args / fields of workspace ADTs) one satisfying pred?"""
        seen = seen if seen is not None else set()
        if i in seen:
            return False
        seen.add(i)
        t = self.tys[i]
        if pred(t):
            return True
        for k in ("e",):
            if k in t and self.mentions(t[k], pred, seen):
                return True
        for a in t.get("a", []):
            if isinstance(a, int) and self.mentions(a, pred, seen):
                return True
        if t["k"] == "adt" and t["p"] in self.adts:
            for v in self.adts[t["p"]]["vs"]:
                for f in v["f"]:
                    if self.mentions(f["t"], pred, seen):
                        return True
        return False

    def variants(self, adtpath):
        if adtpath in STD_ENUMS:
            return STD_ENUMS[adtpath]
        a = self.adts.get(adtpath)
        if a and a["kind"] == "enum":
            return [v["n"] for v in a["vs"]]
        return None

    def find(self, name_suffix, **kw):
        """functions whose stripped name ends with the suffix"""
        r = []
        for f in self.fns.values():
            if f.kind in ("fn", "assoc") and (f.name == name_suffix or f.name.endswith("::" + name_suffix)):
                if all(getattr(f, k) == v for k, v in kw.items()):
                    r.append(f)
        return r

    def impl_methods(self, self_adt, trait=None, method=None):
        r = []
        for f in self.fns.values():
            if f.kind != "assoc" or f.self_ty is None:
                continue
            if self_adt is not None and self.adt_of(f.self_ty) != self_adt:
                continue
            if trait is not None and (f.trait or "").rsplit("::", 1)[-1] != trait:
                continue
            if method is not None and f.sname != method:
                continue
            r.append(f)
        return r


PEEL = {
    "alloc::boxed::Box", "alloc::sync::Arc", "alloc::rcs::arc::Arc", "alloc::rc::Rc", "alloc::rcs::rc::Rc",
    "zeroize::Zeroizing", "alloc::borrow::Cow",
}
STD_ENUMS = {
    "core::option::Option": ["None", "Some"],
    "core::result::Result": ["Ok", "Err"],
    "core::ops::control_flow::ControlFlow": ["Continue", "Break"],
    "alloc::borrow::Cow": ["Borrowed", "Owned"],
}
