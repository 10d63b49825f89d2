"""Shared helpers for the rules: program cache, call graph, value queries, verdict reporting."""
import json, os, sys, time, re
from .expr import *
from . import expr as X
from .mir import Program, short
from .interp import Interp, Policy, Budget, St
from .facts import FactsError, VERIF, REPO

_progs = {}


def program(config="native"):
    if config not in _progs:
        _progs[config] = Program(config)
    return _progs[config]


# ------------------------------------------------------------------ call graph


def refs_of(body):
    """hashes of functions / closures mentioned by a body"""
    out = set()

    def op(o):
        if o[0] == "k" and "fn" in o[1]:
            q = o[1]["fn"]
            out.add(q.get("rh") or q["h"])
            out.add(q["h"])

    for b in body.blocks:
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] != "=":
                continue
            r = s[2]
            if r[0] in ("use", "rep"):
                op(r[1])
            elif r[0] == "cast":
                op(r[2])
            elif r[0] == "bin":
                op(r[2]); op(r[3])
            elif r[0] == "un":
                op(r[2])
            elif r[0] == "agg":
                if r[1]["k"] == "closure":
                    out.add(r[1]["h"])
                for o in r[2]:
                    op(o)
        t = b["t"]
        if t[0] == "call":
            op(t[1])
            for o in t[2]:
                op(o)
        elif t[0] == "switch":
            op(t[1])
    return out


def callgraph(P):
    if "_cg" not in P.__dict__:
        g = {}
        for f in P.fns.values():
            r = set()
            for h in refs_of(f.body):
                if h in P.fns:
                    r.add(h)
                for i in P.impl_of.get(h, ()):
                    r.add(i.h)
            for pb in f.proms:
                r |= {h for h in refs_of(pb) if h in P.fns}
            g[f.h] = r
        P.__dict__["_cg"] = g
    return P.__dict__["_cg"]


def reaching(P, targets):
    """functions from which some target is reachable (targets included)"""
    g = callgraph(P)
    rev = {}
    for a, bs in g.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    seen = set(targets)
    st = list(targets)
    while st:
        x = st.pop()
        for y in rev.get(x, ()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen


def reachable(P, sources):
    g = callgraph(P)
    seen = set(sources)
    st = list(sources)
    while st:
        x = st.pop()
        for y in g.get(x, ()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen


def generated(f):
    return "/out/" in f.file or f.file.startswith("/")


def lib_fns(P, crates=None):
    for f in P.fns.values():
        if crates and f.crate not in crates:
            continue
        if generated(f):
            continue
        yield f


# ------------------------------------------------------------------ values


def deps(ip, e, prune=None):
    """all nodes reachable from e, through phi inputs"""
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if prune and prune(x):
            continue
        st.extend(x.a)
        if x.op == "phi":
            st.extend(ip.phi_in.get(x, {}).values())
        elif x.op == "with":
            st.extend(c for c in x.d if isinstance(c, E))
    return seen


def implies(ip, facts, c):
    return ip.holds(facts, c) is True


def each_version(e):
    """turn every pos in e into its 'each' form"""
    m = {("pos", s): mk("each", s) for k, s in e.sites if k == "pos"}
    return subst(e, m) if m else e


def fields_named(ip, e, name):
    """bases X of all nodes X.name below e"""
    r = []
    for x in deps(ip, e, lambda n: n.op == "fld" and n.d == name):
        if x.op == "fld" and x.d == name:
            r.append(x.a[0])
    return sorted(set(r), key=lambda x: x.uid)


# ------------------------------------------------------------------ reporting


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.viol = {}
        self.obl = 0
        self.dis = 0
        self.counts = {}
        self.samples = []
        self.notes = []
        self.fnset = set()
        self.rules = {}

    def ok(self, sample=None, n=1):
        self.obl += n
        self.dis += n
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, msg):
        """key must not contain line numbers"""
        self.obl += 1
        self.viol.setdefault(key, msg)

    def check(self, cond, key, msg, sample=None):
        if cond:
            self.ok(sample)
        else:
            self.bad(key, msg)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fn(self, f):
        self.fnset.add(f.name if not isinstance(f, str) else f)

    def floor(self, name, minimum):
        n = self.counts.get(name, 0)
        self.check(n >= minimum, "floor:" + name, "rule instance count dropped: %s = %d < %d (anchor of the rule missing)" % (name, n, minimum))

    def rule(self, name, text):
        self.rules[name] = text


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    r = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            m = re.match(r"^known: property=(\S+) key=\[(.*?)\] (.*)$", l)
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r


# ------------------------------------------------------------------ universally quantified facts

_ANY = mk("any", None, ())
_er = {}


def erase(e):
    """forget which element a pos/each stands for"""
    if not any(k in ("pos", "each") for k, _ in e.sites):
        return e
    r = _er.get(e)
    if r is not None:
        return r
    if e.op in ("pos", "each"):
        r = _ANY
    elif e.op == "ref":
        r = e
    else:
        a = tuple(erase(x) for x in e.a)
        d = e.d
        if e.op == "with":
            d = tuple(erase(x) if isinstance(x, E) else x for x in d)
        if e.op == "call":
            d = (d[0], None, d[2])
        if e.op == "bin" and d == "Eq" and a[0].uid > a[1].uid:
            a = (a[1], a[0])
        r = mk(e.op, d, a)
    _er[e] = r
    return r


def whole(facts, c):
    """the element fact c was established for every element of the sequences it ranges over"""
    each = [s for k, s in c.sites if k == "each"]
    for s in each:
        if "part" in s:
            return False
        if mk("exhausted", s) in facts:
            continue
        if mk("xexh", s) in facts and any(o is not s and len(o) < len(s) for o in each):
            continue
        return False
    return bool(each)


def matches(pat, e):
    """e is an instance of pat, where 'each' leaves of pat stand for any element"""
    if pat is e:
        return True
    if pat.op == "each":
        return e.op in ("pos", "each", "const", "phi", "any")
    if not any(k == "each" for k, _ in pat.sites):
        return False
    if pat.op != e.op or len(pat.a) != len(e.a):
        return False
    if pat.op == "call":
        if pat.d[0] != e.d[0] or pat.d[2] != e.d[2]:
            return False
    elif pat.d != e.d:
        return False
    if pat.op == "bin" and pat.d == "Eq":
        return matches(pat.a[0], e.a[0]) and matches(pat.a[1], e.a[1]) or matches(pat.a[0], e.a[1]) and matches(pat.a[1], e.a[0])
    return all(matches(x, y) for x, y in zip(pat.a, e.a))


def forall_facts(facts):
    for c, v in facts.items():
        if whole(facts, c):
            yield c, v


def implies_all(ip, facts, c, want=True):
    """c (possibly about an arbitrary element) is implied by the path facts"""
    r = ip.holds(facts, c)
    if r is not None:
        return r is want
    if c.op == "not":
        return implies_all(ip, facts, c.a[0], not want)
    if c.op == "bin" and c.d == "BitAnd" and want:
        return all(implies_all(ip, facts, x) for x in c.a)
    for k, v in forall_facts(facts):
        if v is want and matches(k, c):
            return True
    for k, v in facts.items():
        if k.op == "phi" and type(v) is bool:
            for g, w in accumulated(ip, facts, k, v):
                if w is want and matches(g, c):
                    return True
    return False


def decided_by(ip, f, seen=frozenset()):
    """facts f and what the merged conditions among them say about the branches they come from"""
    r = dict(f)
    for k, val in f.items():
        if k.op != "phi" or type(val) is not bool or k in seen or not ip.phi_in.get(k):
            continue
        common = None
        for (ps, ek), v in ip.phi_in[k].items():
            ef = ip.edge_facts.get((k.d[0], k.d[1], ps, ek))
            if v is k or ef is None:
                common = {}
                break
            s = ip.assume(St({}, ef), v, val) if v.op != "const" else (St({}, ef) if v is const(val) else None)
            if s is None:
                continue
            g = decided_by(ip, s.facts, seen | {k})
            common = g if common is None else {c: w for c, w in common.items() if g.get(c) is w}
        r.update(common or {})
    return r


def accumulated(ip, facts, k, val):
    """what k, a condition a finished loop accumulated, says about every element the loop visited"""
    hd = k.d[0]
    if not isinstance(hd, tuple) or not hd or not ip.phi_in.get(k):
        return
    ctx, b = hd[:-1], hd[-1]
    n = len(ctx)
    root = k.d[2]
    if k.d[3]:
        return
    init, common = False, None
    # never set back to its initial value inside the loop, whatever the partition of the states
    for l in ip.heads.get((ctx, b), {}).values():
        if any(st.mem.get(root) is const(val) for _, st in l):
            return
    single = False
    fr = ip.frames.get(ctx)
    if fr is not None and b in fr.body.loops() and root[0] == "L" and root[1] == ctx:
        w = 0
        for i in fr.body.loops()[b]:
            blk = fr.body.blocks[i]
            w += sum(1 for s in blk["s"] if s[0] == "=" and s[1][0] == root[2])
            w += sum(2 for x in blk["t"] if isinstance(x, (list, tuple)) and len(x) == 2 and x[0] == root[2] and isinstance(x[1], (list, tuple)))
            w += sum(2 for s in blk["s"] if s[0] == "=" and s[2][0] in ("ref", "raw") and s[2][2][0] == root[2])
        single = w == 1
    for (ps, ek), v in ip.phi_in[k].items():
        if v is const(val):
            init = True
            continue
        if v is const(not val):
            continue
        ef = ip.edge_facts.get((k.d[0], k.d[1], ps, ek))
        if v is k or ef is None:
            return
        s = ip.assume(St({}, ef), v, val)
        if s is None:
            continue
        g = decided_by(ip, s.facts, frozenset({k}))
        if g.get(k) is not val:
            # the first iteration, in a partition where the value is still the initial one
            if not (single and isinstance(ek[1], tuple) and (root[2], val) in ek[1]):
                return
            init = True
        common = g if common is None else {c: w for c, w in common.items() if g.get(c) is w}
    if not init or not common:
        return
    for c, w in common.items():
        if type(w) is not bool or not c.sites:
            continue
        ps = {s for kind, s in c.sites if kind == "pos"}
        if not ps or any(kind not in ("pos", "ref") for kind, _ in c.sites) or any(len(s) <= n or s[:n] != ctx for s in ps):
            continue
        g = subst(c, {("pos", s): mk("each", s) for s in ps})
        if whole(facts, g):
            yield g, w


def leaves(ip, e, prune=None):
    """argument leaves data-reachable from e"""
    return [x for x in deps(ip, e, prune) if x.op == "arg" and not (prune and prune(x))]


class Flow:
    """one analysed entry"""

    def __init__(self, fn, ip, outs, evs):
        self.fn, self.ip, self.outs, self.evs = fn, ip, outs, evs
        P = ip.P
        b = fn.body
        self.args = []
        for i in range(b.argc):
            n = b.names.get(i + 1, "arg%d" % i)
            self.args.append((mk("arg", (i, n)), b.locals[i + 1], n))


def run(P, fn, policy, steps=60000, **kw):
    ip = Interp(P, policy, max_steps=steps)
    outs, evs = ip.run_entry(fn, **kw)
    return Flow(fn, ip, outs, evs)
