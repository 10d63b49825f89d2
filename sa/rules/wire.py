"""The wire: field correspondence of encoders and decoders (P13)."""
import re
from ..fhe import *

CTX = ("fhe_math::rq::context::Context",)
CONV = ("try_from", "try_into", "into", "from", "to_vec", "clone", "as_slice", "to_owned", "as_ref", "conv", "into_boxed_slice", "to_bytes_le", "from_bytes_le", "to_bytes", "from_bytes",
        "copied", "cloned", "into_iter", "iter", "collect", "unwrap", "deref", "encode_to_vec", "into_vec", "get", "try_convert_from")


ITERS = ("iter", "values", "into_iter", "iter_mut", "copied", "cloned", "into_values", "keys", "into_keys")


def stable(f):
    return re.sub(r"\{closure#\d+\}", "{closure}", f.name)


def is_proto(p):
    return "::proto::" in (p or "")


def plain(P, f):
    return P.tystr(f)


class Pair:
    """what an encoder writes, or a decoder restores: path -> leaf values with their data sources"""


def chain_of(e, roots=()):
    """(root, path) when e is an access path; elements and Some/Ok payloads do not show in the path"""
    path = []
    x = e
    while x not in roots:
        if x.op == "fld":
            if not (x.d in ("0", "1") and x.a[0].op == "idx"):  # the parts of a map entry
                path.append(x.d)
        elif x.op == "it" and x.d in ("iter", "values", "into_iter", "iter_mut", "copied", "cloned", "into_values") and len(x.a) == 1:
            pass
        elif x.op == "vfld":
            if x.d[0] not in ("Some", "Ok"):
                path.append(x.d[0])
        elif x.op in ("idx", "slice", "sub"):
            pass
        elif x.op == "call" and len(x.a) == 1 and x.d[0].rsplit("::", 1)[-1] in ITERS:
            pass
        elif x.op == "with" and not path:
            pass
        else:
            break
        x = x.a[0]
    return x, tuple(reversed(path))


def sources(F, e, root, others):
    """(data, index, expanded): access paths below root that e is computed from; index: through the choice of a
    parameter-dependent value only; expanded: as the seed of a public expansion"""
    ip, P = F.ip, F.ip.P
    data, index, exp = set(), set(), set()
    seen = set()
    allr = (root,) + tuple(others)

    def go(x, out):
        if (x, id(out)) in seen:
            return
        seen.add((x, id(out)))
        if x is root:
            out.add(())
            return
        if x in others:
            return
        r, p = chain_of(x, allr)
        if r is root and x is not r:
            # the longest chain: whole path is data; indices inside it are positions
            out.add(p)
            return
        if r in others and x is not r:
            y = x
            while y is not r:
                for z in y.a[1:]:
                    go(z, index)
                y = y.a[0]
            return
        if x.op in ("fld", "vfld", "idx", "slice", "sub"):
            # projections of a computed value
            if x.op == "vfld" and x.a[0] is root:
                out.add(())
                return
            if x.op == "idx":
                go(x.a[0], out)
                if x.a[0].op == "it":
                    return
                go(x.a[1], index)
                return
            go(x.a[0], out)
            for y in x.a[1:]:
                go(y, index)
            return
        if x.op == "call":
            nm = x.d[0].rsplit("::", 1)[-1]
            if nm in ("len", "count", "is_empty", "with_capacity"):
                return
            if nm == "random_from_seed":
                for y in x.a[:1]:
                    go(y, index)
                for y in x.a[1:]:
                    go(y, exp)
                return
            f = fn_named(P, x.d[0])
            for i, y in enumerate(x.a):
                if f is not None and i < len(f.ins) and P.ty(P.peel(f.ins[i])).get("p") in CTX:
                    go(y, index)
                else:
                    go(y, out)
            return
        if x.op in ("len", "cnt", "not", "is", "disc", "exhausted"):
            return
        if x.op == "phi":
            for y in phi_ins(ip, x):
                go(y, out)
            return
        if x.op == "it" and x.d == "range":
            return
        for y in x.a:
            go(y, out)
        if x.op == "with" and x.d[0] == "i":
            pass

    go(e, data)
    return data, index, exp


def direct(F, e, root):
    """the path below root e is a mere conversion of, or None"""
    ip = F.ip
    x = e
    for _ in range(60):
        if x is root:
            return ()
        r, p = chain_of(x, (root,))
        if r is root:
            return p
        if x.op == "vfld" and x.d[0] in ("Some", "Ok") or x.op == "struct" and x.d[1] in ("Some", "Ok"):
            x = x.a[0]
            continue
        if x.op == "call" and (x.d[0].startswith("cast") or x.d[0].rsplit("::", 1)[-1] in CONV) and x.a:
            x = x.a[0]
            continue
        if x.op in ("cast",):
            x = x.a[0]
            continue
        return None
    return None


def leaves(F, v, t, path, out, depth=0, seen=None):
    """(path, value, scalar?, type) for the fields of object v"""
    P, ip = F.ip.P, F.ip
    seen = seen if seen is not None else set()
    t = P.peel(t)
    if (v, t, path) in seen or depth > 12:
        return
    seen.add((v, t, path))
    ty = P.ty(t)
    k, p = ty["k"], ty.get("p")
    a = targs(ty)
    rec = lambda x, t2, p2: leaves(F, x, t2, p2, out, depth + 1, seen)
    seq = k in ("slice", "array") or k == "adt" and (p.endswith("vec::Vec") or "HashMap" in p or "HashSet" in p)
    if seq:
        et = ty["e"] if k in ("slice", "array") else a[1] if "HashMap" in p and len(a) > 1 else a[0]
        ety = P.ty(P.peel(et))
        nested = ety["k"] == "adt" and (ety.get("p") in P.adts) and ety.get("p") != POLY and P.adts[ety["p"]]["kind"] == "struct"
        out.append((path, v, "seq", t))
        if nested:
            for lab, x, L in positions(ip, v, None):
                rec(x, et, path)
            return
        out.append((path, v, False, t))
        return
    if k == "adt" and p in ("core::option::Option", "core::result::Result"):
        for x in alts(ip, v) or [v]:
            if x.op == "struct" and x.d[1] in ("None", "Err"):
                out.append((path, x, None, t))
                continue
            rec(proj(x, ("v", "Some" if p.endswith("Option") else "Ok", "0")), a[0], path)
        return
    if v.op in ("phi", "join"):
        al = [x for x in alts(ip, v) if x is not v]
        if al:
            for x in al:
                rec(x, t, path)
            return
    ad = P.adts.get(p) if k == "adt" else None
    if ad is not None and p != POLY and ad["kind"] == "struct" and v.op in ("struct", "with") and p not in CTX:
        for fl in ad["vs"][0]["f"]:
            rec(proj(v, ("f", fl["n"])), fl["t"], path + (fl["n"],))
        return
    if ad is not None and ad["kind"] == "enum" and v.op == "struct":
        vr = next((x for x in ad["vs"] if x["n"] == v.d[1]), None)
        if vr is not None and vr["f"]:
            for fl in vr["f"]:
                rec(proj(v, ("v", v.d[1], fl["n"])), fl["t"], path + (v.d[1],))
            return
    out.append((path, v, True, t))


def trunc(P, T, path, persisted):
    """an object path up to the first part whose type is not itself persisted"""
    out = []
    for c in path:
        ad = P.adts.get(T)
        if ad is None or out and T not in persisted:
            break
        fl = next((f for f in ad["vs"][0]["f"] if f["n"] == c), None)
        out.append(c)
        if fl is None:
            break
        T = base_type(P, fl["t"])
    return tuple(out)


def base_type(P, t):
    for _ in range(6):
        ty = P.ty(P.peel(t))
        a = targs(ty)
        if ty["k"] in ("slice", "array"):
            t = ty["e"]
        elif ty["k"] == "adt" and ("HashMap" in ty["p"]) and len(a) > 1:
            t = a[1]
        elif ty["k"] == "adt" and a and (ty["p"].endswith("vec::Vec") or ty["p"] in ("core::option::Option",)):
            t = a[0]
        else:
            return ty.get("p")
    return None


def merge(ls):
    r = {}
    for path, v, sc, t in ls:
        if sc == "seq":
            continue
        r.setdefault(path, []).append((v, sc, t))
    return r


def compat(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def enc_root(F):
    return F.args[0][0]


def encoders(P, Fs):
    """type -> (flow, proto struct value, proto type)"""
    r = {}
    for F in Fs:
        if not F.args or F.fn.out is None:
            continue
        src = P.ty(P.peel(F.args[0][1])).get("p")
        out = P.ty(P.peel(F.fn.out)).get("p")
        for o in F.outs:
            v = F.ip.snap(St(o.mem, o.facts), o.val)
            if is_proto(out) and src in P.adts and not is_proto(src):
                r.setdefault(src, []).append((F, v, out))
            elif F.fn.sname == "to_bytes" and src in P.adts:
                for v in alts(F.ip, v) or [v]:
                    if v.op == "call" and v.d[0].rsplit("::", 1)[-1] == "encode_to_vec":
                        for x in alts(F.ip, v.a[0]) or [v.a[0]]:
                            if x.op == "struct":
                                r.setdefault(src, []).append((F, x, x.d[0]))
    return r


def proto_root(P, F):
    """the received message: an argument, or the result of decoding the bytes"""
    for e, t, n in F.args:
        if is_proto(P.ty(P.peel(t)).get("p")):
            return e
    for ev in F.evs:
        for a in (ev.args or ()):
            for x in deps(F.ip, a):
                if x.op == "call" and x.d[0].rsplit("::", 1)[-1] == "decode" and x.a and x.a[0].op == "arg":
                    return mk("vfld", ("Ok", "0"), (x,))
    for o in F.outs:
        for x in deps(F.ip, F.ip.snap(St(o.mem, o.facts), o.val)):
            if x.op == "call" and x.d[0].rsplit("::", 1)[-1] == "decode" and x.a and x.a[0].op == "arg":
                return mk("vfld", ("Ok", "0"), (x,))
    return None


def decoders(P, Fs):
    r = {}
    for F in Fs:
        if F.fn.out is None:
            continue
        ins = [P.ty(P.peel(t)) for e, t, n in F.args]
        wire = any(is_proto(x.get("p")) for x in ins) or any(x["k"] == "slice" and P.tystr(x["e"]) == "u8" for x in ins) and F.fn.sname in ("from_bytes", "try_deserialize")
        if not wire:
            continue
        oty = P.ty(P.peel(F.fn.out))
        a = targs(oty)
        T = P.ty(P.peel(a[0])).get("p") if oty.get("p") == "core::result::Result" and a else oty.get("p")
        tt = a[0] if a and oty.get("p") == "core::result::Result" else F.fn.out
        if T not in P.adts or is_proto(T):
            continue
        root = proto_root(P, F)
        for o in F.outs:
            v = F.ip.snap(St(o.mem, o.facts), o.val)
            if v.op == "struct" and v.d[1] == "Err":
                continue
            x = proj(v, ("v", "Ok", "0")) if oty.get("p") == "core::result::Result" else v
            r.setdefault(T, []).append((F, x, tt, root))
    return r


def p13(R, tier):
    R.rule("restored", "each wire field is computed from an object field that the decoder restores from that wire field")
    R.rule("written", "each wire field an object field is restored from is one the encoder computes from that object field; scalar wire fields are mere conversions of one object field on both sides")
    R.rule("complete", "a decoded object field comes from the wire or from the parameters, never from a constant; every wire field is written from the object and read back")
    for cfg in ("native", "all") if tier == "thorough" else ("native",):
        P = program(cfg)
        Fs = flows(P, R)
        enc, dec = encoders(P, Fs), decoders(P, Fs)
        for T in sorted(set(enc) | set(dec)):
            if not enc.get(T) or not dec.get(T):
                R.bad("pair:" + T, "%s has %s" % (T, "no decoder" if enc.get(T) else "no encoder"))
                continue
            tr = lambda p: trunc(P, T, p, set(enc) | set(dec))
            ws = []
            for FE, pv, pt in enc[T]:
                w, lost = enc_map(P, FE, pv, pt, tr)
                for path in lost:
                    R.bad("skips %s.%s %s" % (pt.rsplit("::", 1)[-1], ".".join(path), stable(FE.fn)), "%s leaves out elements of %s under a condition" % (FE.fn.name, ".".join(path)))
                ws = [x for x in ws if x[0] is not FE] + [(FE, absorb(next((x[1] for x in ws if x[0] is FE), {}), w), pt)]
            ds = []
            for FD, ov, ot, root in dec[T]:
                if root is None:
                    R.bad("root:" + stable(FD.fn), "%s: the received message was not found" % FD.fn.name)
                    continue
                d, lost = dec_map(P, FD, ov, ot, root, tr)
                for path in lost:
                    if any(d.get(q, {}).get("data") for q in d if q[:len(path)] == path) and tr(path) == path:
                        R.bad("skips %s.%s %s" % (T.rsplit("::", 1)[-1], ".".join(path), stable(FD.fn)), "%s leaves out elements of %s under a condition" % (FD.fn.name, ".".join(path)))
                ds = [x for x in ds if x[0] is not FD] + [(FD, absorb(next((x[1] for x in ds if x[0] is FD), {}), d))]
            for FE, W, pt in ws:
                for FD, D in ds:
                    R.fn(FE.fn)
                    R.fn(FD.fn)
                    compare(R, T.rsplit("::", 1)[-1], FE, W, FD, D, pt)
    R.floor("pairs", 12)
    R.floor("wire_fields", 60)
    R.floor("object_fields", 80)


def skipping(F, v, seen=()):
    """a loop building the sequence v may go on without adding an element"""
    ip = F.ip
    if v in seen:
        return None
    seen = seen + (v,)
    if v.op == "phi":
        l = loop_of_phi(ip, v)
        for x in phi_ins(ip, v):
            if l is not None and (x.op == "phi" and v in phi_ins(ip, x) and any(y.op in ("push", "mapins") for y in phi_ins(ip, x))):
                return v
            r = skipping(F, x, seen)
            if r is not None:
                return r
        if l is not None and v in ip.phi_in.get(v, {}).values() and any(x.op in ("push", "mapins") for x in phi_ins(ip, v)):
            return v
        return None
    if v.op in ("push", "mapins", "with") and v.a:
        return skipping(F, v.a[0], seen)
    if v.op == "extended":
        return skipping(F, v.a[0], seen) or skipping(F, v.a[1], seen)
    if v.op == "coll":
        return skipping(F, v.a[1], seen) if len(v.a) > 1 else None
    if v.op == "it":
        return v if v.d in ("filter", "skip", "step_by", "take_while", "skip_while", "filter_map", "map_while") else next((r for r in (skipping(F, x, seen) for x in v.a[:1]) if r is not None), None)
    return None


def absorb(old, new):
    for k, x in new.items():
        o = old.setdefault(k, {})
        for n, v in x.items():
            if isinstance(v, set):
                o[n] = o.get(n, set()) | v
            elif isinstance(v, list):
                o[n] = o.get(n, []) + v
            else:
                o[n] = o.get(n, False) or v
    return old


def enc_map(P, F, pv, pt, tr):
    out = []
    leaves(F, pv, find_ty(P, pt), (), out)
    root = enc_root(F)
    m = {}
    lost = {}
    for path, v, sc, t in out:
        if sc == "seq" and skipping(F, v) is not None:
            lost.setdefault(path, []).append(v)
    for path, vs in merge(out).items():
        data, exp, dirs, const_ = set(), set(), [], False
        for v, sc, ty in vs:
            d, i, e = sources(F, v, root, ())
            data |= d
            exp |= e
            if sc:
                dirs.append(direct(F, v, root))
                if not d and not v.op == "never":
                    const_ = True
        m[path] = dict(data={tr(p) for p in data}, direct=dirs, scalar=any(sc for v, sc, ty in vs), const=const_, vals=[v for v, sc, ty in vs])
    return m, lost


def dec_map(P, F, ov, ot, root, tr):
    out = []
    leaves(F, ov, ot, (), out)
    others = [e for e, t, n in F.args if e is not root and not (root.op == "vfld" and e in root.a[0].a)]
    m = {}
    lost = {}
    for path, v, sc, t in out:
        if sc == "seq" and skipping(F, v) is not None:
            lost.setdefault(path, []).append(v)
    for path, vs in merge(out).items():
        data, index, exp, dirs, par, const_ = set(), set(), set(), [], False, []
        for v, sc, ty in vs:
            d, i, e = sources(F, v, root, others)
            data |= d
            index |= i
            exp |= e
            if sc:
                dirs.append((tr(path), direct(F, v, root)))
            if any(x in others for x in deps(F.ip, v)):
                par = True
            elif not d and sc is not None and not e and not empty(v):
                const_.append(v)
        absorb(m, {tr(path): dict(data=data, index=index, exp=exp, direct=[q for p, q in dirs if p == path], par=par, const=const_ if tr(path) == path else [], wconst=const_, vals=[v for v, sc, ty in vs])})
    return m, lost


def empty(v):
    return v.op == "arr" and not v.a or v.op == "never" or v.op == "struct" and v.d[1] == "None" or v.op == "call" and v.d[0] == "default" and False


def find_ty(P, name):
    c = P.__dict__.setdefault("_tyname", {})
    if name not in c:
        c[name] = next((i for i in range(len(P.tys)) if P.ty(i)["k"] == "adt" and P.ty(i).get("p") == name), None)
    return c[name]


def compare(R, T, FE, W, FD, D, pt):
    R.count("pairs")
    w2 = lambda p: ".".join(p) or "(all)"
    sfx = "[%s / %s]" % (stable(FE.fn), stable(FD.fn))
    used = set()
    for t, d in D.items():
        used |= d["data"] | d["index"] | d["exp"]
    for w, x in W.items():
        R.count("wire_fields")
        key = "%s.%s %s" % (pt.rsplit("::", 1)[-1], w2(w), sfx)
        R.check(bool(x["data"]) and not x["const"], "complete " + key, "%s does not compute the wire field %s from the object%s" % (FE.fn.name, w2(w), " on every path" if x["data"] else ""))
        if not x["data"]:
            continue
        R.check(any(compat(w, u) for u in used), "unread " + key, "%s never reads the wire field %s that %s writes" % (FD.fn.name, w2(w), FE.fn.name))
        if x["scalar"]:
            R.check(all(q is not None for q in x["direct"]), "scalar " + key, "%s writes the wire field %s as something else than a conversion of one object field: %s" % (FE.fn.name, w2(w), ", ".join(show(v, 4) for v in x["vals"])))
        back = [t for t in D if any(compat(t, s) for s in x["data"]) and (any(compat(w, u) for u in D[t]["data"]))]
        R.check(bool(back), "restored " + key, "%s writes the wire field %s from %s, which %s does not restore from it" % (FE.fn.name, w2(w), ", ".join(sorted(map(w2, x["data"]))), FD.fn.name),
                "%s.%s: written from %s, restored to %s" % (pt.rsplit("::", 1)[-1], w2(w), sorted(map(w2, x["data"])), [w2(b) for b in back]))
    for t, d in D.items():
        R.count("object_fields")
        key = "%s.%s %s" % (T, w2(t), sfx)
        R.check(not d["const"] and (not d["wconst"] or bool(d["data"] | d["exp"])), "constant " + key, "%s restores %s.%s as a constant: %s" % (FD.fn.name, T, w2(t), ", ".join(show(v, 3) for v in d["wconst"])))
        for q in d["direct"]:
            if q is None:
                continue
            ok = [w for w in W if compat(w, q) and any(compat(t, s) for s in W[w]["data"])]
            R.check(bool(ok), "written " + key, "%s restores %s.%s from the wire field %s, which %s writes from %s" % (
                FD.fn.name, T, w2(t), w2(q), FE.fn.name, ", ".join(sorted({w2(s) for w in W if compat(w, q) for s in W[w]["data"]})) or "nothing"))
        for q in d["data"]:
            if q == ():
                R.bad("whole " + key, "%s computes %s.%s from the whole message" % (FD.fn.name, T, w2(t)))
