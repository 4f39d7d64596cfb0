"""Classification of local formatting implementations.

escape: one iteration of the loop over the bytes of the string is read as a
        letter-to-text table (all 256 letters) and compared with the escaping rule;
hex:    the loop over the 32 digest bytes is unrolled over symbolic bytes and every
        output digit is compared, as a table over its byte, with the hex digit;
const:  a constant text per enum variant.
A classification carries the list of deviations from the specification."""
import core
from terms import *
from xfer import eval_byte

def esc(b): return (b"\\x%02x" % b) if b <= 0x20 or b >= 0x7f or b == 0x5c else bytes([b])

def reach(eng):
    seen = {}; w = [eng.final(eng.root)]
    while w:
        n = w.pop()
        if n in seen: continue
        seen[n] = [(ev, eng.final(t)) for ev, t in n.succ]
        w += [t for _, t in seen[n]]
    return seen

def opts_of(t):
    """(width, zero padded) of an xdec/dec options term"""
    if t is UNIT: return 0, False
    o = dict(eval(t.a[0], {"__builtins__": {}}))
    f = o.get("flags", 0)
    return o.get("width", 0), bool(f & (1 << 24))

def render(t, el, b):
    """bytes produced by text term t when the byte variable el is b; None if unknown"""
    if t.k == "bytes": return t.a[0]
    if t.k == "cat":
        out = b""
        for x in t.a[0]:
            r = render(x, el, b)
            if r is None: return None
            out += r
        return out
    if t.k == "chr":
        x = eval_byte(t.a[0], el, b)
        return None if x is None else chr(x).encode()
    if t.k == "byte":
        x = eval_byte(t.a[0], el, b)
        return None if x is None else bytes([x & 255])
    if t.k == "agg" and t.a[0] == "array":
        xs = [eval_byte(x, el, b) for x in t.a[2]]
        return None if None in xs else bytes(x & 255 for x in xs)
    if t.k == "p" and t.a[0] in ("xdec", "dec"):
        x = eval_byte(t.a[1][0], el, b)
        if x is None: return None
        w, z = opts_of(t.a[1][1]) if len(t.a[1]) > 1 else (0, False)
        s = ("%x" if t.a[0] == "xdec" else "%d") % x
        return s.rjust(w, "0" if z else " ").encode()
    return None

def path_of(t):
    """field path of a term below the self parameter"""
    p = []
    while t.k in ("fld", "deref"):
        if t.k == "fld": p.append(t.a[2])
        t = t.a[0]
    return tuple(reversed(p)) if t.k == "param" and t.a[0] == "self" else None

def is_fmt(eng, t): return t.k == "param" and t.a[0] == "f"

def feasible(ev, el, b):
    for t, v in ev.facts.items():
        x = t.a[0] if t.k == "ne" else t
        y = eval_byte(x, el, b)
        if y is None: continue
        if t.k == "ne":
            if y in v: return False
        elif y != v: return False
    return True

def escape(prog, eng):
    """escape-like transducers: ('escape', path, [(byte, got)])"""
    g = reach(eng)
    starts = []; colls = set()
    for n, out in g.items():
        for evs, t in out:
            for i, e in enumerate(evs):
                if e.kind == "next" and e.name == "idx":
                    colls.add(e.args[0])
                    if e.info == "some": starts.append((e, evs[i + 1:], t))
                elif e.kind == "next": return None
    if len(colls) != 1: return None
    path = path_of(colls.pop())
    if path is None: return None
    bad = {}
    def follow(evs, t, el, b, outp, bad, depth):
        """all ways on from here to the next letter, a return or a failed write"""
        for i, e in enumerate(evs):
            if el is not None and not feasible(e, el, b): return True
            if e.kind == "text" and e.name == "append":
                if not is_fmt(eng, e.args[0]): return False
                r = render(e.args[1], el, b)
                if r is None: return False
                outp = outp + r
            elif e.kind == "text" and e.name == "failed": return True
            elif e.kind == "next":
                want = esc(b) if el is not None else b""
                if outp != want: bad[b] = outp
                return True
            elif e.kind in ("panic",): bad[b] = b"panic"; return True
        if t.kind is not None:
            if t.kind == "return" and t.val is not None and t.val.k == "agg" and el is None and t.val.a[1] == 0 and outp == b"": return True
            bad[b] = outp + b" and stops"
            return True
        if (t, outp) in seen: return True
        seen.add((t, outp))
        return all(follow(evs2, t2, el, b, outp, bad, depth + 1) for evs2, t2 in g[t])
    for e, evs, t in starts:
        for b in range(256):
            seen = set()
            if not follow(evs, t, e.res, b, b"", bad, 0): return None
    seen = set(); ob = {}
    for n, out in g.items():
        for evs, t in out:
            for i, e in enumerate(evs):
                if e.kind == "next" and e.info == "none" and not follow(evs[i + 1:], t, None, 0, b"", ob, 0): return None
    seen = set()
    for evs, t in g[eng.final(eng.root)]:
        if not follow(evs, t, None, 0, b"", ob, 0): return None
    r = [(b, x.decode("latin1")) for b, x in sorted(bad.items())] + [(None, x.decode("latin1")) for x in ob.values()]
    return ("escape", path, r)

def digits(t):
    """list of byte terms / rendered two-digit pieces of a text, or None"""
    out = []
    for x in pieces(t):
        if x.k == "bytes": out += [I(b) for b in x.a[0]]
        elif x.k == "agg" and x.a[0] == "array": out += list(x.a[2])
        elif x.k in ("byte", "chr"): out.append(x.a[0])
        elif x.k == "slice" and x.a[1].k == "int" and x.a[2].k == "int":
            d = digits(x.a[0])
            if d is None: return None
            out += d[x.a[1].a[0]:x.a[2].a[0]]
        elif x.k == "p" and x.a[0] == "xdec":
            w, z = opts_of(x.a[1][1]) if len(x.a[1]) > 1 else (0, False)
            if w != 2 or not z: out += [mk("hexd", x.a[1][0], "v")]
            else: out += [mk("hexd", x.a[1][0], "hi"), mk("hexd", x.a[1][0], "lo")]
        else: return None
    return out

def digit_val(t, el, b):
    if t.k == "hexd":
        x = eval_byte(t.a[0], el, b)
        if x is None or t.a[1] == "v": return None
        return ord("%x" % (x >> 4 if t.a[1] == "hi" else x & 15))
    return eval_byte(t, el, b)

def hexcls(prog, mcls, key, body, sti, prec=None):
    """('hex', path, deviations); prec: the precision asked for in the format string"""
    N = 64
    D = mk("p", "digest", (BY(b"x/256"), I(0), EMPTY))
    sty = prog.ty(sti)
    if not sty.get("v") or len(sty["v"]) != 1 or len(sty["v"][0]["f"]) != 1: return None
    fti = sty["v"][0]["f"][0]
    if isinstance(fti, (list, tuple)): fti = fti[-1]
    elif isinstance(fti, dict): fti = fti.get("t", fti.get("ty"))
    fv = D
    if prog.ty(fti)["k"] == "ref": fv = ref(mk("C", D))
    eng = core.Engine(prog, mcls(), {"unroll": 300, "branch": True})
    a0 = ref(mk("C", agg(eng.adt_tag(sti), 0, (fv,))))
    eng.opts["precision"] = prec
    try: eng.run(key, [a0, mk("param", "f")], {mk("disc", mk("p", "fmt_precision", (mk("param", "f"),))): 0})
    except core.Unsupported: return None
    if eng.unknown: return None
    g = reach(eng)
    # all complete paths: concatenated appends up to an Ok return
    res = set(); seen = set(); stack = [(eng.final(eng.root), EMPTY)]; dev = set()
    while stack:
        n, out = stack.pop()
        if (n, out) in seen: continue
        seen.add((n, out))
        if len(seen) > 20000: return None
        if n.kind == "return":
            if n.val.k == "agg" and n.val.a[1] == 0: res.add(out)
            continue
        if n.kind == "panic": dev.add("panics"); continue
        for evs, t in g[n]:
            o = out; dead = False
            for e in evs:
                if e.kind == "text" and e.name == "append" and is_fmt(eng, e.args[0]): o = text([o, e.args[1]])
                if e.kind == "text" and e.name == "failed": dead = True
            if not dead: stack.append((t, o))
    if not res: return None
    for o in res:
        ds = digits(o)
        if ds is None: return None
        if prec is None and len(ds) != N: dev.add("writes %d digits of a 32 byte digest" % len(ds))
        for j, d in enumerate(ds[:64]):
            el = mk("elem", D, I(j // 2))
            for b in range(256):
                v = digit_val(d, el, b)
                w = ord("%x" % (b >> 4 if j % 2 == 0 else b & 15))
                if v is None:
                    # depends on another byte of the digest?
                    if find(d, lambda x: x.k == "elem" and x.a[0] is D and x is not el): dev.add("digit %d is taken from another byte" % j); break
                    return None
                if v != w: dev.add("digit %d of byte 0x%02x is %r" % (j, b, chr(v))); break
    return ("hex", (0,), sorted(dev)[:5])

def constcls(prog, eng):
    g = reach(eng); tab = {}; path = None
    seen = set(); stack = [(eng.final(eng.root), EMPTY, None)]
    while stack:
        n, out, d = stack.pop()
        if (n, out, d) in seen: continue
        seen.add((n, out, d))
        if len(seen) > 2000: return None
        if n.kind == "return":
            if n.val.k == "agg" and n.val.a[1] == 0:
                if out.k == "cat" and out.a[0]: return None
                tab.setdefault(d, set()).add(out.a[0] if out.k == "bytes" else b"")
            continue
        if n.kind is not None: return None
        for evs, t in g[n]:
            o = out; dd = d; dead = False
            for e in evs:
                for k, v in e.facts.items():
                    if k.k == "disc" and isinstance(v, int):
                        p = path_of(k.a[0])
                        if p is not None:
                            if path is None: path = p
                            if p == path: dd = v
                if e.kind == "text" and e.name == "append":
                    x = e.args[1]
                    if x.k == "p" and x.a[0] == "fmtpad": x = x.a[1][0]
                    if x.k != "bytes": return None
                    o = text([o, x])
                if e.kind == "text" and e.name == "failed": dead = True
                if e.kind == "next": return None
            if not dead: stack.append((t, o, dd))
    if path is None or None in tab or any(len(v) != 1 for v in tab.values()): return None
    return ("const", path, {d: next(iter(v)) for d, v in tab.items()})

def classify(prog, mcls, key):
    body = prog.bodies[key]
    ti = body.locals[1]
    sti = prog.ty(ti)["to"] if prog.ty(ti)["k"] == "ref" else ti
    if prog.ty(sti)["k"] == "ref": return None
    if "LowerHex" in key:
        r = hexcls(prog, mcls, key, body, sti)
        if r is not None: return r
    eng = core.Engine(prog, mcls(), {"branch": True})
    try: eng.run(key, [ref(mk("C", mk("param", "self"))), mk("param", "f")])
    except core.Unsupported: return None
    if eng.unknown: return None
    return constcls(prog, eng) or escape(prog, eng)
