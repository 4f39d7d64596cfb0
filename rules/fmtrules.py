"""Rules over the crate's formatting implementations and the texts they are used in."""
import core, xio, fmtcls, graph
from graph import Viol, fn
from terms import *
import text

def impls(prog):
    """keys of local Display / LowerHex / UpperHex implementations"""
    out = []
    for k in prog.bodies:
        if not k.startswith("<") or ">::fmt" not in k: continue
        ty, _, tr = k[1:].partition(" as ")
        if "dir_signature" in ty and "{closure" not in k and tr.split(">")[0] in ("std::fmt::Display", "std::fmt::LowerHex", "std::fmt::UpperHex"): out.append(k)
    return out

def classes(prog):
    return {k: xio.classify_fmt(prog, xio.M, k) for k in sorted(impls(prog))}

def esc_unit(ctx, dump="thr", only=lambda got: True):
    prog = ctx.prog(dump)
    def f():
        graph.PROG[0] = prog
        v = {}; n = 0; cl = {}
        for k, c in classes(prog).items():
            cl[graph.short(k)] = c[0] if c else "other"
            if c and c[0] == "escape":
                n += 256
                for b, got in c[2]:
                    if not only(got): continue
                    key = "%s/%s" % (graph.short(k), "end" if b is None else "%02x" % b)
                    msg = "%s writes %r for byte 0x%02x, not %r" % (graph.short(k), got, b, fmtcls.esc(b).decode()) if b is not None else "%s writes %r without a byte" % (graph.short(k), got)
                    v[key] = (msg, [])
                    if len(v) > 5: break
        return v, {"formatters": len(cl), "bytes_enumerated": n, "classes": cl}
    return ("formatters/" + dump, f)

def hex_unit(ctx, dump="thr", precisions=()):
    """every hex formatter of a digest, without a precision and with every precision up to 64"""
    prog = ctx.prog(dump)
    def f():
        graph.PROG[0] = prog
        v = {}; n = 0; cl = {}; pr = 0
        for k, c in classes(prog).items():
            cl[graph.short(k)] = c[0] if c else "other"
            if not (c and c[0] == "hex"): continue
            n += 64 * 256
            for d in c[2]: v["%s/%s" % (graph.short(k), d)] = ("%s: %s" % (graph.short(k), d), [])
            body = prog.bodies[k]; ti = body.locals[1]; sti = prog.ty(ti)["to"] if prog.ty(ti)["k"] == "ref" else ti
            for p in precisions:
                r = fmtcls.hexcls(prog, xio.M, k, body, sti, p)
                if r is None: continue
                pr += 1; n += p * 256
                for d in r[2]: v.setdefault("%s/precision/%s" % (graph.short(k), d), ("%s with a precision of %d: %s" % (graph.short(k), p, d), []))
        und = [k for k, c in cl.items() if "LowerHex" in k and c != "hex"]
        return v, {"formatters": len(cl), "digit_values_enumerated": n, "precisions": pr, "classes": cl}, "formatter not understood: %s" % ", ".join(und) if und else None
    return ("hex formatters/" + dump, f)

EXTERNAL = ("res", "wk", "param", "el", "chunk", "deref")
def trusted(facts, x):
    """was this text validated as UTF-8 on the path?"""
    for t, v in facts.items():
        if v and find(t, lambda z: z.k == "p" and z.a[0] == "utf8" and z.a[1] and z.a[1][0] is x): return True
        if t.k == "disc" and find(t, lambda z: z.k == "p" and "utf8" in z.a[0]): return True
    return False

def unchecked(g, pid):
    """texts made without validation: only literal ASCII, numbers and hex digests"""
    v = {}; n = 0; und = None; seen = set()
    for e in g.events():
        if e.kind != "unchecked" or e in seen: continue
        seen.add(e); n += 1
        for x in pieces(e.args[0]):
            if x.k == "bytes":
                if max(x.a[0] or b"a") >= 0x80: v["%s/literal" % fn(e)] = ("%r is made a string without validation" % x.a[0][:40], [graph.describe(e)])
            elif x.k == "p" and x.a[0] in ("dec", "xdec", "hex", "name", "esc"): pass
            elif trusted(e.facts or {}, x): pass
            else:
                base = x
                while base.k == "slice": base = base.a[0]
                if base.k in EXTERNAL or base.k == "p" and base.a[0] in ("entry_name", "lossy", "path_str", "join", "unesc") or base.k == "fld" and any(y.k in EXTERNAL for y in subterms(base)):
                    v["%s/unchecked" % fn(e)] = ("bytes from outside are made a string without validation: %s" % show(x, 5)[:120], [graph.describe(e)])
                else: und = "text made a string without validation at %s" % graph.at(e)
    return v, n, True, und

def ascii_out(g, pid):
    """every byte accepted by the destination is ASCII"""
    f = g.filtered(lambda e: e.kind == "sink" and e.name in ("write", "partial"))
    def bad(x):
        for k, y in text.tokens(x):
            if k == "b" and y >= 0x80: return "the byte 0x%02x" % y
            if k == "star":
                for alt in y:
                    r = bad(alt)
                    if r: return r
            if k == "p" and text.israw(y): return "an unescaped name, path or target: %s" % show(y, 5)[:100]
        return None
    def step(s, e):
        r = bad(e.args[1])
        return Viol("%s/ascii" % fn(e), "%s is written to the index" % r, e, 0) if r else 0
    return f.run(0, step)

def raw(g, pid):
    """names, paths and targets reach the destination only through the escaping formatter, and undistorted"""
    f = g.filtered(lambda e: e.kind == "sink" and e.name in ("write", "partial"))
    def step(s, e):
        for k, x in text.tokens(e.args[1]):
            alts = [p for alt in x for kk, p in text.tokens(alt) if kk == "p"] if k == "star" else [x] if k == "p" else []
            for p in alts:
                if text.israw(p): return Viol("%s/raw" % fn(e), "a name, path or target is written without escaping: %s" % show(p, 6)[:160], e, 0)
                if p.k == "p" and p.a[0] == "esc" and find(p, lambda z: z.k == "p" and z.a[0] == "lossy"):
                    return Viol("%s/lossy" % fn(e), "the escaped bytes are a lossy conversion of the name: %s" % show(p, 7)[:160], e, 0)
        return 0
    return f.run(0, step)
