"""Rules over what is written to the destination: line grammar, footer, block hashes."""
from terms import *
from graph import Viol, describe, at, short, fn

def digest_alg(d): return d.a[1][0].a[0].decode("latin1")

def tokens(t):
    """bytes of the literals and the non-literal pieces of a text, in order"""
    for x in pieces(t):
        if x.k == "bytes":
            for b in x.a[0]: yield ("b", b)
        elif x.k == "star": yield ("star", x.a[0])
        else: yield ("p", x)

MAGIC = b"DIRSIGNATURE.v1 "
RAW = {"entry_name", "path_str", "join"}

def opaque_fmt(x):
    """a piece produced by a formatter that the analysis could not classify"""
    return x.k == "p" and (x.a[0].startswith("show:") and ("dir_signature" in x.a[0]) or x.a[0] == "formatted")

def israw(x):
    """definitely the unformatted text of a path, name or link target"""
    if x.k == "p": return x.a[0] in RAW or x.a[0].startswith("show:Display:std::path::Display") or x.a[0].startswith("show:Debug")
    if x.k in ("res", "wk"): return "target" in x.a
    if x.k == "p" and x.a[0] == "lossy": return True
    return False

class Grammar:
    """position in the index text.  '?' = not decided (quiet), ('bad', why)"""
    def __init__(self, algo=None): self.algo = algo
    def start(self): return ("hdr", b"")

    def tok(self, s, k, x):
        if s == "?" or s[0] == "bad": return s
        n = s[0]
        if k == "p" and opaque_fmt(x): return "?"
        if n == "hdr":
            got = s[1]
            if k == "b":
                if x == 10: return ("bad", "header line ends before block_size")
                return ("hdr", got + bytes([x])) if len(got) < 200 else ("bad", "header too long")
            if x.k == "p" and x.a[0] == "name" and got == MAGIC: return ("hdr", got + b"\0")
            if x.k == "p" and x.a[0] == "dec":
                pre = got[len(MAGIC):]
                if not got.startswith(MAGIC): return ("bad", "header does not start with the magic and version: %r" % got)
                if not pre.endswith(b" block_size="): return ("bad", "header has %r before the block size" % pre)
                a = pre[:-len(b" block_size=")]
                if a != b"\0" and a not in (b"sha512/256", b"blake2b/256", b"blake3/256"): return ("bad", "header names the unknown hash %r" % a)
                return ("hdrnl", a, x.a[1][0])
            if x.k in ("phi", "wk", "post", "deref", "const", "param"): return "?"
            return ("bad", "unexpected text in the header: %s" % show(x, 6)[:120])
        if n == "hdrnl": return ("S",) if (k, x) == ("b", 10) else ("bad", "header line not terminated after the block size")
        if n == "END": return ("bad", "text after the footer")
        if k == "b":
            nx = {("S", 32): "S1", ("S1", 32): "N", ("A", 32): "T", ("T", 102): "K", ("T", 120): "K", ("T", 115): "L", ("K", 32): "Z",
                  ("HS", 32): "HX", ("HS", 10): "S", ("L", 32): "L2", ("E", 10): "S", ("D", 10): "S", ("F", 10): "END"}.get((n, x))
            if nx is not None: return (nx,)
            return ("bad", "unexpected %r %s" % (chr(x), PLACE[n]))
        if x.k == "p":
            if x.a[0] == "esc" and n in ("S", "N", "L2"): return ({"S": "D", "N": "A", "L2": "E"}[n],)
            if x.a[0] == "dec" and n == "Z" and len(x.a[1]) == 1: return ("HS",)
            if x.a[0] == "hex" and n in ("S", "HX"):
                if x.a[1][1] is not UNIT: return ("bad", "hash printed with only %s digits" % show(x.a[1][1]))
                return ("F",) if n == "S" else ("HS",)
        if israw(x): return ("bad", "name or target is written without escaping %s: %s" % (PLACE[n], show(x, 6)[:120]))
        if x.k == "p" and x.a[0] in ("esc", "dec", "hex", "xdec", "name") or x.k == "p" and x.a[0].startswith("padded"):
            return ("bad", "%s %s" % ({"esc": "a name", "dec": "a decimal number", "hex": "a hash", "xdec": "a hexadecimal number"}.get(x.a[0], "unexpected text " + x.a[0][:30]), PLACE[n]))
        return "?"

    def run(self, states, text):
        for k, x in tokens(text):
            if k == "star":
                seen = set(states); work = list(states)
                while work:
                    s = work.pop()
                    for alt in x:
                        for s2 in self.run(frozenset((s,)), alt):
                            if s2 not in seen: seen.add(s2); work.append(s2)
                states = frozenset(seen)
            else: states = frozenset(self.tok(s, k, x) for s in states)
        return states

PLACE = {"S": "at the start of a line", "S1": "after one leading space", "N": "where a file name is expected", "A": "after a file name", "T": "where the entry type is expected",
         "K": "after the entry type", "Z": "where the size is expected", "HS": "after the size or a hash", "HX": "where a hash is expected", "L": "after the link type",
         "L2": "where a link target is expected", "E": "after the link target", "D": "after a directory path", "F": "after the footer hash"}

def bad(states):
    for s in states:
        if s != "?" and s[0] == "bad": return s[1]
    return None

def is_ok(val):
    return val is not None and val.k == "agg" and val.a[0].endswith("Result") and val.a[1] == 0
def is_err(val):
    return val is not None and val.k == "agg" and val.a[0].endswith("Result") and val.a[1] == 1

# ---------------------------------------------------------------- C03: grammar
def grammar(g, prop):
    G = Grammar()
    f = g.filtered(lambda e: e.kind == "sink" and e.name in ("write", "partial"))
    def step(s, e):
        if e.info == "err": return s
        x = e.args[1]
        if e.name == "partial": return frozenset(("?",))
        n = G.run(s, x)
        b = bad(n)
        if b: return Viol("%s/%s" % (fn(e), b), "%s (%s)" % (b, show(x, 7)[:200]), e)
        return n
    def end(s, kind, val):
        if kind == "return" and is_ok(val):
            for z in s:
                if z != "?" and z[0] not in ("END",): return Viol("success/" + z[0], "success is returned with the index text ending %s" % PLACE.get(z[0], "in the header"))
    return f.run(frozenset((G.start(),)), step, end)

# ---------------------------------------------------------------- C01: footer
def split_after_newline(t):
    """(text up to and including the first newline, rest) or (t, None)"""
    ps = list(pieces(t))
    for i, x in enumerate(ps):
        if x.k == "bytes" and b"\n" in x.a[0]:
            j = x.a[0].index(b"\n") + 1
            rest = ps[i + 1:]
            if x.a[0][j:]: rest = [BY(x.a[0][j:])] + rest
            return text_(ps[:i] + [BY(x.a[0][:j])]), text_(rest)
    return t, None

def text_(ps):
    c = cat(*ps)
    return c.a[0][0] if len(c.a[0]) == 1 else c

def consume(a, b):
    """remove text b from the front of text a: rest, or None"""
    pa, pb = list(pieces(a)), list(pieces(b))
    while pb:
        if not pa: return None
        x, y = pa[0], pb[0]
        if x is y: pa.pop(0); pb.pop(0); continue
        if x.k == "bytes" and y.k == "bytes":
            if x.a[0].startswith(y.a[0]): pa[0] = BY(x.a[0][len(y.a[0]):]); pb.pop(0); continue
            if y.a[0].startswith(x.a[0]): pb[0] = BY(y.a[0][len(x.a[0]):]); pa.pop(0); continue
        return None
    return text_(pa)

def far(t):
    """more than a complete line apart: not the hasher of the body"""
    return len(pieces(t)) > 24 or sum(x.a[0].count(b"\n") for x in pieces(t) if x.k == "bytes") >= 1

def header_algo(t):
    """hash name in a complete header text, '?' when it is not a literal"""
    ps = pieces(t)
    if ps and ps[0].k == "bytes" and ps[0].a[0].startswith(MAGIC):
        r = ps[0].a[0][len(MAGIC):]
        if b" " in r: return r.split(b" ")[0].decode("latin1")
    return "?"

def footer(g, prop, spans=None):
    """Hasher states are compared with what the destination accepted since the header line.

    state: (header done?, algorithm, ((origin, side, text)..), candidate digest, text written since it was taken)
    `side` 0: the destination is ahead of the hasher by `text`; 1: the hasher is ahead."""
    f = g.filtered(lambda e: e.kind == "sink" and e.name in ("write", "partial") and e.info == "ok" or e.kind == "hash")
    G = Grammar()
    def sink(s, x, e):
        hd, al, tr, cand, tail, ud = s
        if not hd:
            pre, rest = split_after_newline(x)
            if rest is None:
                # part of the header: nothing may have been fed so far
                return (hd, al if al != "?" else header_algo(pre), tr, cand, tail, ud)
            al = header_algo(pre) if al == "?" else al
            hd = 1; x = rest
            if x is EMPTY: return (1, al, tr, cand, tail, ud)
        nt = []
        for o, side, t in tr:
            if side == 0: nt.append((o, 0, text_([t, x])) if not far(t) else None)
            else:
                r = consume(t, x)
                if r is None: r2 = consume(x, t); nt.append((o, 0, r2) if r2 is not None else None)
                else: nt.append((o, 1 if r is not EMPTY else 0, r))
        if cand is not None:
            tail = text_([tail, x])
            want = text_([mk("p", "hex", (cand, UNIT)), BY(b"\n")])
            if consume(want, tail) is None: cand = None; tail = EMPTY
        return (hd, al, tuple(sorted((z for z in nt if z is not None), key=lambda z: z[0].id)), cand, tail, ud)
    def step(s, e):
        hd, al, tr, cand, tail, ud = s
        if e.kind == "sink":
            x = e.args[1]
            if e.name == "partial": x = sl(x, I(0), e.args[2])
            return sink(s, x, e)
        d = {o: (side, t) for o, side, t in tr}
        v = e.args[0]; o = v.a[1]
        if e.name == "new": d[o] = (0, EMPTY) if not hd or ud == 0 else None
        elif e.name == "clone":
            n = e.args[1].a[1]
            st = d.get(o)
            d.pop(n, None)
            if st is not None: d[n] = st
        elif e.name == "reset": d.pop(o, None)
        elif e.name == "feed":
            st = d.get(o)
            if st is not None:
                side, t = st; x = e.args[1]
                if side == 0:
                    r = consume(t, x)
                    if r is not None: d[o] = (0, r)
                    else:
                        r = consume(x, t)
                        if r is None or far(r): d.pop(o)
                        else: d[o] = (1, r)
                else:
                    t = text_([t, x])
                    if far(t): d.pop(o)
                    else: d[o] = (1, t)
        elif e.name == "final":
            st = d.get(o)
            if st == (0, EMPTY): cand, tail = e.args[1], EMPTY
        return (hd, al, tuple(sorted(((o, a, t) for o, z in d.items() if z is not None for a, t in [z]), key=lambda z: z[0].id)), cand, tail, ud)
    def step2(s, e):
        # ud: has body text been written?
        n = step(s, e)
        if e.kind == "sink" and s[0]: n = n[:5] + (1,)
        elif e.kind == "sink" and n[0]:
            _, rest = split_after_newline(e.args[1])
            if rest is not None and rest is not EMPTY: n = n[:5] + (1,)
        return n
    def end(s, kind, val):
        if kind != "return" or not is_ok(val): return None
        hd, al, tr, cand, tail, ud = s
        if cand is None: return Viol("footer", "success is returned although what was written last is not the digest of exactly the body lines, in full, and a newline")
        want = text_([mk("p", "hex", (cand, UNIT)), BY(b"\n")])
        if tail is not want: return Viol("footer-incomplete", "success is returned after only %s of the footer" % show(tail, 5)[:120])
        if al != "?" and digest_alg(cand) != al: return Viol("footer-algorithm/" + al, "the footer is a %s digest but the header names %s" % (digest_alg(cand), al))
    return f.run((0, "?", (), None, EMPTY, 0), step2, end)

# ---------------------------------------------------------------- C01: tee under short writes
def part_of(y, x):
    """is text y the text x or a part of it?"""
    return y is x or y.k == "slice" and (y.a[0] is x or x.k == "slice" and x.a[0] is y.a[0])

def tee(g, prop):
    """when the destination accepts only the first n bytes of a write, every hasher that is fed this text must be fed each byte once"""
    f = g.filtered(lambda e: e.kind == "sink" and e.name in ("write", "partial") and e.info == "ok" or e.kind == "hash" and e.name == "feed")
    def check(s, e):
        x, cut, feeds, before, w = s
        for o in sorted({o for o, _ in feeds}, key=lambda z: z.id):
            fs = [y for p, y in (before if before and before[0][0] is o else ()) + feeds if p is o]
            L = lenof(x)
            if fs in ([x], [sl(x, I(0), cut), sl(x, cut, L)]): continue
            return Viol("%s/tee" % w, "after the destination accepted only the first n bytes of a write, the hasher is fed %s" % ", ".join(show(y, 4)[-60:] for y in fs), e, None)
        return None
    def step(s, e):
        last, pend = s          # last: a feed not yet written ("f", origin, text) or a write not yet fed ("w", text)
        if e.kind == "hash":
            o, y = e.args[0].a[1], e.args[1]
            if pend is not None and part_of(y, pend[0]):
                if len(pend[2]) < 4: pend = pend[:2] + (pend[2] + ((o, y),),) + pend[3:]
                return (None, pend)
            if last is not None and last[0] == "w" and last[1] is y: return (None, pend)
            return (("f", o, y), pend)
        x = e.args[1]
        if pend is not None:
            if e.name == "write" and part_of(x, pend[0]) and x is not pend[0]: return (None, pend)
            v = check(pend, e)
            if v is not None: return v
        ahead = last is not None and last[0] == "f" and last[2] is x
        if e.name == "partial": return (None, (x, e.args[2], (), ((last[1], x),) if ahead else (), fn(e)))
        return (None if ahead else ("w", x), None)
    def end(s, kind, val):
        if s[1] is not None: return check(s[1], None)
    r = f.run((None, None), step, end)
    return r
