"""C05: the unescaping of parsed names is the inverse of the escaping, decided iteration by iteration."""
import itertools
from terms import *
import core, graph, units, evalt, xio, effects
from graph import Viol
import parserules as pr
from parserules import P, find, outcome

HEXD = b"0123456789abcdefABCDEF"
def decode(s, n=None):
    """(decoded, bytes consumed): the first n bytes of s, looking ahead beyond them; n None: all"""
    out = bytearray(); i = 0
    while i < (len(s) if n is None else n):
        if s[i:i + 2] == b"\\x" and len(s) >= i + 4 and s[i + 2] in HEXD and s[i + 3] in HEXD: out.append(int(s[i + 2:i + 4], 16)); i += 4
        else: out.append(s[i]); i += 1
    return bytes(out), i

REPS = (0x5c, 0x78, 0x30, 0x39, 0x61, 0x66, 0x41, 0x46, 0x2f, 0x3a, 0x40, 0x47, 0x60, 0x67, 0x58, 0, 0xff)
FEW = (0x5c, 0x78, 0x34, 0x66, 0x67)

class Judge:
    """the step from position pos (text before it decoded) to pos + n, under the facts of the path"""
    def __init__(self, src, pos): self.src, self.pos = src, pos; self.P = pos.a[0] if pos.k == "int" else 0 if pos.k == "rest" else 3; self.memo = {}; self.root = pos.a[0] if pos.k == "rest" else src
    def base(self, L):
        if self.pos.k == "rest":
            x = self.pos.a[0]
            return {y: L for y in (lenof(x), mk("len", x))}
        e = {x: self.P + L for y in (self.src, self.src.a[0]) for x in (lenof(y), mk("len", y))}
        if self.pos.k != "int": e[self.pos] = self.P
        return e
    def env(self, ts, S):
        """assignment for the terms ts under the text S (its first P bytes already decoded)"""
        e = self.base(len(S) - self.P); e[self.root] = bytes(S)
        todo = [x for t in ts for x in effects.walk(t)]
        for x in sorted({y for y in todo if y.k in ("elem", "slice", "p")}, key=lambda y: y.id):
            if x.k == "elem" and x.a[0] is self.root:
                i = evalt.num(x.a[1], e)
                if i is not None and 0 <= i < len(S): e[x] = S[i]
            elif x.k == "elem" and x.a[0] in e and isinstance(e[x.a[0]], bytes):
                i = evalt.num(x.a[1], e)
                if i is not None and 0 <= i < len(e[x.a[0]]): e[x] = e[x.a[0]][i]
            elif x.k == "slice" and isinstance(e.get(x.a[0]), bytes):
                a, b = evalt.num(x.a[1], e), evalt.num(x.a[2], e)
                if a is not None and b is not None and 0 <= a <= b <= len(e[x.a[0]]): e[x] = e[x.a[0]][a:b]
            elif x.k == "p" and x.a[0] in ("starts_with", "ends_with", "contains"):
                y, z = (evalt.val(w, e) for w in x.a[1][:2])
                if isinstance(y, bytes) and isinstance(z, bytes): e[x] = int({"starts_with": y.startswith, "ends_with": y.endswith, "contains": y.__contains__}[x.a[0]](z))
        return e
    def piece(self, t, e):
        if t in e and isinstance(e[t], bytes): return e[t]
        if t.k == "bytes": return t.a[0]
        if t.k == "p" and t.a[0] in ("byte", "u8"): t = t.a[1][0]
        elif t.k == "byte": t = t.a[0]
        x = evalt.val(t, e)
        if isinstance(x, bytes): return x
        if isinstance(x, int) and x >= 0: return bytes([x & 0xff])
        return None
    def worlds(self, facts, n, und):
        rel = []; lens = []; single = {}
        for t, v in facts:
            w = [x for x in effects.walk(t) if x.k == "elem" and x.a[0] is self.root or x is self.root or x is self.src.a[0] or x is self.pos or self.root.k == 'deref' and x is self.root.a[0]]
            if not w: continue
            el = list(dict.fromkeys(x for x in find(t, lambda z: z.k == "elem" and z.a[0] is self.root)))
            e = self.base(8)
            if len(el) == 1:
                i = evalt.num(el[0].a[1], e)
                if i is not None and i >= self.P:
                    r = [evalt.fact(t, v, {**e, el[0]: b}) for b in range(256)]
                    if None not in r and not any(x is lenof(self.root) for x in effects.walk(t) if x is not el[0]):
                        s = single.setdefault(i - self.P, set(range(256))); s &= {b for b in range(256) if r[b]}; continue
            rel.append((t, v))
        m = 4 if n is None else max(n, 1) + 3
        for L in range(0, m + 2):
            bad = False
            if any(not s for s in single.values()): return
            if any(k >= L for k in single): continue          # a byte that was looked at exists
            pos = []
            for k in range(L):
                s = single.get(k)
                if s is None: pos.append(FEW if k < 4 else (0x67, 0x5c) if k < 5 else (0x67,))
                else:
                    r = [b for b in REPS if b in s]
                    pos.append(tuple(r) if len(r) <= 9 or len(single) < 3 else tuple(r)); 
                    if not r: pos[-1] = tuple(sorted(s)[:3])
            tot = 1
            for p in pos: tot *= len(p)
            if tot > 6000: pos = [tuple(b for b in p if b in FEW) or p[:4] for p in pos]
            vecs = itertools.product(*pos)
            if L >= 4 and all(c in pos[k] for k, c in ((0, 0x5c), (1, 0x78))):
                d2 = sorted(single.get(2, range(256))); d3 = sorted(single.get(3, range(256))); tail = tuple(p[0] for p in pos[4:])
                def tails(a, b, k=L - 4, single=single):
                    # what follows an escape: anything, the decoded character again, a backslash, another escape
                    c = int(bytes((a, b)), 16) if a in HEXD and b in HEXD else 0x5c
                    for t in ((0x67,) * k, bytes((c,)) + b"g" * k, b"\\" + b"g" * k, b"\\x" + bytes((a, b)) + b"g" * k, b"x" + b"4" * k):
                        t = tuple(t[:k])
                        if all(y in single.get(4 + j, (y,)) for j, y in enumerate(t)): yield t
                vecs = itertools.chain(vecs, ((0x5c, 0x78, a, b) + t for a in d2 for b in d3 if (a in HEXD and b in HEXD) or b in (0x37, 0x63, 0x3a) or a in (0x37, 0x63, 0x3a) for t in dict.fromkeys((tail,) + tuple(tails(a, b)))))
            for vec in vecs: yield bytes(vec), rel
    def step(self, facts, n, out):
        """None, ('bad', message) or ('und', message)"""
        k = (facts, n, out)
        if k in self.memo: return self.memo[k]
        r = self.memo[k] = self._step(facts, n, out)
        return r
    def _step(self, facts, n, out):
        unknown = None
        for S, rel in self.worlds(facts, n, None):
            full = b"q" * self.P + S
            e = self.env([t for t, _ in rel] + list(out), full)
            hs = [evalt.fact(t, v, e) for t, v in rel]
            if False in hs: continue
            if n is not None and n > len(S): return ("bad", "the reading position moves beyond the end of %r" % S)
            want, used = decode(S, n)
            if None in hs: unknown = next(t for (t, v), h in zip(rel, hs) if h is None)
            ps = [self.piece(x, e) for x in out]
            if None in ps: return ("und", "what is written at one step")
            got = b"".join(ps)
            if n is not None and used != n: msg = "after the start of %r the reading position moves by %d, the decoder's step is %d" % (S, n, used)
            elif got != want: msg = "%r is decoded to %r instead of %r" % (S if n is None else S[:n] + b"..." , got, want)
            else: continue
            if unknown is not None: return ("und", "a test on the path (%s)" % show(unknown, 4)[:80])
            return ("bad", msg)
        return None

def decoder(prog, path, key):
    eng = core.Engine(prog, xio.M(), dict(branch=True, calls=True, maxnodes=200000, keep_final=True))
    prm = mk("param", "s")
    eng.run(key, [prm], {})
    g = graph.Graph(eng, path)
    src = mk("deref", prm)
    und = set(); J = {}
    def judge(pos, facts, n, out):
        if pos not in J: J[pos] = Judge(src, pos)
        return J[pos].step(facts, n, out)
    interesting = lambda e: e.kind in ("loop", "br") or e.kind == "text"
    f = g.filtered(interesting)
    def ahead(v, pos):
        """how far the rest of the text v is ahead of the position"""
        x, a = (v.a[0], v.a[1]) if v.k == "slice" and v.a[2] is lenof(v.a[0]) else (v, ZERO)
        if x is src: return pr.diffs(a, [p for p in pos if p.k != "rest"])
        return a.a[0] if a.k == "int" and any(p.k == "rest" and p.a[0] is x for p in pos) else None
    ZERO = I(0)
    relevant = lambda t: any(x is src or x is prm for x in effects.walk(t))
    # state: (mode, positions (terms equal to the reading position), written since, facts since)
    init = ("A", (ZERO,), (), frozenset())
    def step(s, e):
        mode, pos, out, facts = s
        if mode == "?": return s
        if e.kind == "br":
            new = frozenset((t, v) for t, v in e.facts.items() if relevant(t) or any(x in pos or any(p.k == 'rest' and (p.a[0] is x or p.a[0].k == 'deref' and p.a[0].a[0] is x) for p in pos) for x in effects.walk(t)))
            return (mode, pos, out, facts | new)
        if e.kind == "text":
            if e.name != "append": und.add("text operation %s" % e.name); return ("?", (), (), frozenset())
            v = e.args[1]
            if mode == "A":
                if v.k == "slice" and v.a[0] is src and v.a[1] is ZERO and v.a[2] in pos: return ("B", pos, out, facts)
                mode = "B" if any(p is ZERO for p in pos) else "A1"
                if mode == "A1":
                    if contains(v, src): return Viol("prefix", "the text before the first escape is not what is copied (%s)" % show(v, 4)[:80], e, ("?", (), (), frozenset()))
                    und.add("what is written before the text is decoded"); return ("?", (), (), frozenset())
            return ("B", pos, out + (v,), facts) if len(out) < 8 else ("?", (), (), frozenset())
        # loop head
        hk, mem = e.info; st = core.St(dict(mem), {})
        best = None
        for ph in eng.phi_in:
            if ph.a[0] is not hk: continue
            isref = False
            try:
                v = eng.load(st, ph.a[1], ph.a[2])
                if v is not None: c = eng.content(st, v); isref = c is not v; v = c
            except Exception: continue
            if v is None: continue
            d = pr.diffs(v, [x for x in pos if x.k != "rest"])
            if d is None:
                d = ahead(v, pos)
                if d is not None: ph = mk("rest", mk("deref", ph) if isref else ph)
            if d is None: continue
            if best is None or False or (d != 0 and best[0] == 0): best = (d, ph, v)
        if best is None:
            # the position is not carried by a variable of this loop
            und.add("a loop that does not carry the reading position"); return ("?", (), (), frozenset())
        d, ph, v = best
        if d == 0 and not out: return (mode, tuple(dict.fromkeys((ph,) + pos)) if False else (ph,), (), frozenset())
        if d < 0: return Viol("backwards", "the reading position moves back by %d" % -d, e, ("?", (), (), frozenset()))
        p0 = pos[0]
        w = ((mk("slice", p0.a[0], ZERO, I(d)) if p0.k == "rest" else mk("slice", src, p0, mk("op", "Add", p0, I(d)) if p0.k != "int" else I(p0.a[0] + d))),) if mode == "A" else out
        r = judge(pos[0], facts, d, w)
        if r and r[0] == "und": und.add(r[1])
        elif r: return Viol("step", r[1], e, (mode, (ph,), (), frozenset()))
        return (mode, (ph,), (), frozenset())
    def end(s, kind, val):
        mode, pos, out, facts = s
        if mode == "?" or kind != "return": return None
        borrowed = val is not None and val.k == "agg" and val.a[1] == 0 and (val.a[2][0] is prm or val.a[2][0] is src)
        if val is not None and val.k == "agg" and val.a[1] == 0 and not borrowed and mode == "A": und.add("returned value"); return None
        if mode == "A":
            if not borrowed: return Viol("unwritten", "text is returned that does not come from the input (%s)" % (show(val, 4)[:80] if val is not None else "?"), None)
            w = (pos[0].a[0] if pos[0].k == "rest" else mk("slice", src, pos[0], lenof(src)),)
        else:
            if borrowed: return Viol("discarded", "the undecoded text is returned", None)
            w = out
        r = judge(pos[0], facts, None, w)
        if r and r[0] == "und": und.add(r[1])
        elif r: return Viol("end", r[1], None)
    v, n, ok = f.run(init, step, end)
    return v, n, ok, und, g

def decoders_unit(prog):
    v = {}; und = set(); st = {"decoders": 0, "graph_nodes": 0, "product_states": 0}
    ds = pr.decoders(prog)
    if not ds: und.add("no function that decodes names was found")
    for path, key in ds.items():
        o = decoder(prog, path, key)
        for k, x in o[0].items(): v.setdefault("%s/%s" % (path.split("::")[-1], k), x)
        und |= {"%s: %s" % (path, u) for u in o[3]}
        if not o[2]: und.add("product limit reached")
        st["decoders"] += 1; st["graph_nodes"] += len(o[4].nodes); st["product_states"] += o[1]
    return v, st, "; ".join(sorted(und)) or None
