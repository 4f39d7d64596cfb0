"""C24: check_file; C25: get_hash."""
from terms import *
import graph, evalt
from graph import Viol, fn

def find(t, pred):
    import effects
    return [x for x in effects.walk(t) if pred(x)]

def is_item(x): return x.k == "elem" and x.a[0].k in ("chunks", "p") and "chunks" in str(x.a[0].k if x.a[0].k == "chunks" else x.a[0].a[0])
def isdig(x): return x.k == "p" and x.a[0] == "digest"

def check_file(g, pid):
    """true only after every stored hash was compared equal with the digest of its block and the file was seen to end"""
    f = g.filtered(lambda e: e.kind in ("br", "hash") and (e.kind == "br" or e.name == "final") or e.kind == "next" and e.name in ("chunk", "coll") or e.kind == "fs" and e.name in ("read", "read_exact"))
    und = set()
    # state: (item pending?, iteration finished?, digest skipped?, last read, failed read, digest not yet compared)
    init = ("idle", False, 0, None, None, None)
    def step(s, e):
        st, done, lag, last, err, cmp_ = s
        if e.kind == "next":
            if not any(x.k == "param" for x in subterms(e.args[0])): return s
            if len(e.args) > 1 and e.args[1].k != "int": return s
            if st == "pending": return Viol("item not compared", "the comparison goes on to the next stored hash without having found this one equal to the digest of a block", e)
            if e.info == "none": return ("idle", True, lag, last, err, cmp_)
            return ("pending", done, lag, last, err, cmp_)
        if e.kind == "hash":
            return (st, done, 1 if cmp_ is not None else lag, last, err, e.args[1] if len(e.args) > 1 else True)
        if e.kind == "fs":
            if e.info == "err": return (st, done, lag, last, e, cmp_)
            return (st, done, lag, e, None, cmp_)
        if e.kind == "br":
            if st == "pending" and cmp_ is not None and equal_fact(e, cmp_):
                if lag: return Viol("block skipped", "a stored hash is compared with the digest of a later block: a digest computed before was not compared", e)
                return ("idle", done, 0, last, err, None)
            if last is not None and last.name == "read" and len(last.args) > 3:
                n = last.args[3]
                for t, v in e.facts.items():
                    if t is n or find(t, lambda z: z is n):
                        r0, r1 = evalt.holds(t, v, {n: 0}), evalt.holds(t, v, {n: 1})
                        if r0 and r1 is False: return (st, done, lag, "ended", err, cmp_)
                        if r0 is False and r1: return (st, done, lag, "more", err, cmp_)
                        if r0 is None: und.add("condition on the final read")
            return s
        return s
    def equal_fact(e, dig):
        for t, v in e.facts.items():
            if v == 1 and t.k == "op" and t.a[0] == "Eq":
                a, b = t.a[1], t.a[2]
                for x, y in ((a, b), (b, a)):
                    if isdig(y) and y is dig:
                        if is_item(x) or x.k in ("el",): return True
                    if x.k == "slice" and y.k == "slice" and find(y, lambda z: z is dig) and find(x, is_item):
                        if y.a[0] is dig and y.a[1].k == "int" and y.a[2].k == "int" and (y.a[1].a[0] > 0 or y.a[2].a[0] < 32): part.add(e)
            if v == 1 and t.k == "p" and t.a[0] in ("starts_with", "ends_with") and any(isdig(x) for x in t.a[1]): return True
            if find(t, isdig) and not (t.k == "op" and t.a[0] == "Eq" and any(isdig(x) for x in t.a[1:])): odd.add(e)
        return False
    part = set(); odd = set()
    iterated = any(e.kind == "next" and e.name == "chunk" for e in f.events())
    def end(s, kind, val):
        st, done, lag, last, err, cmp_ = s
        if kind != "return" or val is None or val.k != "agg": return None
        if err is not None and val.a[1] == 0: return Viol("read error", "a failing read at %s does not make check_file fail" % graph.at(err), err)
        if val.a[1] != 0: return None
        r = val.a[2][0]
        if r.k != "bool":
            if last is not None and not isinstance(last, str) and last.name == "read" and len(last.args) > 3:
                n = last.args[3]
                r0, r1 = evalt.holds(r, 1, {n: 0}), evalt.holds(r, 1, {n: 1})
                if r1: return Viol("trailing data", "true is returned although the final read at %s may have delivered bytes" % graph.at(last), last)
                if r1 is False: last = "ended"; r = B(1)
        if r.k != "bool":
            if r.k == "op" or find(r, lambda z: z.k == "phi"): und.add("result is computed, not branched on"); return None
            return None
        if not r.a[0]: return None
        if st == "pending": return Viol("accepted uncompared", "true is returned although the last stored hash was not found equal to a digest", None)
        if not done and iterated: return Viol("not all compared", "true is returned on a path on which the iteration over the stored hashes did not come to its end", None)
        if not done: und.add("the stored hashes are not iterated by a recognised iteration"); return None
        if last == "more": return Viol("trailing data", "true is returned after a read that delivered more bytes", None)
        if last != "ended":
            if last is not None and not isinstance(last, str) and last.name == "read" and len(last.args) > 3: return Viol("end not checked", "true is returned without looking at how many bytes the final read at %s delivered" % graph.at(last), last)
            return Viol("no end check", "true is returned without a read that shows that the file has ended", None)
        return None
    v, n, ok = f.run(init, step, end)
    if odd and not part and any("compared" in k for k in v):
        und.add("comparison is not recognised")
        v = {k: x for k, x in v.items() if "compared" not in k}
    if part: v.setdefault("part compared", ("only a part of a stored hash is compared at %s" % graph.at(next(iter(part))), []))
    return v, n, ok, "; ".join(sorted(und)) or None

# ---------------------------------------------------------------- C25
NAMES3 = (b"sha512/256", b"blake2b/256", b"blake3/256")
HEXV = {b: int(chr(b), 16) for b in b"0123456789abcdefABCDEF"}
def ival(t): return t.a[0] if t.k == "int" else None

def base_off(t):
    """(buffer read, offset) of a byte range"""
    off = 0
    while True:
        if t.k == "slice":
            o = ival(t.a[1])
            if o is None: return None
            off += o; t = t.a[0]
        elif t.k == "ovl":
            s = ival(t.a[1])
            if s is None: return None
            off -= s; t = t.a[3]
        elif t.k == "buf": return t, off
        else: return None

def bytepos(t):
    """(buffer, index, None) of a single byte; for a byte of a chunk (buffer, start of the chunks, (chunk size, chunk index, k))"""
    if t.k != "elem": return None
    x, i = t.a
    if x.k == "elem" and x.a[0].k in ("chunks", "p"):
        c = x.a[0]; args = c.a if c.k == "chunks" else c.a[1]
        b = base_off(args[0])
        if b is None or ival(i) is None or ival(args[1]) is None: return None
        return b[0], b[1], (ival(args[1]), x.a[1], ival(i))
    b = base_off(x)
    if b is None or ival(i) is None: return None
    return b[0], b[1] + ival(i), None

def chunkpos(t):
    """like bytepos, for a chunk of any text"""
    if t.k != "elem": return None
    x, i = t.a
    if x.k == "elem" and x.a[0].k in ("chunks", "p"):
        c = x.a[0]; args = c.a if c.k == "chunks" else c.a[1]
        if c.k == "p" and c.a[0] != "chunks" or ival(i) is None or ival(args[1]) is None: return None
        return args[0], 0, (ival(args[1]), x.a[1], ival(i))
    return None

def pairs(g, bytepos, v, und):
    """every byte appended is the value of two hexadecimal digits, and every digit is accepted"""
    n = 0; seen = False; good = set()
    # what one appended byte is
    for e in g.events():
        if e.kind == "text" and e.name == "append" and e.args[1].k == "byte":
            x = e.args[1].a[0]
            ds = {y for y in find(x, lambda z: z.k == "elem") if bytepos(y)}
            if len(ds) == 1:
                # the other digit of the pair may have been dropped: it shows only in the branch facts
                d0 = next(iter(ds))
                ds |= {y for t in e.facts for y in find(t, lambda z: z.k == "elem" and z.a[0] is d0.a[0]) if bytepos(y)}
            ds = sorted(ds, key=lambda y: y.id)
            if len(ds) != 2 or any(bytepos(y)[2] is None for y in ds): und.add("bytes of the result are not made of two digits of one chunk"); continue
            ps = {bytepos(y)[2][2]: y for y in ds}
            if set(ps) != {0, 1} or bytepos(ds[0])[2][0] != 2: und.add("digits are not taken pairwise"); continue
            fs = [(t, w) for t, w in e.facts.items() if find(t, lambda z: z in ds)]
            per = {}
            for k, y in ps.items():
                mine = [(t, w) for t, w in fs if find(t, lambda z: z is y) and not find(t, lambda z: z in ds and z is not y)]
                per[k] = []
                for b in range(256):
                    r = [evalt.holds(t, w, {y: b}) for t, w in mine]
                    if all(z is not False for z in r):
                        if None in r: und.add("a digit test is not understood")
                        else: per[k].append(b)
                n += 256
                wrong = [b for b in per[k] if b not in HEXV]
                if wrong and not und: v.setdefault("digit accepted", ("the byte 0x%02x is accepted as a hex digit" % wrong[0], [graph.describe(e)]))
            both = [(t, w) for t, w in fs if all(find(t, lambda z: z is y) for y in ds)]; seen = True
            for a in per[0]:
                for b in per[1]:
                    if a not in HEXV or b not in HEXV: continue
                    if any(evalt.holds(t, w, {ps[0]: a, ps[1]: b}) is False for t, w in both):
                        continue
                    good.add((a, b))
                    z = evalt.num(x, {ps[0]: a, ps[1]: b}); n += 1
                    if z is None: und.add("value of a digit pair"); continue
                    if z & 255 != HEXV[a] * 16 + HEXV[b]: v.setdefault("digit value", ("the digits `%s%s` yield 0x%02x" % (chr(a), chr(b), z & 255), [graph.describe(e)]))
    # every digit must be decodable: a hex digit that no path appends is rejected
    if not und:
        lost = sorted((a, b) for a in HEXV for b in HEXV if (a, b) not in good) if seen else ()
        if lost: v.setdefault("digit rejected", ("the hex digits `%s%s` are not accepted" % (chr(lost[0][0]), chr(lost[0][1])), []))
    return n

def get_hash(g, pid):
    v = {}; und = set(); n = 0
    f = g.filtered(lambda e: e.kind in ("br", "text", "next", "search") or e.kind == "fs")
    n += pairs(g, bytepos, v, und)
    relbuf = lambda t: bool(find(t, lambda z: z.k == "buf")) and not find(t, lambda z: z.k == "phi")
    evs = {e for e in f.events() if e.kind == "br" and any(relbuf(t) for t in e.facts)}
    tail_next = lambda e: e.kind == "next" and e.name == "chunk" and base_off(e.args[0]) is not None
    f = g.filtered(lambda e: e in evs or e.kind == "fs" and e.name in ("read", "read_exact", "seek", "read_line", "fill_buf") or tail_next(e) or e.kind == "search")
    has_next = any(tail_next(e) for e in f.events())
    # state: facts, reads, seek, iteration ended
    def step(s, e):
        facts, reads, seek, done = s
        if e.kind == "br": return (facts | frozenset((t, w) for t, w in e.facts.items() if relbuf(t)), reads, seek, done)
        if e.kind == "next": return (facts, reads, seek, e.info == "none")
        if e.kind == "search": return s
        if e.info == "err": return s
        if e.name == "seek": return (facts, reads, e.args[1], done)
        return (facts, reads + ((e, seek),), seek, done) if len(reads) < 4 else s
    def end(s, kind, val):
        facts, reads, seek, done = s
        if kind != "return" or val is None or val.k != "agg" or val.a[1] != 0: return None
        for e, _ in reads:
            if e.name == "read":
                if len([1 for x, _ in reads if x.name == "read" and graph.at(x) == graph.at(e)]) > 1 or looped(e): und.add("reads in a loop"); return None
                return Viol("short read", "a single read at %s decides what the header or the footer is: a reader that returns fewer bytes changes the result" % graph.at(e), e)
        ex = [(e, k) for e, k in reads if e.name == "read_exact" and len(e.args) > 2]
        if len(ex) != len(reads) or len(ex) != 2: und.add("header and footer are not read by two exact reads"); return None
        (h, hs), (t, ts) = ex
        A, B = h.args[2], t.args[2]
        if A.k != "buf" or B.k != "buf" or hs is not None: und.add("reads are not understood"); return None
        # --- magic
        mag = b"DIRSIGNATURE.v1 "
        fa = [(x, w) for x, w in facts if find(x, lambda z: z is A)]
        lit = [(x, w) for x, w in fa if x.k == "op" and x.a[0] == "Eq" and x.a[2].k == "bytes" and w == 1]
        covered = None; name = None; other = []
        for x, w in fa:
            if (x, w) in lit:
                b = base_off(x.a[1]) if x.a[1].k != "slice" or ival(x.a[1].a[1]) is not None else None
                if b and b[1] == 0: covered = x.a[2].a[0]; continue
                if b: name = (b[1], x.a[2].a[0], x.a[1]); continue
            other.append((x, w))
        if covered is None:
            if any(x.k == "p" and w == 1 for x, w in other if x.a[0] in ("starts_with",)): covered = [x.a[1][1].a[0] for x, w in other if x.k == "p" and x.a[0] == "starts_with" and w == 1 and x.a[1][1].k == "bytes"][:1]; covered = covered[0] if covered else None
        if covered is None:
            if any(w == 1 and x.k == "p" and x.a[0] not in ("utf8",) for x, w in other): und.add("header test is not understood"); return None
            return Viol("magic", "a hash is returned from a file whose magic was not compared", h)
        if not covered.startswith(mag):
            return Viol("magic", "a file that begins with %r is accepted whatever follows it" % covered.decode("latin1"), h)
        if name is None: 
            if len(covered) > 16: und.add("header compared as a whole"); return None
            if any(x.k == "p" and x.a[0] not in ("utf8",) for x, w in other): und.add("hash name test is not understood"); return None
            return Viol("hash type", "a hash is returned although no hash type name was found equal to a part of the header", h)
        if name[0] != 16 or name[1] not in NAMES3: return Viol("hash type", "the hash type `%s` at offset %d is accepted" % (name[1].decode("latin1"), name[0]), h)
        la = ival(A.a[1])
        if la is not None and la < 16 + max(map(len, NAMES3)) + 1: return Viol("header length", "only %d bytes of header are read: too few for the longest hash name and the space after it" % la, h)
        # the name must end with a space: position of b' ' or a byte fact
        # --- position of the tail
        if ts is None: return Viol("no seek", "the footer is read without seeking to the end of the file", t)
        if not (ts.k == "agg" and ts.a[0].endswith("SeekFrom")): und.add("seek"); return None
        if ts.a[1] != 1: und.add("seek not from the end"); return None
        k = evalt.num(ts.a[2][0], {}); ln = ival(B.a[1])
        if k is None or ln is None: und.add("seek distance"); return None
        if k >= 1 << 63: k -= 1 << 64
        if k >= 0: return Viol("seek", "the seek goes to the end of the file plus %d" % k, t)
        rng = [bytepos(y) for e in g.events() if e.kind == "text" and e.name == "append" and e.args[1].k == "byte" for y in find(e.args[1], lambda z: z.k == "elem") if bytepos(y) and bytepos(y)[2]]
        cs = [e.args[0] for e in g.events() if tail_next(e) and base_off(e.args[0])[0] is B]
        if not cs or not rng: und.add("digits of the footer"); return None
        s0 = base_off(cs[0])[1]; sl_ = evalt.num(lenof(cs[0]), {})
        if sl_ is None: und.add("number of digits"); return None
        if sl_ != 64: return Viol("digits", "%d digits are decoded instead of 64" % sl_, t)
        if k + s0 + 64 != -1: return Viol("position", "the digits decoded are not the last 64 bytes before the final byte of the file: they start %d bytes before its end" % -(k + s0), t)
        if not done: return Viol("not all digits", "a hash is returned before all digits were decoded", t)
        for idx, what in ((s0 - 1, "before"), (s0 + 64, "after")):
            if not 0 <= idx < ln: return Viol("newline %s" % what, "the byte %s the last line is not read" % what, t)
            mine = [(x, w) for x, w in facts if any(bytepos(z) and bytepos(z)[0] is B and bytepos(z)[1] == idx and bytepos(z)[2] is None for z in find(x, lambda z: z.k == "elem")) ]
            acc = []
            for b in range(256):
                r = [evalt.holds(x, w, {z: b for z in find(x, lambda z: z.k == "elem")}) for x, w in mine]
                if None in r and False not in r: und.add("newline test"); return None
                if all(r): acc.append(b)
            if acc != [10]:
                whole = [x for x, w in facts if find(x, lambda z: z is B) and not find(x, lambda z: z.k == "elem" and bytepos(z))]
                if whole and len(acc) == 256: und.add("newline test"); return None
                return Viol("newline %s" % what, "the byte %s the last line may be 0x%02x instead of a newline" % (what, [b for b in acc if b != 10][0] if [b for b in acc if b != 10] else 0), t)
        return None
    def looped(e): return False
    a, m, ok = f.run((frozenset(), (), None, not has_next), step, end)
    for k, x in a.items(): v.setdefault(k, x)
    return v, n + m, ok, "; ".join(sorted(und)) or None
