"""C34: accessors and conversions give back exactly what was parsed.  C35: the Emitter writes exactly what it is told."""
from terms import *
from graph import Viol, describe, at, fn
import evalt, text, units
import parserules as pr

def par(n): return mk("param", n)
def fld(v, *p):
    for i in p: v = mk("fld", v, None, i)
    return v
def de(n): return mk("deref", par(n))

NUMS = (0, 1, 2, 9, 10, 255, 256, 32767, 32768, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, 1 << 53, (1 << 63) - 1, 1 << 63, (1 << 64) - 1)
def same(t, x):
    """is term t the value x, for every value of x on the grid? True, False or None (not decided)"""
    if t is x: return True
    r = True
    for v in NUMS:
        y = evalt.num(t, {x: v})
        if y is None: r = None
        elif y != v: return False
    return r

def chunks_of(x):
    """(text, length of a chunk) of an element of the chunks of a text"""
    if x.k != "elem": return None
    c = x.a[0]
    if c.k == "chunks": return c.a
    return c.a[1] if c.k == "p" and c.a[0] in ("chunks", "chunks_exact") else None

def base(t):
    """a borrowed or copied value is the value"""
    while t.k in ("ce", "ref") and isinstance(t.a[0], T): t = t.a[0]
    return t

def eqv(t, x):
    """do two structural values agree? a rebuilt aggregate of all the fields of x is x"""
    t = base(t)
    if t is x: return True
    if t.k == "agg":
        vs = x
        for i, y in enumerate(t.a[2]):
            z = base(y)
            if not (z.k == "fld" and z.a[0] is vs and z.a[-1] == i) and eqv(y, fld(vs, i)) is not True: return False
        return True if t.a[2] else None
    if t.k in ("param", "deref", "fld", "int", "bool", "bytes", "op"): return False
    return None

def returns(g): return [nd for nd in g.nodes if nd.kind == "return" and nd.val is not None]

def variants(prog, name):
    """{variant name: (index, {field: index})}"""
    for ty in prog.types:
        if ty.get("def") and ty.get("v") and ty.get("enum") and ty["def"].startswith("dir_signature") and ty["def"].split("::")[-1] == name:
            return {v["name"]: (i, {f[0]: j for j, f in enumerate(v["f"])}) for i, v in enumerate(ty["v"])}
    return {}

def result(v, und, n):
    return v, n, True, "; ".join(sorted(und)) or None

# ---------------------------------------------------------------- C34
def getter(what, want):
    """the root returns this value on every path"""
    def rule(g):
        v = {}; und = set(); n = 0
        for nd in returns(g):
            n += 1
            r = eqv(nd.val, want(g.eng.p))
            if r is None: r = same(nd.val, want(g.eng.p))
            if r is False: v[what] = ("%s: the value returned is not the one stored: %s" % (what, show(nd.val, 6)[:140]), [])
            elif r is None: und.add("%s: value not understood" % what)
        if not n: und.add("%s: no return" % what)
        return result(v, und, n)
    return rule

def by_variant(what, prog_enum, param, want):
    """per variant of *param: the value returned; want(variant name, index, fields) -> predicate(value) -> True/False/None"""
    def rule(g):
        v = {}; und = set(); n = 0
        vs = variants(g.eng.p, prog_enum); d = mk("disc", de(param))
        if not vs: return {}, 0, True, "%s: type not found" % what
        for name, (i, fs) in vs.items():
            hit = 0
            for nd in returns(g):
                f = nd.st.facts
                if d in f and f[d] != i or i in (f.get(mk("ne", d)) or ()): continue
                hit += 1; n += 1
                r = want(name, i, fs)(nd.val)
                if r is False: v["%s/%s" % (what, name)] = ("%s of %s::%s: %s" % (what, prog_enum, name, show(nd.val, 5)[:140]), [])
                elif r is None: und.add("%s of %s" % (what, name))
            if not hit: und.add("%s of %s: no path" % (what, name))
        return result(v, und, n)
    return rule

def path_of(name, i, fs, param="e"):
    return fld(mk("fld", de(param), i, fs.get("path", 0)))
def vfield(param, i, j): return mk("fld", de(param), i, j)
def payload(t, x):
    t = base(t)
    if t is x: return True
    if t.k in ("fld", "param", "deref", "bytes") or t.k == "p" and t.a[0] in ("join", "parent", "file_name", "lossy"): return False
    return None
def entry_path(name, i, fs): return lambda val: payload(val, vfield("e", i, fs.get("path", 0)))
def kind_is(kindvar, want):
    """val is EntryKind::kindvar(want)"""
    def f(val):
        val = base(val)
        if val.k != "agg" or val.a[0].split("::")[-1] != "EntryKind": return None
        if val.a[1] != kindvar: return False
        return payload(val.a[2][0], want)
    return f

def entry_kind(g):
    ks = variants(g.eng.p, "EntryKind")
    if "Dir" not in ks or "File" not in ks: return {}, 0, True, "EntryKind variants"
    return by_variant("kind", "Entry", "e", lambda name, i, fs: kind_is(ks["Dir" if name == "Dir" else "File"][0], vfield("e", i, fs.get("path", 0))))(g)
def kind_path(g): return by_variant("path", "EntryKind", "a", lambda name, i, fs: lambda val: payload(val, vfield("a", i, 0)))(g)
def kind_same(what):
    return by_variant(what, "EntryKind", "a", lambda name, i, fs: kind_is(i, vfield("a", i, 0)))

def stored(prog):
    h = pr.struct(prog, "Hashes")
    return fld(de("h"), h["data"]) if "data" in h else None

SIZES = tuple(range(0, 6)) + (1000,)
def h_len(g):
    d = stored(g.eng.p); v = {}; und = set(); n = 0
    if d is None: return {}, 0, True, "fields of Hashes"
    for nd in returns(g):
        for k in SIZES:
            n += 1
            if any(evalt.holds(t, x, {lenof(d): 32 * k}) is False for t, x in nd.st.facts.items()): continue
            y = evalt.num(nd.val, {lenof(d): 32 * k})
            if y is None: und.add("len: value not understood")
            elif y != k: v["len"] = ("len() of %d stored hashes is %d" % (k, y), [])
    return result(v, und, n)

IDX = tuple(range(0, 7)) + (999, 1000, 1001, (1 << 59) - 1, 1 << 59, (1 << 59) + 1, 1 << 63, (1 << 64) - 1)
def h_get(g):
    """every (number of hashes, index): some path is taken and what it returns is that hash, or none outside"""
    d = stored(g.eng.p); v = {}; und = set(); n = 0; i = par("i")
    if d is None: return {}, 0, True, "fields of Hashes"
    rs = returns(g)
    for k in SIZES:
        for x in IDX:
            n += 1; env = {lenof(d): 32 * k, i: x}
            for nd in rs:
                st = [evalt.holds(t, y, env) for t, y in nd.st.facts.items()]
                if False in st: continue
                val = base(nd.val)
                if val.k != "agg" or not val.a[0].endswith("Option"): und.add("get: value not understood"); continue
                free = None in [s for s, (t, y) in zip(st, nd.st.facts.items()) if t.k != "disc" and t.k != "ne"]
                if val.a[1] == 0:
                    if x < k:
                        if free: und.add("get: path condition")
                        else: v["get/none"] = ("get(%d) of %d stored hashes is None" % (x, k), [])
                    continue
                s = base(val.a[2][0])
                if s.k == "slice" and s.a[0] is d: lo, hi = evalt.num(s.a[1], env), evalt.num(s.a[2], env)
                elif chunks_of(s) and chunks_of(s)[0] is d:
                    c, j = evalt.num(chunks_of(s)[1], env), evalt.num(s.a[1], env)
                    lo, hi = (None, None) if c is None or j is None else (c * j, min(c * j + c, 32 * k))
                else: und.add("get: value not understood"); continue
                if lo is None or hi is None or free: und.add("get: bounds"); continue
                if x >= k: v["get/outside"] = ("get(%d) of %d stored hashes is bytes %d..%d" % (x, k, lo, hi), [])
                elif (lo, hi) != (32 * x, 32 * x + 32): v["get/other"] = ("get(%d) of %d stored hashes is bytes %d..%d, not %d..%d" % (x, k, lo, hi, 32 * x, 32 * x + 32), [])
    return result(v, und, n)

def parsed_header(g):
    """the Header of a new Parser holds the attributes of the first line; the reader is kept and only that line was read"""
    p = g.eng.p; v = {}; und = set(); n = 0
    hx = pr.struct(p, "Header"); px = pr.struct(p, "Parser")
    if not {"version", "hash_type", "block_size"} <= set(hx) or not {"header", "reader"} <= set(px): return {}, 0, True, "fields of Header and Parser"
    for nd in returns(g):
        if not text.is_ok(nd.val): continue
        n += 1
        o = base(nd.val.a[2][0])
        if o.k != "agg" or len(o.a[2]) <= max(px.values()): und.add("parser value"); continue
        h = base(o.a[2][px["header"]])
        if base(o.a[2][px["reader"]]) is not par("r"): und.add("reader of the parser")
        if h.k != "agg": und.add("header value"); continue
        b = h.a[2][hx["block_size"]]
        ns = find(b, lambda z: z.k == "p" and z.a[0].startswith("parse_int"))
        if b.k == "int": v["block_size"] = ("the block size of a parsed header is %d whatever its line says" % b.a[0], [])
        elif b.k == "p" and b.a[0].startswith("parse_int"):
            r = b.a[1][1:] or (None,)
            if r[-1] is not None and not (isinstance(r[-1], T) and r[-1].k == "int" and r[-1].a[0] == 10 or r[-1] == 10): v["block_size"] = ("the block size is read in another base than ten: %s" % show(b, 5)[:120], [])
        elif ns:
            env = [(x, evalt.num(b, {ns[0]: x})) for x in NUMS]
            if any(y is not None and x != y and x > 0 and not any(evalt.holds(t, z, {ns[0]: x}) is False for t, z in nd.st.facts.items()) for x, y in env):
                v["block_size"] = ("the block size of a parsed header is not the number in its line: %s" % show(b, 5)[:140], [])
            else: und.add("block size")
        else: und.add("block size")
        ver = h.a[2][hx["version"]]
        lit = ver.a[0] if ver.k == "bytes" else None
        if lit is None and not any(t.k == "op" and t.a[0] == "Eq" and ver in t.a[1:] and any(y.k == "bytes" and y.a[0] == b"v1" for y in t.a[1:]) and z == 1 or t is ver and z == b"v1" for t, z in nd.st.facts.items()):
            und.add("version")
        elif lit is not None and lit != b"v1": v["version"] = ("the version of a parsed header is %r" % lit, [])
    if not n: und.add("no accepting path")
    return result(v, und, n)

def one_line(g):
    """a new parser has read exactly one line"""
    f = g.filtered(lambda e: e.kind == "fs" and e.name in ("read_line", "read", "read_exact", "read_to_end") and e.info != "err")
    def step(s, e): return Viol("lines/" + fn(e), "the header parser reads on after the first line", e, 2) if s else 1
    r = f.run(0, step)
    return r

def iterator(g):
    """entries are parsed with the header's hash type and block size, from the parser's own reader"""
    p = g.eng.p; v = {}; und = set(); n = 0
    hx = pr.struct(p, "Header"); px = pr.struct(p, "Parser"); ix = pr.struct(p, "EntryIterator")
    if not {"hash_type", "block_size"} <= set(hx) or not {"header", "reader"} <= set(px): return {}, 0, True, "fields of Header and Parser"
    hd = fld(de("p"), px["header"])
    for nd in returns(g):
        n += 1; o = base(nd.val)
        if o.k != "agg": und.add("iterator value"); continue
        for nm in ("hash_type", "block_size"):
            if nm not in ix: und.add("field %s of the iterator" % nm); continue
            t = o.a[2][ix[nm]]; w = fld(hd, hx[nm])
            r = eqv(t, w)
            if r is None: r = same(t, w)
            if r is False: v[nm] = ("the iterator's %s is not the header's: %s" % (nm, show(t, 5)[:120]), [])
            elif r is None: und.add(nm)
    return result(v, und, n)

def listing(g):
    """every stored hash is handed out once, whole and in order"""
    d = stored(g.eng.p)
    if d is None: return {}, 0, True, "fields of Hashes"
    return Told(g, None, None, plain=d).run()

# ---------------------------------------------------------------- C35
NAMES = {0: b"sha512/256", 1: b"blake2b/256", 2: b"blake3/256"}
class Told:
    """state: '?' or (stage, index in the stage's sequence, hash handed out but not written)"""
    def __init__(self, g, seq, data, plain=None):
        self.g = g; self.seq = seq; self.data = plain or data; self.plain = plain
        self.und = set()

    def quiet(self, why): self.und.add(why); return "?"

    def is_hash(self, x, pos):
        c = chunks_of(x)
        return c is not None and c[0] is self.data and evalt.num(c[1], {}) == 32 and x.a[1] is pos

    def header(self, s, k, x, e):
        got = s[1]
        if k == "b":
            if x == 10: return Viol("header", "the header line ends without the block size", e, "?") if not got.endswith(b"\1") else ("L", 0, None)
            return ("hdr", got + bytes([x]), None) if len(got) < 120 else self.quiet("header")
        if k != "p": return self.quiet("header text")
        if x.k == "p" and x.a[0] == "name": return ("hdr", got + b"\0", None)
        if x.k == "p" and x.a[0] == "dec":
            r = same(x.a[1][0], par("bs"))
            if r is False: return Viol("header/block size", "the header's block size is not the one given: %s" % show(x, 5)[:120], e, "?")
            if r is None: return self.quiet("block size of the header")
            a = got[len(text.MAGIC):-len(b" block_size=")]
            if not got.startswith(text.MAGIC) or not got.endswith(b" block_size="): return Viol("header", "the header has %r before the block size" % got, e, "?")
            h = e.facts.get(mk("disc", fld(par("h"), 0)))
            if a != b"\0" and h in NAMES and a != NAMES[h]: return Viol("header/hash", "the header names %r for hash type %r" % (a, NAMES[h]), e, "?")
            return ("hdr", got + b"\1", None)
        return self.quiet("header text")

    def tok(self, s, k, x, e):
        if s == "?": return s
        if s[0] == "hdr": return self.header(s, k, x, e)
        if k == "star": return self.quiet("text made by a loop")
        what = repr(chr(x)) if k == "b" else show(x, 5)[:100]
        if s[0] == "L":
            if s[1] >= len(self.seq): return Viol("extra", "%s is written after the line" % what, e, "?")
            w, arg = self.seq[s[1]]; nx = ("L", s[1] + 1, None)
            if s[1] + 1 == len(self.seq) and self.data is not None: nx = ("H", 0, None)
            if k == "b":
                if w == "b" and x == arg: return nx
                if w == "exe":
                    v = e.facts.get(arg)
                    if x == 120 and v == 1 or x == 102 and v == 0: return nx
                    if x in (120, 102): return Viol("exe", "type %r is written %s" % (chr(x), "for executable == %s" % bool(v) if v is not None else "whether the file is executable or not"), e, "?")
                return Viol("text/%d" % s[1], "%s is written where %s is expected" % (what, self.name(w, arg)), e, "?")
            if x.k == "p" and x.a[0] == w:
                y = x.a[1][0]
                if y is arg: return nx
                if w == "dec":
                    r = same(y, arg)
                    if r: return nx
                    if r is False: return Viol("dec", "the number written is not the size given: %s" % what, e, "?")
                    return self.quiet("number written")
                if y.k in ("param", "deref", "fld", "bytes") or y.k == "p" and y.a[0] in ("join", "parent", "file_name", "lossy", "components") or y.k == "slice" or find(y, lambda z: z.k == "p" and z.a[0] in ("file_name", "parent", "lossy")):
                    return Viol("esc", "%s is written where %s is expected" % (what, self.name(w, arg)), e, "?")
                return self.quiet("text written: %s" % what)
            if x.k == "p" and x.a[0] in ("esc", "dec", "hex", "xdec"): return Viol("text/%d" % s[1], "%s is written where %s is expected" % (what, self.name(w, arg)), e, "?")
            return self.quiet("text written: %s" % what)
        if s[0] == "H":   # between hashes
            if k == "b" and x == 32:
                if s[2] is None: return self.quiet("hash source")
                return ("HX", 0, s[2])
            if k == "b" and x == 10:
                if s[2] is not None: return Viol("hash/lost", "the line ends although a stored hash was taken and not written", e, "?")
                if s[1] != "end" and not self.none_left(e): return Viol("hash/rest", "the line ends although stored hashes may remain", e, "?")
                return ("L", len(self.seq), None)
            if k == "p" and x.k == "p" and x.a[0] == "hex" and self.is_hash(x.a[1][0], s[2]): return Viol("hash/space", "a hash is written without the space before it", e, "?")
            return Viol("hash/text", "%s is written among the hashes" % what, e, "?") if k == "b" else self.quiet("text among the hashes")
        if s[0] == "HX":
            if k == "p" and x.k == "p" and x.a[0] == "hex":
                if self.is_hash(x.a[1][0], s[2]): return ("H", 0, None)
                y = x.a[1][0]
                if y.k == "elem" or y.k == "slice": return Viol("hash/other", "another text than the hash just taken is written: %s" % what, e, "?")
            return self.quiet("hash written: %s" % what) if k == "p" else Viol("hash/text", "%s is written where a hash is expected" % what, e, "?")
        return s

    def name(self, w, arg):
        return repr(chr(arg)) if w == "b" else {"esc": "the escaped %s", "dec": "the decimal %s", "exe": "the type by `%s`"}[w] % arg.a[0]

    def none_left(self, e):
        """does the path's condition say that there are no hashes at all?"""
        return any(evalt.holds(t, x, {lenof(self.data): 32}) is False for t, x in e.facts.items())

    def steps(self, pos):
        """do positions go up by one?"""
        if pos.k == "int": return True
        if pos.k != "phi": return None
        for y in self.g.eng.phi_in.get(pos, ()):
            if not isinstance(y, T): return None
            if y.k == "int": continue
            z = y.a[1] if y.k == "op" and y.a[0] == "Add" and y.a[2].k == "int" and y.a[2].a[0] == 1 else y
            if z is not pos and not (z.k == "phi"): return None
        return True

    def chunk(self, s, e):
        if s == "?" or s[0] == "hdr": return s
        if s[0] == "L" and s[1] < len(self.seq or ()): return self.quiet("hashes are taken before the line is started")
        if s[0] == "HX": return Viol("hash/lost", "a space is written and the next hash taken instead of writing one", e, "?")
        if e.args[0] is not self.data: return s
        if e.info == "none": return Viol("hash/lost", "a stored hash is taken and not written", e, "?") if s[2] is not None else ("H", "end", None)
        if s[2] is not None: return Viol("hash/lost", "a stored hash is taken and not written", e, "?")
        w = evalt.num(e.args[1], {})
        if w is not None and w != 32: return Viol("hash/length", "the stored hashes are taken in pieces of %d bytes" % w, e, "?")
        if w is None: return self.quiet("length of a hash")
        if not self.steps(e.args[2]): return self.quiet("order of the hashes")
        return ("H", 0, e.args[2])

    def run(self):
        g = self.g
        def keep(e): return e.kind == "sink" and e.name in ("write", "partial") and e.info != "err" or e.kind == "next"
        f = g.filtered(keep)
        def step(s, e):
            if s == "?": return s
            if e.kind == "next":
                if self.data is None: return s
                if e.name in ("chunk", "chunk_exact"): return self.chunk(s, e)
                if "hunk" in e.name: return self.quiet("iterator of hashes")
                return s
            if e.name == "partial": return self.quiet("partial write")
            if self.plain is not None:
                if s[2] is None: return self.quiet("hash source")
                x = e.args[1]
                if self.is_hash(x, s[2]): return ("H", 0, None)
                return Viol("hash/other", "not the stored hash but %s is handed out" % show(x, 6)[:120], e, "?") if x.k in ("elem", "slice", "bytes") else self.quiet("hash handed out")
            for k, x in text.tokens(e.args[1]):
                s = self.tok(s, k, x, e)
                if isinstance(s, Viol): return s
            return s
        def end(s, kind, val):
            if s == "?" or kind != "return" or not text.is_ok(val): return None
            if self.plain is not None:
                if s[2] is not None: return Viol("hash/lost", "a hash is lost at the end")
                if s[1] != "end": return Viol("hash/rest", "iteration ends although stored hashes may remain")
                return None
            if s[0] == "L" and s[1] == len(self.seq): return None
            return Viol("unfinished", "success although the line is not complete")
        start = ("H", 0, None) if self.plain is not None else ("hdr", b"", None)
        o = f.run(start, step, end)
        return o[0], o[1], o[2], "; ".join(sorted(self.und)) or None

def told(kind):
    def rule(g):
        b = lambda s: [("b", c) for c in s]
        n = ("esc", par("name"))
        if kind == "new": return Told(g, [], None).run()
        if kind == "dir": return Told(g, [("esc", par("path"))] + b(b"\n"), None).run()
        if kind == "link": return Told(g, b(b"  ") + [n] + b(b" s ") + [("esc", par("target"))] + b(b"\n"), None).run()
        h = pr.struct(g.eng.p, "Hashes")
        if "data" not in h: return {}, 0, True, "fields of Hashes"
        return Told(g, b(b"  ") + [n] + b(b" ") + [("exe", par("exe"))] + b(b" ") + [("dec", par("size"))], fld(de("hashes"), h["data"])).run()
    return rule

# ---------------------------------------------------------------- C36: hashing a file
def digest_of(t):
    """t is one whole digest"""
    t = base(t)
    return t.k == "p" and t.a[0] == "digest" or t.k == "digest"

BLOCKS = (1, 2, 7, 4096, 32768, (1 << 63))
def hash_file(g):
    """state: (read not yet classified / 'new' | 'data' | 'none', recorded?, last piece known?, blocks 0..3, recorded so far) | '?'"""
    hx = pr.struct(g.eng.p, "Hashes")
    if not {"data", "hash_type", "block_size"} <= set(hx): return {}, 0, True, "fields of Hashes"
    und = set(); bs = par("bs")
    def quiet(w): und.add(w); return "?"
    def keep(e):
        return e.kind == "fs" and e.name.startswith("read") or e.kind == "text" and e.name == "append" or e.kind == "br" or e.kind == "coll" and e.name == "push" or e.kind == "hash" and e.name == "final"
    f = g.filtered(keep)
    def counted(t):
        """the lengths and counters t is the sum of; False if it is another number, None if not decided"""
        t = base(t)
        if t.k == "int": return [] if t.a[0] == 0 else False
        if t.k in ("len", "phi"): return [t]
        if t.k == "op" and t.a[0] == "Add":
            x, y = counted(t.a[1]), counted(t.a[2])
            if x is False or y is False: return False
            return None if x is None or y is None else x + y
        if t.k == "cast" and t.a[0] in ("u64", "usize", "u128"): return counted(t.a[1])
        at_ = sorted({x for x in find(t, lambda z: z.k == "len" or z.k == "phi")}, key=lambda z: z.id)
        if not at_: return None
        for k in range(4):
            env = {x: [3, 1001, 77777, (1 << 40) + 1][(i + k) % 4] + i for i, x in enumerate(at_)}
            y = evalt.num(t, env)
            if y is None: return None
            if y != sum(env.values()): return False
        return at_
    def step(s, e):
        if s == "?": return s
        c, cls, rec, eof, n, last, dig, prev = s
        if e.kind == "fs":
            if e.info == "err": return (c, cls, rec, eof, n, last, "err", prev)
            x = [y for y in e.args if isinstance(y, T) and (y.k == "chunk" or y.k == "p" and y.a[0] == "chunk")]
            if not x: return quiet("read")
            if eof == "eof" and c is not None: return s if False else Viol("hash_file/after", "reading goes on after the end of the file was seen", e, "?")
            if c is not None and cls != "none" and not rec: return Viol("hash_file/lost", "a block is read and the next one follows without its hash being recorded", e, "?")
            return (x[-1], "new", False, "", min(n + 1, 3), last, None, n)
        if e.kind == "hash":
            return (c, cls, rec, eof, n, last, e.args[-1], prev)
        if e.kind == "br":
            if c is None or not e.facts: return s
            l = lenof(c)
            fs = [(t, v) for t, v in e.facts.items() if contains(t, l)]
            if not any(not any(evalt.holds(t, v, {l: k, bs: b}) is False for t, v in fs) for b in BLOCKS for k in (0, 1, b - 1, b)):
                return "?"    # (only a block size of zero, which no index has, leads here)
            if cls == "new":
                if any(evalt.holds(t, v, {l: 0, bs: b}) is False for t, v in fs for b in (1,)): cls = "data"
                elif all(any(evalt.holds(t, v, {l: k, bs: b}) is False for t, v in fs) for b in BLOCKS for k in {1, b}): cls = "none"; n = prev
            if all(any(evalt.holds(t, v, {l: b, bs: b}) is False for t, v in fs) for b in BLOCKS): eof = "eof"
            return (c, cls, rec, eof, n, last, dig, prev)
        x = e.args[1]
        if e.kind == "coll":
            return quiet("hashes collected before they are joined") if find(x, digest_of) else s
        if digest_of(x):
            if c is None: return quiet("hash without a read")
            if rec: return Viol("hash_file/twice", "the hash of one block is recorded twice", e, "?")
            if cls == "none": return Viol("hash_file/empty", "a hash is recorded for an empty read", e, "?")
            if dig is not None and isinstance(dig, T) and base(x) is not dig: return quiet("digest recorded")
            return (c, cls, True, eof, n, base(x), dig, prev)
        if find(x, digest_of):
            if x.k == "slice": return Viol("hash_file/part", "only a part of a block's hash is recorded: %s" % show(x, 4)[:100], e, "?")
            return quiet("what is recorded")
        return s
    def end(s, kind, val):
        if s == "?" or kind != "return" or not text.is_ok(val): return None
        c, cls, rec, eof, n, last, dig, prev = s
        o = base(val.a[2][0])
        if o.k != "agg" or len(o.a[2]) != 2: und.add("value"); return None
        size, hs = base(o.a[2][0]), base(o.a[2][1])
        if hs.k != "agg" or len(hs.a[2]) < 3: und.add("Hashes value"); return None
        if dig == "err": return Viol("hash_file/error", "success is returned after a failing read")
        if c is not None and cls != "none" and not rec: return Viol("hash_file/lost", "the hash of the last block read is not recorded")
        if c is not None and eof != "eof": return Viol("hash_file/end", "success is returned although the file may go on")
        r = same(hs.a[2][hx["block_size"]], bs)
        if r is False: return Viol("hash_file/block size", "the block size recorded is not the one given: %s" % show(hs.a[2][hx["block_size"]], 4)[:100])
        if r is None: und.add("block size recorded")
        r = eqv(hs.a[2][hx["hash_type"]], par("h"))
        if r is False: return Viol("hash_file/hash type", "the hash type recorded is not the one given")
        if r is None:
            h = hs.a[2][hx["hash_type"]]; und.add("hash type recorded")
        data = hs.a[2][hx["data"]]
        ps = list(pieces(data)) if data is not EMPTY else []
        if rec and not ps: return Viol("hash_file/none", "the recorded hashes are not returned")
        if any(x.k == "slice" for x in ps): return Viol("hash_file/part", "only a part of the recorded hashes is returned: %s" % show(data, 4)[:100])
        if ps and last is not None and cls != "none" and ps[-1].k not in ("star", "phi") and ps[-1] is not last: und.add("order of the hashes returned")
        w = counted(size)
        if w is None: und.add("size"); return None
        if w is False: return Viol("hash_file/size", "the size returned is not the sum of what was read: %s" % show(size, 5)[:140])
        lens = [x for x in w if x.k == "len"]; phis = {x for x in w if x.k == "phi"}
        for ph in phis:
            grows = False
            for x in g.eng.phi_in.get(ph, ()):
                if not isinstance(x, T): und.add("size"); return None
                y = counted(x)
                if y is None: und.add("size"); return None
                if y is False: return Viol("hash_file/size", "what is counted is not what was read: %s" % show(x, 5)[:140])
                grows = grows or len(y) > 1 and any(z.k == "phi" for z in y)
            if not grows: return Viol("hash_file/size", "the size returned is not counted up over the blocks")
        if not phis:
            # (an empty last read may or may not be added)
            if n == 3 and len(lens) < 3 or n < 3 and not n <= len(lens) <= n + (1 if cls == "none" else 0):
                return Viol("hash_file/size", "the size returned counts %d blocks where %s were read: %s" % (len(lens), "three or more" if n == 3 else n, show(size, 5)[:100]))
        return None
    o = f.run((None, "new", False, "", 0, None, None, 0), step, end)
    if und & {"what is recorded", "hashes collected before they are joined", "digest recorded"}:
        # the hashes get into the list in another way than by appending them whole
        for k in ("hash_file/lost", "hash_file/twice"): o[0].pop(k, None)
    return o[0], o[1], o[2], "; ".join(sorted(und)) or None

# ---------------------------------------------------------------- C37: merging files
def elements(c):
    """terms a collection is made of"""
    out = []; todo = list(c.a)
    while todo:
        x = todo.pop()
        if isinstance(x, T): out.append(base(x))
        elif isinstance(x, (tuple, frozenset, list)): todo += list(x)
    return out

def merge_files(g):
    """r_merge_files registers (p, q) and (q, p): base path and index file.  state: (registered, taken pair, opened?, failed?, all taken?)"""
    reg = [(par("p"), par("q")), (par("q"), par("p"))]
    und = set()
    def quiet(w): und.add(w); return "?"
    def keep(e): return e.kind == "fs" and e.name in ("fopen", "open_file") or e.kind == "coll" and e.name in ("push", "push_front", "insert") or e.kind == "next" and e.name.startswith("coll")
    f = g.filtered(keep)
    def parser(x): return x.k == "agg" and len(x.a[2]) == 2 and base(x.a[2][1]).k == "agg" and base(x.a[2][1]).a[0].split("::")[-1] == "Parser"
    def pair(x):
        x = base(x)
        return (base(x.a[2][0]), base(x.a[2][1])) if x.k == "agg" and len(x.a[2]) == 2 and all(base(y).k == "param" for y in x.a[2]) else None
    def step(s, e):
        if s == "?": return s
        n, cur, opened, failed, done = s
        if e.kind == "fs":
            if e.info == "err": return (n, cur, opened, True, done)
            if cur is None or opened: return quiet("files opened apart from their parsers")
            if e.args[0] is not cur[1]:
                if e.args[0].k != "param" and not (e.args[0].k == "p" and e.args[0].a[0] in ("join", "parent", "file_name")): return quiet("file opened")
                return Viol("files/other", "a source is opened from %s, not from its index file" % show(e.args[0], 3), e, "?")
            return (n, cur, True, failed, done)
        if e.kind == "next":
            if e.info == "some" and len(e.args) > 1 and pair(e.args[1]):
                if n < 2: return quiet("registered files")
                if cur is not None: return Viol("files/lost", "a registered file is left out of the merge", e, "?")
                if e.name != "coll": return Viol("files/order", "the registered files are not taken in their order", e, "?")
                return (n, pair(e.args[1]), False, failed, False)
            if e.info == "none" and any(pair(z) for z in elements(e.args[0])):
                if cur is not None: return Viol("files/lost", "a registered file is left out of the merge", e, "?")
                return (n, cur, opened, failed, True)
            return s
        x = e.args[1]
        if pair(x) and n < 2:
            if e.name != "push": return Viol("add/order", "a file is not registered after the others", e, "?")
            if pair(x) != reg[n]: return Viol("add/other", "registered as base path %s and file %s" % tuple(show(y, 3) for y in pair(x)), e, "?")
            return (n + 1, cur, opened, failed, done)
        x = base(x)
        if not parser(x) or cur is None: return s
        if not opened: return quiet("parser of an unopened file")
        k = base(x.a[2][0])
        if e.name != "push": return Viol("files/order", "a source is not added at the end", e, "?")
        if k is not cur[0]:
            if k.k != "param": return quiet("base path")
            return Viol("files/base", "the entries of a source get the base path %s" % show(k, 3), e, "?")
        return (n, None, False, failed, done)
    def end(s, kind, val):
        if s == "?" or kind != "return" or not text.is_ok(val): return None
        if s[3]: return Viol("files/error", "merging goes on although a file could not be opened")
        if s[1] is not None: return Viol("files/lost", "a registered file is left out of the merge")
        if s[0] < 2: und.add("registered files"); return None
        if not s[4]: return Viol("files/rest", "merging starts although registered files may remain")
        return None
    o = f.run((0, None, False, False, False), step, end)
    return o[0], o[1], o[2], "; ".join(sorted(und)) or None
