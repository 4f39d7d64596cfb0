"""C16 C17 C18 C20 C30: memory, end of index, delivery, order and paths of parsed entries."""
from terms import *
import core, graph, units, evalt, effects
from graph import Viol
from units import fld
import parserules as pr
from parserules import P, find, isempty, nonempty, outcome, runs_to_final

# ---------------------------------------------------------------- values of loop variables along one path
class Trail:
    """resolves loop-head variables to the values they have on the path walked"""
    def __init__(self, g, cap=3):
        self.eng = g.eng; self.cap = cap; self.by = {}; self.memo = {}
        used = set()
        for e in g.events():
            if e.kind == "br":
                for t in e.facts: used |= set(find(t, lambda z: z.k == "phi"))
        work = list(used)
        while work:
            for x in g.eng.phi_in.get(work.pop(), ()):
                for y in find(x, lambda z: z.k == "phi"):
                    if y not in used: used.add(y); work.append(y)
        for ph in g.eng.phi_in:
            if ph in used and not any(isinstance(x, tuple) and x[0] in ("it", "*") for x in ph.a[2]): self.by.setdefault(ph.a[0], []).append(ph)
    def loop(self, sg, e):
        hk, mem = e.info; d = dict(sg); st = core.St(dict(mem), {})
        for ph in self.by.get(hk, ()):
            v = None
            try:
                v = self.eng.load(st, ph.a[1], ph.a[2])
                if v is not None: v = self.eng.content(st, v)
            except Exception: v = None
            if v is not None:
                v = self.sub(sg, v)
                if v.k == "int" and v.a[0] > self.cap: v = None
                elif any(x.k == "phi" and x.a[0] is hk for x in find(v, lambda z: z.k == "phi")) or v.k in ("cat", "star", "coll", "agg", "wk") and v is not EMPTY: v = None
                elif sum(1 for _ in zip(effects.walk(v), range(81))) > 80: v = None
            if v is None: d.pop(ph, None)
            else: d[ph] = v
        return tuple(sorted(d.items(), key=lambda x: x[0].id))
    def sub(self, sg, t):
        k = (sg, t)
        r = self.memo.get(k)
        if r is None:
            r = t
            for _ in range(3):
                ch = False
                for ph, v in sg:
                    if contains(r, ph): r = replace(r, ph, v); ch = True
                if not ch: break
            self.memo[k] = r
        return r
    def facts(self, sg, e):
        """facts of event e with loop variables resolved; None if they contradict the path walked"""
        k = (sg, id(e))
        if k in self.memo: return self.memo[k][0]
        out = {}
        for t, v in e.facts.items():
            u = self.sub(sg, t) if sg else t
            if u is t: out[t] = v; continue
            n = evalt.holds(u, v, {})
            if n is False: out = None; break
            if n is True: continue
            out[u] = v
        self.memo[k] = (out, e)
        return out

def before(g, good):
    """nodes from which one of the nodes `good` can be reached"""
    pred = {}
    for i, ss in enumerate(g.succ):
        for _, t in ss: pred.setdefault(t, []).append(i)
    seen = set(good); work = list(good)
    while work:
        for p in pred.get(work.pop(), ()):
            if p not in seen: seen.add(p); work.append(p)
    return seen

def segments(C, g, outer):
    """the graph cut at the heads of the method's own loop, and the places where a new round starts: [(node, loop event)]"""
    starts = []; succ = []
    for ss in g.succ:
        out = []
        for evs, t in ss:
            cut = [k for k, e in enumerate(evs) if e.kind == "loop" and e.info[0] in outer]
            if cut: starts.append((t, evs[cut[-1]], evs[cut[-1] + 1:]))
            else: out.append((evs, t))
        succ.append(out)
    h = graph.Graph.__new__(graph.Graph); h.__dict__.update(g.__dict__); h.succ = succ
    return h, starts

def restrict(g, good):
    keep = before(g, good)
    h = graph.Graph.__new__(graph.Graph); h.__dict__.update(g.__dict__)
    h.succ = [[(evs, t) for evs, t in ss if t in keep] if i in keep else [] for i, ss in enumerate(g.succ)]
    return h

def exhausted(C, st):
    x = C.get(st.mem, "exhausted")
    if x.k in ("bool", "int"): return int(x.a[0])
    if x is C.f0("exhausted"): return 1 if C.case == "done" else 0
    return None

# ---------------------------------------------------------------- C16
def unbounded(eng, t, facts, seen=()):
    """None if t is bounded by a constant or by lengths of data held; else the offending subterm ('?' term if unclear)"""
    if t in seen: return None
    if t.k in ("int", "bool"): return None
    if lenish(t): return None
    for u, v in facts.items():
        if u.k == "op" and u.a[0] in ("Le", "Lt") and len(u.a) == 3:
            o = u.a[2] if v == 1 and u.a[1] is t else u.a[1] if v == 0 and u.a[2] is t else None
            if o is not None and unbounded(eng, o, {}, seen + (t,)) is None: return None
    s2 = seen + (t,)
    if t.k == "cast": return unbounded(eng, t.a[1], facts, s2)
    if t.k == "op":
        o, xs = t.a[0], t.a[1:]
        if o in ("Div", "Shr", "Sub"): return unbounded(eng, xs[0], facts, s2)
        if o in ("Rem", "BitAnd"):
            r = [unbounded(eng, x, facts, s2) for x in xs]
            return None if None in r else r[0]
        for x in xs:
            r = unbounded(eng, x, facts, s2)
            if r is not None: return r
        return None
    if t.k == "p" and t.a[0].split("::")[-1] == "min":
        r = [unbounded(eng, x, facts, s2) for x in t.a[1]]
        return None if None in r else r[0]
    if t.k == "p" and t.a[0].split("::")[-1] in ("max", "satsub", "satadd", "wrapping_mul", "saturating_mul", "saturating_add", "wrapping_add", "div_ceil", "next_multiple_of", "nchunks"):
        for x in t.a[1]:
            r = unbounded(eng, x, facts, s2)
            if r is not None: return r
        return None
    if t.k in ("phi", "el"):
        for x in (eng.phi_in.get(t) or eng.el_src.get(t) or ()):
            r = unbounded(eng, x, facts, s2)
            if r is not None: return r
        return None if (eng.phi_in.get(t) or eng.el_src.get(t)) and not counted(eng, t) else t
    return t

def counted(eng, t):
    """a loop variable that grows is only bounded if its loop is: not decided here"""
    return any(contains(x, t) for x in (eng.phi_in.get(t) or ()))

def lenish(t): return t.k == "len" or t.k in ("p",) and t.a[0] == "len" or t.k == "nread" or str(t.k) in ("nread",)

def alloc(g, sized):
    """sized(t): is t a number that the input (not its amount) determines?"""
    v = {}; und = set(); n = 0
    for e in g.events():
        if e.kind != "alloc": continue
        n += 1
        b = unbounded(g.eng, e.args[0], e.facts)
        if b is None: continue
        src = find(b, sized)
        if src: v.setdefault("alloc/%s" % graph.fn(e), ("%s at %s allocates room for as many items as a number read from the index says (%s), whatever the amount of input" % (graph.fn(e), graph.at(e), show(e.args[0], 5)[:120]), [graph.describe(e)]))
        else: und.add("size of the allocation at %s" % graph.at(e))
    n += growth(g, sized, v, und)
    return v, n, True, "; ".join(sorted(und)) or None

ALLOCATORS = ("resize", "resize_with", "try_reserve", "reserve", "reserve_exact", "try_reserve_exact", "with_capacity", "with_capacity_in", "try_with_capacity", "repeat", "from_elem", "repeat_n")
def growth(g, sized, v, und):
    """memory that grows with a number read from the input by other means than an allocation of a given size"""
    for e in g.events():
        if e.kind != "ext": continue
        nm = str(e.name)
        if nm.startswith("dir_signature"): continue
        for a in e.args:
            if not isinstance(a, T) or a.k not in ("op", "cast", "phi", "el", "p", "fld", "parse_int"): continue
            try: b = unbounded(g.eng, a, e.facts)
            except Exception: continue
            if b is None or not find(b, sized): continue
            if nm.split("::")[-1] in ALLOCATORS: v.setdefault("alloc/%s" % graph.fn(e), ("%s at %s asks %s for as many items as a number read from the index says (%s), whatever the amount of input" % (graph.fn(e), graph.at(e), nm, show(a, 5)[:120]), [graph.describe(e)]))
            else: und.add("what %s does with a number read from the input" % nm)
    f = g.filtered(lambda e: e.kind in ("loop", "br", "next") or e.kind == "text" and e.name == "append" or e.kind == "coll" and e.name == "push")
    memo = {}
    def numeric(t):
        """made of numbers only: nothing about the text"""
        if t.k in ("int", "bool", "phi", "el", "res") or sized(t): return True
        if t.k in ("op", "cast", "ovf"): return all(numeric(x) for x in t.a if isinstance(x, T))
        return t.k == "p" and t.a[0].split("::")[-1] in ("min", "max", "satsub", "satadd", "div_ceil", "wrapping_add", "wrapping_sub", "saturating_sub", "saturating_add") and all(numeric(x) for x in t.a[1])
    heads = []
    def look(e, base):
        """(looks at the text, is compared with a number from the input)"""
        k = (id(e), base)
        if k in memo: return memo[k]
        texty = lim = False
        for t, x in e.facts.items():
            if heads[base].get(t) == x: continue
            u = t.a[0] if t.k == "ne" else t
            if u.k == "disc": continue
            if not numeric(u): texty = True
            elif u.k == "op" and u.a[0] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and any(find(b, sized) for b in (unbounded(g.eng, x, {}) for x in u.a[1:]) if b is not None): lim = True
        memo[k] = texty, lim
        return memo[k]
    known = {}
    def head(e):
        """number of the facts that hold when an iteration starts"""
        if id(e) not in known:
            d = dict(e.facts)
            if d not in heads: heads.append(d)
            known[id(e)] = heads.index(d)
        return known[id(e)]
    def step(s, e):
        if e.kind == "loop":
            h = e.info[0]; o = next((x for x in s if x[0] == h), None)
            n = frozenset({(h, False, False, False, head(e))})   # the innermost loop only
            if o is not None and o[1] and o[3] and not o[2]: return Viol("growth/%s" % graph.fn(e), "a loop that runs as often as a number read from the index says adds to a collection without looking at the input", e, n)
            return n
        if e.kind == "br": return frozenset((h, a, b or look(e, x)[0], c or look(e, x)[1], x) for h, a, b, c, x in s)
        if e.kind == "next":
            lim = gr = False
            if e.name == "range":
                tx = False; b = unbounded(g.eng, e.args[1], {}) if len(e.args) > 1 else None
                lim = e.info == "some" and b is not None and bool(find(b, sized))
            else: tx = e.info == "some"
        else: tx, lim, gr = False, False, True
        return frozenset((h, a or gr, b or tx, c or lim, x) for h, a, b, c, x in s)
    o = f.run(frozenset(), step, lambda s, k, val: None)
    v.update(o[0])
    if not o[2]: und.add("product limit reached")
    return o[1]

def numbers_read(C=None):
    bs = C.f0("block_size") if C is not None else None
    return lambda t: t.k == "p" and t.a[0] in ("parse_int",) or bs is not None and t is bs or t.k == "parse_int"

# ---------------------------------------------------------------- C17
HEX = frozenset(b"0123456789abcdefABCDEF")
ALLB = frozenset(range(256))
NL = BY(b"\n")

def newline(facts, line=None):
    """do the facts show that the line read ends with a newline?"""
    for t, v in facts.items():
        if t.k == "p" and t.a[0] == "ends_with" and v == 1 and t.a[1][1] is NL and (line is None or contains(t.a[1][0], line)): return True
        el = find(t, lambda z: z.k == "elem" and (line is None or contains(z.a[0], line)))
        for x in el:
            if evalt.holds(t, v, {x: 10}) and not any(evalt.holds(t, v, {x: b}) is not False for b in (0, 9, 11, 13, 32, 48, 255)): return True
    return False

def whole(t):
    """is t a row as such, not a part of it?"""
    return t.k not in ("slice", "elem") and not (t.k == "p" and t.a[0] in ("field", "tail", "head", "word"))

def empty_text(facts, t): return isempty(facts, t) or t.k == "bytes" and not t.a[0]

def lens64(facts):
    """texts whose length is known to be exactly 64"""
    out = []
    for t, v in facts.items():
        for l in find(t, lambda z: z.k == "len"):
            if evalt.holds(t, v, {l: 64}) and all(evalt.holds(t, v, {l: n}) is False for n in (0, 1, 32, 63, 65, 66, 128)): out.append(l.a[0])
    return out

BF = {}
def byte_fact(t, v):
    """[(byte term, values it can have)] that fact t == v speaks about, if it is about one byte"""
    k = (t, v)
    if k not in BF:
        el = list(dict.fromkeys(find(t, lambda z: z.k == "elem" and z.a[1].k == "int" and z.a[0].k in ("elem", "chunk"))))
        BF[k] = []
        if len(el) == 1:
            r = [evalt.holds(t, v, {el[0]: b}) for b in range(256)]
            if None not in r: BF[k] = [(el[0], frozenset(b for b in range(256) if r[b]))]
    return BF[k]

def ends(C):
    """C17: None for good only after a complete footer and an end of file that was looked at; no failing read is passed over"""
    und = set()
    if C.case == "done": return {}, 0, True, None
    outer = C.outer_loops()
    f = C.g.filtered(lambda e: e.kind in ("br", "loop") or e.kind == "next" and e.name == "chunk" or e.kind == "fs" and e.name in ("read_line", "read", "read_exact", "fill_buf"))
    good = [i for i, n in enumerate(f.nodes) if n.kind == "return" and outcome(n.val) == "none" and not (C.root == "r_iter_advance" and exhausted(C, n.st) == 0)]
    g, heads = segments(C, f, outer); g = restrict(g, good); keep = before(g, good)
    tr = Trail(g)
    # (sigma, line read, newline seen, 64-digit texts, nothing after, digits: (chunk text, allowed) | 'open' | 'done' | None, probe, failed read)
    init = ((), None, C.case == "kept", (), False, None, None, None)
    def step(s, e):
        if s == "dead": return s
        sg, line, nl, xs, rest, dig, probe, failed = s
        if e.kind == "fs":
            if e.info == "err": return (sg, line, nl, xs, rest, dig, probe, e)
            if e.name == "read_line": return (sg, e.args[2], False, (), False, None, None, None)
            if e.name == "read" and len(e.args) > 3: return (sg, line, nl, xs, rest, dig, ("read", e.args[3], e.args[1]), None)
            return (sg, line, nl, xs, rest, dig, ("other",), None)
        if e.kind == "loop":
            return (tr.loop(sg, e), line, nl, xs, rest, dig, probe, failed)
        if e.kind == "next":
            if not xs: return s
            bad = dig is not None and dig[0] == "open" and not all(d <= HEX for d in dig[1])
            if bad: return (sg, line, nl, xs, rest, ("bad", graph.at(e)), probe, failed)
            if dig is not None and dig[0] == "bad": return s
            n = e.args[1].a[0] if len(e.args) > 1 and e.args[1].k == "int" else None
            if n is None or n > 4: und.add("how the digits of the hash are looked at"); return s
            if e.info == "none": return (sg, line, nl, xs, rest, ("done",), probe, failed)
            return (sg, line, nl, xs, rest, ("open", (ALLB,) * n), probe, failed)
        f = tr.facts(sg, e)
        if f is None: return "dead"
        if line is not None and not nl: nl = newline(f, line)
        if line is not None or C.case == "kept":
            for x in lens64(f):
                if x not in xs and len(xs) < 2 and (line is None or contains(x, line)): xs = xs + (x,)
        if xs and not rest:
            x = xs[-1]
            if whole(x): rest = True
            elif x.k == "p" and x.a[0] == "field":
                y, sep = x.a[1][0], x.a[1][1]
                if whole(y) and (empty_text(f, P("tail", y, sep)) or f.get(P("has_sep", y, sep)) == 0): rest = True
        if dig is not None and dig[0] == "open":
            a = list(dig[1])
            for t, v in e.facts.items():
                for z, ok in byte_fact(t, v):
                    if z.a[1].a[0] < len(a): a[z.a[1].a[0]] = a[z.a[1].a[0]] & ok
            dig = ("open", tuple(a))
        if probe is not None and probe[0] == "read":
            n = probe[1]
            for t, v in f.items():
                if contains(t, n):
                    r0, r1 = evalt.holds(t, v, {n: 0}), evalt.holds(t, v, {n: 1})
                    if r0 and r1 is False: probe = ("eof",)
                    elif r0 is False: probe = ("more",)
        return (sg, line, nl, xs, rest, dig, probe, failed)
    def judge(s, n):
        if s == "dead": return None
        sg, line, nl, xs, rest, dig, probe, failed = s
        o = outcome(n.val)
        if o is None: und.add("result"); return None
        if o != "none": return None
        ex = exhausted(C, n.st)
        if ex == 0 and C.root == "r_iter_advance": return None
        if ex is None and C.root == "r_iter_advance": und.add("exhausted flag"); return None
        if not nl: return Viol("no newline", "the end of entries is reported for a footer line that need not end with a newline (a truncated index)", None)
        if not xs: return Viol("no hash", "the end of entries is reported without checking that the footer line holds a hash of the right length", None)
        if not rest:
            x = xs[-1]
            if x.k == "p" and x.a[0] == "field" and whole(x.a[1][0]): return Viol("more in footer", "the end of entries is reported although more may follow the hash on the footer line", None)
            und.add("what follows the hash on the footer line")
        if dig is None: und.add("digits of the footer hash")
        elif dig[0] == "bad": return Viol("digits", "the end of entries is reported for a footer hash whose characters need not be hexadecimal digits", None)
        elif dig[0] == "open": return Viol("digits left", "the end of entries is reported although some characters of the footer hash were not looked at", None)
        if probe is None: return Viol("no end of file", "the end of entries is reported without looking whether the file ends after the footer", None)
        if probe[0] == "more": return Viol("trailing data", "the end of entries is reported although data follows the footer", None)
        if probe[0] == "read": return Viol("read unused", "the end of entries is reported whatever the read after the footer delivered", None)
        if probe[0] != "eof": und.add("how the end of the file is recognised")
        return None
    starts = [(0, init)] if 0 in keep else []
    for t, e, rest_ in heads:
        if t not in keep: continue
        s0 = ((), None, not isempty(e.facts, C.at_loop(e, "current_row")[0]), (), False, None, None, None)
        for e2 in rest_:
            if not isinstance(s0, Viol): s0 = step(s0, e2)
        starts.append((t, s0))
    v, n, ok = runs_to_final(C, g, init, step, judge, list(dict.fromkeys(starts)))
    f = C.g.filtered(lambda e: e.kind == "br" or e.kind == "fs" and e.name in ("read_line", "read", "read_exact", "fill_buf"))
    def step2(s, e):
        line, nl, failed = s
        if e.kind == "fs":
            if e.info == "err": return (line, nl, e)
            return (e.args[2], False, failed) if e.name == "read_line" else s
        return (line, True, failed) if line is not None and not nl and newline(e.facts, line) else s
    def judge2(s, n):
        line, nl, failed = s; o = outcome(n.val)
        if o is None or o == "none": return Viol("read error", "a failing read at %s is not reported: the end of the index is returned" % graph.at(failed), failed) if o and failed is not None else None
        if o[0] != "ok": return None
        if failed is not None: return Viol("read error", "a failing read at %s is not reported: an entry is returned" % graph.at(failed), failed)
        if not nl: return Viol("entry without newline", "an entry is returned from a line that need not have ended with a newline", None)
    v2, n2, ok2 = runs_to_final(C, f, (None, C.case == "kept", None), step2, judge2)
    v.update(v2)
    return v, n + n2, ok and ok2, "; ".join(sorted(und)) or None

def header(g, prog):
    """C17: a header is accepted only with the magic, the version and a positive block size, ended by a newline"""
    v = {}; und = set(); n = 0
    hx = pr.struct(prog, "Header"); px = pr.struct(prog, "Parser")
    if "block_size" not in hx: return {}, 0, True, "header fields"
    for nd in g.nodes:
        if nd.kind != "return" or nd.val is None or nd.val.k != "agg" or nd.val.a[1] != 0: continue
        n += 1
        h = find(nd.val, lambda z: z.k == "agg" and z.a[0].split("::")[-1] == "Header")
        if not h: und.add("header value"); continue
        b = h[0].a[2][hx["block_size"]]; f = nd.st.facts
        if not any(contains(t, b) and evalt.holds(t, x, {b: 0}) is False for t, x in f.items()) and not (b.k == "int" and b.a[0] > 0):
            if find(b, lambda z: z.k == "phi"): und.add("block size")
            else: v["block size"] = ("a header with block size 0 is accepted", [])
        eq = [t.a[2].a[0] for t, x in f.items() if x == 1 and t.k == "op" and t.a[0] == "Eq" and t.a[2].k == "bytes"] + [t.a[1].a[0] for t, x in f.items() if x == 1 and t.k == "op" and t.a[0] == "Eq" and t.a[1].k == "bytes"]
        sw = [t.a[1][1].a[0] for t, x in f.items() if x == 1 and t.k == "p" and t.a[0] in ("starts_with", "ends_with") and t.a[1][1].k == "bytes"]
        if not any(x.startswith(b"DIRSIGNATURE") for x in eq + sw): v["magic"] = ("a header is accepted without comparing its magic with DIRSIGNATURE", [])
        if not any(x == b"v1" or x.endswith(b".v1") for x in eq) and not any(x.startswith(b"DIRSIGNATURE.v1 ") for x in sw):
            v["version"] = ("a header is accepted without comparing its version with v1", [])
        if not any(x.startswith(b"block_size") for x in eq + sw): v["key"] = ("a header is accepted without a block_size attribute", [])
        if not newline(f): v["newline"] = ("a header line that does not end with a newline is accepted", [])
    for e in g.events():
        if e.kind == "fs" and e.name == "read_line" and e.info == "err":
            r = before_err(g, e)
            if r: v["read error"] = ("a header is accepted after a failing read", [graph.describe(e)])
    if not n: und.add("no accepting path")
    return v, n, True, "; ".join(sorted(und)) or None

def before_err(g, ev):
    f = g.filtered(lambda e: e.kind == "fs" and e.info == "err")
    def step(s, e): return True if e is ev else s
    def end(s, kind, val): return Viol("x", "x") if s and kind == "return" and val is not None and val.k == "agg" and val.a[1] == 0 else None
    return f.run(False, step, end)[0]

# ---------------------------------------------------------------- C18 and C20: the order of entries
CMP = ("cmp:path", "cmp:bytes", "patheq")
def form(t):
    """('path' | 'parent' | 'name', path term) of a compared term"""
    if t.k == "fld" and t.a[0].k == "p" and t.a[0].a[0] in ("parent", "file_name") and t.a[1] == 1:
        return ("parent" if t.a[0].a[0] == "parent" else "name", t.a[0].a[1][0])
    if t.k == "p" and t.a[0] == "bytes_of": return form(t.a[1][0])
    return ("path", t)

def comparisons(t):
    """comparison terms inside t"""
    return find(t, lambda z: z.k == "p" and z.a[0] in CMP)

def ordv(n):
    """-1, 0, 1 of an Ordering discriminant"""
    return {0: 0, 1: 1, 255: -1, -1: -1, 2: None}.get(n, -1 if isinstance(n, int) and n > 2 ** 31 else None)

class Order:
    """the order of two entries of known kinds (0 directory, 1 file), from comparisons made on their paths"""
    def __init__(self, a, ka, b, kb):
        self.a, self.ka, self.b, self.kb = a, ka, b, kb
        self.need = {(0, 0): [("path", "path")], (0, 1): [("path", "parent")], (1, 0): [("parent", "path")], (1, 1): [("parent", "parent"), ("name", "name")]}[ka, kb]
    def slot(self, c):
        """(index into need, sign) of comparison term c, None if it is some other comparison"""
        x, y = c.a[1][0], c.a[1][1]
        for sign, (u, v) in ((1, (x, y)), (-1, (y, x))):
            fu, fv = form(u), form(v)
            if c.a[0] == "cmp:bytes" and fu[0] != "name": continue      # whole paths are compared by components, not by bytes
            if fu[1] is self.a and fv[1] is self.b and (fu[0], fv[0]) in self.need: return self.need.index((fu[0], fv[0])), sign, False
            # whole paths of two files: with equal parents they compare like the names
            if fu[1] is self.a and fv[1] is self.b and (self.ka, self.kb) == (1, 1) and fu[0] == fv[0] == "path": return 1, sign, True
        return None
    def value(self, w):
        """the order, given the outcomes w of the needed comparisons"""
        if (self.ka, self.kb) == (0, 0): return w[0]
        if (self.ka, self.kb) == (0, 1): return -1 if w[0] <= 0 else 1
        if (self.ka, self.kb) == (1, 0): return -1 if w[0] < 0 else 1
        return w[0] if w[0] else w[1]
    def worlds(self, facts):
        """(outcomes of the needed comparisons that the facts allow, other comparisons seen)"""
        import itertools
        other = []; cons = []
        for t, v in facts.items():
            for c in comparisons(t):
                s = self.slot(c)
                if s is None:
                    if contains(c, self.a) or contains(c, self.b): other.append(c)
                    continue
                cons.append((t, v, c, s))
        out = []
        for w in itertools.product((-1, 0, 1), repeat=len(self.need)):
            if all(self.fits(t, v, c, s, w) for t, v, c, s in cons): out.append(w)
        return out, other
    def fits(self, t, v, c, s, w):
        if s[2] and w[0] != 0: return True
        x = w[s[0]] * s[1]
        if c.a[0] == "patheq":
            r = evalt.holds(t, v, {c: int(x == 0)})
            return r is not False
        d = mk("disc", c)
        for n in ({-1: (255, -1), 0: (0,), 1: (1,)}[x]):
            r = evalt.holds(t, v, {d: n, c: n})
            if r is not False: return True
        return False

def entry_kind(e):
    """(kind, path) of a returned entry value"""
    if e.k != "agg" or not e.a[2]: return None
    return None

def paths_of(C, facts):
    """paths compared with the key on this path"""
    kp = C.kpath; out = []
    for t in facts:
        for c in comparisons(t):
            x, y = c.a[1][0], c.a[1][1]
            for u, v in ((x, y), (y, x)):
                if form(v)[1] is kp and form(u)[1] is not kp: out.append(form(u)[1])
    return list(dict.fromkeys(out))

def closure(eng, t):
    """all subterms of t and of the values its loop variables can have"""
    out = {}; work = [t]
    while work:
        x = work.pop()
        for y in effects.walk(x):
            if y in out: continue
            out[y] = 1
            if y.k in ("phi", "el"): work += [z for z in (eng.phi_in.get(y) or eng.el_src.get(y) or ()) if isinstance(z, T)]
    return out

def kind_of(eng, t, seen=()):
    """is t the path of a directory line (0) or of a file line (1)?"""
    if t.k == "p" and t.a[0] == "join": return 1
    if t.k == "phi":
        if t in seen: return None
        r = {kind_of(eng, x, seen + (t,)) for x in eng.phi_in.get(t, ()) if x is not t} - {None}
        return r.pop() if len(r) == 1 else None
    return 0 if not find(t, lambda z: z.k == "p" and z.a[0] == "join") else None

NAMES = {-1: "smaller", 0: "equal", 1: "greater"}
def verdicts(C, facts):
    """possible orders of the entry at hand against the key; None if no comparison was seen"""
    ps = paths_of(C, facts)
    if not ps: return None
    p = ps[-1]; k = kind_of(C.eng, p)
    if k is None: return None
    o = Order(p, k, C.kpath, C.key)
    w, other = o.worlds(facts)
    return frozenset(o.value(x) for x in w)

def delivery(C):
    """C18: each line is delivered or skipped once"""
    und = set(); viols = {}
    adv = C.root == "r_iter_advance"
    ev = lambda e: e.kind in ("br", "loop") or e.kind == "fs" and e.name in ("read_line", "read", "read_exact", "fill_buf", "consume")
    g = C.g.filtered(ev); outer = C.outer_loops()
    # (lines read in this call, last line read (term), verdict on the entry at hand, read failed)
    init = (0, None, None, None)
    def drop(s, e, where):
        """the line at hand is given up"""
        n, line, verdict, failed = s
        if C.case == "fresh" and n == 0 and line is None: return None
        if verdict is None: und.add("comparison with the key"); return None
        if verdict != frozenset([-1]): return Viol("skipped", "advance goes on past an entry that may be %s its target" % " or ".join(NAMES[x] + (" than" if x else " to") for x in sorted(verdict) if x != -1), e)
        return None
    def step(s, e):
        n, line, verdict, failed = s
        if e.kind == "fs":
            if e.info == "err": return (n, line, verdict, True)
            if e.name != "read_line": return s
            if e.args[3] is not None and not isempty(e.facts, e.args[3]):
                return Viol("line merged", "a line is read at %s although the previous one is still in the buffer: both become one row" % graph.at(e), e)
            if adv and (n or C.case == "kept") and verdict is not None:
                r = drop(s, e, "read")
                if r is not None: return r
            if not adv and (n or C.case == "kept"): return Viol("line dropped", "next reads another line at %s although it already has one: a line is lost" % graph.at(e), e)
            return (min(n + 1, 2), e.args[2], None, False)
        if e.kind == "br":
            if adv:
                v = verdicts(C, e.facts)
                if v is not None: return (n, line, v, failed)
            return s
        if e.info[0] in outer and adv:
            row = C.at_loop(e, "current_row")[0]
            first = verdict is None and (n == 0)
            if not first:
                if isempty(e.facts, row):
                    r = drop(s, e, "loop")
                    if r is not None: return r
                    return (n, line, None, failed)
                return (n, line, None, failed)
        return s
    def judge(s, nd):
        n, line, verdict, failed = s; st = nd.st
        o = outcome(nd.val)
        if o is None: und.add("result"); return None
        ex = exhausted(C, st); row = C.get(st.mem, "current_row")
        if C.case == "done" or ex == 1: return None
        if ex is None: und.add("exhausted flag"); return None
        empty = isempty(st.facts, row)
        kept = not empty and (nonempty(st.facts, row) or find(row, lambda z: z is line or z is C.f0("current_row")) or row.k == "phi")
        if o != "none":
            what = "an entry" if o[0] == "ok" else "an error"
            if not empty:
                if kept: return Viol("repeated", "the line that %s was returned for stays in the buffer and is delivered again" % what, None)
                und.add("row after a result")
            if o[0] == "ok" and not adv and n == 0 and C.case == "fresh": return Viol("not read", "an entry is returned without reading a line", None)
            if o[0] == "ok" and adv:
                if verdict is None: und.add("comparison with the key")
                elif verdict != frozenset([0]): return Viol("wrong entry", "advance returns an entry that may be %s its target" % " or ".join(NAMES[x] + " than" for x in sorted(verdict) if x), None)
            if o[0] == "ok" and line is not None and not any(z is line for z in closure(C.eng, o[1])): und.add("which line the entry comes from")
            return None
        if not adv: return None
        if empty:
            return Viol("lost", "advance returns nothing but drops the line it looked at: the entry is never delivered", None)
        if verdict is None: und.add("comparison with the key"); return None
        if verdict != frozenset([1]): return Viol("missed", "advance stops without a result at an entry that may be %s" % " or ".join(NAMES[x] + (" than its target" if x else " to its target") for x in sorted(verdict) if x != 1), None)
        r0 = row.a[0] if row.k == "init" else row
        if not (r0.k in ("phi", "fld", "cat") or r0 is line): und.add("the row kept for the next call")
        return None
    v, n, ok = runs_to_final(C, g, init, step, judge)
    return v, n, ok, "; ".join(sorted(und)) or None

def kind_order(prog, root):
    """C20: every result of comparing two entry kinds is the order of (directory path, directories first, name)"""
    v = {}; und = set(); n = 0; stats = {"graph_nodes": 0, "worlds": 0}
    a, b = (mk("deref", mk("param", x)) for x in "ab")
    for ka in (0, 1):
        for kb in (0, 1):
            pa, pb = mk("fld", a, ka, 0), mk("fld", b, kb, 0)
            f = {mk("disc", a): ka, mk("disc", b): kb, P("is_absolute", pa): 1, P("is_absolute", pb): 1}
            for k, p in ((ka, pa), (kb, pb)):
                if k: f[mk("disc", P("parent", p))] = 1; f[mk("disc", P("file_name", p))] = 1
            g = units.analyse(prog, root, f, keep_final=True)
            stats["graph_nodes"] += len(g.nodes)
            o = Order(pa, ka, pb, kb); what = "%s with %s" % (("a directory", "a file")[ka], ("a directory", "a file")[kb])
            rets = 0
            for nd in g.nodes:
                if nd.st is not None and any(evalt.holds(t, y, {mk("disc", a): ka, mk("disc", b): kb}) is False for t, y in nd.st.facts.items()): continue
                if nd.kind == "panic": v.setdefault("panic/%d%d" % (ka, kb), ("comparing %s can panic for valid paths" % what, [])); continue
                if nd.kind != "return": continue
                rets += 1
                ws, other = o.worlds(nd.st.facts); val = nd.val
                if root.endswith("partial_cmp"):
                    if val.k == "agg" and not val.a[2]: v.setdefault("incomparable/%d%d" % (ka, kb), ("partial comparison of %s can give no result" % what, [])); continue
                    val = val.a[2][0] if val.k == "agg" else val
                for w in ws:
                    stats["worlds"] += 1
                    x = actual(o, val, w)
                    if x is None:
                        s = [c for c in comparisons(val) if o.slot(c) is None]
                        if s and all(form(c.a[1][0])[0] and contains(c, pa) and contains(c, pb) for c in s): v.setdefault("order/%d%d" % (ka, kb), ("comparing %s compares something else than %s" % (what, " and ".join("%s with %s" % x for x in o.need)), [show(c, 5)[:150] for c in s]))
                        else: und.add("result of comparing %s" % what)
                    elif x != o.value(w):
                        v.setdefault("order/%d%d" % (ka, kb), ("comparing %s gives %s where the index has them the other way round or equal (outcomes of comparing %s: %s)" % (what, {-1: "Less", 0: "Equal", 1: "Greater"}[x], ", ".join("%s with %s" % y for y in o.need), w), [show(val, 5)[:150]]))
            if not rets: und.add("no result for %s" % what)
    return v, stats, "; ".join(sorted(und)) or None

def actual(o, val, w):
    """the Ordering (or boolean, for equality) that a returned term stands for in world w"""
    if val.k == "agg" and val.a[0].endswith("Ordering"): return val.a[1] - 1
    if val.k == "bool": return int(val.a[0])
    if val.k == "p" and val.a[0] in CMP:
        s = o.slot(val)
        if s is None or s[2] and w[0] != 0: return None
        return w[s[0]] * s[1] if val.a[0] != "patheq" else int(w[s[0]] == 0)
    if val.k == "p" and val.a[0].endswith("reverse"):
        x = actual(o, val.a[1][0], w)
        return None if x is None else -x
    return None

def kind_eq(prog, root):
    """C20: two kinds are equal exactly when both are directories or both files and their paths are equal"""
    v = {}; und = set(); stats = {"graph_nodes": 0}
    a, b = (mk("deref", mk("param", x)) for x in "ab")
    for ka in (0, 1):
        for kb in (0, 1):
            pa, pb = mk("fld", a, ka, 0), mk("fld", b, kb, 0)
            g = units.analyse(prog, root, {mk("disc", a): ka, mk("disc", b): kb}, keep_final=True)
            stats["graph_nodes"] += len(g.nodes)
            for nd in g.nodes:
                if nd.kind != "return": continue
                x = nd.val; f = nd.st.facts
                if any(evalt.holds(t, y, {mk("disc", a): ka, mk("disc", b): kb}) is False for t, y in f.items()): continue
                same = P("patheq", pa, pb), P("patheq", pb, pa)
                for eq in ((0, 1) if ka == kb else (0,)):
                    if any(f.get(s) == 1 - eq for s in same): continue
                    r = x.a[0] if x.k in ("bool", "int") else eq if x in same else None
                    if r is None: und.add("result"); continue
                    if ka == kb and int(r) != eq or ka != kb and r: v["equal/%d%d" % (ka, kb)] = ("%s and %s compare %s" % (("a directory", "a file")[ka], ("a directory", "a file")[kb], "equal although their kind or path differs" if r else "unequal although they are the same"), [show(x, 5)[:100]])
    return v, stats, "; ".join(sorted(und)) or None

# ---------------------------------------------------------------- C30
def inside(C):
    """C30: returned entries have a checked path below the current directory, directories are absolute without '..', and the current directory follows"""
    und = set(); kinds = pr.enum(C.prog, "Entry"); eng = C.eng
    if not {"Dir", "File", "Link"} <= set(kinds): return {}, 0, True, "entry kinds"
    if C.case == "done": return {}, 0, True, None
    outer = C.outer_loops(); cl = {}
    def clo(t):
        if t not in cl: cl[t] = closure(eng, t)
        return cl[t]
    g = C.g.filtered(lambda e: e.kind in ("br", "loop") or e.kind == "next" and e.name == "components" or e.kind == "fs" and e.name == "read_line")
    cdir = C.f0("current_dir")
    def step(s, e):
        flags, comp, verd = s
        if e.kind == "fs": return (frozenset(), None, verd)
        if e.kind == "next":
            if comp is not None and comp[0] == "pending": return (flags, ("bad", comp[1]), verd)
            if comp is not None and comp[0] == "bad": return s
            return (flags, ("done" if e.info == "none" else "pending", e.args[0] if comp is None else comp[1], e.args[1] if len(e.args) > 1 else None), verd)
        if e.kind == "loop":
            if e.info[0] not in outer: return s
            r = directory(s, C.at_loop(e, "current_dir")[0], e) if C.root == "r_iter_advance" else None
            return r if isinstance(r, Viol) else (frozenset(), None, None)
        new = set()
        for t, v in e.facts.items():
            if v == 1 and t.k == "p" and t.a[0] == "is_absolute": new.add(("abs", t.a[1][0]))
            if v == 1 and t.k == "op" and t.a[0] == "Eq" and len(t.a) == 3:
                for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    f = form(b)
                    if f[0] == "name" and f[1].k == "p" and f[1].a[0] == "join": new.add(("name" if f[1].a[1][1] is a else "other name", f[1]))
            if v == 1 and t.k == "p" and t.a[0] == "patheq":
                for b in t.a[1]:
                    f = form(b)
                    if f[0] == "name": new.add(("pathname", f[1]))
            if t.k == "disc" and comp is not None and comp[0] == "pending" and t.a[0] is comp[2] and v != 3: comp = ("clean", comp[1], comp[2])
            if t.k == "ne" and comp is not None and comp[0] == "pending" and t.a[0].k == "disc" and t.a[0].a[0] is comp[2] and 3 in v: comp = ("clean", comp[1], comp[2])
        if C.key is not None:
            for p in paths_of(C, e.facts): verd = (p, kind_of(eng, p))
        return (flags | new, comp, verd)
    def directory(s, cd, e):
        """after an entry of known path was looked at, is the current directory right?"""
        verd = s[2]
        if verd is None or verd[1] is None: return None
        p, k = verd
        if k == 0 and cd is not p and not same(cd, p):
            return Viol("directory not entered", "after a directory line the current directory is not that directory: the names that follow are joined with another path", e)
        if k == 1 and not isdir(cd): und.add("current directory after a file line")
        return None
    def same(a, b): return any(x.k in ("res",) or "ext" in str(x.k) for x in clo(a) if x in clo(b) and x.k not in ("param",))
    def isdir(t): return t is cdir or t.k == "phi" and t.a[1] is C.base and t.a[2] and t.a[2][0] == ("f", C.ix["current_dir"])
    def judge(s, nd):
        flags, comp, verd = s
        o = outcome(nd.val)
        if o is None: und.add("result"); return None
        cd = C.get(nd.st.mem, "current_dir")
        if o == "none":
            return directory(s, cd, None) if C.root == "r_iter_advance" and exhausted(C, nd.st) == 0 else None
        if o[0] != "ok": return None
        e = o[1]
        if e.k != "agg" or not e.a[2]: und.add("entry"); return None
        p = e.a[2][0]
        if e.a[1] == kinds["Dir"]:
            if not any(f == "abs" and x is p for f, x in flags) and nd.st.facts.get(P("is_absolute", p)) != 1:
                return Viol("relative directory", "a directory entry is returned whose path need not be absolute", None)
            if comp is None: return Viol("dots in directory", "a directory entry is returned without looking at the components of its path: it may contain `..`", None)
            if comp[0] == "bad": return Viol("dots in directory", "a directory entry is returned although some component of its path may be `..`", None)
            if comp[0] != "done": return Viol("components left", "a directory entry is returned although not all components of its path were looked at", None)
            if not same(comp[1], p): und.add("which path's components are looked at")
            if cd is not p and not same(cd, p): return Viol("directory not entered", "after a directory line the current directory is not that directory: the names that follow are joined with another path", None)
            return None
        js = [x for x in clo(p) if x.k == "p" and x.a[0] == "join"]
        if not js: und.add("how the path of a file entry is made"); return None
        if not isdir(cd): und.add("current directory after a file line")
        for j in js:
            d = j.a[1][0]
            if isdir(d) or d is cdir: continue
            if any(x.k == "p" and x.a[0] == "parent" and isdir(x.a[1][0]) for x in effects.walk(d)): return Viol("parent of the directory", "the name of an entry is joined with the parent of the current directory", None)
            und.add("directory a name is joined with")
        if any(("name", j) in flags and ("abs", j) in flags for j in js): return None
        if not any(("name", j) in flags for j in js):
            if any(("pathname", j) in flags for j in js): return Viol("name as path", "the name of an entry is compared with the last component of its path only as a path: `name/` or `name/.` pass", None)
            if any(f == "other name" and j in js for f, j in flags): und.add("check of the name"); return None
            ns = [j.a[1][1] for j in js]
            if any(contains(t, n) and t.k != "disc" for n in ns for t in nd.st.facts if not find(t, lambda z: z.k == "p" and z.a[0] in ("is_absolute", "parent", "file_name"))): und.add("check of the name"); return None
            return Viol("name not checked", "a file or link entry is returned whose name was not compared with the last component of its path: `..`, `a/b` or `/a` leave the directory", None)
        return Viol("no directory", "a file or link entry is returned whose path need not be absolute (no directory line before it)", None)
    v, n, ok = runs_to_final(C, g, (frozenset(), None, None), step, judge)
    return v, n, ok, "; ".join(sorted(und)) or None

# ---------------------------------------------------------------- how an iteration starts
def start(g, prog, want):
    """r_parser_iter: want is a subset of {"lines", "block_size", "hash"}"""
    v = {}; und = set(); n = 0
    ix = pr.struct(prog, "EntryIterator"); hx = pr.struct(prog, "Header")
    hdr = None
    px = pr.struct(prog, "Parser")
    for nd in g.nodes:
        if nd.kind != "return": continue
        n += 1
        a = nd.val
        a = next(iter(find(a, lambda z: z.k == "agg" and z.a[0].split("::")[-1] == "EntryIterator")), None) if a is not None else None
        if a is None: und.add("iterator value"); continue
        get = lambda f: a.a[2][ix[f]] if f in ix else None
        if "lines" in want:
            r, num = get("current_row"), get("current_row_num")
            if num is None: und.add("line counter")
            elif num.k == "int" and num.a[0] != 1: v["start"] = ("an iteration starts with line counter %d, the header is line 1" % num.a[0], [])
            elif num.k != "int": und.add("line counter")
        for w in ("block_size",):
            if w not in want: continue
            b = get("block_size"); src = find(b, lambda z: z.k == "fld") if b is not None else []
            if b is None: und.add("block size of the iterator"); continue
            if b.k == "int": v["block size"] = ("an iteration assumes block size %d whatever the header says" % b.a[0], [])
            elif "header" in px and "block_size" in hx and b is not fld(mk("deref", mk("param", "p")), px["header"], hx["block_size"]):
                v["block size"] = ("an iteration uses %s as the block size" % show(b, 5)[:80], [])
    if not n: und.add("no return")
    return v, n, True, "; ".join(sorted(und)) or None

def header_lines(g):
    """errors of the header carry line 1"""
    v = {}; n = 0; und = set()
    for nd in g.nodes:
        if nd.kind != "return" or nd.val is None or nd.val.k != "agg" or nd.val.a[1] != 1: continue
        n += 1
        x = find(nd.val, lambda z: z.k == "agg" and len(z.a[2]) == 2 and z.a[0].split("::")[-1] in ("ErrorEnum", "ParseError"))
        if not x: continue
        num = x[0].a[2][1]
        if num.k == "int" and num.a[0] == 1: continue
        if num.k == "int": v["header line"] = ("an error in the header is reported for line %d" % num.a[0], [])
        else: und.add("line number of a header error")
    return v, n, True, "; ".join(sorted(und)) or None
