"""C33: a parsed entry says what its line says; C05: its names pass through the decoder once."""
from terms import *
import core, graph, units, evalt, effects
from graph import Viol
import parserules as pr, parse2 as p2, readrules as rr
from parserules import P, find, outcome, runs_to_final

TYPES = (b"f", b"x", b"s", b"", b"d", b"fx", b"X", b"F")
GRID = tuple((s, b) for b in (1, 4, 1000, 32768, 1 << 40) for s in sorted({0, 1, 2, 3, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b}) if 0 <= s <= 3 * b)

def nth(t):
    """(text, k): t is the k-th field of text, fields being separated by single spaces"""
    sep = None
    if t.k == "p" and t.a[0] == "field": u, sep = t.a[1]
    else: u = t
    k = 0
    while u.k == "p" and u.a[0] == "tail": u, sep = u.a[1][0], u.a[1][1]; k += 1
    return u, k
def after(t):
    """(line, offset) of a text that is a line without its first bytes"""
    if t.k == "slice" and t.a[1].k == "int" and t.a[2] is lenof(t.a[0]): return t.a[0], t.a[1].a[0]
    return t, 0

def typed(xs, y):
    env = {}
    for x in xs:
        env[x] = y; env[lenof(x)] = len(y)
        for i, c in enumerate(y): env[mk("elem", x, I(i))] = c
    return env

def says(C, which):
    und = set(); judged = []
    kinds = pr.enum(C.prog, "Entry"); files = entry_fields(C.prog)
    if C.case == "done": return {}, 0, True, None
    if not {"Dir", "File", "Link"} <= set(kinds) or not {"path", "exe", "size", "hashes"} <= set(files): return {}, 0, True, "kinds of entries"
    eng = C.eng; bs = C.f0("block_size")
    decs = {}
    for e in C.g.events():
        if e.kind == "ext" and e.name in C.dec and e.args:
            decs.setdefault(e.res, e.args[0])
    if not decs: return {}, 0, True, "no call of a decoder of names"
    outer = C.outer_loops()
    f = C.g.filtered(lambda e: e.kind in ("br", "loop"))
    good = [i for i, n in enumerate(f.nodes) if n.kind == "return" and outcome(n.val) not in (None, "none") and outcome(n.val)[0] == "ok"]
    g, heads = p2.segments(C, f, outer); g = p2.restrict(g, good)
    tr = p2.Trail(g)
    memo = {}
    def subs(t, pred):
        k = (t, pred)
        if k not in memo: memo[k] = tuple(dict.fromkeys(find(t, pred)))
        return memo[k]
    fieldish = lambda z: z.k == "p" and z.a[0] in ("field", "tail", "parse_int")
    full = frozenset(range(len(GRID)))
    init = ((), frozenset(), frozenset(TYPES), frozenset(), full)
    def step(s, e):
        if s == "dead": return s
        sg, flags, typ, hs, pts = s
        if e.kind == "loop": return (tr.loop(sg, e), flags, typ, hs, pts)
        fs = tr.facts(sg, e)
        if fs is None: return "dead"
        k = (id(e), s)
        if k in memo: return memo[k]
        for t, v in fs.items():
            if t.k == "p" and t.a[0] == "starts_with" and t.a[1][1].k == "bytes" and v == 1:
                flags = flags | {(t.a[1][0], t.a[1][1].a[0])}
                continue
            xs = subs(t, fieldish)
            if not xs: 
                if any(z is bs for z in effects.walk(t)):
                    pts = frozenset(i for i in pts if evalt.holds(t, v, {bs: GRID[i][1]}) is not False)
                continue
            t1 = [x for x in xs if x.a[0] != "parse_int" and nth(x)[1] == 1 and after(nth(x)[0])[1] == 2]
            if t1:
                typ2 = frozenset(y for y in typ if evalt.fact(t, v, typed(t1, y)) is not False)
                typ = typ2
            n = [x for x in xs if x.a[0] == "parse_int"]
            if n:
                pts = frozenset(i for i in pts if evalt.holds(t, v, dict({x: GRID[i][0] for x in n}, **{}) | {bs: GRID[i][1]}) is not False)
        for x in p2.lens64(fs):
            y, j = nth(x)
            if after(y)[1] == 2 and j >= 3: hs = hs | {j}
        if not typ or not pts: r = "dead"
        else: r = (sg, flags, typ, hs, pts)
        memo[k] = r
        return r
    clo = {}
    def closure(t):
        if t not in clo: clo[t] = p2.closure(eng, t)
        return clo[t]
    def strip(t):
        while t.k == "fld" and t not in decs: t = t.a[0]
        return t
    def decoded(t):
        """arguments of the decoder whose result t is made of"""
        return list(dict.fromkeys(decs[x] for x in closure(t) if x in decs))
    def name(t, k, off, what):
        """a Viol, or None if text t is the k-th field of the line after off bytes, decoded once"""
        ar = decoded(t)
        if not ar:
            raw = [x for x in closure(t) if x.k == "p" and x.a[0] in ("field", "tail") or x.k == "init"]
            if raw: return Viol("decode/raw " + what, "the %s of an entry is taken from its line without decoding its escapes" % what, None)
            und.add(what); return None
        for a in ar:
            if any(x in decs for x in closure(a)): return Viol("decode/twice " + what, "the %s of an entry is decoded twice" % what, None)
            for y in srcs(a):
                if y is EMPTY: continue
                b, j = nth(y); l, o = after(b)
                if (j, o) == (k, off): continue
                if j or o or y.k in ("p", "init", "slice"): return Viol("field/" + what, "the %s of an entry is taken from field %d of the line after %d bytes, not from field %d after %d" % (what, j + 1, o, k + 1, off), None)
                und.add(what)
        return None
    def srcs(t):
        """values a term can have, loop variables expanded"""
        out = []; work = [t]; seen = set()
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x)
            if x.k in ("phi", "el") and (eng.phi_in.get(x) or eng.el_src.get(x)): work += [z for z in (eng.phi_in.get(x) or eng.el_src.get(x)) if isinstance(z, T)]
            else: out.append(x)
        return out
    def computed(y, pts, nd):
        """is the computed term y the parsed size? False, (size, other value) or None"""
        at = [x for x in effects.walk(y) if any(w.k == "p" and w.a[0] == "parse_int" for w in srcs(x))]
        if not at: return None
        for i in sorted(pts):
            env = {x: GRID[i][0] for x in at}; env[bs] = GRID[i][1]
            r = evalt.num(y, env)
            if r is None: return None
            if r != GRID[i][0]: return None if any(t.k != "disc" and evalt.holds(t, v, env) is None and any(x in at for x in effects.walk(t)) for t, v in nd.st.facts.items()) else (GRID[i][0], r)
        return False
    def judge(s, nd):
        if s == "dead": return None
        sg, flags, typ, hs, pts = s
        o = outcome(nd.val)
        if o in (None, "none") or o[0] != "ok": return None
        e = o[1]; judged.append(1)
        if e.k != "agg" or not e.a[2]: und.add("entry"); return None
        k = e.a[1]
        if which == "C05":
            if k == kinds["Dir"]: r = name(e.a[2][0], 0, 0, "directory path")
            else:
                p = e.a[2][files["path"] if k == kinds["File"] else 0]
                r = None
                for x in [z for z in closure(p) if z.k == "p" and z.a[0] == "join"]: r = r or name(x.a[1][1], 0, 2, "name")
                if k == kinds["Link"]: r = r or name(e.a[2][1], 2, 2, "destination")
            return r if isinstance(r, Viol) and r.key.startswith("decode") else None
        starts = {b for _, b in flags}
        if k == kinds["Dir"]:
            if not any(b.startswith(b"/") for b in starts): return Viol("kind/directory", "a line is taken for a directory without looking at its first byte", None)
            r = name(e.a[2][0], 0, 0, "directory path")
            return r if isinstance(r, Viol) and not r.key.startswith("decode") else None
        if not any(b.startswith(b"  ") for b in starts): return Viol("kind/indent", "a line is taken for an entry of the current directory without looking at its first two bytes", None)
        p = e.a[2][files["path"] if k == kinds["File"] else 0]
        for x in [z for z in closure(p) if z.k == "p" and z.a[0] == "join"]:
            r = name(x.a[1][1], 0, 2, "name")
            if isinstance(r, Viol) and not r.key.startswith("decode"): return r
        if k == kinds["Link"]:
            if not typ <= {b"s"}: return Viol("kind/link", "a line of type `%s` is taken for a link" % show_type(typ, (b"s",)), None)
            r = name(e.a[2][1], 2, 2, "destination")
            return r if isinstance(r, Viol) and not r.key.startswith("decode") else None
        if not typ <= {b"f", b"x"}: return Viol("kind/file", "a line of type `%s` is taken for a file" % show_type(typ, (b"f", b"x")), None)
        # the executable flag
        x = tr.sub(sg, e.a[2][files["exe"]])
        env0 = [z for z in closure(x) if z.k in ("phi", "p") and any(nth(y)[1] == 1 and after(nth(y)[0])[1] == 2 for y in srcs(z) if y is not EMPTY)]
        for ty in sorted(typ):
            v = evalt.val(x, typed(env0, ty))
            if v is None: und.add("executable flag"); break
            if bool(v) != (ty == b"x"): return Viol("exe", "a file of type `%s` is reported as %s" % (ty.decode(), "executable" if v else "not executable"), None)
        # the size
        z = tr.sub(sg, e.a[2][files["size"]])
        for y in srcs(z):
            if y.k == "p" and y.a[0] == "parse_int":
                a = y.a[1][0]
                if a is EMPTY: continue
                b, j = nth(a)
                if y.a[1][1] is not I(10) and y.a[1][1] != 10: return Viol("size/radix", "the size is read in base %s" % (show(y.a[1][1], 2) if isinstance(y.a[1][1], T) else y.a[1][1]), None)
                if (j, after(b)[1]) != (2, 2): return Viol("size/field", "the size is read from field %d" % (j + 1), None)
            elif find(y, lambda w: w.k == "p" and w.a[0] == "parse_int"): return Viol("size/value", "the size reported is %s" % show(y, 4)[:80], None)
            elif y.k == "int": return Viol("size/const", "the size reported is always %d" % y.a[0], None)
            else:
                r = computed(y, pts, nd)
                if r is None: und.add("size")
                elif r: return Viol("size/value", "the size reported for a line that says %d is %d" % r, None)
        # the number of hashes
        if len(hs) <= 3:
            for i in sorted(pts):
                s_, b_ = GRID[i]; want = -(-s_ // b_)
                if want > 3: continue
                if want != len(hs): return Viol("hashes", "a file line with size %d and block size %d is accepted with %s%d hashes" % (s_, b_, "" if len(hs) < 3 else "at least ", len(hs)), None)
        h = e.a[2][files["hashes"]]
        hx = pr.struct(C.prog, "Hashes")
        if h.k == "agg" and "block_size" in hx and len(h.a[2]) > hx["block_size"]:
            b = h.a[2][hx["block_size"]]
            if b is not bs and b.k in ("int", "p", "fld", "op"): return Viol("block size", "the hashes of a file are given the block size %s" % show(b, 4)[:60], None)
        return None
    keep = p2.before(g, good); starts = [(0, init)]
    for t, e, rest in heads:
        if t not in keep: continue
        s0 = init
        for e2 in rest:
            if s0 != "dead": s0 = step(s0, e2)
        if s0 != "dead": starts.append((t, s0))
    starts = list(dict.fromkeys(starts))
    v, n, ok = runs_to_final(C, g, init, step, judge, starts)
    if not judged: und.add("no entry is returned")
    if which == "C33":
        v2 = {}; n += rr.pairs(C.g, rr.chunkpos, v2, und)
        v.update({"hash " + k: x for k, x in v2.items()})
    return v, n, ok, "; ".join(sorted(und)) or None

def show_type(typ, good): return sorted(set(typ) - set(good))[0].decode()

def entry_fields(prog):
    for ty in prog.types:
        if ty.get("def") and ty.get("v") and ty.get("enum") and ty["def"].startswith("dir_signature") and ty["def"].split("::")[-1] == "Entry":
            for v in ty["v"]:
                if v["name"] == "File": return {f[0]: i for i, f in enumerate(v["f"])}
    return {}

def c33(C): return says(C, "C33")
def c05(C): return says(C, "C05")
