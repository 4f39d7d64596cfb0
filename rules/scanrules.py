"""Rules over the scanning code: block hashes, sizes, flags, types, failures, completion."""
from terms import *
from graph import Viol, describe, at, short, fn
import text, units, evalt
from text import is_ok, is_err, tokens

def cfgfield(g, name):
    from graph import PROG
    ix = units.cfg_fields(PROG[0])
    return units.fld(mk("deref", mk("param", "cfg")), ix[name]) if name in ix else None

def sources(g, t, depth=0, seen=None):
    """concrete terms an element value may stand for"""
    if seen is None: seen = set()
    if t in seen or depth > 6: return set()
    seen.add(t)
    if t.k == "el":
        out = set()
        for x in g.eng.el_src.get(t, ()): out |= sources(g, x, depth + 1, seen)
        return out or {t}
    if t.k == "phi":
        out = set()
        for x in g.eng.phi_in.get(t, ()): out |= sources(g, x, depth + 1, seen)
        return out or {t}
    if t.k == "p" and t.a[0] == "el": pass
    return {t}

def atomname(t):
    """(kind, name) of an operation result, whatever its age"""
    if t.k == "res": return t.a[1]
    if t.k == "wk" and t.a[0] == "res": return t.a[2]
    return None

# ---------------------------------------------------------------- C02
def block_size_term(g):
    if g.name == "r_scan": return cfgfield(g, "block_size")
    if g.name == "r_hash_file": return mk("param", "bs")
    return None

def isdata(x):
    """bytes read from a file, as such"""
    while x.k in ("slice", "init"): x = x.a[0]
    if x.k == "cat": return any(isdata(y) for y in x.a[0])
    return x.k == "chunk" or x.k in ("res", "wk") and "data" in x.a

def block_hash(g, prop):
    """per hasher: what was fed since it was created or reset.  A digest of file data must be of one
    chunk of at most block_size bytes and nothing else"""
    bs = block_size_term(g)
    f = g.filtered(lambda e: e.kind == "hash" or e.kind == "fs" and e.name == "seek")
    def key(p):
        if p.k == "chunk": return ("c", p.a[1].id, p.a[2])
        if isdata(p): return ("d",)
        return ("t",)
    def step(s, e):
        d = dict(s)
        if e.kind == "fs": return s
        o = e.args[0].a[1]
        if e.name == "new": d[o] = ()
        elif e.name == "clone":
            n = e.args[1].a[1]
            if o in d: d[n] = d[o]
            else: d.pop(n, None)
        elif e.name == "reset": d[o] = ()
        elif e.name == "feed":
            st = d.get(o)
            if st is not None:
                k = key(e.args[1])
                n = st + (k,) if len(st) < 3 else st
                d[o] = n
        elif e.name == "final":
            st = d.get(o)
            if st is not None:
                data = [k for k in st if k[0] in "cd"]
                why = None; cat = None
                fin = [k for k in st if k[0] == "F"]
                if data and any(k[0] == "t" for k in st): cat, why = "text", "the hash of a file block also covers other text"
                elif data and fin: cat, why = "carry", "the hash of a block also covers the previous blocks: the hasher is used again after taking a digest without being reset"
                elif data and st[-1][0] == "c":
                    lim = st[-1][2]
                    if lim.k == "int" and lim.a[0] < 0: cat, why = "unlimited", "a block hash covers everything up to the end of the file"
                    elif bs is not None and lim is not bs:
                        # a limit that is not the block size: is it smaller or equal for certain?
                        z = wrong_limit(g, lim, bs)
                        if z: cat, why = "limit", "a block hash covers up to %s bytes, not block_size" % show(lim, 5)
                if why is None and len(data) >= 2 and all(k[0] == "c" for k in data) and len(set(data)) == 1 and bs is not None and data[0][2] is bs:
                    cat, why = "several", "one digest covers several blocks of the file"
                nd = tuple(sorted(list(d.items()), key=lambda z: z[0].id))
                d[o] = (st + (("F",),) if data else st)[-3:] if data else st
                if why: return Viol("%s/%s/%s" % (cat, g.tag, text.digest_alg(e.args[1])), why + " (%s)" % text.digest_alg(e.args[1]), e, tuple(sorted(d.items(), key=lambda z: z[0].id)))
        return tuple(sorted(d.items(), key=lambda z: z[0].id))
    return f.run((), step)

def wrong_limit(g, lim, bs):
    """does the limit certainly differ from the block size for some sizes?  evaluated on a grid"""
    at_ = [x for x in find(lim, lambda y: y.k in ("fld", "param", "phi", "res", "wk", "el", "deref", "p") and y.k != "p")]
    lens = {x for x in find(lim, lambda y: y.k == "p" and y.a[0] == "meta_len")}
    for b in (1, 3, 4096, 1 << 40):
        env = {bs: b}
        v = evalt.num(lim, env)
        if v is not None and v != b: return True
    return False

# ---------------------------------------------------------------- C06
GRID = [(0, 1), (1, 1), (2, 1), (5, 1), (0, 3), (1, 3), (2, 3), (3, 3), (4, 3), (5, 3), (6, 3), (7, 3), (9, 3), (12, 4), (8, 4), (11, 4), (32768, 32768), (5, 1 << 40),
        ((1 << 64) - 1, 1 << 62), ((1 << 63), 1 << 61), ((1 << 32) * 3, 1 << 32), ((1 << 32) * 3 + 1, 1 << 32)]

def bad_size(g, t, seen=None):
    """reason why a written size is certainly not the length of the opened file"""
    for x in sources(g, t):
        if x.k == "p" and x.a[0] == "meta_len":
            for m in sources(g, x.a[1][0]):
                if m.k == "p" and m.a[0] == "lmeta": return "the size written comes from lstat of the entry, not from the opened file"
            continue
        if x.k in ("int",): return "the size written is the constant %s" % show(x)
        if x.k in ("op", "cast", "p") and find(x, lambda y: y.k == "p" and y.a[0] == "meta_len"):
            L = find(x, lambda y: y.k == "p" and y.a[0] == "meta_len")[0]
            for v in (0, 1, 5, 255, 256, 65535, 65536, (1 << 31) + 1, (1 << 32) + 5, (1 << 63) + 7, (1 << 64) - 1):
                r = evalt.num(x, {L: v})
                if r is not None and r != v: return "the size written is %s: %d for a file of %d bytes" % (show(x, 6), r, v)
    return None

def sizes(g, prop):
    f = g.filtered(lambda e: e.kind in ("sink", "text") and e.name in ("write", "partial", "append"))
    bs = block_size_term(g)
    def step(s, e):
        for k, x in tokens(e.args[1]):
            if k == "p" and x.k == "p" and x.a[0] == "dec" and len(x.a[1]) == 1:
                t = x.a[1][0]
                if t is bs or t.k == "param" : continue
                if s == "size" or True:
                    if e.kind == "sink" and s:
                        r = bad_size(g, t)
                        if r: return Viol("%s/size" % fn(e), r, e, 1)
            if k == "b" and x == 10 and e.kind == "sink": s = 1
        return s
    return f.run(0, step)

def hash_counts(g, prop):
    """number of block digests taken per file, for a grid of file lengths and block sizes, by evaluating the
    conditions and loop variables of the analysed paths"""
    bs = block_size_term(g)
    def keep(e):
        return e.kind in ("br", "loop") or e.kind == "fs" and (e.name == "fstat" or e.name == "read" and e.info == "ok" and len(e.args) > 2) or e.kind == "hash" and e.name == "final" or e.kind == "sink" and e.name == "write" and e.info == "ok" \
            or e.kind == "thread" and e.name in ("done", "spawn")
    f = g.filtered(keep)
    eng = g.eng
    out = {}; states = 0; undecided = []
    threaded = any(e.kind == "thread" and e.name == "spawn" for e in g.events())
    grid = [(L, Bs, L) for L, Bs in GRID]
    if all_sizes_fstat(g): grid += [(L, Bs, A) for L, Bs in ((0, 3), (1, 3), (3, 3), (5, 3), (8, 4), (9, 4)) for A in (0, 1, 2 * Bs, L + 2 * Bs + 1)]
    for L, Bs, A in grid:
        # L: length the metadata gives, A: bytes reading returns
        want = -(-L // Bs)
        ok_sites = set(); bads = {}
        if want > 12: continue
        memo = {}
        def env_of(s): return dict(s[1])
        def step(s, e):
            # s = (mode, env, count, bytes read)
            mode, env, cnt, pos = s
            if e.kind == "fs" and e.name == "read":
                if mode == 0 or e.args[2].k != "chunk": return s
                en = dict(env); en[bs] = Bs
                lim = num_or(e.args[2].a[2], en)
                ln = lenof(e.args[2])
                en = dict(env)
                if lim is None: en.pop(ln, None); return (mode, tuple(sorted(en.items(), key=lambda z: z[0].id)), cnt, pos)
                v = max(0, A - pos)
                if lim >= 0: v = min(v, lim)
                en[ln] = v
                return (mode, tuple(sorted(en.items(), key=lambda z: z[0].id)), cnt, min(pos + v, A))
            if e.kind == "fs":
                if e.info != "ok": return (0, (), 0, 0)
                m = mk("p", "meta_len", (mk("res", e.site, "meta", ()),))
                return (1, ((m, L),), 0, 0)
            if mode == 0: return s
            if e.kind == "hash":
                d = e.args[1]
                if not digest_of_data(d): return s
                return (mode, env, cnt + 1, pos) if cnt < 20 else "dead"
            if e.kind == "br":
                en = dict(env); en[bs] = Bs
                for t, v in e.facts.items():
                    r = evalt.holds(t, v, en)
                    if r is False: return "dead"
                return s
            if e.kind == "loop":
                hk, mem = e.info
                en = dict(env); en[bs] = Bs
                # conditions that hold here
                for t, v in e.facts.items():
                    r = evalt.holds(t, v, en)
                    if r is False: return "dead"
                new = {}
                for (base, path), ph in eng.phis.get(hk, {}).items():
                    v = leaf(eng, mem, base, path)
                    if v is None: continue
                    x = evalt.num(v, en)
                    if x is not None: new[ph] = x
                    elif is_len(v, ph): pass
                for k, v in env:
                    if k not in new and not (k.k == "phi" and k.a[0] is hk): new[k] = v
                return (mode, tuple(sorted(new.items(), key=lambda z: z[0].id)), cnt, pos)
            if e.kind == "thread":
                if e.name == "spawn": return (0, (), 0, 0)
                v = e.args[0]
                if not (v.k == "agg" and v.a[1] == 0): return (0, (), 0, 0)
                return finish(s, e)
            if e.kind == "sink" and not threaded:
                if any(k == "b" and x == 10 for k, x in tokens(e.args[1])): return finish(s, e)
            return s
        def finish(s, e):
            key = (fn(e),)
            if s[2] == want: ok_sites.add(key)
            else: bads.setdefault(key, (s[2], e))
            return (0, (), 0, 0)
        def step2(s, e):
            if s == "dead": return s
            return step(s, e)
        r = f.run((0, (), 0, 0), step2)
        states += r[1]
        for k, (n, e) in bads.items():
            if k not in ok_sites:
                out.setdefault("%s/count" % k[0], ("a file of %d bytes%s with block size %d gets %d hashes, not %d" % (L, "" if A == L else " (of which reading returns %d)" % A, Bs, n, want), [describe(e)]))
            else: undecided.append("%s: a path with %d hashes for %d/%d could not be excluded" % (k[0], n, L, Bs))
        if not r[2]: undecided.append("limit")
    return out, states, True, "; ".join(sorted(set(undecided))[:2]) or None

def num_or(t, env): return t.a[0] if t.k == "int" else evalt.num(t, env)
def all_sizes_fstat(g):
    """does every size written resolve to the fstat length?"""
    n = 0
    for e in g.events():
        if e.kind == "sink" and e.name in ("write", "partial"):
            for k, x in tokens(e.args[1]):
                if k == "p" and x.k == "p" and x.a[0] == "dec" and len(x.a[1]) == 1:
                    t = x.a[1][0]
                    if t is block_size_term(g): continue
                    n += 1
                    if not any(y.k == "p" and y.a[0] == "meta_len" for y in sources(g, t)): return False
    return n > 0

def is_len(v, ph): return False
def digest_of_data(d):
    return bool(find(d, lambda y: y.k == "chunk" or y.k in ("res", "wk") and "data" in y.a)) or (d.a[1][2].k == "fed" and d.a[1][2].a[0] == "mixed")

def leaf(eng, mem, base, path):
    v = mem.get(base)
    if v is None: return None
    for p in path:
        if v is None: return None
        if p == ("sz",): v = v.a[2] if v.k == "coll" else None; continue
        if p[0] == "it":
            i = p[1]
            v = v.a[1 + i] if v.k == "it" and 1 + i < len(v.a) and isinstance(v.a[1 + i], T) else None; continue
        if p == ("*",):
            v = v.a[0].a[0] if v.k == "ref" and v.a[0].k == "C" else None; continue
        try: v = eng.project(v, p)
        except Exception: return None
    return v

# ---------------------------------------------------------------- C10
def expand(g, t, limit=8):
    """variants of a term with element values replaced by what they may stand for"""
    els = [x for x in subterms(t) if x.k in ("el", "phi")]
    out = [t]
    for x in els:
        ss = sources(g, x)
        if ss == {x}: continue
        nxt = []
        for o in out:
            for y in ss: nxt.append(subst(o, {x: y}, {}))
        out = nxt[:limit * 4]
        if len(out) > limit * 4: break
    return out

def exe(g, prop, acc=None):
    G = text.Grammar()
    f = g.filtered(lambda e: e.kind == "sink" and e.name in ("write", "partial"))
    decided = [0]; und = set()
    def check(e, ch):
        facts = []
        for t, v in e.facts.items():
            for y in expand(g, t): facts.append((y, v))
        for t, v in facts:
            p = [x for x in find(t, lambda z: z.k == "param") if x.a[0] == "exe"]
            if p and g.name == "r_emitter":
                decided[0] += 1
                for b in (0, 1):
                    if evalt.holds(t, v, {p[0]: b}) and b != (ch == 120):
                        return Viol("%s/exe" % fn(e), "the Emitter writes `%s` for executable=%s" % (chr(ch), bool(b)), e)
        ms = {}
        for t, v in facts:
            for m in find(t, lambda z: z.k == "p" and z.a[0] == "mode"): ms.setdefault(m, []).append((t, v))
        for m, fs in ms.items():
            for src in sources(g, m.a[1][0]):
                if src.k == "p" and src.a[0] == "lmeta": return Viol("%s/lstat" % fn(e), "the executable flag comes from the directory entry's metadata, not from the opened file", e)
            cons = []; know = True
            for mode in range(0o10000):
                z = mode | 0o100000
                r = [evalt.holds(t, v, {m: z}) for t, v in fs]
                if None in r and False not in r: know = False; break
                if all(x is True for x in r): cons.append(mode)
            if not know: und.add(fn(e)); continue
            decided[0] += 1
            if acc is not None: acc.setdefault(ch, {}).setdefault(fn(e), [set(), e])[0].update(cons); continue
            wrong = [z for z in cons if bool(z & 0o100) != (ch == 120)]
            if wrong: return Viol("%s/mask" % fn(e), "a file of mode 0o%o is marked `%s`" % (wrong[-1] if ch == 102 else wrong[0], chr(ch)), e)
        if not ms and g.name != "r_emitter": und.add(fn(e))
        return None
    def step(s, e):
        if e.info == "err" or e.name == "partial" or s == "?": return s
        st = s
        for k, x in tokens(e.args[1]):
            if k == "star":
                st = G.run(st, mk("cat", (mk("star", x),)) if not isinstance(x, T) else x); continue
            if k == "b" and x in (102, 120) and any(z != "?" and z[0] == "T" for z in st):
                v = check(e, x)
                if v is not None: return v
            st = frozenset(G.tok(z, k, x) for z in st)
        return st
    r = f.run(frozenset((G.start(),)), step)
    u = None
    if not decided[0]: u = "the condition for the executable flag was not recognised"
    return r[0], r[1], r[2], u

# ---------------------------------------------------------------- C11
def types_of(g, facts, entry):
    """SimpleType values (0 symlink, 1 dir, 2 file, 3 other) the facts allow for an entry; None: nothing is known"""
    possible = {0, 1, 2, 3}; known = False
    dt = mk("p", "dtype", (entry,))
    for t, v in facts.items():
        x = t.a[0] if t.k == "ne" else t
        neg = t.k == "ne"; vs = set(v) if neg else {v}
        if x.k == "op" and x.a[0] in ("Eq", "Ne") and not neg:
            for p, q in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if p.k == "disc" and q.k == "int": x = p; neg = (v == 0) == (x is p and t.a[0] == "Eq"); vs = {q.a[0]}; break
        if x.k != "disc": continue
        y = x.a[0]
        if y.k == "fld" and y.a[0] is dt or y.k == "p" and y.a[0] == "stat_type" and y.a[1][0].k == "p" and y.a[1][0].a[0] == "lmeta" and y.a[1][0].a[1][1] is entry:
            known = True
            possible -= vs if neg else {0, 1, 2, 3} - vs
    return possible if known else None

NAMES = {0: "symlink", 1: "directory", 2: "regular file", 3: "other object"}
def entries_of(t):
    """entry values named by an fs argument"""
    if t.k == "p" and t.a[0] == "entry_name": return [t.a[1][0]]
    return [t] if t.k in ("el", "res", "wk") else []

def types(g, prop):
    out = {}; n = 0; und = set()
    want = {"open_file": 2, "sub_dir": 1, "read_link": 0, "list_dir": 1}
    for e in g.events():
        if e.kind != "fs" or e.name not in ("open_file", "sub_dir", "read_link", "fopen", "list_dir"): continue
        if e.name == "fopen":
            if find(e.args[0], lambda z: z.k == "p" and z.a[0] == "entry_name"):
                out.setdefault("%s/fopen" % fn(e), ("a scanned entry is opened by path with File::open, which follows symlinks, at %s" % at(e), [describe(e)]))
            continue
        if len(e.args) < 2 or e.args[1].k == "bytes": continue
        for x in entries_of(e.args[1]):
            n += 1
            ts = types_of(g, e.facts, x)
            if ts is None: und.add("%s in %s" % (e.name, fn(e))); continue
            extra = ts - {want[e.name]}
            if extra: out.setdefault("%s/%s/%s" % (fn(e), e.name, min(extra)), ("%s is applied to an entry that may be a %s, at %s" % (e.name, " or ".join(NAMES[z] for z in sorted(extra)), at(e)),
                ["%s = %s" % (show(t, 7), v) for t, v in e.facts.items()] + [describe(e)]))
    # the directory handle is the one the entry was listed from
    for e in g.events():
        if e.kind == "fs" and e.name in ("open_file", "read_link", "sub_dir", "lstat") and len(e.args) > 1:
            for x in entries_of(e.args[1]):
                fx = [t for t, v in e.facts.items() if t.k == "op" and t.a[0] == "Eq" and v == 1 and mk("p", "listed_in", (x,)) in t.a[1:]]
                if not fx: continue
                n += 1
                if not any(e.args[0] in t.a[1:] for t in fx) and all(atomname(z) == "dir" or z.k == "el" for t in fx for z in t.a[1:] if not (z.k == "p")):
                    und.add("handle of %s in %s" % (e.name, fn(e)))
    return out, n, True, ("types not tracked: " + ", ".join(sorted(und))) if und else None

# ---------------------------------------------------------------- C13
WANT = {"open_root": "OpenDir", "sub_dir": "ListDir", "list_dir": "ListDir", "next_entry": "ListDir",
        "lstat": "ReadFile", "open_file": "ReadFile", "fstat": "ReadFile", "read": "ReadFile", "read_exact": "ReadFile", "read_link": "ReadFile"}

def error_names():
    from graph import PROG
    for ty in PROG[0].types:
        if ty.get("def") == "dir_signature::Error": return [v["name"] for v in ty["v"]]
    return []

def variant(v):
    """name of the crate error inside an Err value / None"""
    if v is not None and v.k == "agg" and v.a[1] == 1 and len(v.a[2]) == 1 and v.a[2][0].k == "agg" and v.a[2][0].a[0] == "dir_signature::Error":
        return error_names()[v.a[2][0].a[1]]
    return None

def failures(g, prop):
    """state: (expected error | None, inside a task?, error of the task, root opened?)"""
    f = g.filtered(lambda e: e.kind in ("fs", "sink") and (e.info == "err" or e.name == "open_root") or e.kind == "thread" and e.name in ("spawn", "done", "wait", "poll")
                   or e.kind == "sink" and e.name == "write")
    G = text.Grammar()
    def step(s, e):
        exp, task, texp, root, wh = s
        if e.kind == "fs":
            if e.info == "ok" and e.name == "open_root": return (exp, task, texp, 1, wh)
            if e.info != "err" or e.name not in WANT: return s
            x = WANT[e.name]
            if task: return (exp, task, texp or x, root, wh)
            return (exp or x, task, texp, root, wh or (e.name, fn(e)))
        if e.kind == "sink":
            if e.info == "err": return (exp or "WriteError", task, texp, root, wh or (e.name, fn(e)))
            if exp and e.name == "write":
                toks = list(tokens(e.args[1]))
                if toks and toks[0][0] == "p" and toks[0][1].k == "p" and toks[0][1].a[0] == "hex":
                    return Viol("%s/footer-after/%s" % (wh[1], wh[0]), "a footer is written although %s failed" % wh[0], e)
            return s
        if e.name == "spawn": return (exp, 1, None, root, wh)
        if e.name == "done":
            v = e.args[0]
            if texp:
                if v.k == "agg" and v.a[1] == 0: return Viol("%s/task/%s" % (fn(e), texp), "a background task reports success although it failed (%s expected)" % texp, e)
                n = variant(v)
                if n is not None and n != texp: return Viol("%s/task-variant/%s" % (fn(e), texp), "a background task reports %s where %s is due" % (n, texp), e)
            return (exp, 0, None, root, wh)
        # wait / poll of a failed task
        if e.info == "notready": return s
        v = e.args[0]
        v = v.a[0] if v.k == "future" else v
        n = variant(v)
        if n is not None and not task: return (exp or n, task, texp, root, wh or (e.name, fn(e)))
        return s
    def end(s, kind, val):
        exp, task, texp, root, wh = s
        if kind == "return":
            if is_ok(val):
                if exp: return Viol("swallowed/%s/%s" % wh, "scanning succeeds although %s failed in %s" % wh)
            n = variant(val)
            if exp and n is not None and n != exp: return Viol("variant/%s/%s" % wh, "a failure of %s is reported as %s, not %s" % (wh[0], n, exp))
            if exp is None and n is not None and n != "NoRootDirectory" and n != "UnsupportedHash": return Viol("spurious/" + n, "%s is returned although nothing failed" % n)
        elif exp: return Viol("panic/%s/%s" % wh, "a failure of %s in %s ends in a panic" % wh)
        elif texp: return Viol("panic/task", "a failure in a background task ends in a panic")
    return f.run((None, 0, None, 0, None), step, end)

def noroots(g, prop):
    """the graph of a scan whose configuration lists no directory"""
    f = g.filtered(lambda e: False)
    def end(s, kind, val):
        if kind != "return": return None
        if is_ok(val): return Viol("no-root", "scanning succeeds although no directory was configured")
        n = variant(val)
        if n is not None and n not in ("NoRootDirectory", "WriteError"): return Viol("no-root/" + n, "%s is returned when no directory was configured" % n)
    return f.run(0, lambda s, e: s, end)

# ---------------------------------------------------------------- C14
def delivered(g, prop):
    """success only after every write was accepted in full and (scan) the destination was flushed last"""
    ns = {e.args[2] for e in g.events() if e.kind == "sink" and e.name == "partial" and len(e.args) > 2}
    f = g.filtered(lambda e: e.kind == "sink" or e.kind == "br" and any(find(t, lambda y: y in ns) for t in e.facts))
    base = {(t, v) for e in g.events() if e.kind == "sink" and e.name == "partial" for t, v in e.facts.items()}
    scan = g.name == "r_scan"
    G = text.Grammar()
    def step(s, e):
        st, fl = s
        if e.kind == "br": return (st, "checked") if fl == "partial" and any((t, v) not in base for t, v in e.facts.items() if find(t, lambda y: y in ns)) else s
        if e.info == "err": return (st, "err")
        if e.name == "flush": return (st, "flushed" if fl in ("clean", "flushed", "dirty") else fl)
        if e.name == "partial": return (frozenset("?"), "partial")
        n = G.run(st, e.args[1])
        if text.bad(n): n = frozenset("?")
        return (n, "dirty")
    def end(s, kind, val):
        st, fl = s
        if kind != "return" or not is_ok(val): return None
        if fl == "err": return Viol("error", "success although the last write or flush failed")
        if fl == "partial": return Viol("partial", "success although the last write call may have accepted only a part: the number of bytes it accepted is not looked at")
        for z in st:
            if z != "?" and z[0] != "END": return Viol("incomplete/" + z[0], "success although the footer line was not written completely (index ends %s)" % text.PLACE.get(z[0], "in the header"))
        if scan and fl == "dirty": return Viol("flush", "success is returned without flushing the destination after the last write")
        if scan and fl == "clean": return Viol("flush", "success is returned without writing or flushing anything")
    return f.run((frozenset((G.start(),)), "clean"), step, end)
