"""Hash names and algorithms (C22); configuration setters, defaults and their use (C23)."""
import core, graph, units, evalt
from graph import Viol, fn
from terms import *
import text, usage

NAMES = (b"sha512/256", b"blake2b/256", b"blake3/256")
CONS = (("r_hash_sha512", 0), ("r_hash_blake2b", 1), ("r_hash_blake3", 2))

def finals(prog, root):
    g = units.analyse(prog, root, keep_final=True)
    return g, [n for n in g.eng.nodes if n.kind in ("return", "panic")]

def variant(t):
    """index of a literal HashType, or None"""
    if t is not None and t.k == "agg" and t.a[0].endswith("HashType") and len(t.a[2]) == 1: t = t.a[2][0]
    if t is not None and t.k == "agg" and t.a[0].endswith("HashTypeEnum"): return t.a[1]
    return None

def variants(prog):
    """{index of a HashTypeEnum variant: name}, as its public constructor says"""
    m = {}; bad = []
    for r, i in CONS:
        g, fs = finals(prog, r)
        for n in fs:
            v = variant(n.val)
            if v is not None:
                if v in m and m[v] != NAMES[i]: bad.append((r, i, v))
                m.setdefault(v, NAMES[i])
    return m, bad

def lit(t):
    return t.a[0] if t.k == "bytes" else None

def eqs(st, pred=lambda t: True):
    """[(other side, literal, truth)] of the string comparisons among the facts"""
    out = []
    for t, v in st.facts.items():
        if t.k == "op" and t.a[0] == "Eq" and len(t.a) == 3:
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if b.k == "bytes" and a.k != "bytes" and pred(a): out.append((a, b.a[0], v))
    return out

def tables(prog, pid):
    """constructors, from_str, Display, output_bytes"""
    def f():
        graph.PROG[0] = prog
        v = {}; und = []; nodes = 0; ret = 0
        m, bad = variants(prog)
        for r, i, x in bad: v["constructor/%s" % r[7:]] = ("two constructors make the same hash type", [])
        if len(m) < 3: und.append("constructors not understood")
        # parsing
        g, fs = finals(prog, "r_hash_from_str"); nodes += len(g.nodes)
        S = mk("param", "s")
        for n in fs:
            ret += 1
            if n.kind == "panic": v["from_str/panic"] = ("parsing a hash name can panic", []); continue
            x = n.val
            if x is None or x.k != "agg": und.append("from_str result"); continue
            es = eqs(n.st, lambda t: t is S or find(t, lambda z: z is S))
            pos = [(a, b) for a, b, z in es if z]; neg = {b for a, b, z in es if not z and a is S}
            if x.a[1] == 0:
                k = variant(x.a[2][0])
                if k is None: und.append("from_str result"); continue
                want = m.get(k)
                good = [b for a, b in pos if a is S]
                if good and want is not None and good[0] != want: v["from_str/%s" % good[0].decode("latin1")] = ("the name %r is parsed as %s" % (good[0].decode("latin1"), want.decode()), [])
                elif not good and pos: v["from_str/altered"] = ("a name is accepted because %s equals %r, not because it is that name" % (show(pos[0][0], 5)[:80], pos[0][1].decode("latin1")), [])
                elif not good and neg >= set(NAMES): v["from_str/other"] = ("a string that is none of the names is accepted as %s" % (want or b"?").decode(), [])
                elif not good: und.append("condition of from_str")
            else:
                if pos and pos[0][0] is S and pos[0][1] in NAMES: v["from_str/rejected"] = ("the name %s is rejected" % pos[0][1].decode(), [])
        acc = {b for n in fs for a, b, z in eqs(n.st) if z and a is S}
        tested = {b for n in fs for a, b, z in eqs(n.st) if a is S}
        if tested and not und:
            for nm in NAMES:
                if nm not in acc: v["from_str/missing/%s" % nm.decode()] = ("the name %s is not accepted" % nm.decode(), [])
        # display
        g, fs = finals(prog, "r_hash_display"); nodes += len(g.nodes)
        H = fld(mk("param", "h"), 0)
        for n in fs:
            ret += 1
            if n.kind == "panic" or not text.is_ok(n.val): continue
            k = n.st.facts.get(mk("disc", H))
            c = None
            for b, x in n.st.mem.items():
                if b.k == "D" and b.a[0] is mk("param", "f"): c = g.eng.content(n.st, x)
            if k is None or c is None: und.append("Display"); continue
            ps = [y for y in pieces(c) if y.k != "deref"]
            s = lit(ps[0]) if len(ps) == 1 else b"" if not ps else None
            if s is None: und.append("Display")
            elif s != m.get(k, s): v["display/%s" % m[k].decode()] = ("%s is displayed as %r" % (m[k].decode(), s.decode("latin1")), [])
        # size
        g, fs = finals(prog, "r_hash_output_bytes"); nodes += len(g.nodes)
        for n in fs:
            ret += 1
            if n.kind == "panic": v["output_bytes/panic"] = ("output_bytes can panic", []); continue
            z = evalt.num(n.val, {})
            if z is None: und.append("output_bytes")
            elif z != 32: v["output_bytes"] = ("a digest has %d bytes according to output_bytes, not 32" % z, [])
        return v, {"graph_nodes": nodes, "returns_checked": ret, "variants": {str(k): x.decode() for k, x in m.items()}}, "; ".join(sorted(set(und))) or None
    return ("hash type tables", f)

def fld(v, *p):
    for i in p: v = mk("fld", v, None, i)
    return v

def chosen(prog, facts, m):
    """the hash type the path has selected, from facts about a discriminant: {variant}"""
    return [v for t, v in facts.items() if t.k == "disc" and hash_term(prog, t.a[0]) and v in m]

def hash_term(prog, t):
    """is this the enum inside a HashType the caller supplied?"""
    if t.k != "fld": return False
    b = t.a[0]
    return b in HT
HT = set()
def setup(prog):
    HT.clear()
    ix = units.cfg_fields(prog)
    h = mk("param", "h")
    HT.update((h, fld(mk("deref", h), 1), fld(mk("deref", mk("param", "cfg")), ix["hash"])))

def dispatch(g, pid):
    """the algorithm of every digest, and the name in the header, are those of the selected hash type"""
    prog = g.eng.p
    m, _ = variants(prog); setup(prog)
    f = g.filtered(lambda e: e.kind == "hash" and e.name in ("new", "final") or e.kind == "sink" and e.name in ("write", "partial") and e.info != "err")
    def step(s, e):
        if e.kind == "hash":
            al = e.args[0].a[0]
            al = lit(al)
            cs = chosen(prog, e.facts or {}, m)
            if al is not None and cs and m[cs[0]] != al:
                return Viol("%s/%s" % (fn(e), m[cs[0]].decode()), "%s is used where the hash type is %s" % (al.decode("latin1"), m[cs[0]].decode()), e, s)
            return s
        if s is None: return None
        if e.name == "partial": return None
        for k, x in text.tokens(e.args[1]):
            if k == "b":
                if x == 10: return None
                if x == 32 and s.startswith(text.MAGIC) and len(s) > len(text.MAGIC):
                    nm = s[len(text.MAGIC):]
                    cs = chosen(prog, e.facts or {}, m)
                    if cs and nm != m[cs[0]]: return Viol("%s/header/%s" % (fn(e), m[cs[0]].decode()), "the header names %r for the hash type %s" % (nm.decode("latin1"), m[cs[0]].decode()), e, None)
                    return None
                s = s + bytes([x])
            else: return None
            if len(s) > 64: return None
        return s
    return f.run(b"", step)

def parsed_type(g, pid):
    """Ok results carrying a HashType literal: the name compared equal on that path must be its name"""
    prog = g.eng.p
    m, _ = variants(prog)
    v = {}; n = 0; und = None; acc = set(); tested = set()
    for nd in g.eng.nodes:
        if nd.kind != "return" or nd.st is None: continue
        es = eqs(nd.st)
        tested |= {b for a, b, z in es}
        if not text.is_ok(nd.val): continue
        n += 1
        ks = {variant(x) for x in find(nd.val, lambda z: z.k == "agg" and z.a[0].endswith("HashTypeEnum"))}
        acc |= {b for a, b, z in es if z}
        for k in ks:
            good = [(a, b) for a, b, z in es if z and b in NAMES]
            bad = [(a, b) for a, b, z in es if z and b not in NAMES and b"/" in b]
            if bad: v["parse/%s" % bad[0][1].decode("latin1")] = ("the header name %r is accepted" % bad[0][1].decode("latin1"), [])
            elif good and good[0][1] != m.get(k): v["parse/%s" % good[0][1].decode()] = ("a header naming %s gives the hash type %s" % (good[0][1].decode(), (m.get(k) or b"?").decode()), [])
            elif not good and {b for a, b, z in es if not z} >= set(NAMES): v["parse/other"] = ("a header naming none of the hash types is accepted as %s" % (m.get(k) or b"?").decode(), [])
            elif not good: und = "condition on the hash name in the header"
            elif find(good[0][0], lambda z: z.k == "p" and z.a[0] in ("lower", "upper", "trim")): v["parse/altered"] = ("a header hash name is accepted after %s" % show(good[0][0], 4)[:60], [])
    if n and not und and tested & set(NAMES):
        for nm in NAMES:
            if nm not in acc: v["parse/missing/%s" % nm.decode()] = ("a header naming %s is not accepted" % nm.decode(), [])
    return v, n, True, und

def parse_unit(ctx, root):
    prog = ctx.prog("thr")
    def f():
        graph.PROG[0] = prog
        g = units.analyse(prog, root, keep_final=True)
        o = parsed_type(g, "")
        return o[0], {"graph_nodes": len(g.nodes), "accepting_returns": o[1]}, o[3]
    return (root, f)

# ---------------------------------------------------------------- C23
SETTERS = {"r_config_hash": ("hash", "h"), "r_config_threads": ("threads", "n"), "r_config_queue_size": ("queue_size", "n"), "r_config_print_progress": ("print_progress", None),
           "r_config_auto_threads": ("threads", None), "r_config_add_dir": ("dirs", None)}

def setters(ctx, dump):
    prog = ctx.prog(dump)
    def f():
        graph.PROG[0] = prog
        v = {}; und = []; n = 0; ix = units.cfg_fields(prog)
        C = mk("param", "c"); P = mk("param", "n")
        for r, (field, arg) in SETTERS.items():
            nm = r[9:]
            g, fs = finals(prog, r)
            pushed = [e for e in g.events() if e.kind == "coll" and e.name in usage.PUSH]
            for nd in fs:
                n += 1
                if nd.kind == "panic": v["%s/panic" % nm] = ("%s can panic" % nm, []); continue
                c = None
                for b, x in nd.st.mem.items():
                    if b.k == "D" and b.a[0] is C: c = g.eng.content(nd.st, x)
                if c is None: c = mk("deref", C)
                for k, i in ix.items():
                    old = fld(mk("deref", C), i); new = proj(c, i)
                    if k != field:
                        if new is not old and k != "dirs": changed(v, und, nm, k, new)
                        elif k == "dirs" and new is not old and pushed: v["%s/dirs" % nm] = ("%s adds a directory" % nm, [])
                        continue
                    if k == "hash":
                        if new is old: v["%s/ignored" % nm] = ("the hash given is not stored", [])
                        elif new is not mk("param", "h"):
                            if variant(new) is not None: v["%s/value" % nm] = ("a fixed hash type is stored", [])
                            else: und.append(nm)
                    elif k == "print_progress":
                        z = evalt.num(new, {old: 0})
                        if z == 0: v["%s/ignored" % nm] = ("the progress flag is not set", [])
                        elif z is None: und.append(nm)
                        elif evalt.num(new, {old: 1}) == 0: v["%s/toggle" % nm] = ("a second call unsets the progress flag", [])
                    elif k in ("threads", "queue_size") and arg:
                        if new is old: v["%s/ignored" % nm] = ("the argument is not stored", []); continue
                        if k == "queue_size":
                            if new.k == "agg" and new.a[0].endswith("Option"):
                                if new.a[1] == 0: v["%s/value" % nm] = ("the queue size given is not stored", []); continue
                                new = new.a[2][0]
                            else: und.append(nm); continue
                        for z in (0, 1, 2, 3, 7, 8, 16, 64, 100, 1000, 4096, 65536, 1 << 20, 1 << 40):
                            env = {P: z}; w = evalt.num(new, env)
                            if any(evalt.holds(t, x, env) is False for t, x in nd.st.facts.items()): continue
                            if w is None: und.append(nm); break
                            if w != z and not (k == "threads" and max(w, z) <= 1): v["%s/value" % nm] = ("%s(%d) stores %d" % (nm, z, w), []); break
                    elif k == "threads" and nm == "auto_threads":
                        cpu = find(new, lambda y: y.k == "p" and "num_cpus" in y.a[0])
                        if dump == "thr" and new is old: v["auto_threads/ignored"] = ("the number of CPUs is not stored", [])
                        elif dump == "thr" and not cpu and evalt.num(new, {}) is not None: v["auto_threads/value"] = ("auto_threads stores %s" % show(new, 4), [])
                        elif dump == "seq" and new is not old: v["auto_threads/changed"] = ("auto_threads changes the setting in a build without threads", [])
            if field == "dirs":
                ok_ = False
                for e in pushed:
                    x = e.args[1]
                    if e.name != "push": und.append("add_dir order")
                    ok_ = True
                    if x.k == "agg" and len(x.a[2]) == 2:
                        a, b = x.a[2]
                        pa, pb = deref_param(a), deref_param(b)
                        if pa == "r" or pb == "p": v["add_dir/swapped"] = ("path and prefix are stored in the wrong places", [])
                        elif pa != "p" or pb != "r":
                            if a.k == "bytes" or b.k == "bytes" or pa and pa != "p" or pb and pb != "r": v["add_dir/value"] = ("add_dir stores %s" % show(x, 5)[:100], [])
                            else: und.append("add_dir")
                if not ok_ and not g.eng.unknown: v["add_dir/ignored"] = ("the directory is not stored", [])
                # every return path must have pushed
                if ok_:
                    h = g.filtered(lambda e: e in pushed)
                    o = h.run(0, lambda s, e: min(s + 1, 2), lambda s, k, val: Viol("add_dir/%d" % s, "add_dir stores the directory %s" % ("on some paths only" if not s else "twice"), None) if k == "return" and s != 1 else None)
                    v.update(o[0])
        # defaults
        g, fs = finals(prog, "r_config_new")
        m, _ = variants(prog)
        for nd in fs:
            n += 1
            if nd.kind == "panic": v["new/panic"] = ("new can panic", []); continue
            for k, i in ix.items():
                x = proj(g.eng.content(nd.st, nd.val) if nd.val is not None else nd.val, i)
                z = evalt.num(x, {})
                if k == "threads":
                    if z is None: (v.__setitem__("new/threads", ("the default number of threads is %s" % show(x, 4), [])) if find(x, lambda y: y.k == "p") else und.append("new"))
                    elif z > 1: v["new/threads"] = ("%d threads are used by default" % z, [])
                elif k == "block_size":
                    if z is None: und.append("new")
                    elif z != 32768: v["new/block_size"] = ("the default block size is %d" % z, [])
                elif k == "print_progress":
                    if z is None: und.append("new")
                    elif z: v["new/print_progress"] = ("progress is printed by default", [])
                elif k == "hash":
                    w = variant(x)
                    if w is None: und.append("new")
                    elif m.get(w) != b"sha512/256": v["new/hash"] = ("the default hash is %s" % (m.get(w) or b"?").decode(), [])
                elif k == "dirs":
                    if x.k == "coll" and x.a[2] is not I(0) or x.k == "vec" and x.a[0]: v["new/dirs"] = ("there are directories by default", [])
        return v, {"returns_checked": n, "setters": len(SETTERS)}, "; ".join(sorted(set(und))) or None
    return ("setters and defaults/" + dump, f)

def deref_param(t):
    ps = find(t, lambda z: z.k == "param")
    ps = {x.a[0] for x in ps}
    return ps.pop() if len(ps) == 1 else None

def changed(v, und, nm, k, new):
    if any(z.k == "param" for z in find(new, lambda z: z.k == "param" and z.a[0] != "c")) or new.k in ("int", "bool", "agg"):
        v["%s/%s" % (nm, k)] = ("%s also changes the setting %s (to %s)" % (nm, k, show(new, 4)[:80]), [])
    else: und.append("%s: %s" % (nm, k))

def proj(c, i):
    while c.k == "upd":
        for p, x in c.a[1]:
            if p == ("f", i): return x
        c = c.a[0]
    if c.k == "agg": return c.a[2][i]
    return fld(c, i)

def used(g, pid):
    """threads, block size, directories, queue size and progress flag of the configuration are the ones used"""
    prog = g.eng.p; ix = units.cfg_fields(prog)
    cfg = mk("deref", mk("param", "cfg"))
    TH, QS, BS, DIRS = (fld(cfg, ix[k]) for k in ("threads", "queue_size", "block_size", "dirs"))
    thr = g.opt_threads; prog_ = g.opt_progress
    out = {}; und = []
    evs = g.events()
    # --- progress
    se = [e for e in evs if e.kind == "stderr"]
    if prog_ == 0 and se: out["progress/unasked"] = ("text is printed to stderr although progress was not requested", [graph.describe(se[0])])
    if prog_ == 1 and not se and not g.eng.unknown: out["progress/none"] = ("no progress is ever printed although it was requested", [])
    # --- threads
    pools = [e for e in evs if e.kind == "thread" and e.name == "pool"]
    sp = [e for e in evs if e.kind == "thread" and e.name == "spawn"]
    if thr == 0 and (pools or sp): out["threads/unasked"] = ("background threads are started although at most one thread was asked for", [graph.describe((pools or sp)[0])])
    if thr == 1:
        for e in pools:
            x = e.args[0]
            if x is TH: continue
            for n in (2, 3, 4, 8, 16, 17, 64, 100):
                z = evalt.num(x, {TH: n})
                if z is None: und.append("pool size"); break
                if z != n: out["threads/pool"] = ("%d threads are started where %d are asked for" % (z, n), [graph.describe(e)]); break
    states = 0
    # --- directories; a background scan submits files to the pool
    isd = lambda t: t is DIRS
    cur = [e for e in evs if e.kind == "next" and e.args and isd(e.args[0])]
    def elem(t): return find(t, lambda z: z.k == "elem" and isd(z.a[0]))
    def s_rel(e): return any(elem(t) for t in (e.facts or {}))
    def prefix_other(facts):
        for t, v in facts.items():
            xs = t.a[1:] if t.k == "op" and t.a[0] == "Eq" else t.a[1] if t.k == "p" and t.a[0] == "patheq" else ()
            if v == 0 and any(isinstance(x, T) and x.k == "bytes" and x.a[0].strip(b"/") == b"" and x.a[0] for x in xs) and elem(t): return True
        return False
    curset = set(cur)
    f = g.filtered(lambda e: e in curset or e.kind == "fs" and e.name == "open_root" or e.kind == "br" and s_rel(e) or e.kind == "thread" and e.name == "pool")
    def step(s, e):
        pend, done, pool = s
        if e.kind == "thread": return (pend, done, 1)
        if e.kind == "next":
            if e.info == "some":
                if pend: return Viol(*PEND[pend], ev=e, state=(1, 0, pool))
                return (1, 0, pool)
            if pend: return Viol(*PEND[pend], ev=e, state=(0, 1, pool))
            return (0, 1, pool)
        if e.kind == "br":
            if pend == 1 and prefix_other(e.facts): return (2, done, pool)
            return s
        if e.kind == "fs":
            x = e.args[0]
            ok_ = find(x, lambda z: z.k == "elem" and isd(z.a[0]))
            if x.k == "bytes": return Viol("dirs/fixed", "the fixed path %r is scanned" % x.a[0], e, (0, done, pool))
            if ok_ and x.k == "fld" and x.a[2] == 1: return Viol("dirs/prefix-opened", "the prefix is opened instead of the path", e, (0, done, pool))
            return (0, done, pool)
        return s
    PEND = {1: ("dirs/unopened", "a configured directory is not opened"), 2: ("dirs/prefix", "a directory configured with a prefix other than / is ignored without an error")}
    def end(s, kind, val):
        if kind == "return" and text.is_ok(val):
            if cur and not s[1]: return Viol("dirs/some", "scanning ends before all configured directories were considered")
            if thr == 1 and pools and not s[2] or thr == 1 and not pools and not g.eng.unknown: return Viol("threads/none", "scanning succeeds without background threads although more than one thread was asked for")
    o = f.run((0, 0, 0), step, end)
    out.update(o[0]); states += o[1]
    if not cur: und.append("iteration over the configured directories")
    # --- block size: header and reads
    default = 32768
    def is_bs(t): return t is BS or evalt.num(t, {BS: default}) == default and evalt.num(t, {BS: 1000}) in (1000, default)
    for e in evs:
        if e.kind == "sink" and e.name == "write":
            ps = pieces(e.args[1])
            for a, b in zip(ps, ps[1:]):
                if a.k == "bytes" and a.a[0].endswith(b"block_size=") and b.k == "p" and b.a[0] == "dec":
                    x = b.a[1][0]
                    z = evalt.num(x, {BS: default})
                    if z is not None and z != default or z is None and find(x, lambda y: y is TH): out["block_size/header"] = ("the header gives the block size %s" % show(x, 4), [graph.describe(e)])
                    elif z is None: und.append("block size in the header")
        if e.kind == "fs" and e.name in ("read", "read_exact"):
            for c in find(e.args[-1], lambda y: y.k == "chunk") if e.args else ():
                lim = c.a[2]
                z = evalt.num(lim, {BS: default}) if isinstance(lim, T) else None
                if z is not None and z > default: out["block_size/read"] = ("blocks of %d bytes are read where the block size is %d" % (z, default), [graph.describe(e)])
    # --- queue limit
    if thr == 1:
        u = usage.Use(g); lims = set()
        for e in evs:
            if e.kind == "coll" and (e.info[0] if isinstance(e.info, tuple) else e.info) in u.qs and e.name in usage.PUSH and e.args[2].k == "coll":
                phs = [x for x in subterms(e.args[2].a[2]) if x.k == "phi"]
                for t in e.facts:
                    if any(x in phs for x in subterms(t)): lims |= {x for x in subterms(t) if x not in phs and x.k in ("phi", "fld", "deref", "param")}
        src = set(); todo = list(lims); seen = set()
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if x.k == "phi": todo += [y for y in g.eng.phi_in.get(x, ()) if isinstance(y, T)]
            else: src.add(x)
        some = [x for x in src if find(x, lambda z: z is QS)]
        if src and not some: out["queue_size/ignored"] = ("the queue size setting does not reach the queue limit (it is %s)" % ", ".join(sorted(show(x, 4)[:60] for x in src)), [])
        for x in some:
            at = find(x, lambda y: y.k == "fld" and y is not QS and find(y, lambda w: w is QS))
            for n, th in ((0, 2), (1, 2), (5, 2), (100, 8), (4096, 16), (16, 64)):
                z = evalt.num(x, {TH: th, **{y: n for y in at}})
                if z is None: und.append("queue limit"); break
                if z != n: out["queue_size/value"] = ("a queue size of %d gives the limit %d with %d threads" % (n, z, th), []); break
        if not src: und.append("queue limit")
    return out, states, o[2], "; ".join(sorted(set(und))) or None
