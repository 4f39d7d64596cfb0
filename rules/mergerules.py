"""C21: merging several indexes, decided per source and per loop round."""
from terms import *
import core, graph, units, evalt, effects
from graph import Viol
import parserules as pr
from parserules import find

NEXT = "<dir_signature::v1::EntryIterator<'a, R> as std::iter::Iterator>::next"
ADV = "dir_signature::v1::EntryIterator::advance"
CMP = "<dir_signature::v1::EntryKind<P> as std::cmp::Ord>::cmp"

def source_call(models, eng, st, c):
    """next and advance of a source: what happens inside it is judged elsewhere (C18), here only whose answer it is"""
    ev = models.ev(eng, st, c, "ext", models.norm(c.path), c.args, info=(models.norm(c.callee.get("rpath") or c.path), ""))
    v = models.fresh(eng, st, c, c.name, *c.args); ev.res = v
    return eng.finish(st, c, v, [ev])
STOP = {NEXT: source_call, ADV: source_call, CMP: None}

def extname(e): return str(e.info[0]) if isinstance(e.info, tuple) and e.info else ""
def isnext(e): return e.kind == "ext" and extname(e) == NEXT
def isadv(e): return e.kind == "ext" and (extname(e) == ADV or e.name == ADV)
def iscmp(e): return e.kind == "ext" and "EntryKind" in extname(e) and e.name.endswith("::cmp")

class Shape:
    """where the sources, a source's key, head and rest are"""
    def __init__(self, prog):
        self.mi = pr.struct(prog, "MergedEntriesIterator"); self.pk = pr.struct(prog, "PeekableEntryIterator")
        self.ok = "iterators" in self.mi and "head" in self.pk and "tail" in self.pk
        if not self.ok: return
        self.f = self.mi["iterators"]; self.head = self.pk["head"]; self.tail = self.pk["tail"]
        self.vec = fld(mk("deref", mk("param", "m")), self.f)
    def isvec(self, x):
        while x.k == "upd": x = x.a[0]
        if x is self.vec: return True
        return x.k == "phi" and x.a[1] is mk("D", mk("param", "m")) and x.a[2] == (("f", self.f),)
    def elem(self, t):
        """the index if t is one of the sources"""
        while t.k == "upd": t = t.a[0]
        return t.a[1] if t.k == "elem" and self.isvec(t.a[0]) else None
    def part(self, t, *path):
        for i in reversed(path):
            if t.k != "fld" or t.a[1] is not None or t.a[2] != i: return None
            t = t.a[0]
        return self.elem(t)
    def ishead(self, t): return self.part(t, 1, self.head)
    def istail(self, t): return self.part(t, 1, self.tail)
    def iskey(self, t): return self.part(t, 0)

def fld(v, *p):
    for i in p: v = mk("fld", v, None, i)
    return v
def payload(t): return mk("fld", t, 1, 0)

def counter(eng, a, b):
    """are a and b counters of the same loop that always have the same value?"""
    if a is b: return True
    if a.k != "phi" or b.k != "phi" or a.a[0] is not b.a[0]: return False
    def norm(p):
        s = eng.phi_in.get(p, ()); out = set()
        for x in s:
            if x.k == "int": out.add(x.a[0])
            elif x is p: pass
            elif x.k == "op" and x.a[0] == "Add" and x.a[1] is p and x.a[2] is I(1): out.add("+1")
            else: return None
        return out
    x, y = norm(a), norm(b)
    return x is not None and y is not None and "+1" in x and x == y

def sources(eng, t, seen=None):
    """the values an element taken from a list can be"""
    seen = set() if seen is None else seen
    if t in seen: return set()
    seen.add(t)
    if t.k == "wk": return sources(eng, unwk(t), seen)
    if t.k == "el":
        out = set()
        for s in eng.el_src.get(t, ()): out |= sources(eng, s, seen)
        return out
    return {t}

def unwk(t): return mk(*t.a) if t.k == "wk" else t

def listed(g, e):
    """the index of a bound check was taken from a list to which only positions of an enumeration were added"""
    c = e.args[0] if e.args else None
    if c is None or c.k != "op" or c.a[0] != "Lt": return False
    for s in sources(g.eng, c.a[1]):
        if s.k == "int" and s.a[0] < 4: continue            # first rounds of the same loop
        if s.k == "phi" and s in g.eng.phi_in and all(x.k == "int" or x is s or (x.k == "op" and x.a[0] == "Add" and x.a[1] is s and x.a[2] is I(1)) for x in g.eng.phi_in[s]): continue
        return False
    return True

class Facts:
    def __init__(self, fs):
        self.d = {}
        for t, v in fs: self.d.setdefault(t, set()).add(v)
    def disc(self, x):
        """values disc(x) can have: a predicate"""
        t = mk("disc", x); eq = [v for v in self.d.get(t, ()) if isinstance(v, int)]; ne = set()
        for v in self.d.get(mk("ne", t), ()): ne |= set(v)
        return lambda y: (not eq or y in eq) and y not in ne
    def known(self, t):
        v = [x for x in self.d.get(t, ()) if isinstance(x, int)]
        return v[0] if v else None

def relevant(t):
    u = t.a[0] if t.k == "ne" else t
    return any(x.k in ("elem", "res") for x in effects.walk(u)) or u.k in ("op", "phi", "len")
def grow(fs, e):
    if not e.facts: return fs
    return fs | frozenset((t, v) for t, v in e.facts.items() if relevant(t))

# ------------------------------------------------------------------ collecting and taking
def worlds(sh, eng, F, idx, nxt, cmps, minpre, kindof):
    """possible (head, comparison) under the facts: head in none/err/ok; comparison in None,-1,0,1"""
    heads = set()
    for t in list(F.d):
        u = t.a[0] if t.k == "ne" else t
        if u.k == "disc":
            for x in effects.walk(u):
                i = sh.ishead(x) if x.k == "fld" else None
                if i is not None and counter(eng, i, idx): heads.add(x)
    cur = [nxt] if nxt is not None else sorted(heads, key=lambda x: x.id)
    def may(p): return all(p(h) for h in cur)
    out = []
    if may(lambda h: F.disc(h)(0)): out.append(("none", None))
    if may(lambda h: F.disc(h)(1) and F.disc(payload(h))(1)): out.append(("err", None))
    if may(lambda h: F.disc(h)(1) and F.disc(payload(h))(0)):
        if not minpre: out.append(("ok", None))
        else:
            for c in (-1, 0, 1):
                if all(F.disc(r)({-1: 255, 0: 0, 1: 1}[c * s]) for r, s in cmps): out.append(("ok", c))
    return out, cur

def slot(eng, sh, mem, idx):
    """what the head slot of source idx holds"""
    v = eng.load(core.St(dict(mem), {}), mk("D", mk("param", "m")), (("f", sh.f),))
    return eng.project(eng.project(eng.project(v, ("el", idx)), ("f", 1)), ("f", sh.head))

def isnone(v): return v.k == "agg" and v.a[0].endswith("Option") and v.a[1] == 0
def keeps(v, nxt, sh, idx, eng):
    """the slot still holds the entry read (nxt) or, without a read, what it held"""
    if v.k == "agg" and v.a[0].endswith("Option") and v.a[1] == 1: v2 = v.a[2][0]; return v2 is (payload(nxt) if nxt is not None else None) or (nxt is None and v2.k == "fld" and v2.a[1] == 1 and sh.ishead(v2.a[0]) is not None)
    if nxt is not None: return v is nxt
    i = sh.ishead(v)
    return i is not None

def next_rule(prog, root="r_merge_next"):
    g = units.analyse(prog, root, stop=STOP, keep_final=True, elemupd=True)
    sh = Shape(prog); eng = g.eng; und = set(); v = {}
    if not sh.ok: return {}, 0, True, "fields of the merging iterator", g
    res = {e.res: e for e in g.events() if e.kind == "ext" and getattr(e, "res", None) is not None}
    # lists of indexes: pushed values are not tuples; results: tuples (key, entry)
    pushes = [e for e in g.events() if e.kind == "coll" and e.name == "push" and e.args]
    istup = lambda t: t.k == "agg" and len(t.a[2]) == 2
    lists = {e.args[0] for e in pushes if not istup(e.args[1])}; results = {e.args[0] for e in pushes if istup(e.args[1])}
    loops = {}
    for e in g.events():
        if e.kind == "loop": loops.setdefault(e.info[0], []).append(e)
    if len(lists) != 1 or len(results) != 1: return {}, len(g.nodes), True, "how heads are selected (%d lists, %d results)" % (len(lists), len(results)), g
    lst = next(iter(lists))
    # index of the loop that collects, and variable with the smallest kind
    ixs = set(); mins = set()
    for e in g.events():
        if iscmp(e):
            a, b = e.args[:2]
            for x, y, s in ((a, b, 1), (b, a, -1)):
                hs = [i for z in effects.walk(x) if z.k == "fld" for i in [sh.ishead(z)] if i is not None] + [sh.istail(w) for z in effects.walk(x) if z in res for w in res[z].args[:1] if sh.istail(w) is not None]
                ps = [z for z in effects.walk(y) if z.k == "phi" and not sh.isvec(z) and z.a[1].k == "L"]
                if hs and ps and not [z for z in effects.walk(y) if z.k == "elem"]: ixs |= set(hs); mins |= {(p.a[0], p.a[1]) for p in ps}
    ixs = {i for i in ixs if i.k == "phi"}
    if len(mins) != 1 or not ixs: return {}, len(g.nodes), True, "how the smallest head is kept", g
    hdr, mbase = next(iter(mins)); idx = sorted(ixs, key=lambda x: x.id)[0]
    if idx.a[0] is not hdr: return {}, len(g.nodes), True, "loop of the smallest head", g
    def minof(mem):
        x = eng.load(core.St(dict(mem), {}), mbase, ())
        return x
    def mstate(x):
        if isnone(x): return "none"
        x = eng.content(core.St({}, {}), x)
        if any(z.k == "elem" or z in res for z in effects.walk(x)): return "this"
        if any(z.k == "phi" and z.a[1] is mbase for z in effects.walk(x)): return "same"
        return "?"
    f = g.filtered(lambda e: e.kind in ("loop", "br", "ext", "coll", "next") or e.kind == "hint")
    NAMES = {("none", None): "has no entry left", ("err", None): "reported an error", ("ok", None): "is the first with an entry", ("ok", -1): "is smaller than the smallest so far", ("ok", 0): "equals the smallest so far", ("ok", 1): "is greater than the smallest so far"}
    # state: (phase, minpre?, facts, ops, nxt, cmps, last loop event index, element taken)
    at = {}
    def partial(mem):
        """an adapter that leaves out elements of the list"""
        m = dict(mem); cont = eng.content(core.St(m, {}), eng.load(core.St(m, {}), lst.a[0], lst.a[1])) if lst.k == "loc" else None
        for t in m.values():
            if not isinstance(t, T) or t.k != "agg" or not t.a[0].startswith("std::iter::"): continue
            nm = t.a[0].split("::")[-1]; its = [z for z in effects.walk(t) if z.k == "it"]
            if nm in ("Skip", "Take", "StepBy") and any(z.a[1] is cont for z in its) and not (nm == "Skip" and t.a[2][-1] is I(0)): return nm.lower()
        return None
    def empty(facts):
        """the path has found the result to be empty"""
        for t, v in facts:
            for z in effects.walk(t):
                if z.k == "phi" and z.a[2] == (("sz",),) and any(r.k == "loc" and r.a[0] is z.a[1] and not r.a[1] for r in results):
                    if t is z and v == 0 or t.k == "op" and t.a[0] == "Eq" and I(0) in t.a[1:] and v == 1: return True
                    if t.k == "op" and (t.a[0], t.a[1], t.a[2]) in (("Lt", I(0), z), ("Le", I(1), z)) and v == 0: return True
                    if t.k == "op" and (t.a[0], t.a[1], t.a[2]) in (("Lt", z, I(1)), ("Le", z, I(0))) and v == 1: return True
        return False
    def sized(facts):
        """a test on the path looks at how many sources are recorded"""
        def nonempty(t, z): return t is z or t.k == "ne" and t.a[0] is z or t.k == "op" and t.a[0] in ("Eq", "Le", "Lt") and z in t.a[1:] and any(x in (I(0), I(1)) for x in t.a[1:])
        return any(z.k == "phi" and z.a[2] and z.a[2][-1] in (("sz",), ("len",)) and lst.k == "loc" and z.a[1] is lst.a[0] and not nonempty(t, z) for t, v in facts for z in effects.walk(t))
    def judge_collect(s, mem, e):
        phase, minpre, facts, ops, nxt, cmps, _ = s
        F = Facts(facts); ws, heads = worlds(sh, eng, F, idx, nxt, cmps, minpre, None)
        post = mstate(minof(mem))
        for w in ws:
            if not heads and nxt is None: return ("unseen", "the entry of a source is not looked at before the next source", e)
            k = ops; what = NAMES[w]
            if "?" in k or "drop" in k and sized(facts): und.add("what is added to the list of sources"); return None
            if w[0] == "none": good = not [x for x in k if x != "clear"] and ("clear" not in k); want = "nothing is to be recorded"
            elif w[0] == "err": good = k == ("push",); want = "its error is to be recorded"
            elif w[1] is None: good = k in (("push",), ("clear", "push")) and post in ("this", "?"); want = "it is to be recorded as the smallest"
            elif w[1] == -1: good = k[-1:] == ("push",) and k.count("push") == 1 and "clear" in k and post in ("this", "?"); want = "it is to replace what was recorded"
            elif w[1] == 0: good = k == ("push",) and post in ("this", "same", "?"); want = "it is to be recorded too"
            else: good = not k and post in ("same", "?"); want = "nothing is to be recorded"
            if minpre and w in (("none", None), ("err", None)) and post not in ("same", "?"): good = False
            if not minpre and w in (("none", None), ("err", None)) and post != "none": good = False
            if post == "?": und.add("smallest kind")
            if not good: return ("select/%s/%s" % (w[0], w[1]), "a source that %s: %s, but the path does %s%s" % (what, want, " and ".join({"push": "add it", "clear": "clear the list", "bad": "add another index", "drop": "remove one source"}[x] for x in k) or "nothing",
                                 {"this": " and makes it the smallest", "same": "", "none": "", "?": ""}[post]), e)
            sv = slot(eng, sh, mem, idx)
            if w[0] != "none" and not keeps(sv, nxt, sh, idx, eng) and (isnone(sv) or sh.ishead(sv) is not None): return ("head/%s" % w[0], "the entry read from a source that %s is not kept for the next step" % what, e)
        return None
    def judge_take(s, mem, e):
        phase, minpre, facts, ops, nxt, el, _ = s
        if el is None:
            if ops or nxt is not None: und.add("which recorded source is taken")
            return None
        F = Facts(facts)
        ws, heads = worlds(sh, eng, F, el, nxt, (), False, None)
        if not heads and nxt is None: return ("take/unseen", "a recorded source is skipped", e)
        if "?" in ops: und.add("what is yielded"); return None
        for w in ws:
            if w[0] == "none":
                if ops: return ("take/none", "something is yielded for a source without an entry", e)
                continue
            if ops != ("yield",): return ("take/count", "a recorded entry is %s" % ("not yielded" if not ops else "yielded %d times" % len(ops)), e)
            sv = slot(eng, sh, mem, el)
            if not isnone(sv):
                if keeps(sv, nxt, sh, el, eng): return ("take/kept", "a yielded entry stays pending and is yielded again", e)
                und.add("head after it was yielded")
        return None
    def step(s, e):
        phase, minpre, facts, ops, nxt, x, _ = s
        if e.kind == "loop":
            hk, mem = e.info
            if hk is hdr:
                bad = None
                if phase == "collect": bad = judge_collect(s, mem, e)
                elif phase == "start":
                    c = eng.content(core.St(dict(mem), {}), eng.load(core.St(dict(mem), {}), lst.a[0], lst.a[1])) if lst.k == "loc" else None
                    if c is not None and c.k == "coll" and (c.a[1] or c.a[2] is not I(0)): bad = ("stale", "indexes of an earlier step are still in the list", e)
                    elif c is not None and c.k != "coll" and "clear" not in ops: bad = ("stale", "indexes of an earlier step are not removed from the list", e)
                elif phase == "take": und.add("loop order")
                n = ("collect", not isnone(minof(mem)), frozenset(), (), None, (), None)
                return Viol(bad[0], bad[1], bad[2], n) if bad else n
            if phase == "collect":
                n = ("take", None, frozenset(), (), None, None, False)
                F = Facts(facts); more = [t for t in F.d if t.k == "op" and t.a[0] == "Lt" and F.known(t) == 1 and counter(eng, t.a[1], idx)]
                part = partial(mem)
                if part: return Viol("partial", "only part of the recorded sources is gone through (%s)" % part, e, n)
                if ops or nxt is not None or more: return Viol("early", "the selection ends before all sources were looked at", e, n)
                return n
            if phase == "take":
                bad = judge_take(s, mem, e)
                n = ("take", None, frozenset(), (), None, None, s[6] or "yield" in ops)
                return Viol(bad[0], bad[1], bad[2], n) if bad else n
            return s
        fs = grow(facts, e)
        if isnext(e):
            i = sh.istail(e.args[0]) if e.args else None
            if i is None: und.add("which source is read"); return (phase, minpre, fs, ops, e.res, x, s[6])
            F = Facts(fs); hs = [z for t in F.d for z in effects.walk(t) if z.k == "fld" and sh.ishead(z) is not None and counter(eng, sh.ishead(z), i)]
            n = (phase, minpre, fs, ops, e.res, x, s[6]); at[e.res, x if phase == "take" else None] = i
            if nxt is not None: return Viol("reread", "two entries are read from a source and one of them is lost", e, n)
            if not hs or any(F.disc(h)(1) for h in hs): return Viol("overwrite", "the next entry of a source is read while one may still be pending, which is lost", e, n)
            return n
        if iscmp(e) and phase == "collect":
            a, b = e.args[:2]
            ha = any(z.k == "elem" or z in res for z in effects.walk(a)); hb = any(z.k == "elem" or z in res for z in effects.walk(b))
            sgn = 1 if ha and not hb else -1 if hb and not ha else None
            if sgn is None: und.add("comparison of heads"); return (phase, minpre, fs, ops, nxt, x, s[6])
            return (phase, minpre, fs, ops, nxt, x + ((e.res, sgn),), s[6])
        if e.kind == "coll" and e.name in ("push", "clear", "insert", "truncate", "pop", "remove") and e.args:
            if e.args[0] is lst:
                if e.name == "clear": op = "clear"
                elif e.name == "push": op = "push" if phase == "collect" and counter(eng, e.args[1], idx) else "bad"
                elif e.name == "truncate" and len(e.args) > 1 and e.args[1] is I(0): op = "clear"
                elif e.name == "pop" and isinstance(e.info, tuple) and e.info[-1] == "none": op = "clear"
                elif e.name in ("pop", "remove"): op = "drop"
                else: op = "?"
                return (phase, minpre, fs, (ops + (op,))[-6:], nxt, x, s[6])
            if e.args[0] in results:
                if e.name != "push": return (phase, minpre, fs, ops + ("?",), nxt, x, s[6])
                k, val = e.args[1].a[2]; ki = sh.iskey(k); n = (phase, minpre, fs, ops + ("yield",), nxt, x, s[6])
                src = val.a[0] if val.k == "fld" and val.a[1] == 1 else None
                vi = None if src is None else sh.ishead(src) if sh.ishead(src) is not None else at.get((src, x)) if src is nxt and nxt is not None else None
                if ki is None or vi is None: und.add("what is yielded"); return n
                if not (ki is vi): return Viol("key", "an entry is yielded under the key of another source (%s instead of %s)" % (show(ki, 4)[:40], show(vi, 4)[:40]), e, n)
                if phase == "take" and x is not None and x is not ki: return Viol("other", "the entry yielded is not that of the recorded source", e, n)
                return n
        if e.kind == "next" and e.name == "coll" and phase == "take":
            if e.info == "some":
                cs = sources(eng, e.args[1]) if len(e.args) > 1 else set()
                return (phase, minpre, frozenset(), (), None, e.args[1], s[6])
            return (phase, minpre, frozenset(), (), None, None, s[6] or "yield" in ops)
        return (phase, minpre, fs, ops, nxt, x, s[6])
    def end(s, kind, val):
        if kind != "return" or val is None: return None
        phase, _, facts, ops, nxt, x, any_ = s
        if phase == "collect": return Viol("early", "a step ends before all sources were looked at", None)
        if phase != "take": return None
        if x is not None: return Viol("rest", "a step ends before all recorded entries were yielded", None)
        if val.k == "agg" and val.a[0].endswith("Option"):
            if val.a[1] == 0 and any_ and not empty(facts): return Viol("dropped", "the end is reported although entries were taken", None)
            if val.a[1] == 1 and not any_:
                return Viol("empty", "an empty group is yielded instead of the end", None) if val.a[2][0].k == "coll" and not val.a[2][0].a[1] else None
            if val.a[1] == 1 and val.a[2][0].k == "coll" and not val.a[2][0].a[1]: return Viol("dropped", "the entries taken are not in the result", None)
        else: und.add("result")
        return None
    v, n, ok = f.run(("start", None, frozenset(), (), None, None, None), step, end)
    return v, n, ok, "; ".join(sorted(und)) or None, g

def advance_rule(prog, root="r_merge_advance"):
    """every source's answer to advance: what it returns is its head or its iterator's answer, and the head is kept or given accordingly"""
    g = units.analyse(prog, root, stop=STOP, keep_final=True, elemupd=True)
    sh = Shape(prog); eng = g.eng; und = set(); at = {}
    if not sh.ok: return {}, 0, True, "fields of the merging iterator", g
    key = mk("param", "k")
    f = g.filtered(lambda e: e.kind in ("loop", "br", "ext", "coll", "next"))
    adv = {e.res: e for e in g.events() if isadv(e)}
    idxs = {i for e in g.events() if e.kind in ("ext",) and e.args for i in [sh.istail(e.args[0])] if i is not None and i.k == "phi"}
    if len(idxs) != 1: return {}, len(g.nodes), True, "the loop over the sources", g
    idx = next(iter(idxs)); hdr = idx.a[0]
    def keyside(t): return any(z is key for z in effects.walk(t))
    def more(facts): return [v for t, v in facts if t.k == "op" and t.a[0] == "Lt" and counter(eng, t.a[1], idx)]
    def judge(s, mem, e):
        phase, facts, ops, nxt, cmps, ad = s
        F = Facts(facts); ws, heads = worlds(sh, eng, F, idx, nxt, cmps, True, None)
        if not heads and nxt is None: return ("unseen", "a source is not looked at")
        sv = slot(eng, sh, mem, idx)
        kept = keeps(sv, nxt, sh, idx, eng); gone = isnone(sv)
        if not kept and not gone: und.add("what stays pending")
        for h, c in ws:
            if h == "none":
                if ops: return ("none", "something is returned for a source without an entry")
                continue
            if h == "err":
                if ops != ("head",): return ("error", "a pending error is not returned")
                if kept: return ("again", "a returned error stays pending")
            elif c == 0:
                if ops != ("head",): return ("equal", "an entry equal to the key is not returned")
                if kept: return ("again", "a returned entry stays pending")
            elif c == 1:
                if ops: return ("greater", "an entry greater than the key is returned")
                if gone: return ("lost", "an entry greater than the key is thrown away")
            else:
                if ad is None: return ("smaller", "a source whose pending entry is smaller than the key is not advanced")
                d = F.disc(ad)
                if d(1) and ops != ("adv",): return ("answer", "the entry a source was advanced to is not returned")
                if d(0) and "adv" in ops and not d(1): return ("answer", "something is returned when nothing was found")
                if "head" in ops: return ("smaller", "an entry smaller than the key is returned")
                if kept: return ("order", "an entry smaller than the key stays pending behind the position of its source")
            if ad is not None and not (h == "ok" and c == -1): return ("skipped", "a source is advanced although its pending entry is not smaller than the key")
        return None
    def step(s, e):
        phase, facts, ops, nxt, cmps, ad = s
        if e.kind == "loop":
            hk, mem = e.info
            if hk is not hdr: return s
            n = ("loop", frozenset(), (), None, (), None)
            if phase != "loop": return n
            b = judge(s, mem, e)
            return Viol(b[0], b[1], e, n) if b else n
        fs = grow(facts, e)
        if isnext(e):
            i = sh.istail(e.args[0]) if e.args else None; n = (phase, fs, ops, e.res, cmps, ad); at[e.res] = i
            if i is None: und.add("which source is read"); return n
            if nxt is not None: return Viol("reread", "two entries are read from a source and one of them is lost", e, n)
            F = Facts(fs); hs = [z for t in F.d for z in effects.walk(t) if z.k == "fld" and sh.ishead(z) is not None and counter(eng, sh.ishead(z), i)]
            if not hs or any(F.disc(h)(1) for h in hs): return Viol("overwrite", "the next entry of a source is read while one may still be pending, which is lost", e, n)
            return n
        if isadv(e):
            i = sh.istail(e.args[0]) if e.args else None
            at[e.res] = i; n = (phase, fs, ops, nxt, cmps, e.res)
            if i is None: und.add("which source is advanced"); return n
            if len(e.args) > 1 and not keyside(e.args[1]): return Viol("key", "a source is advanced to something other than the key", e, n)
            return n
        if iscmp(e):
            a, b = e.args[:2]; sgn = 1 if keyside(b) and not keyside(a) else -1 if keyside(a) and not keyside(b) else None
            if sgn is None: und.add("comparison"); return (phase, fs, ops, nxt, cmps, ad)
            return (phase, fs, ops, nxt, cmps + ((e.res, sgn),), ad)
        if e.kind == "coll" and e.name == "push" and len(e.args) > 1:
            t = e.args[1]
            if not (t.k == "agg" and len(t.a[2]) == 2): return (phase, fs, ops, nxt, cmps, ad)
            k, v = t.a[2]; src = v.a[0] if v.k == "fld" and v.a[1] == 1 else None
            op = "head" if src is not None and (src is nxt or sh.ishead(src) is not None) else "adv" if src is not None and src is ad else "?"
            if op == "?": und.add("what is returned")
            n = (phase, fs, (ops + (op,))[-3:], nxt, cmps, ad)
            ki = sh.iskey(k)
            if ki is None: und.add("key"); return n
            vi = at.get(src) if src in at else sh.ishead(src) if src is not None else None
            if vi is not None and not counter(eng, ki, vi): return Viol("source", "an entry is returned under the key of another source", e, n)
            return n
        return (phase, fs, ops, nxt, cmps, ad)
    def end(s, kind, val):
        if kind != "return": return None
        phase, facts, ops, nxt, cmps, ad = s
        if phase == "loop" and (ops or nxt is not None or ad is not None or 1 in more(facts)): return Viol("early", "the call ends before all sources were advanced", None)
        return None
    v, n, ok = f.run(("start", frozenset(), (), None, (), None), step, end)
    return v, n, ok, "; ".join(sorted(und)) or None, g

def fieldof(eng, t, path, depth=0, seen=None):
    """does the value come from this field (of a source)?"""
    seen = set() if seen is None else seen
    work = [t]
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x)
        for z in effects.walk(x):
            y = z
            for i in reversed(path):
                if y.k == "fld" and y.a[1] is None and y.a[2] == i: y = y.a[0]
                else: y = None; break
            if y is not None: return True
            if z.k in ("phi", "el"): work += [w for w in (eng.phi_in.get(z) or eng.el_src.get(z) or ()) if isinstance(w, T)]
    return False

def new_rule(prog, root="r_merge_new"):
    """sources are accepted together only if all of them have been compared to have the same hash type and block size"""
    g = units.analyse(prog, root, keep_final=True); eng = g.eng; und = set()
    px, hx = pr.struct(prog, "Parser"), pr.struct(prog, "Header")
    if "header" not in px or "hash_type" not in hx or "block_size" not in hx: return {}, 0, True, "fields of the header", g
    F = {"hash type": (px["header"], hx["hash_type"]), "block size": (px["header"], hx["block_size"])}
    memo = {}
    def which(t):
        if t not in memo: memo[t] = next((n for n, p in F.items() if fieldof(eng, t, p)), None)
        return memo[t]
    f = g.filtered(lambda e: e.kind in ("br", "next"))
    def eqs(e):
        out = set()
        for t, v in e.facts.items():
            if t.k == "op" and t.a[0] == "Eq" and isinstance(v, int):
                a, b = (x.a[0] if x.k == "disc" else x for x in t.a[1:3])
                n = which(a)
                if n and which(b) == n: out.add((n, v, t))
        return out
    compared = set()
    def counts(t):
        """the terms that are numbers of sources, None if there is something else in t"""
        if t.k == "int": return set()
        if t.k == "phi" and t.a[2][-1:] == (("sz",),): return {t}
        if t.k == "len": return {t}
        if t.k == "op": 
            out = set()
            for x in t.a[1:]:
                c = counts(x) if isinstance(x, T) else None
                if c is None: return None
                out |= c
            return out
        return None
    def several(s):
        """a number of sources from 2 on that the tests of numbers on the path allow"""
        for k in range(2, 40):
            if all(evalt.holds(t, v, {c: k for c in counts(t)}) is True for t, v in s[3]): return k
        return None
    # state: (fields whose iteration came to its end, fields found different, {field: (elements seen (2 = more), current one compared)})
    def step(s, e):
        done, diff, cur, lens = s
        d = dict(cur)
        if e.kind == "br": lens = lens | frozenset((t, v) for t, v in e.facts.items() if isinstance(v, int) and t.k == "op" and t.a[0] in ("Lt", "Le", "Eq") and counts(t))
        for n, v, t in eqs(e):
            compared.add(n)
            if v == 0: diff = diff | {n}
            if n in d: d[n] = (d[n][0], True)
        if e.kind == "next" and e.name in ("coll", "idx", "map", "any"):
            n = which(e.args[1]) if e.info == "some" and len(e.args) > 1 else which(e.args[0]) if e.args else None
            tup = n and e.args and e.args[0].k == "coll" and any(x.k == "agg" for x in e.args[0].a[1])
            if n and not tup:
                k, ok = d.get(n, (0, True))
                if e.info == "some":
                    d[n] = (min(k + 1, 2), k == 0); 
                    if k and not ok: return Viol("skipped/" + n, "a source's %s is not compared" % n, e, (done, diff, frozenset(d.items()), lens))
                else:
                    if k and not ok: return Viol("skipped/" + n, "a source's %s is not compared" % n, e, (done, diff, frozenset(d.items()), lens))
                    done = done | {n}
        return (done, diff, frozenset(d.items()), lens)
    def end(s, kind, val):
        if kind != "return" or val is None or val.k != "agg" or not val.a[0].endswith("Result"): return None
        done, diff, cur, lens = s
        if val.a[1] == 0:
            if diff: return Viol("accepted/" + sorted(diff)[0], "sources with different %ss are merged" % sorted(diff)[0], None)
            for n in F:
                if n not in done:
                    if n in compared:
                        k = several(s)
                        if k: return Viol("unchecked/" + n, "%d sources can be merged without comparing their %ss" % (k, n), None)
                        und.add("extent of the comparison of %ss" % n)
                    elif not any(n == which(x) for e in g.events() if e.kind == "br" for t in e.facts for x in effects.walk(t) if x.k in ("fld", "el", "phi")): return Viol("unchecked/" + n, "sources are merged without comparing their %ss" % n, None)
                    else: und.add("comparison of %ss" % n)
        return None
    v, n, ok = f.run((frozenset(), frozenset(), frozenset(), frozenset()), step, end)
    return v, n, ok, "; ".join(sorted(und)) or None, g
