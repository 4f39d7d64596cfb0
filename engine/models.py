"""What the analysis knows about functions that are not part of the crate.

Every external function called by the analysed code is given a transfer
function here; calls that do I/O or fail become *events* of the graph.  Calls
not listed return an opaque value and havoc what they could have written.
"""
import re, itertools
from terms import *
import core, linear
from core import Ev, Kont, Unsupported, Engine, bytesv

OPT = "std::option::Option"; RES = "std::result::Result"
def some(v): return agg(OPT, 1, (v,))
NONE = agg(OPT, 0, ())
def ok(v): return agg(RES, 0, (v,))
def err(e): return agg(RES, 1, (e,))

PURE = ()
_norm = {}
def norm(p):
    r = _norm.get(p)
    if r is None:
        s = re.sub(r"<impl ([^<>]*?(?:<[^<>]*>)?[^<>]*)>", lambda m: m.group(1), p)
        while True:
            t = re.sub(r"::<[^<>]*>", "", s)
            t = re.sub(r"<[^<>]*>(?=::|$)", "", t) if not t.startswith("<") else t
            if t == s: break
            s = t
        r = s
        _norm[p] = r
    return r
def short(p):
    parts = norm(p).split("::")
    return "::".join(x.split("::")[-1] for x in parts[-2:])

def strip_ref(eng, ti):
    while ti is not None and eng.p.ty(ti)["k"] in ("ref", "ptr"): ti = eng.p.ty(ti)["to"]
    return ti

def m(*paths):
    def d(f):
        f.paths = paths
        return f
    return d

class Models:
    def __init__(self):
        self.tab = {}
        for n in dir(self):
            f = getattr(self, n)
            for p in getattr(f, "paths", ()): self.tab[p] = f

    # ------------------------------------------------------------ dispatch
    def call(self, eng, st, c):
        b = eng.p.bodies.get(c.callee.get("key"))
        if b is not None and b.crate in ("dir_signature", "probe", "index"): return None
        f = self.lookup(c)
        if f is not None: return f(eng, st, c)
        return None

    def lookup(self, c):
        n = norm(c.path)
        f = self.tab.get(n)
        if f is None:
            q = n.split("::")
            f = self.tab.get("::".join(q[-4:])) or self.tab.get("::".join(q[-3:])) or self.tab.get("::".join(q[-2:]))
        return f

    def ev(self, eng, st, c, kind, name, args=(), res=None, info=None):
        eng.events += 1
        return Ev(kind, name, tuple(eng.content(st, a) for a in args), res, c.span, c.fr.body.path, st.facts, c.site, info)

    def ev_raw(self, eng, st, c, kind, name, args=(), res=None, info=None):
        return Ev(kind, name, tuple(args), res, c.span, c.fr.body.path, st.facts, c.site, info)

    # value a pointer points to, with all nested refs resolved
    def val(self, eng, st, v):
        return eng.content(st, v)

    def fresh(self, eng, st, c, name, *args):
        return eng.atom(st, "res", c.site, name, tuple(eng.content(st, a) for a in args))

    def fork(self, eng, st, c, opts):
        """opts: list of (value fn or value, [events], [(term,val) facts])"""
        outs = []
        for i, (v, evs, facts) in enumerate(opts):
            s = st.copy() if i < len(opts) - 1 else st
            good = True
            for t, x in facts:
                if not eng.assume(s, t, x): good = False; break
            if good: outs += eng.finish(s, c, v, evs)
        return outs

    # ------------------------------------------------------------ unknown calls
    def opaque(self, eng, st, c):
        n = c.path
        eng.unknown[n] = eng.unknown.get(n, 0) + 1
        ev = self.ev(eng, st, c, "ext", norm(n), c.args, info=tuple(norm(x) for x in (c.callee.get("rpath"), eng.p.tys(c.atys[0]) if c.atys and c.atys[0] is not None else None) if x))
        # anything reachable through a mutable reference may have changed
        if not norm(n).endswith(PURE):
            k = 0
            for a, ti in itertools.zip_longest(c.args, c.atys[:len(c.args)]):
                for b, p in self.mutable(eng, a, ti): eng.store(st, b, p, mk("post", c.site, "m%d" % k), c.site); k += 1
        if c.target is None and c.kont is None:
            pn = norm(n)
            kind = "panic" if any(x in pn for x in ("panic", "unwrap_failed", "expect_failed", "assert_failed", "index_fail", "_fail")) else "diverge"
            return [(None, (kind, pn), st, [ev if kind != "panic" else self.ev(eng, st, c, "panic", pn, c.args)])]
        if self.nullary(eng, c): return eng.finish(st, c, UNIT, [ev])
        v = self.fresh(eng, st, c, c.name, *c.args); ev.res = v
        return eng.finish(st, c, v, [ev])

    def mutable(self, eng, v, ti, depth=0):
        """locations an unknown function could write through value v of type ti (None: unknown type)"""
        ty = eng.p.ty(ti) if ti is not None else None
        if ty is not None and ty["k"] in ("ref", "ptr"): return [eng.target(v)] if ty.get("mut") else []
        if v.k in ("ref", "box"): return [eng.target(v)]
        if v.k == "dyn": return self.mutable(eng, v.a[0], None, depth + 1)
        if v.k != "agg" or depth > 6: return []
        fs = [None] * len(v.a[2])
        if ty is not None and ty["k"] == "tuple": fs = ty["args"]
        elif ty is not None and ty["k"] == "adt" and ty.get("v") and v.a[1] < len(ty["v"]): fs = [f[1] for f in ty["v"][v.a[1]]["f"]]
        return [x for y, t in itertools.zip_longest(v.a[2], fs[:len(v.a[2])]) for x in self.mutable(eng, y, t, depth + 1)]

    norm = staticmethod(norm)

    def nullary(self, eng, c):
        ty = eng.p.ty(c.dty) if c.dty is not None else None
        return ty is not None and ty["k"] == "tuple" and not ty["args"]

    # ------------------------------------------------------------ knowledge about terms
    def known(self, eng, st, t):
        if t.k == "disc":
            v = t.a[0]
            if v.k == "p" and v.a[0] == "opt": pass
        if t.k == "op" and t.a[0] in ("Lt", "Le", "Eq"):
            if t.a[1].k in linear.NUMERIC and t.a[2].k in linear.NUMERIC and not (t.a[1].k == "int" and t.a[2].k == "int"):
                if linear.prove(eng, st, t, 1): return 1
                if linear.prove(eng, st, t, 0): return 0
        if t.k == "p" and t.a[0] == "is_empty":
            l = lenof(t.a[1][0])
            if l.k == "int": return int(l.a[0] == 0)
            e = mk("op", "Eq", l, I(0))
            if linear.prove(eng, st, e, 1): return 1
            if linear.prove(eng, st, e, 0): return 0
        if t.k == "p" and t.a[0] == "ovf": pass
        if t.k == "ovf": return self.ovf_known(eng, st, t)
        if t.k == "p" and t.a[0] in ("starts_with", "ends_with"):
            a, b = t.a[1]
            if b.k == "bytes":
                n = len(b.a[0])
                if linear.prove(eng, st, mk("op", "Lt", lenof(a), I(n)), 1): return 0
                if a.k == "bytes": return int(a.a[0].startswith(b.a[0]) if t.a[0] == "starts_with" else a.a[0].endswith(b.a[0]))
                if a.k == "cat" and t.a[0] == "ends_with" and a.a[0] and a.a[0][-1].k == "bytes" and len(a.a[0][-1].a[0]) >= n:
                    return int(a.a[0][-1].a[0].endswith(b.a[0]))
                if a.k == "cat" and t.a[0] == "ends_with" and a.a[0]:
                    return st.facts.get(mk("p", "ends_with", (a.a[0][-1], b))) or None
        return None

    def ovf_known(self, eng, st, t):
        op, a, b, tn = t.a
        mx = linear.MAX.get(tn)
        if mx is None: return None
        if op == "Add":
            e = linear.lin(a).add(linear.lin(b)).add(linear.Lin({}, -mx))
            if linear.prove_le0(eng, st, e): return 0
            if self.counter(eng, a, b): return 0
        elif op == "Sub":
            if tn.startswith("i"): return None
            e = linear.lin(b).add(linear.lin(a), -1)
            if linear.prove_le0(eng, st, e): return 0
        elif op == "Mul":
            x, y = linear.lin(a), linear.lin(b)
            if not y.c: e = x.scale(y.k)
            elif not x.c: e = y.scale(x.k)
            else: return None
            if linear.prove_le0(eng, st, e.add(linear.Lin({}, -mx))): return 0
        elif op in ("Shl", "Shr"):
            bits = Engine.RANGE.get(tn, 64)
            if b.k == "int" and b.a[0] < bits: return 0
        return None

    def counter(self, eng, a, b):
        """x + a small increment, where x is a counter of things the program has seen: a 64-bit
        counter is trusted not to wrap, unless its value comes from a number read from the input"""
        def parsed(x, seen=()):
            if find(x, lambda y: y.k == "p" and "parse" in y.a[0]): return True
            return any(parsed(z, seen + (ph,)) for ph in find(x, lambda y: y.k == "phi") if ph not in seen and len(seen) < 3 for z in eng.phi_in.get(ph, ()) if isinstance(z, T))
        def small(y):
            return y.k == "int" and y.a[0] <= 4 or y.k == "len" and y.a[0].k in ("chunk", "res", "wk") or y.k in ("res", "wk") and "nread" in y.a
        def ctr(x):
            if x.k in ("phi", "wk") or small(x): return True
            if x.k == "op" and x.a[0] == "Add": return ctr(x.a[1]) and ctr(x.a[2])
            while x.k in ("fld", "deref", "dc"): x = x.a[0]
            return x.k == "param"
        for x, y in ((a, b), (b, a)):
            if small(y) and ctr(x) and not parsed(x): return True
        return False

    def derived(self, eng, st, t, val):
        """consequences of a new fact"""
        def put(f, v=1):
            if f.k in ("int", "bool") or f in st.facts: return
            st.facts = dict(st.facts); st.facts[f] = v
        if t.k == "disc":
            v = t.a[0]
            if v.k == "p" and v.a[0] == "file_name" and val == 1: put(mk("disc", mk("p", "parent", v.a[1])))
            if v.k == "p" and v.a[0] == "cmp:int":
                a, b = v.a[1]
                if val == 0: put(mk("op", "Eq", a, b))
                else: put(mk("op", "Lt", a, b) if val == 255 else mk("op", "Lt", b, a))
        if t.k == "p" and t.a[0] in ("starts_with", "ends_with") and val == 1 and t.a[1][1].k == "bytes":
            put(mk("op", "Le", I(len(t.a[1][1].a[0])), lenof(t.a[1][0])))
        if t.k == "p" and t.a[0] == "is_empty":
            l = lenof(t.a[1][0])
            if val == 1: put(l, 0)
            else: put(mk("op", "Lt", I(0), l))
        if t.k == "op" and t.a[0] == "Eq" and val == 1:
            # equal byte strings have equal lengths
            a, b = t.a[1:]
            for x, y in ((a, b), (b, a)):
                if x.k == "bytes" and y.k not in ("bytes", "int"): put(lenof(y), len(x.a[0]))

    def len_axioms(self, eng, st, v, a):
        L = linear.Lin; lin = linear.lin
        out = []
        if v.k in ("p",) and v.a[0] in ("field", "tail"):
            out.append(L({a: 1}).add(lin(lenof(v.a[1][0])), -1))
        if v.k == "elem" and v.a[0].k == "p" and v.a[0].a[0] in ("chunks", "chunks_exact"):
            src, n = v.a[0].a[1]
            out.append(L({a: 1}).add(lin(n), -1))
            l = lenof(src); kl = eng.known(st, l) if l.k != "int" else l.a[0]
            if v.a[0].a[0] == "chunks_exact" or (kl is not None and n.k == "int" and kl % n.a[0] == 0) or st.facts.get(mk("op", "Rem", l, n)) == 0:
                out.append(L({a: -1}).add(lin(n)))
            else: out.append(L({a: -1}, 1))
        return out

    def assert_holds(self, eng, st, c, want, t):
        """is MIR assertion c == want implied?"""
        if c.k == "ovf" : return self.ovf_known(eng, st, c) == want
        if c.k == "op": return linear.prove(eng, st, c, want)
        return False

    def on_drop(self, eng, st, fr, v, ti, span): return []
