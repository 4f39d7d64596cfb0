"""The exploded graph of one analysed root, and automata run over all its paths."""
from terms import *
import core

class Graph:
    def __init__(self, eng, name=""):
        self.eng = eng; self.name = name
        idx = {}; self.nodes = []; self.succ = []
        root = eng.final(eng.root)
        stack = [root]; idx[root] = 0; self.nodes.append(root)
        while stack:
            n = stack.pop()
            for _, t in n.succ:
                t = eng.final(t)
                if t not in idx:
                    idx[t] = len(self.nodes); self.nodes.append(t); stack.append(t)
        for n in self.nodes:
            out = []
            for evs, t in n.succ: out.append((evs, idx[eng.final(t)]))
            self.succ.append(out)
        self.kind = [n.kind for n in self.nodes]
        self.val = [n.val for n in self.nodes]
        self.edges = sum(len(s) for s in self.succ)
        self._evs = None

    def events(self):
        """all distinct events reachable from the root"""
        if self._evs is None:
            seen = set(); out = []
            for s in self.succ:
                for evs, _ in s:
                    for e in evs:
                        if id(e) not in seen: seen.add(id(e)); out.append(e)
            self._evs = out
        return self._evs

    def filtered(self, keep):
        """the graph with only the events `keep` accepts; chains without events are contracted"""
        g = object.__new__(Graph); g.eng = self.eng; g.name = self.name; g._evs = None
        n = len(self.nodes)
        succ = []
        for i in range(n):
            succ.append([(tuple(e for e in evs if keep(e)), t) for evs, t in self.succ[i]])
        # contract: node with a single successor and no events on the edge
        rep = list(range(n))
        def find(i):
            p = []
            while True:
                s = succ[i]
                if self.kind[i] is None and len(s) == 1 and not s[0][0] and s[0][1] != i and s[0][1] not in p and len(p) < 10000:
                    p.append(i); i = s[0][1]
                else: return i
        cache = {}
        def f(i):
            if i not in cache: cache[i] = find(i)
            return cache[i]
        idx = {f(0): 0}; order = [f(0)]; k = 0; ns = []
        while k < len(order):
            out = {}
            for evs, t in succ[order[k]]:
                t = f(t)
                if t not in idx: idx[t] = len(order); order.append(t)
                out[(evs, idx[t])] = 1
            ns.append(list(out)); k += 1
        g.nodes = [self.nodes[i] for i in order]; g.succ = ns
        g.kind = [self.kind[i] for i in order]; g.val = [self.val[i] for i in order]
        g.edges = sum(len(s) for s in ns)
        return g

    def run(self, init, step, end=None, limit=3000000):
        """run an automaton over every path.  step(state, ev) -> state | Viol; end(state, kind, val) -> None | Viol.
        Returns ({key: (message, witness)}, number of product states, complete?)"""
        par = {(0, init): None}; work = [(0, init)]; out = {}; full = True
        memo = {}
        while work:
            ps = work.pop(); i, s = ps
            if self.kind[i] is not None:
                if end is not None:
                    v = end(s, self.kind[i], self.val[i])
                    if isinstance(v, Viol) and v.key not in out: out[v.key] = (v.msg, self.witness(par, ps, v))
                continue
            for evs, t in self.succ[i]:
                s2 = s; bad = None
                for e in evs:
                    k = (id(e), s2)
                    r = memo.get(k)
                    if r is None: r = memo[k] = (step(s2, e), e)
                    r = r[0]
                    if isinstance(r, Viol): bad = r; break
                    s2 = r
                if bad is not None:
                    if bad.key not in out: out[bad.key] = (bad.msg, self.witness(par, ps, bad) + [describe(bad.ev)] if bad.ev is not None else self.witness(par, ps, bad))
                    if bad.state is None: continue
                    s2 = bad.state
                    for e in evs[evs.index(bad.ev) + 1 if bad.ev in evs else len(evs):]:
                        r = step(s2, e)
                        if isinstance(r, Viol): break
                        s2 = r
                q = (t, s2)
                if q not in par:
                    if len(par) >= limit: full = False; continue
                    par[q] = (ps, evs); work.append(q)
        return out, len(par), full

    def witness(self, par, ps, v):
        path = []
        while par[ps] is not None:
            pp, evs = par[ps]
            path.append([describe(e) for e in evs if e.kind in ("fs", "sink", "hash", "thread", "panic", "queue", "next")])
            ps = pp
        w = [x for y in reversed(path) for x in y]
        return w if len(w) <= 60 else w[:20] + ["... %d steps ..." % (len(w) - 50)] + w[-30:]

class Viol:
    def __init__(self, key, msg, ev=None, state=None): self.key = key; self.msg = msg; self.ev = ev; self.state = state

PROG = [None]
def chain(e):
    """[(function key, span)] from the innermost function of an event outwards"""
    out = []; span = e.span; site = e.site
    ctx = site.a[0] if site is not None and site.k == "site" else None
    while ctx is not None:
        key = ctx.a[-1]
        out.append((key, span))
        if len(ctx.a) < 2: break
        cs = ctx.a[0]; ctx = cs.a[0]; span = None
        b = PROG[0].bodies.get(ctx.a[-1]) if PROG[0] else None
        if b is not None:
            t = b.blocks[cs.a[1]]["t"]
            if t[0] == "call": span = t[5]
    return out

def strip_key(k):
    i = k.rfind("[")
    return k[:i] if i > 0 else k

def where(e):
    """(function of the crate, span) responsible for an event"""
    if e is None: return ("?", None)
    for k, sp in chain(e):
        p = strip_key(k)
        if ("dir_signature" in p.split(" as ")[0] or p.startswith("index")) and " as std::io::Write>" not in p: return (short(p), sp)
    return (short(e.fn), e.span)

def at(e):
    if e is None: return "?"
    f, sp = where(e)
    return "%s:%s" % (sp[0], sp[1]) if sp else "?"
def fn(e): return where(e)[0]
def short(f): return (f or "?").replace("dir_signature::", "")
def describe(e):
    return "%s %s %s (%s) at %s in %s" % (e.kind, e.name, e.info or "", ", ".join(show(a, 7)[:160] for a in e.args), at(e), fn(e))
