"""Loads the MIR export and answers structural questions about it."""
import json

class Body:
    __slots__ = ("key", "path", "crate", "name", "closure", "impl_trait", "argc", "locals", "blocks",
                 "succ", "preds", "order", "headers", "live", "borrowed", "span", "rawlocals", "unsafe", "spread")

class Program:
    def __init__(self, fn):
        d = json.load(open(fn))
        self.crate = d["crate"]; self.types = d["types"]; self.roots = dict(map(tuple, d["roots"]))
        self.impls = d["impls"]; self.statics = d["statics"]
        self.bodies = {}
        for k, b in d["bodies"].items():
            if b is None: continue
            self.bodies[k] = self._body(k, b)
        self.impl_tab = {}
        for tr, m, ti, k in self.impls: self.impl_tab.setdefault((tr, m), {})[ti] = k

    def root(self, name):
        for p, k in self.roots.items():
            if p.split("::")[-1] == name: return k
        return None

    def ty(self, i): return self.types[i]
    def tys(self, i): return self.types[i]["s"]

    def _body(self, k, b):
        o = Body()
        o.key = k; o.path = b["path"]; o.crate = b["crate"]; o.name = b["name"]; o.closure = b["closure"]
        o.impl_trait = b["impl_trait"]; o.argc = b["argc"]; o.blocks = b["blocks"]; o.span = b["span"]
        o.unsafe = b["unsafe"]; o.spread = b.get("spread")
        o.locals = [x[0] for x in b["locals"]]; o.rawlocals = b["locals"]
        n = len(o.blocks)
        o.succ = [self._succ(x["t"]) for x in o.blocks]
        o.preds = [0] * n
        for s in o.succ:
            for t in s: o.preds[t] += 1
        o.preds[0] += 1
        o.headers = self._headers(o)
        o.live, o.borrowed = self._live(o)
        o.order = self._order(o)
        return o

    @staticmethod
    def _order(o):
        """weak topological order: the blocks of a loop come before the blocks after it"""
        out = []
        def sccs(nodes, root):
            idx = {}; low = {}; st = []; on = set(); res = []; cnt = [0]
            def visit(v0):
                work = [(v0, iter([s for s in o.succ[v0] if s in nodes]))]
                idx[v0] = low[v0] = cnt[0]; cnt[0] += 1; st.append(v0); on.add(v0)
                while work:
                    v, it = work[-1]
                    for w in it:
                        if w not in idx:
                            idx[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); on.add(w)
                            work.append((w, iter([s for s in o.succ[w] if s in nodes]))); break
                        elif w in on: low[v] = min(low[v], idx[w])
                    else:
                        work.pop()
                        if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                        if low[v] == idx[v]:
                            comp = []
                            while True:
                                w = st.pop(); on.discard(w); comp.append(w)
                                if w == v: break
                            res.append((v, comp))
            if root in nodes: visit(root)
            for v in sorted(nodes):
                if v not in idx: visit(v)
            return res[::-1]
        def go(nodes, root):
            for head, comp in sccs(nodes, root):
                if len(comp) == 1: out.append(comp[0]); continue
                hs = [b for b in comp if b in o.headers]
                h = head if head in o.headers else (hs[0] if hs else head)
                out.append(h)
                rest = set(comp) - {h}
                go(rest, next((s for s in o.succ[h] if s in rest), min(rest)))
        import sys
        sys.setrecursionlimit(10000)
        go(set(range(len(o.blocks))), 0)
        pos = [0] * len(o.blocks)
        for i, b in enumerate(out): pos[b] = i
        return pos

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto": return [t[1]]
        if k == "sw": return [b for _, b in t[2]] + [t[3]]
        if k == "drop": return [t[2]]
        if k == "call": return [t[4]] if t[4] is not None else []
        if k == "assert": return [t[5]]
        return []

    @staticmethod
    def _headers(o):
        heads = set(); state = {}
        stack = [(0, iter(o.succ[0]))]; state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state.get(s, 0) == 1: heads.add(s)
                elif s not in state:
                    state[s] = 1; stack.append((s, iter(o.succ[s]))); break
            else:
                state[b] = 2; stack.pop()
        return heads

    @staticmethod
    def _live(o):
        n = len(o.blocks)
        use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]
        borrowed = set()
        for i, b in enumerate(o.blocks):
            u, d = use[i], dfn[i]
            def rd(l):
                if l not in d: u.add(l)
            def place_read(p):
                rd(p["l"])
                for e in p["p"]:
                    if e[0] == "i": rd(e[1])
            def op(x):
                if x.get("k") in ("copy", "move"): place_read(x["pl"])
            def place_write(p):
                if not p["p"]: d.add(p["l"])
                else: place_read(p)
            for s in b["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] in ("ref",):
                        place_read(r[2])
                        if not any(e[0] == "d" for e in r[2]["p"]): borrowed.add(r[2]["l"])
                    elif r[0] == "discr": place_read(r[1])
                    else:
                        for x in r:
                            if isinstance(x, dict): op(x) if "k" in x else (place_read(x) if "l" in x else None)
                            elif isinstance(x, list):
                                for y in x:
                                    if isinstance(y, dict) and "k" in y: op(y)
                    place_write(s[1])
                elif s[0] == "sd": place_read(s[1])
            t = b["t"]
            if t[0] == "sw": op(t[1])
            elif t[0] == "drop": place_read(t[1])
            elif t[0] == "call":
                for x in t[2]: op(x)
                if t[1].get("op"): op(t[1]["op"])
                place_write(t[3])
            elif t[0] == "assert":
                op(t[1])
                for x in t[4]: op(x)
            elif t[0] == "ret": rd(0)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                l = set()
                for s in o.succ[i]: l |= live[s]
                l = use[i] | (l - dfn[i])
                if not l <= live[i]: live[i] |= l; ch = True
        return live, borrowed
