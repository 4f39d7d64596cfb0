"""C15 C16 C17 C18 C19 C26 C30: the index parser; C05: the unescaping decoder."""
from terms import *
import core, graph, units, evalt, linear, effects, xio
from graph import Viol
from units import fld
import scanrules as sr

ITER = "dir_signature::v1::parser::EntryIterator"
P = lambda n, *a: mk("p", n, tuple(a))
find = lambda t, pred: [x for x in effects.walk(t) if pred(x)]

def struct(prog, *names):
    """{field: index} of a struct of the crate"""
    for ty in prog.types:
        if ty.get("def") and ty.get("v") and ty["def"].startswith("dir_signature") and ty["def"].split("::")[-1] in names:
            return {f[0]: i for i, f in enumerate(ty["v"][0]["f"])}
    return {}

def enum(prog, name):
    """{variant: index}"""
    for ty in prog.types:
        if ty.get("def") and ty.get("v") and ty.get("enum") and ty["def"].startswith("dir_signature") and ty["def"].split("::")[-1] == name:
            return {v["name"]: i for i, v in enumerate(ty["v"])}
    return {}

# ---------------------------------------------------------------- the unescaping function
def decoders(prog):
    """functions of the crate that turn a byte or OS string into a borrowed-or-owned one"""
    out = {}
    for k, b in prog.bodies.items():
        if not b.path.startswith("dir_signature") or b.argc != 1: continue
        r, a = prog.tys(b.rawlocals[0][0]), prog.tys(b.rawlocals[1][0])
        if r.startswith("std::borrow::Cow<") and r.rstrip(">").endswith(("OsStr", "[u8]", "Path")) and a.startswith("&") and a.endswith(("OsStr", "[u8]")): out[xio.M.norm(b.path)] = k
    return out

def first_byte(st, t, depth=0):
    """does text t start with a slash on this path?"""
    if depth > 6: return False
    if st.facts.get(P("starts_with", t, BY(b"/"))) == 1: return True
    if t.k == "p" and t.a[0] in ("field", "head"): return first_byte(st, t.a[1][0], depth + 1)
    if t.k == "slice" and t.a[1].k == "int" and t.a[1].a[0] == 0: return first_byte(st, t.a[0], depth + 1)
    if t.k in ("init",): return first_byte(st, t.a[0], depth + 1)
    if t.k == "cat" and t.a[0] and t.a[0][0].k == "bytes": return t.a[0][0].a[0].startswith(b"/")
    return False

def decoder_call(models, eng, st, c):
    """the decoder is judged on its own (C05): it keeps a leading slash, since a slash is no backslash"""
    outs = type(models).opaque(models, eng, st, c)
    for o in outs:
        for e in o[3]:
            r = getattr(e, "res", None)
            if e.kind == "ext" and r is not None:
                s = o[2]; x = eng.content(s, c.args[0])
                if first_byte(s, x):
                    f = dict(s.facts)
                    for t in (r, fld_v(r, 0), fld_v(r, 1)): f[P("is_absolute", t)] = 1
                    s.facts = f
    return outs

def fld_v(t, v): return mk("fld", t, v, 0)

def ctx_chain(h):
    out = []; c = h.a[0]
    while c is not None:
        out.append(c.a[-1])
        c = c.a[0].a[0] if len(c.a) > 1 else None
    return out

# ---------------------------------------------------------------- graphs of next and advance
class Case:
    """one analysed call of next or advance, from a fresh / kept / finished iterator, with a valid key"""
    def __init__(self, prog, root, case, key=None):
        self.prog, self.root, self.case, self.key = prog, root, case, key
        self.ix = struct(prog, "EntryIterator"); ix = self.ix
        self.need = [n for n in ("current_row", "current_row_num", "current_dir", "exhausted", "block_size") if n not in ix]
        self.name = "%s/%s%s" % (root, case, {None: "", 0: "/directory key", 1: "/file key"}[key])
        if self.need: return
        it = mk("deref", mk("param", "it")); self.it = it
        self.base = mk("D", mk("param", "it"))
        f = {self.f0("exhausted"): 1 if case == "done" else 0, mk("op", "Le", I(1), self.f0("block_size")): 1}
        if case == "fresh": f[lenof(self.f0("current_row"))] = 0
        if case == "kept": f[mk("op", "Le", I(1), lenof(self.f0("current_row")))] = 1
        if key is not None:
            k = mk("deref", mk("param", "k")); f[mk("disc", k)] = key; kp = mk("fld", k, key, 0); self.kpath = kp
            f[P("is_absolute", kp)] = 1
            if key == 1: f[mk("disc", P("parent", kp))] = 1; f[mk("disc", P("file_name", kp))] = 1
        self.dec = decoders(prog)
        graph.PROG[0] = prog
        self.g = units.analyse(prog, root, f, keep_final=True, peel=1, stop={n: decoder_call for n in self.dec})
        self.eng = self.g.eng
    def f0(self, n): return fld(self.it, self.ix[n])
    def get(self, mem, n):
        return self.eng.load(core.St(dict(mem), {}), self.base, (("f", self.ix[n]),))
    def at_loop(self, e, n):
        """(value that reaches the loop head, value the loop head continues with)"""
        hk, mem = e.info
        v = self.get(mem, n)
        ph = mk("phi", hk, self.base, (("f", self.ix[n]),))
        return v, (ph if ph in self.eng.phi_in else v)
    def outer_loops(self):
        """heads of the loops of the analysed method itself (not of what it calls)"""
        if not hasattr(self, "_ol"):
            hs = {e.info[0] for e in self.g.events() if e.kind == "loop"}
            m = min((len(ctx_chain(h)) for h in hs), default=0)
            self._ol = {h for h in hs if len(ctx_chain(h)) <= 2}
        return self._ol
    def finals(self):
        out = []
        for n in self.g.nodes:
            if n.kind == "return": out.append(n)
        return out
    def stats(self):
        g = self.g
        return {"graph_nodes": len(g.nodes), "graph_edges": g.edges, "calls_interpreted": g.eng.calls, "blocks_interpreted": g.eng.blocks,
                "returns": sum(k == "return" for k in g.kind), "functions_analysed": len({graph.strip_key(str(v)) for v in g.eng.inlined})}

CASES = [("r_iter_next", "fresh", None), ("r_iter_next", "kept", None), ("r_iter_next", "done", None)] + \
        [("r_iter_advance", c, k) for c in ("fresh", "kept", "done") for k in (0, 1)]

def outcome(v):
    """'none' | ('ok', entry) | ('err', error) | None of a returned Option<Result<Entry, _>>"""
    if v is None or v.k != "agg": return None
    if not v.a[2]: return "none"
    r = v.a[2][0]
    if r.k != "agg": return None
    return ("ok" if r.a[1] == 0 else "err", r.a[2][0])

# ---------------------------------------------------------------- C15
def possible(g, e):
    """can the bound or overflow check fail already on a first pass through the loops (their variables at their first values)?"""
    phs = {x for t in e.facts for x in find(t, lambda z: z.k == "phi")} | {x for a in e.args if isinstance(a, T) for x in find(a, lambda z: z.k == "phi")}
    ints = {}
    for p in phs:
        src = [s for s in g.eng.phi_in.get(p, ()) if s.k == "int"]
        if src and not [s for s in g.eng.phi_in.get(p, ()) if s.k in ("agg", "cat", "bytes")]: ints[p] = min(src, key=lambda s: s.a[0])
    if not ints: return True
    st = core.St({}, {})
    for t, v in e.facts.items():
        u = t
        for p, s in ints.items(): u = replace(u, p, s) if contains(u, p) else u
        u, w = core.norm_fact(resimp(g.eng, u), v) if isinstance(v, int) else (u, v)
        if u is None:
            if not w: return False
            continue
        st.facts[u] = w
    cons = []
    for t, v in st.facts.items(): cons += linear.fact_lins(t, v)
    return not linear.infeasible(linear.gather(g.eng, st, cons) + cons)

def resimp(eng, t):
    if t.k == "op" and len(t.a) == 3 and t.a[0] in ("Lt", "Le", "Eq") and t.a[1].k == "int" and t.a[2].k == "int":
        a, b = t.a[1].a[0], t.a[2].a[0]
        return B({"Lt": a < b, "Le": a <= b, "Eq": a == b}[t.a[0]])
    return t

def leaves(t, out):
    """the terms a numeric term is computed from; None if something else is in it"""
    if t.k in ("int", "bool"): return True
    if t.k in ("op", "ovf"): return all(leaves(x, out) for x in t.a if isinstance(x, T))
    if t.k in ("elem", "sym", "param", "phi"):
        if t not in out: out.append(t)
        return True
    return False

def byte_overflow(e):
    """can the arithmetic on bytes overflow?  all values of the (at most two) bytes that satisfy the facts are tried; None if not understood"""
    for t, w in e.facts.items():
        if t.k != "ovf" or w != 1 or t.a[3] != "u8": continue
        ls = []
        if not leaves(t, ls) or not 1 <= len(ls) <= 2: continue
        ok = {}; both = []
        for l in ls:
            mine = [(x, v) for x, v in e.facts.items() if contains(x, l) and not any(contains(x, m) for m in ls if m is not l)]
            ok[l] = [b for b in range(256) if all(evalt.holds(x, v, {l: b}) is not False for x, v in mine)]
        both = [(x, v) for x, v in e.facts.items() if all(contains(x, l) for l in ls)] if len(ls) == 2 else [(t, w)]
        a = ls[0]; b = ls[-1]
        for x in ok[a]:
            for y in ok[b] if b is not a else (x,):
                if all(evalt.holds(u, v, {a: x, b: y}) is not False for u, v in both): return True
        return False
    return None

ARITH = ("overflow", "index out of bounds", "slice")
def panics(g, pid, excuse=None):
    v = {}; n = 0; und = set(); ok = {}
    for e in g.events():
        if e.kind != "panic": continue
        n += 1
        nm = str(e.name)
        if excuse is not None and excuse(g, e): continue
        k = "%s/%s" % (graph.fn(e), nm if not e.args or nm.startswith(ARITH) or e.args[0].k != "bytes" else e.args[0].a[0].decode("latin1"))
        if nm.startswith(ARITH):
            if nm.startswith("overflow") and byte_overflow(e) is False: continue
            if (id(e)) not in ok: ok[id(e)] = possible(g, e)
            if not ok[id(e)]: und.add("%s at %s depends on a loop variable" % (nm, graph.at(e))); continue
        v.setdefault(k, ("input can make %s fail at %s: %s%s" % (graph.fn(e), graph.at(e), nm, " (%s)" % ", ".join(show(a, 5)[:80] for a in e.args[:2] if isinstance(a, T)) if e.args else ""), [graph.describe(e)]))
    return v, n, True, "; ".join(sorted(und)) or None


# ---------------------------------------------------------------- bookkeeping along one call
def diff(a, b):
    """a - b as an integer, or None"""
    if a is b: return 0
    if a.k == "int" and b.k == "int": return a.a[0] - b.a[0]
    if a.k == "op" and a.a[0] == "Add" and len(a.a) == 3:
        for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
            if y.k == "int":
                d = diff(x, b)
                if d is not None: return d + y.a[0]
    if a.k == "op" and a.a[0] == "Sub" and a.a[2].k == "int":
        d = diff(a.a[1], b)
        if d is not None: return d - a.a[2].a[0]
    return None

def diffs(a, bases):
    for b in bases:
        d = diff(a, b)
        if d is not None: return d
    return None

def parse_error(v):
    """the line number in a returned error, None if it has none"""
    o = outcome(v)
    if not o or o == "none" or o[0] != "err": return None
    for x in find(o[1], lambda z: z.k == "agg" and len(z.a[2]) == 2 and z.a[0].split("::")[-1] in ("ErrorEnum", "ParseError")): return x.a[2][1]
    return None

def numbers(C):
    """C26: a line number is the number of lines read before it, plus one"""
    und = set(); g = C.g
    f = g.filtered(lambda e: e.kind == "loop" or e.kind == "fs" and e.name in ("read_line", "read", "read_exact"))
    init = ((C.f0("current_row_num"),), 0)
    def step(s, e):
        base, k = s
        if e.kind == "fs": return (base, k + 1) if e.name == "read_line" and k < 4 else s
        v, nx = C.at_loop(e, "current_row_num")
        d = diffs(v, base)
        if d is None: und.add("line counter at a loop head"); return (tuple(dict.fromkeys((nx, v))), 0)
        return (tuple(dict.fromkeys((nx, v))), k - d)
    viols = {}
    finals = {id(n.val): n for n in C.finals()}
    def end(s, kind, val):
        base, k = s
        if kind != "return": return None
        num = parse_error(val)
        if num is not None:
            d = diffs(num, base)
            if d is None: und.add("line number of an error")
            elif d != k: return Viol("error number", "an error found after reading %d more line(s) reports the number before the call plus %d" % (k, d) if len(base) == 1 and base[0] is C.f0("current_row_num") else "an error reports a line number that is off by %d" % (d - k), None)
        return None
    v, n, ok = f.run(init, step, end)
    # the counter the call leaves behind
    v2, n2, ok2 = runs_to_final(C, f, init, step, lambda s, node: counter(C, s, node, und))
    v.update({k: x for k, x in v2.items() if k not in v})
    return v, n + n2, ok and ok2, "; ".join(sorted(und)) or None

def counter(C, s, node, und):
    base, k = s
    d = diffs(C.get(node.st.mem, "current_row_num"), base)
    if d is None: und.add("line counter after the call"); return None
    if d != k: return Viol("counter", "after a call that read %d line(s) the line counter is off by %d" % (k, d - k), None)

def runs_to_final(C, f, init, step, judge, starts=None):
    """like Graph.run, judging each returning node with its final state"""
    g = f
    starts = starts or [(0, init)]
    seen = {p: None for p in starts}; work = list(starts); out = {}
    while work:
        ps = work.pop(); i, s = ps
        n = g.nodes[i]
        if n.kind is not None:
            if n.kind == "return":
                r = judge(s, n)
                if isinstance(r, Viol): out.setdefault(r.key, (r.msg, g.witness(seen, ps, r)))
            continue
        for evs, t in g.succ[i]:
            s2 = s; bad = None
            for e in evs:
                r = step(s2, e)
                if isinstance(r, Viol):
                    out.setdefault(r.key, (r.msg, g.witness(seen, ps, r))); bad = r; break
                s2 = r
            if bad is not None: continue
            q = (t, s2)
            if q not in seen:
                if len(seen) > 600000: return out, len(seen), False
                seen[q] = (ps, evs); work.append(q)
    return out, len(seen), True

def isempty(facts, t):
    if t is EMPTY or t.k == "bytes" and not t.a[0]: return True
    l = lenof(t)
    if l.k == "int": return l.a[0] == 0
    if facts.get(l) == 0: return True
    for u, v in facts.items():
        if find(u, lambda z: z is l):
            r1, r0 = evalt.holds(u, v, {l: 1}), evalt.holds(u, v, {l: 0})
            if r0 and r1 is False and evalt.holds(u, v, {l: 2}) is False: return True
    return False

def nonempty(facts, t):
    """do the facts show that the text is not empty?"""
    l = lenof(t)
    if l.k == "int": return l.a[0] > 0
    for u, v in facts.items():
        if v == 1 and u.k == "p" and u.a[0] in ("starts_with", "ends_with") and u.a[1][0] is t and u.a[1][1].k in ("bytes", "int"): return True
        if find(u, lambda z: z is l) and evalt.holds(u, v, {l: 0}) is False: return True
    return False

def terminates(C):
    """C19: every call that yields something consumes input or ends the iteration for good"""
    und = set(); g = C.g
    f = g.filtered(lambda e: e.kind in ("loop", "br") or e.kind == "fs" and e.name in ("read_line", "fill_buf", "read", "read_exact"))
    outer = min((e.info[0].a[0].id for e in g.events() if e.kind == "loop"), default=None)
    reading = set()      # loop heads of functions that (transitively) read lines: found by the walk below
    # state: (consumed a whole line?, read failed, row at the last visit of the outer loop head, line read since)
    def step(s, e):
        got, line, failed, hd = s
        if e.kind == "fs":
            if e.name != "read_line": return s
            if e.info == "err": return (got, None, True, hd)
            return (got, e.args[2], False, hd)
        if line is not None and not got:
            t = mk_text(C, line)
            if any(v == 1 and u.k == "p" and u.a[0] in ("starts_with", "ends_with") and find(u, lambda z: z is line) for u, v in e.facts.items()) or any(find(u, lambda z: z is lenof(line)) and evalt.holds(u, v, {lenof(line): 0}) is False for u, v in e.facts.items()): got = True
        if e.kind == "loop" and e.info[0] in C.outer_loops():
            v, nx = C.at_loop(e, "current_row")
            row = "empty" if isempty(e.facts, v) else "row"
            h = dict(hd)
            if e.info[0] in h:
                before, seen = h[e.info[0]]
                if not seen and not got and not (before == "row" and row == "empty"):
                    return Viol("loop", "%s can go round its loop at %s without consuming input" % (graph.short(e.fn) if e.fn else "?", e.fn), e)
            h[e.info[0]] = (row, False)
            return (False, None, failed, tuple(sorted(h.items(), key=lambda x: x[0].id)))
        return (got, line, failed, hd)
    def judge(s, n):
        got, line, failed, hd = s
        v = n.val; o = outcome(v)
        ex = C.get(n.st.mem, "exhausted")
        ex = ex.a[0] if ex.k in ("bool", "int") else (C.case == "done" if ex is C.f0("exhausted") else None)
        if o is None: und.add("result"); return None
        if C.case == "done":
            if o != "none": return Viol("after the end", "an iterator that has ended yields something again", None)
            if ex == 0: return Viol("restarts", "an iterator that has ended is restarted by another call", None)
            return None
        if o == "none":
            if C.root == "r_iter_next" and ex != 1: return Viol("none without end", "`None` is returned but the iterator does not stay finished", None) if ex == 0 else und.add("exhausted flag")
            return None
        if ex == 1 or got: return None
        row = C.get(n.st.mem, "current_row")
        if C.case == "kept" and isempty(n.st.facts, row): return None
        if hd and any(b == "row" for _, (b, _) in hd) and isempty(n.st.facts, row): return None
        if ex is None: und.add("exhausted flag"); return None
        return Viol("no progress", "%s is returned although no input was consumed and the iterator is not finished: iteration never ends" % ("an error" if o[0] == "err" else "an entry") + (" (the line could not be read)" if failed or line is not None else ""), None)
    v, n, ok = runs_to_final(C, f, (False, None, False, ()), step, judge)
    return v, n, ok, "; ".join(sorted(und)) or None

def mk_text(C, x): return x
