"""Rules over the order in which entries are emitted (C07), the completeness of the scan (C32) and the queue (C09, C27)."""
from terms import *
from graph import Viol, describe, at, short, fn
import text, units
from text import is_ok, tokens
from scanrules import sources, types_of

def atoms_of(v):
    return [x for x in subterms(v) if x.k in ("el", "res", "wk", "phi")]

def entry_terms(v):
    """entries mentioned in a value: arguments of entry_name / dtype-like facts, and entry atoms themselves"""
    out = []
    for x in subterms(v):
        if x.k == "res" and x.a[1] == "entry" or x.k == "wk" and len(x.a) > 2 and x.a[0] == "res" and x.a[2] == "entry": out.append(x)
        elif x.k == "el": out.append(x)
    return out

class Flow:
    """where the elements of collections come from"""
    def __init__(self, g):
        self.g = g; self.iters = {}; self.memo = {}
        for e in g.events():
            if e.kind == "next" and e.info == "some" and e.name in ("coll", "coll_back", "groups") and len(e.args) > 1 and e.args[0].k == "coll":
                for x in subterms(e.args[1]):
                    if x.k == "el" and x.a[0] is e.site: self.iters.setdefault(x, []).append(e)
    def chain(self, t):
        """t and everything its value may have been copied from, through collections"""
        if t in self.memo: return self.memo[t]
        out = [t]; seen = {t}; i = 0
        while i < len(out) and len(out) < 200:
            x = out[i]; i += 1
            src = []
            if x.k == "el": src = self.g.eng.el_src.get(x, ())
            elif x.k == "phi": src = self.g.eng.phi_in.get(x, ())
            elif x.k == "wk" and x.a[0] == "el":
                src = [y for y in self.els() if y.a[0] is x.a[1] and y.a[1:] == x.a[2:]]
            elif x.k == "p" and x.a[0] == "entry_name": src = x.a[1]
            for y in src:
                if y not in seen: seen.add(y); out.append(y)
        self.memo[t] = out
        return out
    def els(self):
        if not hasattr(self, "_els"): self._els = [x for x in self.g.eng.el_src if x.k == "el"]
        return self._els
    def listed(self, t):
        """does the value come from a directory listing?"""
        return any(is_entry(x) for x in self.chain(t))
    def loops(self, t):
        """iterations over collections of listed entries that t was taken from, nearest first"""
        out = []
        for x in self.chain(t):
            for e in self.iters.get(x, ()):
                if not any(o is e for o in out): out.append(e)
        return out

def is_entry(x):
    return x.k == "res" and x.a[1] == "entry" or x.k == "wk" and x.a[0] == "res" and "entry" in x.a

def direction(e):
    """'asc' / 'desc' / None (unsorted) / '?' / text for the order in which an iteration yields names"""
    c = e.args[0]
    s = [a for a in c.a[3] if a[0] == "sorted"]
    if not s: return None
    _, how, d = s[0]
    if how == "?": return "?"
    if how != "name": return "(%s)" % d
    if e.name == "coll_back": d = {"asc": "desc", "desc": "asc"}[d]
    return d

def worklists(g):
    """type ids of collections into which paths of directories are pushed"""
    out = {}
    for e in g.events():
        if e.kind == "coll" and e.name in ("push_back", "push_front", "push", "insert") and isinstance(e.info, int) and len(e.args) > 1:
            v = e.args[1]
            if v.k == "agg" and any(y.k == "coll" or entry_free(y) for y in v.a[2]):
                ps = [y for y in v.a[2] if any(s.k == "p" and s.a[0] == "join" or s.k == "bytes" and s.a[0] == b"/" for s in sources(g, y))]
                if ps: out.setdefault(e.info, []).append((e, ps[0]))
    return {k: v for k, v in out.items() if any(p.k == "coll" for e, _ in v for p in e.args[1].a[2])}

def entry_free(y): return False

def queues(g):
    """type ids of collections that background tasks are pushed to"""
    return {e.info for e in g.events() if e.kind == "coll" and e.name in ("push_back", "push_front", "push") and isinstance(e.info, int) and len(e.args) > 1
            and find(e.args[1], lambda z: z.k == "future")}

PUSH = {"push": "back", "push_back": "back", "push_front": "front"}
POP = {"pop": "back", "pop_back": "back", "pop_front": "front"}

# ---------------------------------------------------------------- C07
def order(g, prop):
    out = {}; n = 0; und = set()
    fl = Flow(g)
    def bad(key, msg, e): out.setdefault(key, (msg + ", at %s" % at(e), [describe(e)]))
    # files and symlinks: each opened / read / written entry was taken from an ascending iteration
    for e in g.events():
        es = []
        if e.kind == "fs" and e.name in ("open_file", "read_link") and len(e.args) > 1: es = [e.args[1]] if e.args[1].k != "bytes" else []
        for t in es:
            if not fl.listed(t): continue
            n += 1
            ls = [l for l in fl.loops(t)]
            if not ls:
                bad("listing", "files and symlinks are recorded in the order of the directory listing", e); continue
            ds = [direction(l) for l in ls]
            if "asc" in ds: continue
            if "?" in ds: und.add("comparator not understood"); continue
            d = [x for x in ds if x is not None]
            if d and d[0] == "desc": bad("files/desc", "files and symlinks are recorded in descending order of names", e)
            elif d: bad("files/order", "files and symlinks are not sorted by the bytes of their names %s" % d[0], e)
            else: bad("files/unsorted", "files and symlinks are recorded unsorted, in the order of the directory listing", e)
    # directories: worklist discipline
    wl = worklists(g)
    pops = {}; subs = False
    for e in g.events():
        if e.kind == "coll" and e.name in POP and isinstance(e.info, tuple) and e.info[0] in wl: pops.setdefault(e.info[0], {})[POP[e.name]] = e
    for ti, ps in wl.items():
        pe = pops.get(ti, {})
        if len(pe) != 1: und.add("worklist discipline"); continue
        pend = list(pe)[0]
        for e, path in ps:
            ents = []
            for s in sources(g, path):
                if s.k == "p" and s.a[0] == "join": ents += [s.a[1][1]]
            ents = [x for x in ents if fl.listed(x)]
            if not ents: continue
            n += 1; subs = True
            if e.name not in PUSH: und.add("push by " + e.name); continue
            if PUSH[e.name] != pend:
                bad("worklist/fifo", "subdirectories are queued at one end and taken from the other: directories are not visited depth first", e); continue
            for x in ents:
                ls = fl.loops(x); ds = [direction(l) for l in ls]
                if "desc" in ds and not (ds[0] == "asc"): continue
                if "?" in ds: und.add("comparator not understood"); continue
                d = [y for y in ds if y is not None]
                if d and d[0] == "asc": bad("dirs/desc", "subdirectories are visited in descending order of names", e)
                elif d: bad("dirs/order", "subdirectories are not sorted by the bytes of their names %s" % d[0], e)
                else: bad("dirs/unsorted", "subdirectories are visited unsorted, in the order of the directory listing", e)
    if not wl: und.add("no worklist of directories found")
    elif not subs: und.add("no listed directory is seen to reach the worklist")
    # directory lines
    for e in g.events():
        if e.kind != "sink" or e.name != "write": continue
        ts = list(tokens(e.args[1]))
        if not ts or ts[0][0] != "p" or ts[0][1].k != "p" or ts[0][1].a[0] != "esc": continue
        n += 1
        for s in sources(g, ts[0][1].a[1][0]):
            b = bad_path(g, s)
            if b: bad("dirline", "a directory line is written for %s" % b, e)
    r = lines(g, fl, wl)
    for k, v in r[0].items(): out.setdefault(k, v)
    return out, n + r[1], True, "; ".join(sorted(und)) or None

def bad_path(g, s, depth=0):
    """what is certainly wrong with the path of a directory line"""
    if s.k == "bytes": return None if s.a[0] == b"/" else "%r" % s.a[0]
    if s.k == "p" and s.a[0] == "entry_name": return "a name alone, not joined to the path of its parent"
    if s.k == "p" and s.a[0] == "lossy": return "a lossy conversion of the path"
    if s.k == "p" and s.a[0] == "join":
        base, name = s.a[1]
        for x in sources(g, name):
            if x.k == "bytes": return "a path joined with the constant %r" % x.a[0]
            if x.k == "p" and x.a[0] in ("join", "lossy"): return "a path joined with %s" % show(x, 4)
        if depth < 4:
            for x in sources(g, base):
                b = bad_path(g, x, depth + 1)
                if b: return b
    return None

def lines(g, fl, wl):
    """on every path: pop a directory, submit its line, then its entries"""
    qs = queues(g)
    def keep(e):
        if e.kind == "coll" and isinstance(e.info, tuple) and e.info[0] in wl and e.info[1] == "some": return True
        if qs: return e.kind == "coll" and e.info in qs and e.name in ("push_back", "push")
        return e.kind == "sink" and e.name == "write" and e.info == "ok"
    f = g.filtered(keep)
    def step(s, e):
        if isinstance(e.info, tuple): return "popped"
        if qs:
            v = e.args[1]
            fut = find(v, lambda z: z.k == "future")
            ents = [x for x in subterms(v) if x.k in ("el", "res", "wk") and fl.listed(x)] if not fut else [1]
            paths = [x for x in (v.a[2] if v.k == "agg" else (v,)) if any(y.k == "bytes" and y.a[0] == b"/" or y.k == "p" and y.a[0] == "join" for y in sources(g, x))]
            kind = "dir" if paths and not fut else "entry" if ents else None
        else:
            ts = list(tokens(e.args[1]))
            kind = None
            if ts and ts[0][0] == "p" and ts[0][1].k == "p" and ts[0][1].a[0] == "esc": kind = "dir"
            elif len(ts) > 2 and ts[0] == ("b", 32) and ts[1] == ("b", 32): kind = "entry"
        if kind == "dir":
            if s == "entries": return Viol("dirline/late", "the line of a directory is submitted after its entries", e, "line")
            return "line"
        if kind == "entry":
            if s == "popped": return Viol("entry/early", "an entry is submitted before the line of its directory", e, "entries")
            return "entries" if s == "entries" else "line"
        return s
    return f.run("start", step)
