"""Linear use of directory entries and queued items: every listed entry reaches the index exactly once (C32), every queued
item is written exactly once and in turn (C09)."""
from terms import *
from graph import Viol, describe, at, fn
import evalt
from text import is_ok, tokens, pieces
from scanrules import sources, types_of
from order import Flow, worklists, queues, PUSH, POP

def peel(x):
    while x.k == "ce": x = x.a[0]
    return x

class Use:
    def __init__(self, g):
        self.g = g; self.fl = Flow(g); self.wl = worklists(g); self.qs = queues(g)
        self.mm = {}; self.sg = {}
        self.sends = {}
    def mention(self, v):
        """opaque atoms of a value, through loop merges"""
        r = self.mm.get(v)
        if r is None:
            r = set(); todo = [v]
            while todo:
                for x in subterms(todo.pop()):
                    if x in r: continue
                    r.add(x)
                    if x.k == "phi": todo += [y for y in self.g.eng.phi_in.get(x, ()) if isinstance(y, T)]
            for x in find(v, lambda z: z.k == "bytes" and z.a[0] == b"/"): r.add(x)
            r = self.mm[v] = frozenset(r)
        return r
    def listed(self, v): return [x for x in self.mention(v) if x.k in ("el", "res", "wk") and self.fl.listed(x)]
    def sig(self, v):
        """shape and origin of a collected element"""
        v = peel(v)
        k = len(v.a[2]) if v.k == "agg" else 0
        return {(k, s.a[0] if s.k == "res" else s.a[1]) for s in subterms(v) if s.k in ("res", "wk") and (s.a[1] == "entry" or len(s.a) > 2 and s.a[2] == "entry")}
    def path_part(self, v):
        v = peel(v)
        for y in (v.a[2] if v.k == "agg" else (v,)):
            if any(s.k == "p" and s.a[0] == "join" or s.k == "bytes" and s.a[0] == b"/" or s.k == "el" for s in sources(self.g, y)) and y.k != "coll": return y
        return None

def line_kind(t):
    ts = []
    for x in tokens(t):
        ts.append(x)
        if len(ts) > 3: break
    if ts and ts[0][0] == "p" and ts[0][1].k == "p" and ts[0][1].a[0] == "esc": return "dir", ts[0][1]
    if len(ts) > 2 and ts[0] == ("b", 32) and ts[1] == ("b", 32) and ts[2][0] == "p" and ts[2][1].k == "p" and ts[2][1].a[0] == "esc": return "entry", ts[2][1]
    return None, None

REMOVERS = ("retain", "retain_mut", "dedup", "dedup_by", "dedup_by_key", "truncate", "drain", "split_off", "remove", "swap_remove", "clear", "resize", "splice", "extract_if", "pop_if")
FATE = ("push", "open", "link", "sub", "queue", "line")
def usage(g, which):
    """state: (items, active iterations, collections not yet iterated, worklist empty); an item is (kind, key atoms, uses, types, event)"""
    u = Use(g); out = {}; evs = {}
    def keep(e):
        return e.kind in ("coll", "br") or e.kind == "ext" and e.name.split("::")[-1] in REMOVERS and ("Vec" in e.name or "slice" in e.name) or e.kind == "next" and e.name in ("coll", "coll_back", "groups") or \
            e.kind == "fs" and e.name in ("next_entry", "open_file", "read_link", "sub_dir", "list_dir") or e.kind == "sink" and e.name == "write" and e.info == "ok"
    f = g.filtered(keep)
    def uses(i): return dict(i[2])
    def use(i, how):
        d = uses(i); d[how] = min(2, d.get(how, 0) + 1)
        return (i[0], i[1], tuple(sorted(d.items())), i[3], i[4])
    def name(i): return "entry" if i[0] == "E" else "directory" if i[0] == "P" else "queued item" if i[0] == "Q" else "collected entry"
    def closed(i):
        """None, or what went wrong with an item that is out of sight now"""
        kind, key, us, ts, ev = i; us = dict(us)
        if ts is not None and ts == frozenset((3,)): return None
        e = evs[ev]
        if kind == "Q":
            n = us.get("line", 0) + us.get("queue", 0)
            if n == 0: return ("queue/lost", "an item taken from the queue is neither written nor put back")
            if n > 1: return ("queue/twice", "an item taken from the queue is written or put back more than once")
            return None
        if kind == "P":
            n = us.get("line", 0) + us.get("queue", 0)
            if n == 0: return ("dir/noline", "a directory is visited without its line being written")
            if n > 1: return ("dir/twice", "the line of a directory is written more than once")
            return None
        if not us: return ("%s/dropped" % ("listing" if kind == "E" else "collected"), "an %s is passed over without reaching the index" % ("entry found in a directory" if kind == "E" else "entry that was collected"))
        n = us.get("line", 0) + us.get("queue", 0)
        if n > 1 or us.get("push", 0) > 1: return ("twice", "an entry is recorded more than once")
        if (us.get("open") or us.get("link")) and not n: return ("noline", "an entry is read but no line is written for it")
        return None
    def close(items, pred, e):
        keepi = []; bad = None
        for i in items:
            if pred(i):
                b = closed(i)
                if b and cat(b[0]) and bad is None: bad = Viol(b[0] + "/" + fn(evs[i[4]]), b[1] + ", taken at %s" % at(evs[i[4]]), e)
            else: keepi.append(i)
        return tuple(keepi), bad
    def cat(k):
        q = k.startswith("queue/")
        return q if which == "queue" else not q
    def new(kind, v, e, facts=None, part=None):
        key = frozenset(u.mention(part if part is not None else v))
        evs[id(e)] = e
        ts = None
        for a in key:
            t = types_of(g, e.facts, a) if a.k in ("res", "el", "wk") else None
            if t is not None: ts = frozenset(t)
        return (kind, key, (), ts, id(e))
    def sort(items): return tuple(items)
    def step(s, e):
        items, active, full = s
        if e.kind == "br" or e.kind == "fs":
            if e.facts:
                ni = []
                for i in items:
                    if i[0] in "EI" and not i[2]:
                        for a in i[1]:
                            if a.k in ("res", "el", "wk"):
                                t = types_of(g, e.facts, a)
                                if t is not None and frozenset(t) != i[3]: i = i[:3] + (frozenset(t),) + i[4:]
                    ni.append(i)
                items = tuple(ni)
            if e.kind == "br": return (items, active, full)
        bad = None
        def fin(): 
            st = (items, active, full)
            if bad is not None: bad.state = st; return bad
            return st
        if e.kind == "fs":
            if e.name == "next_entry":
                items, bad = close(items, lambda i: i[0] == "E", e)
                if e.info == "ok":
                    items += (new("E", e.args[1], e),); active |= {("list", e.site)}
                elif e.info == "end": active -= {("list", e.site)}
                return fin()
            if e.name == "list_dir": return s if not items else (items, active, full)
            if len(e.args) < 2: return (items, active, full)
            how = {"open_file": "open", "read_link": "link", "sub_dir": "sub"}[e.name]
            m = u.mention(e.args[1])
            items = tuple(use(i, how) if i[0] in "EI" and i[1] & m else i for i in items)
            return fin()
        if e.kind == "next":
            k = (e.name, e.site)
            items, bad = close(items, lambda i: i[0] == "I" and evs[i[4]].site is e.site, e)
            c = e.args[0]
            if c.k == "coll" and full:
                ss = set()
                for x in c.a[1]: ss |= u.sig(x)
                full = frozenset(x for x in full if x[0] not in ss)
            if e.info == "some":
                v = e.args[1] if len(e.args) > 1 else None
                if v is not None and u.listed(v):
                    items += (new("I", v, e),); active |= {k}
                elif c.k == "coll" and v is not None and c.a[1] and any(x.k == "agg" and x.a[2] and x.a[2][0].k in ("wk", "res") and "dir" in x.a[2][0].a for x in map(peel, c.a[1])): active |= {k}
            else: active -= {k}
            return fin()
        if e.kind == "sink":
            kind, piece = line_kind(e.args[1])
            if kind is None: return (items, active, full)
            m = u.mention(piece)
            ks = ("Q", "Q") if u.qs else ("P", "IE")
            items = tuple(use(i, "line") if i[1] & m and i[0] in ks[kind == "entry"] else i for i in items)
            return fin()
        if e.kind == "ext":
            if cat("x") and e.args and any(x.k == "coll" and any(u.listed(y) for y in x.a[1]) for x in e.args[:1]):
                return Viol("removed/" + e.name.split("::")[-1], "collected entries are removed by %s" % e.name, e, (items, active, frozenset()))
            return (items, active, full)
        # collections
        if isinstance(e.info, tuple):
            ti, how = e.info
            if ti in u.qs:
                items, bad = close(items, lambda i: i[0] == "Q", e)
                if how == "some": items += (new("Q", e.args[1], e),)
                return fin()
            if ti in u.wl:
                items, bad = close(items, lambda i: i[0] in "EIP", e)
                if bad is None: bad = left(active, full, e)
                active = frozenset(); full = frozenset()
                if how == "some":
                    pp = u.path_part(e.args[1])
                    if pp is not None: items += (new("P", e.args[1], e, part=pp),)
                return fin()
            return (items, active, full)
        if e.name in PUSH or e.name == "insert":
            v = e.args[1] if len(e.args) > 1 else None
            if v is None: return (items, active, full)
            m = u.mention(v)
            if e.info in u.qs:
                failed = find(v, lambda z: z.k == "future") and not u.listed(v) and not any(i[0] == "Q" and i[1] & m for i in items)
                items = tuple(use(i, "queue") if i[0] in "PQIE" and (i[1] & m or failed and dict(i[2]).get("open")) else i for i in items)
            else:
                items = tuple(use(i, "push") if i[1] & m and i[0] in "IE" else i for i in items)
                if e.info not in u.wl:
                    for x in u.sig(v): full |= {(x, id(e))}; evs[id(e)] = e
            return fin()
        if e.name in ("clear", "truncate", "retain", "dedup", "remove", "drain", "pop", "swap_remove") and cat("x"):
            old = e.args[-1]
            if old.k == "coll" and any(u.listed(x) for x in old.a[1]) and full:
                bad = Viol("removed/" + e.name, "collected entries are removed by %s" % e.name, e); full = frozenset()
                return fin()
        return (items, active, full)
    def left(active, full, e):
        if which == "queue": return None
        for k, site in sorted(active, key=lambda z: str(z[0])):
            return Viol("abandoned/%s" % k, "the iteration over %s is given up before its end" % ("a directory listing" if k == "list" else "collected entries"), e)
        for x, ev in full:
            return Viol("unused/%s" % fn(evs[ev]), "entries collected at %s are never handled" % at(evs[ev]), e)
        return None
    def end(s, kind, val):
        if kind != "return" or not is_ok(val): return None
        items, active, full = s
        items, bad = close(items, lambda i: True, None)
        return bad or left(active, full, None)
    qset = u.qs if which == "queue" else u.wl
    bases = {(e.args[0].a[0], e.args[0].a[1]) for e in g.events() if e.kind == "coll" and e.args and e.args[0].k == "loc" and (e.info[0] if isinstance(e.info, tuple) else e.info) in qset}
    ememo = {}
    def empties(e):
        r = ememo.get(id(e))
        if r is None:
            r = False
            for t, v in e.facts.items():
                x = t.a[0] if t.k == "ne" else t
                ps = [y for y in find(x, lambda z: z.k == "phi") if (y.a[1], y.a[2][:-1]) in bases and y.a[2][-1:] == (("sz",),)]
                if ps and all(evalt.holds(t, v, {p: k for p in ps}) is False for k in (1, 2, 3, 100, 1 << 40)): r = True
            ememo[id(e)] = r
        return r
    def step2(s, e):
        em = s[1]
        if e.kind == "coll":
            if isinstance(e.info, tuple) and e.info[0] in qset: em = e.info[1] == "none"
            elif e.info in qset: em = False
        elif e.facts and not em and empties(e): em = True
        r = step(s[0], e)
        if isinstance(r, Viol): r.state = (r.state, em); return r
        return (r, em)
    def end2(s, kind, val):
        if kind == "return" and is_ok(val) and qset and not s[1]:
            return Viol("notempty", "the %s ends while %s may be left" % (("index", "queued items") if which == "queue" else ("scan", "directories")), None)
        return end(s[0], kind, val)
    r = f.run((((), frozenset(), frozenset()), False), step2, end2)
    return r[0], r[1], r[2]

# ---------------------------------------------------------------- C09: the queue is first in, first out
def fifo(g, prop):
    u = Use(g); out = {}; n = 0; und = set()
    if not u.qs: return {}, 0, True, "no queue of background tasks found"
    f = g.filtered(lambda e: e.kind == "coll" and (e.info[0] if isinstance(e.info, tuple) else e.info) in u.qs)
    ends = {POP[e.name] for e in f.events() if e.name in POP}
    if len(ends) > 1:
        es = [e for e in f.events() if e.name in POP]
        return {"pop": ("items are taken from both ends of the queue, at %s" % ", ".join(sorted({at(e) for e in es})), [describe(e) for e in es[:4]])}, len(es), True
    if not ends: return {}, 0, True, "nothing is taken from the queue"
    out_end = list(ends)[0]
    def step(s, e):
        if isinstance(e.info, tuple): return e if e.info[1] == "some" else None
        if e.name in PUSH:
            again = s is not None and u.mention(e.args[1]) & u.mention(s.args[1])
            end_ = PUSH[e.name]
            if again and end_ != out_end: return Viol("requeue/%s" % fn(e), "an unfinished item is put back behind items that were submitted later", e, None)
            if not again and end_ == out_end: return Viol("push/%s" % fn(e), "a new item is put in front of items that were submitted earlier", e, None)
            return None if again else s
        if e.name in ("append", "insert", "swap", "rotate_left", "rotate_right", "remove", "clear", "truncate", "retain"): return Viol(e.name + "/" + fn(e), "the queue is changed by %s" % e.name, e, None)
        return s
    return f.run(None, step)

# ---------------------------------------------------------------- C27: the queue is bounded
def bounded(g, prop):
    u = Use(g)
    if not u.qs: return {}, 0, True, "no queue of background tasks found"
    bases = {(e.args[0].a[0], e.args[0].a[1]) for e in g.events() if e.kind == "coll" and e.args and e.args[0].k == "loc" and (e.info[0] if isinstance(e.info, tuple) else e.info) in u.qs}
    f = g.filtered(lambda e: e.kind == "coll" and (e.info[0] if isinstance(e.info, tuple) else e.info) in u.qs)
    memo = {}
    def grows(e):
        """a size at which the item may be put back although the queue is already full, by the facts on the path"""
        old = e.args[2]
        if old.k != "coll": return None
        sz = old.a[2]
        phs = [x for x in subterms(sz) if x.k == "phi"]
        if not phs: return None
        rel = [(t, v) for t, v in e.facts.items() if any(x in phs for x in subterms(t))]
        lims = {x for t, _ in rel for x in subterms(t) if x not in phs and x.k in ("phi", "fld", "deref", "param", "res", "wk")}
        for L in (0, 1, 4, 16):
            for S in (L + 1, L + 2, L + 3, 2 * L + 5, 1000, 1 << 40):
                env = {p: S for p in phs}; env.update({x: L for x in lims})
                z = evalt.num(sz, env)
                if z is None or z + 1 <= L: continue
                if not any(evalt.holds(t, v, env) is False for t, v in rel):
                    return "with a limit of %d the queue may hold %d items" % (L, z + 1) if lims else "the queue may hold any number of items"
        return None
    def step(s, e):
        last, pops = s
        if isinstance(e.info, tuple): return (e if e.info[1] == "some" else None, 1)
        if e.name in PUSH:
            again = last is not None and u.mention(e.args[1]) & u.mention(last.args[1])
            if again:
                if id(e) not in memo: memo[id(e)] = grows(e)
                if memo[id(e)]: return Viol("limit/%s" % fn(e), "an unfinished item is put back instead of being waited for: %s" % memo[id(e)], e, (None, 1))
                return (None, 1)
            if not pops: return Viol("unpolled/%s" % fn(e), "an item is queued although nothing was taken from the queue since the previous one", e, (None, 0))
            return (None, 0)
        return s
    return f.run((None, 1), step)

def drops(g, prop): return usage(g, "entry")
def items(g, prop): return usage(g, "queue")
