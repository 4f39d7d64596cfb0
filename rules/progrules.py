"""C28: the progress wrapper delegates every call unchanged."""
from terms import *
from graph import Viol, fn, chain, strip_key
import text

def trait_ty(path):
    if path.startswith("<dir_signature::") and " as dir_signature::" in path:
        ty, _, r = path[1:].partition(" as dir_signature::")
        if ">::" in r: return ty.split("<")[0] + "|" + r.split(">::")[0].split("<")[0]
    return None

def wrappers(g):
    """types whose implementation of a trait of the crate calls the same trait on another type"""
    out = set()
    for e in g.events():
        if e.kind != "call": continue
        for k, _ in chain(e):
            t = trait_ty(strip_key(k))
            if t and t != e.info and t.split("|")[1] == e.info.split("|")[1]: out.add(t)
            if t: break
    return out

PURE = ("get_hash",)
def owner(e, W):
    """the innermost traced frame of an event"""
    for k, _ in chain(e):
        t = trait_ty(strip_key(k))
        if t: return t
    return None

def delegate(g, pid):
    W = wrappers(g)
    if not W: return {}, 0, True, None if g.opt_progress == 0 else "no progress wrapper found"
    tr = {w.split("|")[1] for w in W}
    f = g.filtered(lambda e: e.kind in ("call", "ret") and e.info.split("|")[1] in tr or e.kind == "sink" or e.kind in ("stderr", "panic") or e.kind == "ext" and e.name.endswith("_eprint"))
    # state: stack of ("w", type, method, args, ((method, outcome)...)) and ("i", type, method) and a depth below an inner call
    def step(s, e):
        if e.kind == "call":
            if s and s[-1][0] == "i": return s[:-1] + (("i", s[-1][1] + 1),)
            if e.info in W: return s + (("w", e.info, e.name, e.args, ()),)
            if not s: return s + (("o", 1),)
            if s[-1][0] == "o": return s[:-1] + (("o", s[-1][1] + 1),)
            top = s[-1]; m, args, done = top[2:]
            if e.name in PURE: return s + (("i", 1),)
            prev = [x for x, _ in done]
            if e.name != m: return Viol("%s/other/%s" % (m, e.name), "the progress wrapper's %s calls %s of the writer" % (m, e.name), e, None)
            if m in prev: return Viol("%s/twice" % m, "the progress wrapper's %s calls the writer twice" % m, e, None)
            for x, y in zip(args[1:], e.args[1:]):
                if x is not y and not same(x, y): return Viol("%s/args" % m, "the progress wrapper's %s passes %s on instead of %s" % (m, show(y, 5)[:100], show(x, 5)[:100]), e, None)
            return s + (("i", 1),)
        if e.kind == "ret":
            if not s: return s
            top = s[-1]
            if top[0] in ("o", "i") and top[1] > 1: return s[:-1] + ((top[0], top[1] - 1),)
            if top[0] == "o": return s[:-1]
            if top[0] == "i":
                w = s[-2]
                v = e.args[0]
                return s[:-2] + (w[:4] + (w[4] + ((e.name, v if text.is_err(v) else 0 if text.is_ok(v) else 1),),),)
            _, ty, m, args, done = top
            v = e.args[0]
            errs = [x for _, x in done if isinstance(x, T)]
            if m not in PURE and not errs and m not in [x for x, _ in done]:
                if text.is_ok(v): return Viol("%s/dropped" % m, "the progress wrapper's %s succeeds without calling the writer" % m, e, None)
                return Viol("%s/error" % m, "the progress wrapper's %s fails without calling the writer" % m, e, None)
            if errs:
                if text.is_ok(v): return Viol("%s/swallowed" % m, "the progress wrapper's %s succeeds although the writer failed" % m, e, None)
                if text.is_err(v) and v.a[2][0] is not errs[-1].a[2][0] and all(r.k == "agg" for r in (v.a[2][0], errs[-1].a[2][0])):
                    return Viol("%s/changed" % m, "the progress wrapper's %s turns the writer's error %s into %s" % (m, show(errs[-1], 4)[:80], show(v, 4)[:80]), e, None)
            elif text.is_err(v) and not any(x == 1 for _, x in done):
                return Viol("%s/failed" % m, "the progress wrapper's %s fails although the writer succeeded: %s" % (m, show(v, 5)[:100]), e, None)
            r = s[:-1]
            if r and r[-1][0] == "w": r = r[:-1] + (r[-1][:4] + (r[-1][4] + tuple(x for x in done if x[0] not in PURE or isinstance(x[1], T)),),)
            return r
        if s and s[-1][0] == "w":
            m = s[-1][2]
            if e.kind == "sink": return Viol("%s/sink" % m, "the progress wrapper's %s itself uses the index destination" % m, e, None)
            if e.kind == "ext": return Viol("%s/eprint" % m, "progress is printed with a macro that panics when standard error cannot be written", e, None)
            if e.kind == "panic" and "overflow" not in str(e.name) and "overflow" not in str(e.info): return Viol("%s/panic" % m, "the progress wrapper's %s can panic (%s %s)" % (m, e.name, ", ".join(show(a, 4)[:60] for a in e.args)), e, None)
        return s
    o = f.run((), step)
    return o[0], o[1], o[2], None

def same(x, y):
    """equal up to the moves of a value"""
    return False
