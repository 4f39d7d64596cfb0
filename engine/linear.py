"""A small linear-inequality domain over the integer terms of a state.

Every fact `a <= b` / `a < b` / `a == b` of a state, and the inherent bounds of
the terms involved (lengths, divisions, remainders, minima, bytes), become
rational constraints; entailment is decided by Fourier-Motzkin elimination.
Machine terms are read as mathematical integers, which is justified because
every arithmetic operation of the analysed code is overflow-checked (the MIR
is exported with overflow checks on, and a failing check is a `panic` edge).
"""
from fractions import Fraction
from terms import *

MAX = {"u8": 255, "u16": 65535, "u32": (1 << 32) - 1, "u64": (1 << 64) - 1, "usize": (1 << 64) - 1,
       "i64": (1 << 63) - 1, "isize": (1 << 63) - 1, "i32": (1 << 31) - 1, "u128": (1 << 128) - 1, "char": 0x10ffff}

class Lin:
    __slots__ = ("c", "k")
    def __init__(self, c=None, k=0): self.c = c or {}; self.k = k
    def add(self, o, s=1):
        c = dict(self.c)
        for a, x in o.c.items():
            v = c.get(a, 0) + s * x
            if v: c[a] = v
            else: c.pop(a, None)
        return Lin(c, self.k + s * o.k)
    def scale(self, s): return Lin({a: x * s for a, x in self.c.items()} if s else {}, self.k * s)

def lin(t):
    k = t.k
    if k in ("int", "bool"): return Lin({}, t.a[0])
    if k == "op":
        o = t.a[0]
        if o == "Add": return lin(t.a[1]).add(lin(t.a[2]))
        if o == "Sub": return lin(t.a[1]).add(lin(t.a[2]), -1)
        if o == "Mul":
            x, y = lin(t.a[1]), lin(t.a[2])
            if not y.c: return x.scale(y.k)
            if not x.c: return y.scale(x.k)
        if o == "Shl" and t.a[2].k == "int": return lin(t.a[1]).scale(1 << t.a[2].a[0])
    if k == "len":
        v = t.a[0]
        if v.k == "slice": return lin(v.a[2]).add(lin(v.a[1]), -1)
        if v.k == "cat":
            r = Lin()
            for p in v.a[0]:
                if p.k == "bytes": r = r.add(Lin({}, len(p.a[0])))
                else: r = r.add(lin(lenof_(p)) if lenof_(p).k != "len" else Lin({mk("len", p): 1}))
            return r
        if v.k in ("stores", "ovl"): return lin(lenof_(v.a[0]))
        if v.k == "buf": return lin(v.a[1])
        if v.k == "init": return lin(lenof_(v.a[0])).add(Lin({}, -1))
    return Lin({t: 1})

def lenof_(v):
    import core
    return core.lenof(v)

def axioms(eng, st, a):
    """constraints e <= 0 that always hold for atom a (as Lin), plus new atoms"""
    out = []
    out.append(Lin({a: -1}))                                  # a >= 0
    if a.k == "len": out.append(Lin({a: 1}, -((1 << 63) - 1)))
    tn = eng.tty.get(a)
    if tn in MAX: out.append(Lin({a: 1}, -MAX[tn]))
    if a.k == "op":
        o = a.a[0]
        if o == "Div":
            x, y = lin(a.a[1]), lin(a.a[2])
            if not y.c and y.k > 0:
                out.append(Lin({a: y.k}).add(x, -1))           # q*c <= x
                out.append(x.add(Lin({a: y.k}), -1).add(Lin({}, 1 - y.k)))
            else:
                out.append(Lin({a: 1}).add(x, -1))
                if at_least_two(eng, st, a.a[1], a.a[2], y): out.append(Lin({a: 2}).add(x, -1))
        elif o == "Rem":
            x, y = lin(a.a[1]), lin(a.a[2])
            out.append(Lin({a: 1}).add(x, -1))
            out.append(Lin({a: 1}, 1).add(y, -1))
        elif o == "BitAnd":
            for z in a.a[1:]: out.append(Lin({a: 1}).add(lin(z), -1))
        elif o == "Shr" and a.a[2].k == "int":
            c = 1 << a.a[2].a[0]; x = lin(a.a[1])
            out.append(Lin({a: c}).add(x, -1)); out.append(x.add(Lin({a: c}), -1).add(Lin({}, 1 - c)))
        elif o == "BitOr":
            out.append(Lin({a: 1}).add(lin(a.a[1]), -1).add(lin(a.a[2]), -1))
    if a.k == "p":
        o = a.a[0]; xs = a.a[1]
        if o == "min":
            for z in xs: out.append(Lin({a: 1}).add(lin(z), -1))
        elif o == "max":
            for z in xs: out.append(lin(z).add(Lin({a: 1}), -1))
        elif o == "satsub":
            out.append(Lin({a: 1}).add(lin(xs[0]), -1)); out.append(lin(xs[0]).add(lin(xs[1]), -1).add(Lin({a: 1}), -1))
    if a.k == "len":
        v = a.a[0]
        for e in eng.models.len_axioms(eng, st, v, a): out.append(e)
    return out

BUSY = []
def at_least_two(eng, st, u, v, y):
    """is the divisor at least 2?  a remainder above zero shows it"""
    if BUSY: return False
    BUSY.append(1)
    try:
        neg = y.add(Lin({}, -1)); seeds = [neg]
        r = mk("op", "Rem", u, v)
        for t in st.facts:
            if t is r or t.k == "op" and r in t.a[1:] or t.k == "ne" and t.a[0] is r: seeds.append(Lin({r: 1})); break
        return infeasible(gather(eng, st, seeds) + [neg])
    finally: BUSY.pop()

def fact_lins(t, val):
    if t.k == "op" and t.a[0] in ("Lt", "Le"):
        x, y = lin(t.a[1]), lin(t.a[2])
        if val == 1: return [x.add(y, -1).add(Lin({}, 1 if t.a[0] == "Lt" else 0))]
        if val == 0: return [y.add(x, -1).add(Lin({}, 0 if t.a[0] == "Lt" else 1))]
    elif t.k == "op" and t.a[0] == "Eq" and val == 1:
        d = lin(t.a[1]).add(lin(t.a[2]), -1); return [d, d.scale(-1)]
    elif t.k == "op" and t.a[0] == "Eq" and val == 0 and I(0) in t.a[1:]:
        x = t.a[2] if t.a[1] is I(0) else t.a[1]
        if x.k in ("op", "len", "fld", "phi", "p") and not (x.k == "op" and x.a[0] in ("Sub", "Neg", "Cmp")): return [lin(x).scale(-1).add(Lin({}, 1))]
    elif t.k not in ("disc", "ne", "op") and isinstance(val, int) and not isinstance(val, bool) and t.k in ("len", "res", "fld", "phi", "p", "wk", "param", "elem", "cast", "deref", "el"):
        d = lin(t).add(Lin({}, -val)); return [d, d.scale(-1)]
    elif t.k == "op" and isinstance(val, int) and t.a[0] in ("Rem", "Div", "Add", "Sub", "Mul", "BitAnd", "Shr"):
        d = lin(t).add(Lin({}, -val)); return [d, d.scale(-1)]
    elif t.k == "ne" and isinstance(val, frozenset) and 0 in val and t.a[0].k != "disc":
        return [lin(t.a[0]).scale(-1).add(Lin({}, 1))]       # unsigned and != 0
    return []

def gather(eng, st, seeds):
    """facts and axioms connected with the seed constraints"""
    pool = []
    for t, v in st.facts.items():
        for l in fact_lins(t, v): pool.append(l)
    cons = []; atoms = set(); todo = set()
    for s in seeds: todo |= set(s.c)
    used = [False] * len(pool); rounds = 0
    while todo and rounds < 6:
        rounds += 1
        new = set()
        for a in todo:
            if a in atoms: continue
            atoms.add(a)
            for l in axioms(eng, st, a):
                cons.append(l); new |= set(l.c)
        for i, l in enumerate(pool):
            if not used[i] and (set(l.c) & atoms):
                used[i] = True; cons.append(l); new |= set(l.c)
        todo = new - atoms
        if len(cons) > 160: break
    return cons

def infeasible(cons):
    """True if the constraints (each `e <= 0`) have no rational solution"""
    cs = []
    seen = set()
    for l in cons:
        key = (frozenset(l.c.items()), l.k)
        if key in seen: continue
        seen.add(key)
        if not l.c:
            if l.k > 0: return True
            continue
        cs.append(l)
    while True:
        atoms = {}
        for l in cs:
            for a, x in l.c.items():
                p = atoms.setdefault(a, [0, 0]); p[0 if x > 0 else 1] += 1
        if not atoms: return False
        a = min(atoms, key=lambda z: (atoms[z][0] * atoms[z][1] - atoms[z][0] - atoms[z][1], z.id))
        pos = [l for l in cs if l.c.get(a, 0) > 0]; neg = [l for l in cs if l.c.get(a, 0) < 0]
        rest = [l for l in cs if a not in l.c]
        if len(pos) * len(neg) > 400: return False
        best = {}
        def put(l):
            if not l.c:
                return l.k > 0
            g = min(abs(x) for x in l.c.values())
            f = tuple(sorted(((b.id, Fraction(x, g)) for b, x in l.c.items())))
            kk = Fraction(l.k, g)
            if f not in best or best[f][0] < kk: best[f] = (kk, l)
            return False
        for l in rest:
            if put(l): return True
        for p in pos:
            for n in neg:
                l = p.scale(-n.c[a]).add(n.scale(p.c[a]))
                l.c.pop(a, None)
                if put(l): return True
        cs = [l for _, l in best.values()]
        if len(cs) > 500: return False

def prove_le0(eng, st, e):
    """is e <= 0 in every concretisation of st?"""
    if not e.c: return e.k <= 0
    neg = e.scale(-1).add(Lin({}, 1))                          # e >= 1
    return infeasible(gather(eng, st, [neg]) + [neg])

def prove(eng, st, t, val=1):
    """is comparison term t == val implied?"""
    if t.k in ("int", "bool"): return t.a[0] == val
    if t.k != "op": return False
    o = t.a[0]
    if o in ("Lt", "Le", "Eq", "Ne"):
        x, y = lin(t.a[1]), lin(t.a[2]); d = x.add(y, -1)
        if o == "Ne": o, val = "Eq", 1 - val
        if o == "Eq":
            if val == 1: return prove_le0(eng, st, d) and prove_le0(eng, st, d.scale(-1))
            one = Lin({}, 1)
            return prove_le0(eng, st, d.add(one)) or prove_le0(eng, st, d.scale(-1).add(one))
        if val == 1: return prove_le0(eng, st, d.add(Lin({}, 1 if o == "Lt" else 0)))
        return prove_le0(eng, st, d.scale(-1).add(Lin({}, 0 if o == "Lt" else 1)))
    return False

NUMERIC = {"len", "phi", "op", "int", "param", "res", "p", "fld", "elem", "cast", "wk", "deref", "el"}

def consistent(eng, st, t, val):
    """quick refutation of a newly assumed comparison"""
    if t.k == "op" and t.a[0] in ("Lt", "Le"):
        s = fact_lins(t, val)
        return not infeasible(gather(eng, st, s) + s)
    if (t.k == "op" and t.a[0] == "Eq" and t.a[1].k in ("op", "len", "p") and val == 1) or t.k == "len":
        s = fact_lins(t, val)
        if s: return not infeasible(gather(eng, st, s) + s)
    return True
