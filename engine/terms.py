"""Hash-consed terms: the abstract values of the analysis."""
_tab = {}
_n = [0]

class T:
    __slots__ = ("k", "a", "id", "_sub", "_s")
    def __repr__(self): return show(self)

def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T); t.k = k; t.a = a; _n[0] += 1; t.id = _n[0]; t._sub = None; t._s = None
        _tab[key] = t
        if k in ("res", "el", "post"): _site.setdefault(a[0], set()).add(t)
    return t

_site = {}
def site_terms(site): return _site.get(site)

def subterms(t):
    """frozenset of all opaque atoms (res/phi/post/...) inside t"""
    if t._sub is None:
        s = set()
        if t.k in ATOMS: s.add(t)
        if t.k not in ("wk", "star"): _walk(t.a, s)
        t._sub = frozenset(s)
    return t._sub

def _walk(a, s):
    for x in a:
        if isinstance(x, T): s |= subterms(x)
        elif isinstance(x, tuple): _walk(x, s)

# terms that denote "the result of executing this site", i.e. change per visit
ATOMS = {"res", "phi", "post", "heap", "wk", "param", "el", "cell"}

def strip_(o):
    """an older instance of an atom: identified by its site only"""
    if o.k == "wk": return o
    if o.k == "res": return mk("wk", "res", o.a[0], o.a[1])
    if o.k == "el": return mk("wk", "el", *o.a)
    if o.k == "post": return mk("wk", "post", o.a[0], o.a[1])
    return mk("wk", o.k, *o.a)

def walk(t, f, seen=None):
    if seen is None: seen = set()
    if t in seen: return
    seen.add(t); f(t)
    def go(a):
        for x in a:
            if isinstance(x, T): walk(x, f, seen)
            elif isinstance(x, tuple): go(x)
    go(t.a)

def find(t, pred):
    out = []
    walk(t, lambda x: out.append(x) if pred(x) else None)
    return out

def subst(t, m, memo):
    """rename atoms: m maps atom -> term.  Star bodies (patterns) are left alone."""
    if not (subterms(t) & m.keys()): return t
    r = memo.get(t)
    if r is not None: return r
    if t in m: r = m[t]
    elif t.k in ("star", "wk"): r = t
    else: r = rebuild(t.k, _subst_a(t.a, m, memo))
    memo[t] = r
    return r

def contains(t, z, memo=None):
    """is z a subterm of t?"""
    if t is z: return True
    if not (subterms(z) <= subterms(t)): return False
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = memo[t] = any(_contains_a(x, z, memo) for x in t.a)
    return r
def _contains_a(x, z, memo):
    if isinstance(x, T): return contains(x, z, memo)
    return isinstance(x, tuple) and any(_contains_a(y, z, memo) for y in x)

def replace(t, z, n):
    """t with every occurrence of z replaced by n"""
    memo = {}
    def go(x):
        if x is z: return n
        if x not in memo: memo[x] = x if not contains(x, z) or x.k in ("star", "wk") else rebuild(x.k, args(x.a))
        return memo[x]
    def args(a): return tuple(go(x) if isinstance(x, T) else args(x) if isinstance(x, tuple) else x for x in a)
    return go(t)

def _subst_a(a, m, memo):
    out = []
    for x in a:
        if isinstance(x, T): out.append(subst(x, m, memo))
        elif isinstance(x, tuple): out.append(_subst_a(x, m, memo))
        else: out.append(x)
    return tuple(out)

def rebuild(k, a):
    if k == "coll":
        return coll(a[0], a[1], a[2], a[3])
    if k == "cat": return cat(*a[0])
    if k == "slice": return sl(*a)
    if k == "ce": return ce(*a)
    if k == "len": return lenof(*a)
    if k == "p" and a[0] in ("field", "tail", "has_sep", "starts_with", "ends_with") and a[1][0] is EMPTY:
        if a[0] in ("field", "tail"): return EMPTY
        if a[0] == "has_sep" or a[1][1].k == "bytes" and a[1][1].a[0]: return B(0)
    return mk(k, *a)

# ---- constructors -------------------------------------------------------
def I(n): return mk("int", int(n))
def B(b): return mk("bool", 1 if b else 0)
def BY(b): return mk("bytes", bytes(b))
UNIT = mk("agg", "tuple", 0, ())
def agg(ty, var, fs): return mk("agg", ty, var, tuple(fs))
def ref(base, path=()): return mk("ref", base, tuple(path))
def coll(kind, elems, size, attrs=()):
    """collection: element set (order is not tracked), size term, attributes"""
    return mk("coll", kind, tuple(sorted(set(elems), key=lambda t: t.id)), size, tuple(attrs))
def ce(v, facts=()): return mk("ce", v, tuple(sorted(facts, key=lambda f: f[0].id))) if facts else v
def unce_(v): return (v.a[0], v.a[1]) if v.k == "ce" else (v, ())
unce = unce_
def pure(name, *a): return mk("p", name, tuple(a))

def is_const(t): return t.k in ("int", "bool", "bytes")

def show(t, depth=12):
    if not isinstance(t, T): return repr(t)
    if depth == 0: return "…"
    k, a = t.k, t.a
    def s(x): return show(x, depth - 1)
    if k == "site": return "%s:%s%s" % (ctxname(a[0]), a[1], "" if len(a) > 2 and a[2] == "c" else "." + str(a[2]))
    if k == "ctx": return ctxname(t)
    if k == "int": return str(a[0])
    if k == "bool": return "true" if a[0] else "false"
    if k == "bytes": return repr(a[0])[1:]
    if k == "agg": return "%s#%s(%s)" % (a[0], a[1], ", ".join(map(s, a[2])))
    if k == "ref": return "&" + s(a[0]) + "".join("." + pth(x, depth) for x in a[1])
    if k == "p": return "%s(%s)" % (a[0], ", ".join(map(s, a[1])))
    if k == "op": return "%s(%s)" % (a[0], ", ".join(map(s, a[1:])))
    if k == "res": return "%s@%s(%s)" % (a[1], a[0], ", ".join(map(s, a[2])))
    if k == "fld": return "%s.%s%s" % (s(a[0]), ("v%s." % a[1]) if a[1] is not None else "", a[2])
    if k == "cat": return "[" + " ".join(map(s, a[0])) + "]"
    if k == "coll": return "%s{%s}" % (a[0], ", ".join(map(s, a[1])))
    return "%s(%s)" % (k, ", ".join(s(x) if isinstance(x, T) else ("(" + ", ".join(show(y, depth - 1) for y in x) + ")" if isinstance(x, tuple) else str(x)) for x in a))

_cn = {}
def ctxname(c):
    """short readable name of a call context"""
    if not isinstance(c, T): return str(c)
    n = _cn.get(c)
    if n is None:
        key = str(c.a[-1])
        f = key.split("[")[0].rstrip(":<").split("::")
        f = "::".join(x for x in f if x)[-40:].split("::")
        base = "::".join(f[-2:]) if f[-1].startswith("{") else f[-1]
        i = sum(1 for x in _cn.values() if x.rsplit("~", 1)[0] == base)
        n = base + "~%d" % i
        _cn[c] = n
    return n

def pth(p, depth=6):
    return ":".join(show(x, depth) if isinstance(x, T) else str(x) for x in p)

# ---- text / byte sequences ----------------------------------------------
def cat(*parts):
    """concatenation, flattened, adjacent literals merged"""
    out = []
    def add(x):
        if x.k == "cat":
            for y in x.a[0]: add(y)
            return
        if x.k == "bytes":
            if not x.a[0]: return
            if out and out[-1].k == "bytes":
                out[-1] = BY(out[-1].a[0] + x.a[0]); return
        if x.k == "star" and out and out[-1] is x: return
        out.append(x)
    for p in parts: add(p)
    return mk("cat", tuple(out))
EMPTY = cat()
def text(parts):
    c = cat(*parts)
    if len(c.a[0]) == 1: return c.a[0][0]
    return c
def lenof(v):
    if v.k == "bytes": return I(len(v.a[0]))
    if v is EMPTY: return I(0)
    if v.k == "agg" and v.a[0] == "array": return I(len(v.a[2]))
    if v.k == "rep": return I(v.a[1]) if isinstance(v.a[1], int) else v.a[1]
    if v.k == "deref" and v.a[0].k in ("param", "phi"): return lenof(v.a[0])
    if v.k == "stores": return lenof(v.a[0])
    if v.k == "upd" and all(kk[0] == "el" for kk, _ in v.a[1]): return lenof(v.a[0])
    if v.k == "zeros": return v.a[0]
    if v.k == "coll": return v.a[2]
    if v.k == "buf": return v.a[1]
    if v.k == "ovl": return lenof(v.a[0])
    if v.k == "byte": return I(1)
    if v.k == "slice": return sub(v.a[2], v.a[1])
    if v.k == "p" and v.a[0] == "digest":
        try: return I(int(v.a[1][0].a[0].split(b"/")[-1]) // 8)
        except ValueError: pass
    if v.k == "cat":
        t = None
        if all(p.k in ("bytes", "byte", "slice") for p in v.a[0]):
            for p in v.a[0]: t = lenof(p) if t is None else add(t, lenof(p))
            return t
    return mk("len", v)

def add(a, b):
    if a.k == "int" and b.k == "int": return I(a.a[0] + b.a[0])
    if b.k == "int" and b.a[0] == 0: return a
    if a.k == "int" and a.a[0] == 0: return b
    if a.k == "int" or (b.k != "int" and a.id > b.id): a, b = b, a
    if b.k == "int" and a.k == "op" and a.a[0] == "Add" and a.a[2].k == "int": return mk("op", "Add", a.a[1], I(a.a[2].a[0] + b.a[0]))
    return mk("op", "Add", a, b)
def sub(a, b):
    if a is b: return I(0)
    if a.k == "int" and b.k == "int" and a.a[0] >= b.a[0]: return I(a.a[0] - b.a[0])
    if b.k == "int" and b.a[0] == 0: return a
    if b.k == "int" and a.k == "op" and a.a[0] == "Add" and a.a[2].k == "int" and a.a[2].a[0] >= b.a[0]: return add(a.a[1], I(a.a[2].a[0] - b.a[0]))
    return mk("op", "Sub", a, b)

def field_bound(v, lo, hi):
    """v cut at its first separator is its first field or what follows it"""
    hv = v
    if v.k == "deref" and v.a[0].k == "phi": v = v.a[0]
    if lo.k == "int" and lo.a[0] == 0 and hi.k == "len" and hi.a[0].k == "p" and hi.a[0].a[0] == "field" and hi.a[0].a[1][0] is v: return hi.a[0]
    if hi in (lenof(v), lenof(hv)) and lo.k == "op" and lo.a[0] == "Add" and len(lo.a) == 3:
        for a, b in ((lo.a[1], lo.a[2]), (lo.a[2], lo.a[1])):
            if b.k == "int" and b.a[0] == 1 and a.k == "len" and a.a[0].k == "p" and a.a[0].a[0] == "field" and a.a[0].a[1][0] is v: return mk("p", "tail", a.a[0].a[1])
    return None

def sl(v, lo, hi):
    """the bytes lo..hi of v"""
    if lo.k == "int" and lo.a[0] == 0 and hi is lenof(v): return v
    if lo is hi: return EMPTY
    f = field_bound(v, lo, hi)
    if f is not None: return f
    if v.k == "slice": return sl(v.a[0], add(v.a[1], lo), add(v.a[1], hi))
    if lo.k == "int" and hi.k == "int" and lo.a[0] <= hi.a[0]:
        if v.k == "bytes" and hi.a[0] <= len(v.a[0]):
            b = v.a[0][lo.a[0]:hi.a[0]]
            return BY(b) if b else EMPTY
        if v.k == "agg" and v.a[0] == "array" and hi.a[0] <= len(v.a[2]): return mk("agg", "array", 0, v.a[2][lo.a[0]:hi.a[0]])
    return mk("slice", v, lo, hi)

def pieces(t):
    return t.a[0] if t.k == "cat" else (t,) if not (t.k == "bytes" and not t.a[0]) else ()
