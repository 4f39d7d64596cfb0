"""Path-sensitive abstract interpretation of exported MIR.

Abstract states map locations to provenance terms (terms.py); calls into the
crate (and into the simple std combinators that were exported with it) are
inlined, so the result does not depend on how the code is cut into functions;
every other call is an *event*.  At loop heads states are joined and differing
values replaced by phi terms.  The result is a finite graph whose edges carry
events; the rules are queries over that graph.
"""
import hashlib, heapq
from terms import *
import linear

class Frame:
    __slots__ = ("ctx", "body", "ret", "parent", "depth", "mark", "pos")
_frames = {}
def frame(ctx, body, ret, parent, mark=None, blk=0):
    k = (ctx, id(ret) if not isinstance(ret, tuple) else ret, mark, id(parent))
    f = _frames.get(k)
    if f is None:
        f = Frame(); f.ctx = ctx; f.body = body; f.ret = ret; f.parent = parent; f.mark = mark
        f.depth = parent.depth + 1 if parent else 0
        f.pos = parent.pos + (parent.body.order[blk],) if parent else ()
        _frames[k] = f
    return f

class St:
    __slots__ = ("mem", "facts")
    def __init__(self, mem=None, facts=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
    def copy(self): return St(dict(self.mem), self.facts)

class Ev:
    __slots__ = ("kind", "name", "args", "res", "span", "fn", "facts", "site", "st", "info")
    def __init__(self, kind, name, args, res, span, fn, facts, site, info=None):
        self.kind = kind; self.name = name; self.args = args; self.res = res; self.span = span
        self.fn = fn; self.facts = facts; self.site = site; self.info = info
    def __repr__(self):
        return "%s %s(%s)%s  @%s:%s in %s" % (self.kind, self.name, ", ".join(map(show, self.args)),
            (" -> " + show(self.res)) if self.res is not None else "", self.span[0] if self.span else "?", self.span[1] if self.span else "?", self.fn)

class Node:
    __slots__ = ("id", "frame", "block", "st", "succ", "alias", "kind", "val", "done")
    def __init__(self, i, frame, block, st):
        self.id = i; self.frame = frame; self.block = block; self.st = st; self.succ = []; self.alias = None
        self.kind = None; self.val = None; self.done = False

class Stop(Exception): pass
class Unsupported(Exception): pass

MAXNODES = 400000
MAXPART = 32

class Engine:
    def __init__(self, prog, models, opts=None):
        self.p = prog; self.models = models; self.opts = opts or {}; self._tr = {}
        self.nodes = []; self.memo = {}; self.parts = {}; self.phis = {}; self.site_atoms = {}
        self.work = []; self.inlined = {}; self.unknown = {}; self.calls = 0; self.blocks = 0
        self.wcount = {}; self.el_src = {}; self.disc_dom = {}; self.notes = []; self.widened = 0; self.recursion = []; self.tty = {}; self.events = 0

    # ------------------------------------------------------------ memory
    def default(self, base):
        if base.k == "C": return base.a[0]
        if base.k == "D": return mk("deref", base.a[0])
        if base.k == "S": return mk("static", base.a[0])
        return mk("uninit", base)

    def get(self, st, base):
        v = st.mem.get(base)
        return self.default(base) if v is None else v

    def project(self, v, p):
        k = p[0]
        if k == "f":
            i = p[1]
            if v.k == "agg":
                return v.a[2][i] if i < len(v.a[2]) else mk("uninit", v)
            if v.k == "upd":
                for kk, x in v.a[1]:
                    if kk == p: return x
                return self.project(v.a[0], p)
            if v.k == "dc": return mk("fld", v.a[0], v.a[1], i)
            if v.k in ("box", "dyn"): return v
            return mk("fld", v, None, i)
        if k == "v":
            if v.k == "agg": return v
            if v.k == "upd":
                for kk, x in v.a[1]:
                    if kk == p: return x
                return mk("dc", v.a[0], p[1])
            return mk("dc", v, p[1])
        if k in ("i", "el") and v.k == "upd" and self.opts.get("elemupd"):
            for kk, x in v.a[1]:
                if kk[0] == "el" and kk[1] is p[1]: return x
            if any(kk[0] == "el" for kk, x in v.a[1]): return mk("elem", v, p[1])
        if k == "i": return self.elem(v, p[1])
        if k == "ci":
            if p[3]: return self.elem(v, sub(lenof(v), I(p[1])))
            return self.elem(v, I(p[1]))
        if k == "rng": return sl(v, p[1], p[2])
        if k == "ss":
            return sl(v, I(p[1]), sub(lenof(v), I(p[2])) if p[3] else I(p[2]))
        if k == "el": return mk("elem", v, p[1])
        return mk("proj", v, str(p))

    def elem(self, v, i):
        if v.k == "bytes" and i.k == "int" and i.a[0] < len(v.a[0]): return I(v.a[0][i.a[0]])
        if v.k == "agg" and v.a[0] == "array" and i.k == "int" and i.a[0] < len(v.a[2]): return v.a[2][i.a[0]]
        if v.k == "byte" and i.k == "int" and i.a[0] == 0: return v.a[0]
        if v.k == "slice": return self.elem(v.a[0], add(v.a[1], i))
        if v.k == "coll" and len(v.a[1]) == 1: return unce(v.a[1][0])[0]
        if v.k == "rep": return v.a[0]
        return mk("elem", v, i)

    def update(self, v, path, x, site):
        if not path: return x
        p = path[0]
        if p[0] == "v":
            if v.k == "agg": return self.update(v, path[1:], x, site)
            if len(path) > 1 and path[1][0] == "f":
                # write to a field of a variant of an opaque enum
                inner = self.update(mk("dc", v, p[1]), path[1:], x, site)
                return self._upd(v, p, inner)
        if p[0] == "f":
            if v.k == "agg":
                fs = list(v.a[2]); i = p[1]
                while len(fs) <= i: fs.append(mk("uninit", v))
                fs[i] = self.update(fs[i], path[1:], x, site)
                return mk("agg", v.a[0], v.a[1], tuple(fs))
            if v.k == "box": return v
            old = self.project(v, p)
            return self._upd(v, p, self.update(old, path[1:], x, site))
        if p[0] in ("i", "ci", "el"):
            # element store: weak
            if v.k == "coll":
                els = v.a[1]
                nx = [self.update(e, path[1:], x, site) for e in els] or [x]
                return coll(v.a[0], list(els) + nx, v.a[2], v.a[3])
            if len(path) == 1:
                if self.opts.get("unroll") and p[0] != "el":
                    i = I(p[1]) if isinstance(p[1], int) else p[1]
                    if v.k == "bytes" and len(v.a[0]) <= 256: v = mk("agg", "array", 0, tuple(I(b) for b in v.a[0]))
                    if v.k == "rep" and isinstance(v.a[1], int) and v.a[1] <= 256: v = mk("agg", "array", 0, (v.a[0],) * v.a[1])
                    if v.k == "agg" and v.a[0] == "array" and i.k == "int" and i.a[0] < len(v.a[2]):
                        return mk("agg", "array", 0, v.a[2][:i.a[0]] + (x,) + v.a[2][i.a[0] + 1:])
                if v.k == "stores":
                    return mk("stores", v.a[0], tuple(sorted(set(v.a[1]) | {(x)}, key=lambda t: t.id)))
                return mk("stores", v, (x,))
            if self.opts.get("elemupd") and p[0] != "ci" and isinstance(p[1], T) and (v.k != "upd" or all(kk == ("el", p[1]) for kk, _ in v.a[1])):
                # strong update of the one element with this index; reading another one gives an element of the updated collection
                return self._upd(v, ("el", p[1]), self.update(self.project(v, ("el", p[1])), path[1:], x, site))
            return mk("post", site, "idx")
        return mk("post", site, "w")

    def _upd(self, v, p, x):
        if v.k == "upd":
            d = dict(v.a[1]); d[p] = x
            return mk("upd", v.a[0], tuple(sorted(d.items(), key=lambda kv: str(kv[0]))))
        return mk("upd", v, ((p, x),))

    def load(self, st, base, path):
        v = self.get(st, base)
        for p in path: v = self.project(v, p)
        return v

    def store(self, st, base, path, x, site=None):
        if not path: st.mem[base] = x
        else: st.mem[base] = self.update(self.get(st, base), path, x, site)

    def target(self, v):
        """location a pointer value points to"""
        if v.k == "ref": return v.a[0], v.a[1]
        if v.k == "dyn": return self.target(v.a[0])
        if v.k == "box": return v.a[0], ()
        if v.k == "fld" and v.a[0].k in ("box",): return v.a[0].a[0], ()
        return mk("D", v), ()

    def deref(self, st, v):
        b, p = self.target(v)
        return self.load(st, b, p)

    def content(self, st, v, depth=0, memo=None):
        """value with every reference replaced by what it points to"""
        if memo is None: memo = {}
        if v in memo: return memo[v]
        if depth > 40: return v
        k = v.k
        if k == "ref":
            r = self.content(st, self.load(st, v.a[0], v.a[1]), depth + 1, memo)
        elif k == "box":
            r = self.content(st, self.get(st, v.a[0]), depth + 1, memo)
        elif k == "dyn":
            r = self.content(st, v.a[0], depth + 1, memo)
        elif k == "agg":
            r = mk("agg", v.a[0], v.a[1], tuple(self.content(st, x, depth + 1, memo) for x in v.a[2]))
        elif k == "coll":
            r = coll(v.a[0], [self.content(st, x, depth + 1, memo) for x in v.a[1]], v.a[2], v.a[3])
        elif k == "ce":
            r = mk("ce", self.content(st, v.a[0], depth + 1, memo), v.a[1])
        elif k == "upd":
            r = mk("upd", self.content(st, v.a[0], depth + 1, memo), tuple((p, self.content(st, x, depth + 1, memo)) for p, x in v.a[1]))
        elif k == "it":
            r = mk("it", v.a[0], *[self.content(st, x, depth + 1, memo) if isinstance(x, T) else x for x in v.a[1:]])
        elif k == "deref":
            r = self.content(st, v.a[0], depth + 1, memo) if v.a[0].k in ("ref", "box") else v
        elif k in ("op", "cast", "fld", "dc", "future"):
            r = mk(k, *[self.content(st, x, depth + 1, memo) if isinstance(x, T) else x for x in v.a])
        elif k == "p":
            r = mk("p", v.a[0], tuple(self.content(st, x, depth + 1, memo) for x in v.a[1]))
        else:
            r = v
        memo[v] = r
        return r

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        base, path = mk("L", fr.ctx, pl["l"]), ()
        for e in pl["p"]:
            k = e[0]
            if k == "d":
                v = self.load(st, base, path)
                base, path = self.target(v)
            elif k == "f": path = path + (("f", e[1]),)
            elif k == "v": path = path + (("v", e[1]),)
            elif k == "i":
                path = path + (("i", self.content(st, self.get(st, mk("L", fr.ctx, e[1])))),)
            elif k == "ci": path = path + (("ci", e[1], e[2], bool(e[3])),)
            elif k == "ss": path = path + (("ss", e[1], e[2], bool(e[3])),)
            else: path = path + (("?", str(e)),)
        return base, path

    def place_ty(self, fr, pl):
        t = fr.body.locals[pl["l"]]
        for e in pl["p"]:
            ty = self.p.ty(t)
            if e[0] == "f": t = e[3]
            elif e[0] == "d":
                if "to" in ty: t = ty["to"]
                elif ty.get("k") == "adt" and ty["args"]: t = ty["args"][0]
                else: return None
            elif e[0] in ("i", "ci"): t = ty.get("to")
            elif e[0] == "ss": pass
            if t is None: return None
        return t

    def op_ty(self, fr, op):
        if op["k"] in ("copy", "move"): return self.place_ty(fr, op["pl"])
        return op.get("ty")

    # ------------------------------------------------------------ consts
    def const(self, c):
        ti = c["ty"]; ty = self.p.ty(ti); k = ty["k"]
        if k == "fndef": return mk("fn", ti)
        if "variant" in c and ty.get("v"):
            return agg(self.adt_tag(ti), c["variant"], [self.const(f) for f in c["fields"]])
        if "bits" in c: return self.scalar(ti, c["bits"], c.get("s"))
        if "bytes" in c: return ref(mk("C", bytesv(bytes(c["bytes"]))))
        if "static" in c: return ref(mk("S", c["static"], ti))
        if "fn" in c: return mk("fnkey", c["fn"])
        if c.get("zst"):
            if k == "closure": return agg("closure:%d" % ti, 0, ())
            if k == "tuple" and not ty["args"]: return UNIT
            if k == "adt":
                vs = ty.get("v") or []
                if len(vs) == 1: return agg(self.adt_tag(ti), 0, [self.zst(f[1]) for f in vs[0]["f"]])
            return mk("zst", ty["s"])
        if "mem" in c and c.get("ptr") and k in ("ref", "ptr"):
            v = self.decode(ty["to"], c["mem"], c.get("off", 0))
            if v is not None: return ref(mk("C", v))
        elif "mem" in c:
            v = self.decode(ti, c["mem"], c.get("off", 0), c.get("len"))
            if v is not None: return v
        return mk("const", c.get("s", "?"), ty["s"])

    def zst(self, ti):
        ty = self.p.ty(ti) if ti is not None else None
        if ty and ty["k"] == "tuple" and not ty["args"]: return UNIT
        return mk("zst", ty["s"] if ty else "?")

    def adt_tag(self, ti):
        return self.p.ty(ti)["def"]

    def scalar(self, ti, bits, s=None):
        ty = self.p.ty(ti); k = ty["k"]
        if k == "bool": return B(bits)
        if k in ("int", "char"): return I(bits)
        if k == "adt":
            vs = ty.get("v") or []
            if ty["enum"]:
                if all(not v["f"] for v in vs):
                    for i, v in enumerate(vs):
                        n = v["d"]
                        if n == bits or (n & ((1 << 8) - 1)) == bits and n > 255: return agg(self.adt_tag(ti), i, ())
                return mk("const", s or str(bits), ty["s"])
            if len(vs) == 1 and len([f for f in vs[0]["f"]]) == 1 and vs[0]["f"][0][1] is not None:
                return agg(self.adt_tag(ti), 0, [self.scalar(vs[0]["f"][0][1], bits, s)])
        return mk("const", s or str(bits), ty["s"])

    def size(self, ti):
        ty = self.p.ty(ti); k = ty["k"]; s = ty["s"]
        if k == "int": return {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16}.get(s)
        if k == "bool": return 1
        if k == "char": return 4
        if k in ("ref", "ptr"):
            to = self.p.ty(ty["to"]); return 16 if to["k"] in ("str", "slice", "dyn") else 8
        if k == "array":
            e = self.size(ty["to"]); return None if e is None or ty.get("n") is None else e * ty["n"]
        return None

    def decode(self, ti, mem, off, ln=None):
        ty = self.p.ty(ti); k = ty["k"]
        if not mem: return None
        b = mem.get("b")
        if b is None: return None
        if k in ("int", "bool", "char"):
            n = self.size(ti)
            return self.scalar(ti, int.from_bytes(bytes(b[off:off + n]), "little")) if n else None
        if k in ("ref", "ptr"):
            to = self.p.ty(ty["to"])
            if ln is not None:   # Slice const
                return self.decode_slice(to, mem, 0, ln)
            tgt = None
            for o, m in mem.get("p", []):
                if o == off: tgt = m
            if tgt is None:
                if off == 0 and to["k"] not in ("str", "slice"):   # pointer to the whole allocation
                    v = self.decode(ty["to"], mem, 0)
                    return ref(mk("C", v)) if v is not None else None
                return None
            if to["k"] in ("str", "slice"):
                n = int.from_bytes(bytes(b[off + 8:off + 16]), "little")
                return self.decode_slice(to, tgt, 0, n)
            v = self.decode(ty["to"], tgt, 0)
            return ref(mk("C", v)) if v is not None else None
        if k == "adt" and ty.get("enum"):
            vs = ty.get("v") or []
            if len(vs) > 1 and len(vs) <= 256 and all(not v["f"] for v in vs) and off < len(b): return self.scalar(ti, b[off])
            unit = lambda t: t is not None and self.p.ty(t)["k"] == "tuple" and not self.p.ty(t)["args"]
            if 1 < len(vs) <= 256 and len(b) == 1 and all(unit(f[1]) for v in vs for f in v["f"]):
                for i, v in enumerate(vs):
                    if v["d"] == b[off]: return agg(self.adt_tag(ti), i, [UNIT] * len(v["f"]))
            tag = ty.get("tag")
            if tag and off + tag[0] + tag[1] <= len(b) and not any(o == off + tag[0] for o, _ in mem.get("p", [])):
                n = int.from_bytes(bytes(b[off + tag[0]:off + tag[0] + tag[1]]), "little")
                if tag[2] == -1: w = [i for i, v in enumerate(vs) if v["d"] == n]
                else:
                    i = n - tag[5] + tag[3]
                    w = [i if tag[3] <= i <= tag[4] else tag[2]]
                if len(w) == 1 and not vs[w[0]]["f"]: return agg(self.adt_tag(ti), w[0], [])
            return None
        if k == "array":
            n = ty.get("n"); es = self.size(ty["to"])
            if n is None or es is None: return None
            if self.p.ty(ty["to"])["s"] == "u8": return bytesv(bytes(b[off:off + n]))
            vs = [self.decode(ty["to"], mem, off + i * es) for i in range(n)]
            return agg("array", 0, vs) if all(v is not None for v in vs) else None
        return None

    def decode_slice(self, to, mem, off, n):
        if not mem or mem.get("b") is None: return None
        if to["k"] == "str" or self.p.ty(to["to"])["s"] == "u8":
            return ref(mk("C", bytesv(bytes(mem["b"][off:off + n]))))
        es = self.size(to["to"])
        if es is None: return None
        vs = [self.decode(to["to"], mem, off + i * es) for i in range(n)]
        return ref(mk("C", agg("array", 0, vs))) if all(v is not None for v in vs) else None

    def static_val(self, st, base):
        path, ti = base.a
        s = self.p.statics.get(path)
        ty = self.p.ty(ti)
        if s and ty.get("to") is not None:
            return self.decode(ty["to"], s, 0)
        return None

    # ------------------------------------------------------------ operands, rvalues
    def operand(self, st, fr, op):
        k = op["k"]
        if k == "const":
            v = self.const(op)
            if v.k == "ref" and v.a[0].k == "S" and v.a[0] not in st.mem:
                x = self.static_val(st, v.a[0])
                if x is not None: st.mem[v.a[0]] = x
            return v
        if k in ("copy", "move"):
            base, path = self.place(st, fr, op["pl"])
            v = self.load(st, base, path)
            if k == "move" and not op["pl"]["p"]:
                st.mem.pop(base, None)
            return v
        if k == "rtcheck": return B(False)
        return mk("const", str(op), "?")

    def rvalue(self, st, fr, rv, site):
        k = rv[0]
        if k == "use": return self.operand(st, fr, rv[1])
        if k == "ref":
            pl = rv[2]
            if pl["p"] and pl["p"][-1][0] == "d":   # reborrow of a trait object keeps its type
                v = self.load(st, *self.place(st, fr, {"l": pl["l"], "p": pl["p"][:-1]}))
                if v.k == "dyn": return mk("dyn", ref(v.a[0].a[0]), v.a[1]) if v.a[0].k == "box" else v
            base, path = self.place(st, fr, pl)
            if base.k == "D" and not path: return base.a[0]
            return ref(base, path)
        if k == "bin":
            a = self.operand(st, fr, rv[2]); b = self.operand(st, fr, rv[3])
            ta = self.op_ty(fr, rv[2]); tn = self.p.tys(ta) if ta is not None else "usize"
            return self.binop(st, rv[1], self.content(st, a), self.content(st, b), tn)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "PtrMetadata": return self.length(st, self.deref(st, a))
            a = self.content(st, a)
            if rv[1] == "Not":
                return self.not_(a)
            return mk("op", rv[1], a)
        if k == "discr":
            base, path = self.place(st, fr, rv[1])
            return self.disc(st, self.load(st, base, path), self.place_ty(fr, rv[1]))
        if k == "agg":
            fs = [self.operand(st, fr, o) for o in rv[4]]
            if rv[1] == "adt": return agg(self.adt_tag(rv[2]), rv[3], fs)
            if rv[1] == "tuple": return agg("tuple", 0, fs)
            if rv[1] == "array":
                if self.p.tys(self.p.ty(rv[2])["to"]) == "u8" and all(x.k == "int" for x in fs): return bytesv(bytes(x.a[0] for x in fs))
                return agg("array", 0, fs)
            if rv[1] == "closure": return agg("closure:%d" % rv[2], 0, fs)
            if rv[1] == "rawptr": return fs[0]
            return agg(rv[1], 0, fs)
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            if v.k == "int" and rv[2] is not None and rv[2] <= 4096 : return bytesv(bytes([v.a[0]] * rv[2])) if v.a[0] < 256 else mk("rep", v, rv[2])
            return mk("rep", v, rv[2])
        if k == "cast": return self.cast(st, fr, rv)
        if k == "len": return self.length(st, self.load(st, *self.place(st, fr, rv[1])))
        if k == "tls": return mk("tls", rv[1])
        return mk("rv", str(rv[0]), site)

    def cast(self, st, fr, rv):
        kind, op, ti = rv[1], rv[2], rv[3]
        v = self.operand(st, fr, op)
        ty = self.p.ty(ti)
        if "Unsize" in kind:
            to = ty.get("to")
            if ty["k"] == "adt" and ty["args"]: to = ty["args"][0]
            if to is not None and self.p.ty(to)["k"] == "dyn":
                src = self.op_ty(fr, op)
                sty = self.p.ty(src) if src is not None else None
                inner = None
                if sty:
                    inner = sty.get("to")
                    if sty["k"] == "adt" and sty["args"]: inner = sty["args"][0]
                if inner is not None and self.p.ty(inner)["k"] != "dyn": return mk("dyn", v, inner)
            return v
        if "Transmute" in kind or "PtrToPtr" in kind or kind.startswith("PointerCoercion") or kind.startswith("Subtype"):
            if v.k == "box" : return ref(v.a[0])
            if v.k == "dyn" and v.a[0].k == "box": return mk("dyn", ref(v.a[0].a[0]), v.a[1])
            return v
        if kind == "IntToInt":
            if v.k in ("int", "bool"):
                n = self.size(ti)
                return I(v.a[0] & ((1 << (8 * n)) - 1)) if n and ty["k"] != "char" else I(v.a[0])
            src = self.op_ty(fr, op)
            v = self.content(st, v)
            ss = self.size(src) if src is not None else None; ds = self.size(ti)
            if ss and ds and ds >= ss: return v if ty["k"] != "char" else mk("cast", "char", v)   # widening keeps the value
            return mk("cast", ty["s"], v)
        return mk("cast", ty["s"], self.content(st, v))

    def not_(self, a):
        if a.k == "bool": return B(not a.a[0])
        inv = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}
        if a.k == "op" and a.a[0] in inv: return mk("op", inv[a.a[0]], *a.a[1:])
        if a.k == "op" and a.a[0] == "Not": return a.a[1]
        return mk("op", "Not", a)

    RANGE = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i32": 32, "i64": 64, "isize": 64, "char": 32, "u128": 128, "i8": 8, "i16": 16}

    def binop(self, st, op, a, b, tn):
        ovf = False
        if op.endswith("WithOverflow"): op = op[:-12]; ovf = True
        if op.endswith("Unchecked"): op = op[:-9]
        if a.k in ("int", "bool") and b.k in ("int", "bool"):
            x, y = a.a[0], b.a[0]; bits = self.RANGE.get(tn, 64); m = (1 << bits) - 1
            signed = tn.startswith("i")
            if signed:
                sx = x - (1 << bits) if x >> (bits - 1) & 1 else x
                sy = y - (1 << bits) if y >> (bits - 1) & 1 else y
            else: sx, sy = x, y
            f = {"Eq": lambda: sx == sy, "Ne": lambda: sx != sy, "Lt": lambda: sx < sy, "Le": lambda: sx <= sy, "Gt": lambda: sx > sy, "Ge": lambda: sx >= sy}
            if op in f: return B(f[op]())
            g = {"Add": lambda: sx + sy, "Sub": lambda: sx - sy, "Mul": lambda: sx * sy, "Div": lambda: sx // sy if sy else None,
                 "Rem": lambda: sx % sy if sy else None, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                 "Shl": lambda: (x << (y % bits)), "Shr": lambda: (x >> (y % bits))}
            if op in g:
                r = g[op]()
                if r is not None:
                    if a.k == "bool" and b.k == "bool": return B(r & 1)
                    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, m)
                    v = I(r & m)
                    if ovf: return agg("tuple", 0, (v, B(not lo <= r <= hi)))
                    return v
        if tn == "i8" and op in ("Lt", "Le", "Gt", "Ge"):
            # Ordering's discriminants are held as 255, 0, 1
            if b.k == "disc" and a.k == "int": a, b = b, a; op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op]
            if a.k == "disc" and b.k == "int" and b.a[0] == 0:
                r = self.binop(st, "Eq", a, I(1 if op in ("Gt", "Le") else 255), tn)
                return r if op in ("Lt", "Gt") else self.not_(r)
        if op in ("Eq", "Ne"):
            if a is b and a.k != "uninit": return B(op == "Eq")
            if b.k == "bool":
                c = a if bool(b.a[0]) == (op == "Eq") else self.not_(a)
                return c
            if a.k == "bool":
                return b if bool(a.a[0]) == (op == "Eq") else self.not_(b)
            if a.id > b.id and not is_const(b): a, b = b, a
            if is_const(a): a, b = b, a
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor"):
            if is_const(a) or (a.id > b.id and not is_const(b)): a, b = b, a
        if tn == "bool" and op == "BitAnd":
            for x, y in ((a, b), (b, a)):
                if x.k == "bool": return y if x.a[0] else x
        if tn == "bool" and op == "BitOr":
            for x, y in ((a, b), (b, a)):
                if x.k == "bool": return x if x.a[0] else y
        # canonical comparison direction: Gt/Ge -> Lt/Le
        if op == "Gt": op, a, b = "Lt", b, a
        elif op == "Ge": op, a, b = "Le", b, a
        if op in ("Shl", "Shr", "Add", "Sub", "BitOr", "BitXor") and b.k == "int" and b.a[0] == 0: v = a
        elif op == "Add": v = add(a, b)
        elif op == "Sub": v = sub(a, b)
        else: v = mk("op", op, a, b)
        for x in (a, b):
            if x.k not in ("int", "bool"): self.tty.setdefault(x, tn)
        if ovf: return agg("tuple", 0, (v, mk("ovf", op, a, b, tn)))
        return v

    def length(self, st, v):
        v = self.content(st, v)
        return lenof(v)

    def disc(self, st, v, ti):
        if v.k == "agg" and not str(v.a[0]).startswith(("tuple", "array", "closure")):
            return mk("int", self.variant_disc(v.a[0], v.a[1], ti))
        if v.k == "cmp":
            pass
        c = self.content(st, v)
        if c.k == "agg" and c is not v: return mk("int", self.variant_disc(c.a[0], c.a[1], ti))
        return mk("disc", c)

    def variant_disc(self, tag, var, ti):
        if ti is not None:
            ty = self.p.ty(ti)
            if ty.get("k") == "adt" and ty.get("v") and var < len(ty["v"]):
                d = ty["v"][var]["d"]
                return d & 0xff if ty["s"].endswith("cmp::Ordering") else d
        return self._vd().get((tag, var), var)

    def _vd(self):
        if not hasattr(self, "_vdt"):
            self._vdt = {}
            for ty in self.p.types:
                if ty.get("k") == "adt" and ty.get("enum"):
                    for i, v in enumerate(ty.get("v") or []):
                        self._vdt[(ty["def"], i)] = v["d"] & 0xff if ty["def"].endswith("cmp::Ordering") else v["d"]
        return self._vdt

    # ------------------------------------------------------------ facts
    def assume(self, st, t, val):
        """record boolean/discriminant term t == val; False if contradictory"""
        t, val = norm_fact(t, val)
        if t is None: return val
        if t.k == "op" and t.a[0] in ("Eq", "Ne") and val in (0, 1):
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if x.k == "disc" and y.k == "int":
                    return self.assume(st, x, y.a[0]) if (val == 1) == (t.a[0] == "Eq") else self.assume_ne(st, x, (y.a[0],))
        cur = self.known(st, t)
        if cur is not None and cur != val: return False
        ne = st.facts.get(mk("ne", t))
        if ne is not None and val in ne: return False
        f = dict(st.facts); f[t] = val
        st.facts = f
        self.models.derived(self, st, t, val)
        return linear.consistent(self, st, t, val)

    def assume_ne(self, st, t, vals):
        cur = self.known(st, t)
        if cur is not None: return cur not in vals
        if t.k == "disc" or True:
            n = mk("ne", t)
            f = dict(st.facts); f[n] = frozenset(f.get(n, frozenset())) | frozenset(vals); st.facts = f
            # exhausted enum
            dom = self.domain(t)
            if dom is not None:
                left = [d for d in dom if d not in f[n]]
                if not left: return False
                if len(left) == 1: return self.assume(st, t, left[0])
        return True

    def domain(self, t):
        return self.disc_dom.get(t) if hasattr(self, "disc_dom") else None

    def known(self, st, t):
        """value (int) of a boolean / discriminant / integer term if implied"""
        if t.k in ("int", "bool"): return t.a[0]
        t2, v2 = norm_fact(t, 1)
        if t2 is None: return None
        v = st.facts.get(t2)
        if v is not None:
            return v if t2 is t else int(v == v2)
        if t.k == "op" and t.a[0] in ("Eq", "Ne"):
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if x.k == "disc" and y.k == "int":
                    k = st.facts.get(x); n = st.facts.get(mk("ne", x))
                    if k is None and n is not None and y.a[0] in n: k = -1
                    if k is not None: return int((k == y.a[0]) == (t.a[0] == "Eq"))
        return self.models.known(self, st, t)

    # ------------------------------------------------------------ opaque results
    def atom(self, st, kind, site, *rest):
        """fresh opaque atom for a site; older instances of it become `wk`"""
        t = mk(kind, site, *rest)
        self.age(st, site, t)
        self.site_atoms.setdefault(site, set()).add(t)
        return t

    def age(self, st, site, new=None):
        known = site_terms(site)
        if not known: return
        m = {}
        for b, v in st.mem.items():
            for x in subterms(v) & known: m[x] = strip_(x)
            for x in subterms(b) & known: m[x] = strip_(x)
        for f in st.facts:
            for x in subterms(f) & known: m[x] = strip_(x)
        if m: self.rename(st, m)

    def rename(self, st, m):
        memo = {}; ks = m.keys()
        for b, v in list(st.mem.items()):
            if subterms(v) & ks: st.mem[b] = subst(v, m, memo)
            if subterms(b) & ks:
                nb = subst(b, m, memo)
                x = st.mem.pop(b)
                if nb in st.mem and st.mem[nb] is not x: x = mk("post", b, "alias")
                st.mem[nb] = x
        bad = [f for f in st.facts if subterms(f) & ks]
        if bad:
            f = dict(st.facts)
            for b in bad: del f[b]
            st.facts = f

    # ------------------------------------------------------------ graph
    def new_node(self, fr, blk, st):
        n = Node(len(self.nodes), fr, blk, st); self.nodes.append(n)
        if len(self.nodes) > self.opts.get("maxnodes", MAXNODES): raise Unsupported("state space limit")
        return n

    def final(self, n):
        while n.alias is not None: n = n.alias
        return n

    def gc(self, st, fr, blk):
        live = fr.body.live[blk]; bor = fr.body.borrowed
        ctx = fr.ctx
        for b in [b for b in st.mem if b.k == "L" and b.a[0] is ctx and b.a[1] not in live and b.a[1] not in bor]: del st.mem[b]
        # unreachable heap / content cells
        reach = set(); stack = []
        for b, v in st.mem.items():
            if b.k in ("L", "D", "S", "X"): stack.append(v)
        seenv = set()
        while stack:
            v = stack.pop()
            if v in seenv: continue
            seenv.add(v)
            for b in refbases(v):
                if b not in reach:
                    reach.add(b)
                    x = st.mem.get(b)
                    if x is not None: stack.append(x)
        for b in list(st.mem):
            if b.k == "H" and b not in reach: del st.mem[b]
            elif b.k in ("C", "S"): 
                if b.k == "S" and b not in reach: del st.mem[b]
            elif b.k == "D" and st.mem[b] is self.default(b): del st.mem[b]
        if st.facts:
            atoms = set()
            for b, v in st.mem.items(): atoms |= subterms(v); atoms |= subterms(b)
            drop = [f for f in st.facts if not all(a in atoms or a.k == "param" for a in subterms(f))]
            if drop:
                f = dict(st.facts)
                for d in drop: del f[d]
                st.facts = f

    def key(self, fr, blk, st):
        h = hashlib.blake2b(digest_size=16)
        items = sorted((b.id, v.id) for b, v in st.mem.items())
        h.update(repr(items).encode())
        fx = sorted((t.id, v if isinstance(v, int) else tuple(sorted(v))) for t, v in st.facts.items())
        h.update(repr(fx).encode())
        return (fr, blk, h.digest())

    def enter(self, fr, blk, st):
        """node for a state about to execute a block (dedupe / join)"""
        body = fr.body
        if blk in body.headers:
            self.gc(st, fr, blk)
            return self.header(fr, blk, st)
        if body.preds[blk] > 1:
            self.gc(st, fr, blk)
            k = self.key(fr, blk, st)
            n = self.memo.get(k)
            if n is not None: return n
            n = self.new_node(fr, blk, st); self.memo[k] = n
            self.push(n)
            return n
        n = self.new_node(fr, blk, st); self.push(n)
        return n

    def push(self, n):
        """nodes are processed in weak topological order, so inner loops are stable before what follows them"""
        fr = n.frame
        heapq.heappush(self.work, (fr.pos + (fr.body.order[n.block],), n.id, n))

    def trace_join(self, fr, blk, a, b):
        print("JOIN", fr.body.path, blk, fr.depth)
        for k in sorted(set(a.mem) | set(b.mem), key=lambda t: t.id):
            x, y = a.mem.get(k), b.mem.get(k)
            if x is not y: print("   ", show(k, 30)[-150:], "\n       ", show(x, 8)[:700] if x else None, "\n     =>", show(y, 8)[:700] if y else None)
        for f in set(a.facts) - set(b.facts): print("    -fact", show(f, 6)[:200])

    # ---- loop heads
    def header(self, fr, blk, st):
        hk = mk("hdr", fr.ctx, blk)
        parts = self.parts.setdefault((fr, blk), [])
        if self.opts.get("branch"): self._loopev = Ev("loop", "", (), None, None, fr.body.path, st.facts, None, (hk, dict(st.mem)))
        # phis of this header that were redefined on the way back
        m = {}; keep = {}
        for p in self.phis.get(hk, {}).values():
            base, path = p.a[1], p.a[2]
            if base in st.mem or base.k == "D":
                cur = self.load_leaf(st, base, path)
                if cur is not p:
                    m[p] = strip_(p)
            else: m[p] = strip_(p)
        raw = None; rawst = st
        if m:
            raw = dict(st.mem)
            rawst = St(raw, st.facts)
            self.rename(st, m)
        if fr.depth <= 1 and self.opts.get("peel"):
            # the first iterations of the outermost loops are kept apart from the later ones
            seen = self.peeled.setdefault((fr, blk), {})
            k = self.key(fr, blk, st)
            if k in seen: return seen[k]
            if len(seen) < self.opts["peel"]:
                n = seen[k] = self.new_node(fr, blk, st)
                self.push(n)
                return n
        if len(parts) < self.opts.get("unroll", 0):
            k = self.key(fr, blk, st)
            n = self.memo.get(k)
            if n is None:
                n = self.memo[k] = self.new_node(fr, blk, st)
                parts.append(n); self.push(n)
            return n
        for i, n in enumerate(parts):
            j = self.join(hk, n.st, st, raw, len(parts) >= MAXPART, rawst)
            if j is None: continue
            if j == "same": return n
            nn = self.new_node(fr, blk, j)
            n.alias = nn; n.succ = []; n.st = None if False else n.st
            parts[i] = nn
            self.widened += 1
            self.wcount[(fr.body.path, blk, fr.depth)] = self.wcount.get((fr.body.path, blk, fr.depth), 0) + 1
            if self.opts.get('trace'): self.trace_join(fr, blk, n.st, j)
            self.push(nn)
            return nn
        n = self.new_node(fr, blk, st)
        parts.append(n); self.push(n)
        return n

    def load_leaf(self, st, base, path):
        return self.load(st, base, path)

    def join(self, hk, a, b, raw, force, rawst=None):
        """join state b into partition a; None if they should stay apart"""
        out = {}; changed = False
        self._pairs = []
        ctx = (hk, force)
        for base in set(a.mem) | set(b.mem):
            va = a.mem.get(base); vb = b.mem.get(base)
            if va is None: va = self.default(base)
            if vb is None: vb = self.default(base)
            if va is vb:
                out[base] = va; continue
            if va.k == "uninit" or vb.k == "uninit":
                # only initialised on one side: not usable afterwards without re-initialisation,
                # unless guarded by a drop flag
                v = self.join_uninit(va, vb)
            else:
                rv = raw.get(base, vb) if raw else vb
                v = self.join_val(ctx, base, (), va, vb, rv)
            if v is None: return None
            out[base] = v
            if v is not va: changed = True
        changed_mem = changed
        facts = a.facts
        if a.facts != b.facts:
            facts = {t: v for t, v in a.facts.items() if b.facts.get(t) == v}
            for t, v in a.facts.items():
                if t not in facts and t.k == "ne":
                    w = b.facts.get(t)
                    if w is None:
                        eq = b.facts.get(t.a[0])
                        if eq is not None and eq not in v: facts[t] = v
                    elif w & v: facts[t] = v & w
            if len(facts) != len(a.facts) or any(facts[t] != a.facts[t] for t in facts): changed = True
        if self._pairs and rawst is not None:
            more = self.carry(a, rawst)
            if more:
                n = len(facts)
                facts = dict(facts); facts.update(more)
                if any(t not in a.facts for t in more): changed = True
                elif len(facts) == len(a.facts) and all(t in facts for t in a.facts) and all(facts[t] == a.facts[t] for t in facts): changed = changed_mem
        if not changed: return "same"
        return St(out, facts)

    def carry(self, a, b):
        """facts about the values merged into phis that hold on both sides"""
        sa = {}; sb = {}
        for ph, x, y in self._pairs: sa[ph] = x; sb[ph] = y
        cand = {}
        for ph, x, y in self._pairs:
            if x is ph:
                for t, v in a.facts.items():
                    if ph in subterms(t): cand[t] = v
            else:
                for side, z in ((a, x), (b, y)):
                    if z.k in ("int", "bool", "bytes", "agg", "uninit") or z is EMPTY: continue
                    for t, v in side.facts.items():
                        if contains(t, z): cand[replace(t, z, ph)] = v
            if y.k == "op" and y.a[0] == "Add" and len(y.a) == 3 or y.k == "int" and y.a[0] > 0:
                # counting up to a bound: from `w < n` on the way back, `i <= n` at the header
                for w in (y.a[1:] if y.k == "op" else (I(y.a[0] - 1),)):
                    for t, v in b.facts.items():
                        if v == 1 and t.k == "op" and t.a[0] == "Lt" and t.a[1] is w and not contains(t.a[2], w):
                            u, z = norm_fact(mk("op", "Le", ph, t.a[2]), 1)
                            if u is not None: cand[u] = z
        out = {}
        for t, v in list(cand.items())[:60]:
            if self.holds(a, t, v, sa) and self.holds(b, t, v, sb): out[t] = v
        return out

    def holds(self, st, t, v, m):
        """does fact t == v hold in st when the phis have the values m?"""
        m = {k: x for k, x in m.items() if k is not x}
        if t.k == "ne":
            u = subst(t.a[0], m, {}) if m else t.a[0]
            n = st.facts.get(mk("ne", u))
            if n is not None and v <= n: return True
            k = self.known(st, u)
            return k is not None and k not in v
        u = subst(t, m, {}) if m else t
        if st.facts.get(u) == v: return True
        return self.known(st, u) == v

    def join_uninit(self, va, vb):
        return vb if va.k == "uninit" else va

    def join_val(self, ctx, base, path, a, b, raw):
        hk, force = ctx
        if a is b: return a
        ph = self.phis.get(hk, {}).get((base, path))
        if ph is not None and a is ph:
            self.phi_in.setdefault(ph, set()).add(raw if raw is not None else b)
            if not force and self.finite(b) and self.finite_kind(ph): return None
            self._pairs.append((ph, ph, raw if raw is not None else b))
            return ph
        if b.k == "phi" and a.k != "phi" and ph is b:
            pass
        if a.k == "agg" and b.k == "agg" and a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                if not force: return None
                return self.phi(ctx, base, path, a, raw or b)
            if len(a.a[2]) == len(b.a[2]):
                fs = []
                for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                    r = self.project(raw, ("f", i)) if raw is not None and raw.k in ("agg", "upd") else y
                    v = self.join_val(ctx, base, path + (("f", i),), x, y, r)
                    if v is None: return None
                    fs.append(v)
                return mk("agg", a.a[0], a.a[1], tuple(fs))
        if any(z.k == "upd" and any(kk[0] == "el" for kk, _ in z.a[1]) for z in (a, b)):
            return self.phi(ctx, base, path, a, raw if raw is not None else b)
        if a.k == "upd" or b.k == "upd":
            bb = a.a[0] if a.k == "upd" else a; b2 = b.a[0] if b.k == "upd" else b
            if bb is b2:
                ks = {k for k, _ in (a.a[1] if a.k == "upd" else ())} | {k for k, _ in (b.a[1] if b.k == "upd" else ())}
                v = bb
                for k in sorted(ks, key=str):
                    x = self.join_val(ctx, base, path + (k,), self.project(a, k), self.project(b, k), self.project(raw, k) if raw is not None else None)
                    if x is None: return None
                    v = self._upd(v, k, x)
                return v
        if a.k == "coll" and b.k == "coll" and a.a[0] == b.a[0]:
            sz = self.join_val(ctx, base, path + (("sz",),), a.a[2], b.a[2], raw.a[2] if raw is not None and raw.k == "coll" else b.a[2])
            if sz is None: return None
            at = b.a[3] if not a.a[1] else a.a[3] if not b.a[1] else tuple(x for x in a.a[3] if x in b.a[3])
            return coll(a.a[0], a.a[1] + b.a[1], sz, at)
        if a.k == "it" and b.k == "it" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            args = []
            for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:])):
                if x is y: args.append(x); continue
                if not (isinstance(x, T) and isinstance(y, T)): return self.phi(ctx, base, path, a, raw or b)
                r = raw.a[1 + i] if raw is not None and raw.k == "it" and len(raw.a) == len(b.a) else y
                v = self.join_val(ctx, base, path + (("it", i),), x, y, r)
                if v is None: return None
                args.append(v)
            return mk("it", a.a[0], *args)
        if a.k in ("hs", "dyn", "box", "fn") or b.k in ("hs", "dyn", "box", "fn"):
            if not force: return None
        if istext(a) and istext(b):
            r = join_text(a, b)
            if r is not None: return r
        if a.k == "ref" and b.k == "ref":
            if a.a[0].k == "C" and b.a[0].k == "C" and not a.a[1] and not b.a[1]:
                rr = raw.a[0].a[0] if raw is not None and raw.k == "ref" and raw.a[0].k == "C" else b.a[0].a[0]
                v = self.join_val(ctx, base, path + (("*",),), a.a[0].a[0], b.a[0].a[0], rr)
                return None if v is None else ref(mk("C", v))
        if a.k == "bool" or b.k == "bool":
            if not force: return None
        if a.k == "agg" or b.k == "agg":
            if not force and (a.k != "agg" or b.k != "agg" or a.a[0] != b.a[0]): return None
        return self.phi(ctx, base, path, a, raw if raw is not None else b)

    def finite(self, v): return v.k in ("bool", "hs", "dyn", "box", "fn") or v.k == "agg"
    def finite_kind(self, ph): return any(self.finite(x) for x in self.phi_in.get(ph, ()))

    phi_in = {}

    def phi(self, ctx, base, path, a, b):
        hk = ctx[0]
        d = self.phis.setdefault(hk, {})
        ph = d.get((base, path))
        if ph is None:
            ph = mk("phi", hk, base, path); d[(base, path)] = ph
            self.phi_in[ph] = set()
        self.phi_in.setdefault(ph, set())
        if a is not ph: self.phi_in[ph].add(a)
        if b is not ph: self.phi_in[ph].add(b)
        self._pairs.append((ph, a, b))
        return ph

    # ------------------------------------------------------------ running
    def run(self, key, args, facts=None):
        self.phi_in = {}; self.peeled = {}
        body = self.p.bodies[key]
        fr = frame(mk("ctx", key), body, None, None)
        st = St()
        for i, a in enumerate(args): st.mem[mk("L", fr.ctx, i + 1)] = a
        if facts:
            for t, v in facts.items(): self.assume(st, t, v)
        self.root = self.new_node(fr, 0, st)
        if 0 in body.headers: self.parts[(fr, 0)] = [self.root]
        self.push(self.root)
        while self.work:
            n = heapq.heappop(self.work)[2]
            if n.alias is not None or n.done: continue
            n.done = True
            st = n.st.copy()
            keep = n.frame is not None and n.block in n.frame.body.headers
            self.exec_from(n, n.frame, n.block, st)
            if not keep: n.st = None
        return self

    def exec_from(self, n, fr, blk, st):
        """execute blocks until the control flow forks or a node boundary is met"""
        evs = []
        while True:
            self.blocks += 1
            outs = self.exec_block(fr, blk, st, evs)
            # outs: list of (frame, block, state, events)
            if len(outs) == 1:
                f2, b2, s2, e2 = outs[0]
                if f2 is not None and isinstance(b2, int) and b2 not in f2.body.headers and f2.body.preds[b2] <= 1:
                    evs = evs + e2; fr, blk, st = f2, b2, s2
                    continue
            br = self.opts.get("branch") and len(outs) > 1
            for f2, b2, s2, e2 in outs:
                if br: e2 = list(e2) + [Ev("br", "", (), None, None, fr.body.path, s2.facts, None)]
                if f2 is None:
                    t = self.new_node(None, None, s2 if b2[0] == "return" and self.opts.get("keep_final") else None); t.kind = b2[0]; t.val = b2[1]; t.done = True
                else:
                    self._loopev = None
                    t = self.enter(f2, b2, s2)
                    if self._loopev is not None: e2 = list(e2) + [self._loopev]
                n.succ.append((tuple(evs + e2), t))
            return

    def exec_block(self, fr, blk, st, evs):
        body = fr.body
        b = body.blocks[blk]
        for si, s in enumerate(b["s"]):
            if s[0] == "=":
                site = mk("site", fr.ctx, blk, si)
                v = self.rvalue(st, fr, s[2], site)
                base, path = self.place(st, fr, s[1])
                if path and path[-1][0] in ("i", "ci"):
                    evs.append(Ev("store", "index", (self.content(st, self.load(st, base, path[:-1])), path[-1][1] if path[-1][0] == "i" else I(path[-1][1]), self.content(st, v)), None, s[3], body.path, st.facts, site, (base, path)))
                self.store(st, base, path, v, site)
            elif s[0] == "dead":
                st.mem.pop(mk("L", fr.ctx, s[1]), None)
            elif s[0] == "sd":
                base, path = self.place(st, fr, s[1])
                v = self.load(st, base, path)
                ti = self.place_ty(fr, s[1])
                nf = 0
                if ti is not None and self.p.ty(ti).get("v"): nf = len(self.p.ty(ti)["v"][s[2]]["f"])
                fs = v.a[2] if v.k == "agg" else tuple(mk("uninit", v) for _ in range(nf))
                self.store(st, base, path, mk("agg", self.adt_tag(ti) if ti is not None else "?", s[2], fs))
        t = b["t"]; k = t[0]
        if k == "goto": return [(fr, t[1], st, [])]
        if k == "drop":
            ev = self.drop(st, fr, t)
            return [(fr, t[2], st, ev)]
        if k == "sw": return self.switch(st, fr, t)
        if k == "assert": return self.assert_(st, fr, blk, t)
        if k == "call": return self.call(st, fr, blk, t)
        if k == "ret": return self.ret(st, fr)
        if k == "unreach" or k == "resume": return []
        return [(None, ("other", None), st, [Ev("other", "terminator", (), None, None, body.path, st.facts, None)])]

    def drop(self, st, fr, t):
        base, path = self.place(st, fr, t[1])
        evs = self.models.on_drop(self, st, fr, self.load(st, base, path), self.place_ty(fr, t[1]), t[3])
        if not path and base.k == "L": st.mem.pop(base, None)
        return evs

    def switch(self, st, fr, t):
        v = self.content(st, self.operand(st, fr, t[1]))
        ty = self.p.ty(t[4])
        kv = self.known(st, v)
        targets = t[2]
        if kv is not None:
            for val, b in targets:
                if val == kv: return [(fr, b, st, [])]
            return [(fr, t[3], st, [])]
        outs = []
        isb = ty["k"] == "bool"
        unreach = fr.body.blocks[t[3]]["t"][0] == "unreach"
        vals = [val for val, _ in targets]
        for val, b in targets:
            s2 = st.copy()
            if self.assume(s2, v, val): outs.append((fr, b, s2, []))
        if not unreach:
            s2 = st.copy()
            if isb:
                rest = [x for x in (0, 1) if x not in vals]
                ok = bool(rest) and self.assume(s2, v, rest[0])
            else: ok = self.assume_ne(s2, v, vals)
            if ok: outs.append((fr, t[3], s2, []))
        return outs

    def assert_(self, st, fr, blk, t):
        c = self.content(st, self.operand(st, fr, t[1]))
        kv = self.known(st, c)
        want = 1 if t[2] else 0
        if kv == want: return [(fr, t[5], st, [])]
        outs = []
        r = self.models.assert_holds(self, st, c, want, t)
        if not r:
            s2 = st.copy()
            if kv is not None or self.assume(s2, c, 1 - want):
                ops = tuple(self.content(s2, self.operand(s2, fr, o)) for o in t[4])
                outs.append((None, ("panic", t[3]), s2, [Ev("panic", t[3], ops, None, t[6], fr.body.path, s2.facts, mk("site", fr.ctx, blk, -1))]))
        if kv is None:
            s3 = st.copy()
            self.assume(s3, c, want)
            outs.append((fr, t[5], s3, []))
        return outs

    def ret(self, st, fr, val=None):
        if val is None: val = self.get(st, mk("L", fr.ctx, 0))
        r = fr.ret
        # values that point into the returning frame cannot exist in safe code
        ctx = fr.ctx
        for b in [b for b in st.mem if b.k == "L" and b.a[0] is ctx]: del st.mem[b]
        if r is None:
            return [(None, ("return", self.content(st, val)), st, [])]
        tr = self.traced(fr.body)
        evs = [Ev("ret", tr[1], (self.content(st, val),), None, None, fr.body.path, st.facts, mk("site", ctx, 0, "r"), tr[0])] if tr else []
        if r[0] == "mir":
            base, path = self.place(st, fr.parent, r[1].v)
            self.store(st, base, path, val, None)
            if r[2] is None: return []
            return [(fr.parent, r[2], st, evs)]
        # python continuation
        outs = r[1].run(self, st, fr.parent, val)
        return [(f, b, s, evs + list(e)) for f, b, s, e in outs] if evs else outs

    # ------------------------------------------------------------ calls
    def call(self, st, fr, blk, t):
        callee, ops, dest, target, span, atys, dty = t[1:8]
        self.calls += 1
        args = [self.operand(st, fr, o) for o in ops]
        site = mk("site", fr.ctx, blk, "c")
        c = Call(callee, args, atys, dty, dest, target, span, site, fr)
        return self.dispatch(st, c)

    def dispatch(self, st, c):
        callee = c.callee
        if c.kind == "ptr":
            f = self.operand(st, c.fr, callee["op"]) if "op" in callee else c.args[0]
            return self.call_value(st, c, f, c.args)
        if callee.get("ctor"):
            d, v, nm = callee["ctor"]
            return self.finish(st, c, agg(d, v, c.args))
        stop = self.opts.get("stop")
        if stop:
            for n in (c.path, callee.get("rpath")):
                n = self.models.norm(n) if n else None
                if n in stop:
                    f = stop[n] if isinstance(stop, dict) else None
                    return (f or type(self.models).opaque)(self.models, self, st, c)
        r = self.models.call(self, st, c)
        if r is not None: return r
        if callee.get("trait", "").startswith("std::ops::Fn") or callee.get("trait", "").startswith("core::ops::Fn"):
            a = c.args[1]
            extra = list(a.a[2]) if a.k == "agg" else [self.project(a, ("f", i)) for i in range(len(self.p.ty(c.atys[1]).get("args", [])))]
            return self.call_value(st, c, c.args[0], extra)
        key = callee.get("key")
        if callee.get("kind") == "virtual":
            return self.virtual(st, c)
        b = self.p.bodies.get(key)
        if b is not None: return self.inline(st, c, b, c.args)
        return self.models.opaque(self, st, c)

    def virtual(self, st, c):
        v = c.args[0]
        while v.k == "ref":
            nv = self.load(st, v.a[0], v.a[1])
            if nv.k == "dyn": v = nv
            elif nv.k == "ref": v = nv
            else: break
        if v.k == "dyn":
            ti = v.a[1]; inner = v.a[0]
            self_ = inner if inner.k != "box" else ref(inner.a[0])
            k = self.p.impl_tab.get((c.callee.get("trait"), c.callee.get("name")), {}).get(ti)
            c2 = c.with_args([self_] + c.args[1:], selfty=ti)
            if k and k in self.p.bodies: return self.inline(st, c2, self.p.bodies[k], c2.args)
            c2.callee = dict(c.callee, kind="item", key=None, self=ti)
            r = self.models.call(self, st, c2)
            if r is not None: return r
            return self.models.opaque(self, st, c2)
        return self.models.opaque(self, st, c)

    def call_value(self, st, c, f, args, kont=None):
        """call a callable value"""
        while f.k == "ref" : 
            nf = self.load(st, f.a[0], f.a[1])
            if nf.k in ("ref", "fn", "fnkey") or (nf.k == "agg" and str(nf.a[0]).startswith("closure:")) or nf.k == "dyn":
                if nf.k == "agg": break
                f = nf
            else: break
        envref = None
        fv = f
        if f.k == "ref":
            envref = f; fv = self.load(st, f.a[0], f.a[1])
        if fv.k == "dyn": fv = fv.a[0]
        if fv.k == "box":
            envref = ref(fv.a[0]); fv = self.get(st, fv.a[0])
        if fv.k == "agg" and str(fv.a[0]).startswith("closure:"):
            ti = int(fv.a[0].split(":")[1]); key = self.p.ty(ti)["key"]
            b = self.p.bodies.get(key)
            if b is not None:
                # by-reference or by-value environment, as the closure body wants it
                want_ref = self.p.ty(b.locals[1])["k"] == "ref"
                if want_ref and envref is None:
                    h = mk("H", mk("env", c.site)); st.mem[h] = fv; envref = ref(h)
                a0 = envref if want_ref else fv
                return self.inline(st, c, b, [a0] + list(args), kont)
        if fv.k in ("fn",):
            ty = self.p.ty(fv.a[0])
            if ty.get("ctor"):
                d, v, nm = ty["ctor"]
                return self.finish(st, c, agg(d, v, args), kont=kont)
            b = self.p.bodies.get(ty.get("key"))
            if b is not None: return self.inline(st, c, b, list(args), kont)
            c2 = Call({"path": ty["def"], "name": ty["def"].split("::")[-1], "kind": "item", "key": ty.get("key"), "rpath": ty["def"], "crate": ty["def"].split("::")[0], "targs": []},
                      list(args), c.atys[:0], c.dty, c.dest, c.target, c.span, c.site, c.fr)
            c2.kont = kont
            r = self.models.call(self, st, c2)
            if r is not None: return r
            return self.models.opaque(self, st, c2)
        if fv.k == "fnkey" and fv.a[0] in self.p.bodies:
            return self.inline(st, c, self.p.bodies[fv.a[0]], list(args), kont)
        c2 = c.with_args([f] + list(args)); c2.kont = kont
        c2.callee = {"path": "<fnptr>", "name": "<fnptr>", "kind": "item", "crate": "?", "targs": []}
        return self.models.opaque(self, st, c2)

    def inline(self, st, c, body, args, kont=None, mark=None):
        kont = kont or c.kont
        fr = c.fr
        # recursion guard
        f = fr; n = 0
        while f is not None:
            if f.body is body: n += 1
            f = f.parent
        if n >= 2:
            self.recursion.append(body.path)
            return self.models.opaque(self, st, c)
        ret = ("py", kont) if kont is not None else ("mir", Hash_(c.dest), c.target)
        ctx = mk("ctx", c.site, body.key)
        nf = frame(ctx, body, ret, fr, mark, c.site.a[1])
        self.inlined[body.key] = self.inlined.get(body.key, 0) + 1
        args = list(args)
        if body.closure and body.argc == 2 and len(args) != 2:
            args = [args[0], agg("tuple", 0, args[1:])]
        elif body.spread is not None and len(args) > body.spread:
            args = args[:body.spread - 1] + [agg("tuple", 0, args[body.spread - 1:])]
        for i in range(body.argc):
            st.mem[mk("L", ctx, i + 1)] = args[i] if i < len(args) else mk("uninit", ctx)
        tr = self.traced(body)
        if tr: return [(nf, 0, st, [Ev("call", tr[1], tuple(self.content(st, a) for a in args), None, c.span, body.path, st.facts, c.site, tr[0])])]
        return [(nf, 0, st, [])]

    def traced(self, body):
        """(self type, method) of an implementation of one of the crate's own traits, when calls are traced"""
        if not self.opts.get("calls"): return None
        m = self._tr.get(body.path, 0)
        if m == 0:
            m = None; p = body.path
            if p.startswith("<dir_signature::") and " as dir_signature::" in p and "{closure" not in p:
                ty, _, r = p[1:].partition(" as dir_signature::")
                if ">::" in r: m = (ty.split("<")[0] + "|" + r.split(">::")[0].split("<")[0], r.split(">::")[-1])
            self._tr[body.path] = m
        return m

    def finish(self, st, c, val, evs=(), kont=None):
        """the call returned `val` in state st"""
        kont = kont or c.kont
        if kont is not None:
            outs = kont.run(self, st, c.fr, val)
            return [(f, b, s, list(evs) + list(e)) for f, b, s, e in outs]
        if c.target is None: return [(None, ("diverge", None), st, list(evs))]
        base, path = self.place(st, c.fr, c.dest)
        self.store(st, base, path, val, c.site)
        return [(c.fr, c.target, st, list(evs))]

class Hash_:
    """identity-hashed holder for a (dict) place"""
    _t = {}
    def __new__(cls, v):
        k = repr(v)
        h = cls._t.get(k)
        if h is None:
            h = object.__new__(cls); h.v = v; cls._t[k] = h
        return h

class Kont:
    """python continuation of an inlined call: fn(eng, st, parent_frame, value, *data) -> outs"""
    _t = {}
    def __new__(cls, fn, *data):
        k = (fn,) + tuple(d if not isinstance(d, Call) else (id(d.site), d.fr) for d in data)
        h = cls._t.get(k)
        if h is None:
            h = object.__new__(cls); h.fn = fn; h.data = data; cls._t[k] = h
        return h
    def run(self, eng, st, fr, val):
        return self.fn(eng, st, fr, val, *self.data)

class Call:
    __slots__ = ("callee", "args", "atys", "dty", "dest", "target", "span", "site", "fr", "kont", "kind")
    def __init__(self, callee, args, atys, dty, dest, target, span, site, fr):
        self.callee = callee; self.args = args; self.atys = atys; self.dty = dty; self.dest = dest
        self.target = target; self.span = span; self.site = site; self.fr = fr; self.kont = None
        self.kind = callee.get("kind")
    def with_args(self, args, selfty=None):
        c = Call(self.callee, args, self.atys, self.dty, self.dest, self.target, self.span, self.site, self.fr)
        c.kont = self.kont
        if selfty is not None: c.callee = dict(self.callee, self=selfty)
        return c
    @property
    def path(self): return self.callee.get("path", "?")
    @property
    def rpath(self): return self.callee.get("rpath", self.path)
    @property
    def name(self): return self.callee.get("name", "?")

# ---------------------------------------------------------------- helpers
def bytesv(b): return BY(b) if b else EMPTY

def norm_fact(t, val):
    """(term, value) in canonical form"""
    while True:
        if t.k == "op" and t.a[0] == "Not": t = t.a[1]; val = 1 - val; continue
        if t.k == "op" and t.a[0] == "Ne": t = mk("op", "Eq", *t.a[1:]); val = 1 - val; continue
        if t.k in ("int", "bool"): return None, (t.a[0] == val)
        if t.k == "op" and t.a[0] == "Eq" and t.a[2].k == "int" and val == 1: return t.a[1], t.a[2].a[0]
        return t, val

_rb = {}
_none = frozenset()
def refbases(v):
    """locations a value refers to (cached)"""
    r = _rb.get(v)
    if r is not None: return r
    out = set()
    if v.k == "ref": out.add(v.a[0])
    elif v.k in ("box", "cell"): out.add(v.a[0])
    def go(a):
        for x in a:
            if isinstance(x, T):
                q = refbases(x)
                if q: out.update(q)
            elif isinstance(x, tuple): go(x)
    if v.k not in ("site", "ctx", "hdr"): go(v.a)
    r = frozenset(out) if out else _none
    _rb[v] = r
    return r

def istext(t): return t.k in ("cat", "bytes") or t.k in ("deref", "res", "p", "fld", "phi", "post", "param", "slice")

def join_text(a, b):
    """widening for appended byte sequences; None if b does not extend a"""
    if a.k not in ("cat", "bytes") and b.k != "cat": return None
    pa, pb = list(pieces(a)), list(pieces(b))
    if a is EMPTY: pa = []
    # split trailing star of a
    if pa and pa[-1].k == "star":
        pre, starred = pa[:-1], set(pa[-1].a[0])
        if pb[:len(pre)] == pre:
            rest = pb[len(pre):]
            if rest and rest[0].k == "star" and set(rest[0].a[0]) <= starred: rest = rest[1:]
            if not rest: return a
            d = text(rest)
            if d in starred: return a
            if any(x.k == "star" and x is pa[-1] for x in rest): return None
            return cat(*(pre + [star(starred | {d})]))
        return None
    if pb[:len(pa)] == pa:
        d = pb[len(pa):]
        if not d: return a
        return cat(*(pa + [star({text(d)})]))
    # literal prefix inside a merged literal
    if pa and pb and pa[-1].k == "bytes" and len(pb) >= len(pa) and pb[:len(pa) - 1] == pa[:-1] and pb[len(pa) - 1].k == "bytes":
        x, y = pa[-1].a[0], pb[len(pa) - 1].a[0]
        if y.startswith(x) and y != x:
            d = [BY(y[len(x):])] + pb[len(pa):]
            return cat(*(pa + [star({text(d)})]))
    return None

def star(alts): return mk("star", tuple(sorted(set(alts), key=lambda t: t.id)))
