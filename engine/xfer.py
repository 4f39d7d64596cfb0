"""Transfer functions of the external functions the crate uses."""
from terms import *
import re
import core, linear
from core import Ev, Kont, Unsupported, Engine, bytesv
from models import *

COW = "std::borrow::Cow"
HASHERS = {"sha2::sha512::Sha512Trunc256": "sha512/256", "blake2::blake2b::VarBlake2b": "blake2b", "blake3::Hasher": "blake3/256",
           "sha2::Sha512Trunc256": "sha512/256", "blake2::VarBlake2b": "blake2b"}

def params_only(x): return all(a.k == "param" for a in subterms(x))

PATHTY = re.compile(r"path::Path(Buf)?\b")

class X(Models):
    # ------------------------------------------------------------ helpers
    def ret(self, eng, st, c, v, *evs): return eng.finish(st, c, v, list(evs))

    def pointee_ty(self, eng, ti):
        return strip_ref(eng, ti)

    def loc(self, eng, st, v):
        """location a (possibly nested) pointer finally designates"""
        n = 0
        while n < 20:
            n += 1
            if v.k == "dyn": v = v.a[0]; continue
            b, p = eng.target(v)
            x = eng.load(st, b, p)
            if x.k in ("ref", "box", "dyn"): v = x; continue
            return b, p
        return eng.target(v)

    def ident(self, eng, st, v):
        """identity of the object behind a pointer: its location, or the opaque pointer"""
        b, p = self.loc(eng, st, v)
        if b.k == "D" and not p: return b.a[0]
        return mk("loc", b, p)

    def stream(self, eng, st, v):
        """identity of the stream behind a reader value"""
        x = eng.content(st, v)
        return x

    def fork_io(self, eng, st, c, kind, name, args, okval, okfacts=(), after=None):
        """a fallible operation: Ok(okval) or Err(fresh)"""
        outs = []
        args = tuple(eng.content(st, a) for a in args)
        s2 = st.copy()
        e = eng.atom(s2, "res", c.site, "err:" + name, ())
        outs += eng.finish(s2, c, err(e), [self.ev_raw(eng, s2, c, kind, name, args, e, "err")])
        s1 = st
        if after: after(s1)
        good = all(eng.assume(s1, t, x) for t, x in okfacts)
        if good: outs += eng.finish(s1, c, ok(okval), [self.ev_raw(eng, s1, c, kind, name, args, okval, "ok")])
        return outs

    def in_mark(self, fr, mark):
        while fr is not None:
            if fr.mark == mark: return True
            fr = fr.parent
        return False

    def panic_fork(self, eng, st, c, cond, name):
        """(state where cond holds or None, [panic outs]); cond is a boolean term"""
        k = eng.known(st, cond)
        if k == 1: return st, []
        outs = []
        s2 = st.copy()
        if k == 0 or eng.assume(s2, cond, 0):
            outs.append((None, ("panic", name), s2, [self.ev_raw(eng, s2, c, "panic", name, (cond,))]))
        if k == 0 or not eng.assume(st, cond, 1): return None, outs
        return st, outs

    def le(self, a, b):
        if a.k == "int" and b.k == "int": return B(a.a[0] <= b.a[0])
        if a is b: return B(1)
        return mk("op", "Le", a, b)
    def lt(self, a, b):
        if a.k == "int" and b.k == "int": return B(a.a[0] < b.a[0])
        if a is b: return B(0)
        return mk("op", "Lt", a, b)

    def unit_or(self, eng, c): return UNIT

    # ------------------------------------------------------------ identity-like functions
    @m("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "Borrow::borrow", "BorrowMut::borrow_mut", "AsMut::as_mut",
       "std::path::Path::new", "OsStrExt::as_bytes", "OsStrExt::from_bytes", "Path::as_os_str", "String::as_str", "String::as_bytes",
       "str::as_bytes", "Vec::as_slice", "Vec::as_mut_slice", "Read::by_ref", "Write::by_ref", "PathBuf::as_path", "OsString::as_os_str", "Arc::as_ref",
       "OsStr::new", "blake3::Hash::as_bytes", "GenericArray::as_slice", "as_slice", "str::from_utf8_unchecked", "std::str::from_utf8_unchecked",
       "slice::iter::as_slice", "std::hint::must_use", "std::convert::identity", "hint::black_box", "str::as_ref", "as_mut_path", "Path::as_ref", "Iterator::by_ref", "String::as_mut_str", "AsciiExt", "str::from_utf8_unchecked_mut", "boxed::Box::as_ref", "Box::as_mut", "[T]::as_ref", "String::as_mut_vec", "hash_map::into_mut")
    def f_same(self, eng, st, c):
        v = c.args[0]
        evs = []
        if c.name == "from_utf8_unchecked": evs = [self.ev(eng, st, c, "unchecked", "from_utf8_unchecked", (v,))]
        if v.k == "ref" or v.k in ("fld", "param", "res"):
            ti = strip_ref(eng, c.atys[0]) if c.atys else None
            if ti is not None and eng.p.ty(ti).get("def") == COW: v = self.cow_ptr(eng, st, v)
        # &&T -> &T
        if c.name in ("as_ref", "borrow", "deref", "new", "as_os_str") and c.atys and c.dty is not None:
            n = self.refdepth(eng, c.atys[0]) - self.refdepth(eng, c.dty)
            while n > 0: v = eng.deref(st, v); n -= 1
        return self.ret(eng, st, c, v, *evs)

    def refdepth(self, eng, ti):
        n = 0
        while eng.p.ty(ti)["k"] in ("ref", "ptr"): ti = eng.p.ty(ti)["to"]; n += 1
        return n

    def cow_ptr(self, eng, st, v):
        while True:
            b, p = eng.target(v)
            x = eng.load(st, b, p)
            if x.k == "ref": v = x; continue
            break
        if x.k == "agg" and x.a[0] == COW:
            if x.a[1] == 0: return x.a[2][0]
            return ref(b, p + (("v", 1), ("f", 0)))
        return v

    @m("Path::to_path_buf", "ToOwned::to_owned", "slice::[T]::to_vec", "PathBuf::into_os_string", "OsStringExt::from_vec", "OsStringExt::into_vec",
       "OsStr::to_os_string", "String::into_bytes", "Cow::into_owned", "String::into_boxed_str", "str::to_owned", "OsString::into_string_", "str::into_string", "String::from_utf8_unchecked",
       "[T]::into_vec", "Vec::into_boxed_slice", "Into::into", "From::from", "string::String::from", "PathBuf::from", "std::path::PathBuf::into_boxed_path", "str::to_string_", "Cow::to_mut_")
    def f_own(self, eng, st, c):
        v = c.args[0]
        if c.name in ("into", "from"):
            dt = eng.p.ty(c.dty)["s"] if c.dty is not None else ""
            at = eng.p.ty(c.atys[0]) if c.atys else {"k": "?", "s": "?"}
            if at["s"] == dt or at["k"] == "int": return self.ret(eng, st, c, v)
            if "Box<" in dt and "dyn" in dt: return self.ret(eng, st, c, mk("boxerr", eng.content(st, v)))
            if at["s"].endswith("io::ErrorKind") or dt.endswith("io::Error"): return self.ret(eng, st, c, mk("p", "io_error", (eng.content(st, v),)))
            if "Arc<" in dt: return self.ret(eng, st, c, v)
        x = self.text(eng, st, v)
        evs = [self.ev(eng, st, c, "unchecked", "from_utf8_unchecked", (v,))] if c.name == "from_utf8_unchecked" else []
        return self.ret(eng, st, c, x, *evs)

    def text(self, eng, st, v):
        x = eng.content(st, v)
        while x.k == "agg" and x.a[0] == COW: x = x.a[2][0]
        if x.k == "coll" and not x.a[1] and x.a[2].k == "int" and x.a[2].a[0] == 0: return EMPTY
        return x

    @m("Clone::clone", "Option::cloned_", "Clone::clone_from_")
    def f_clone(self, eng, st, c):
        v = eng.deref(st, c.args[0])
        ti = strip_ref(eng, c.atys[0]) if c.atys else None
        ty = eng.p.ty(ti) if ti is not None else {"k": "?", "s": "?"}
        if v.k == "hs":
            n = mk("hs", v.a[0], eng.atom(st, "res", c.site, "hasher", ()))
            v = eng.deref(st, c.args[0])
            return self.ret(eng, st, c, n, self.ev_raw(eng, st, c, "hash", "clone", (v, n)))
        x = eng.content(st, v)
        if ty["k"] == "ref": x = v
        return self.ret(eng, st, c, x)

    @m("Arc::new", "Rc::new", "Cell::new_", "Mutex::new", "Some", "Arc::clone", "BufWriter::into_inner_", "ManuallyDrop::new", "Pin::new")
    def f_wrap(self, eng, st, c):
        v = c.args[0]
        if c.name == "clone": v = eng.content(st, v)
        return self.ret(eng, st, c, v)

    @m("Box::new", "boxed::Box::new")
    def f_box(self, eng, st, c):
        h = mk("H", c.site)
        old = st.mem.get(h)
        if old is not None and old is not c.args[0]: st.mem[h] = mk("post", c.site, "boxmix")
        else: st.mem[h] = c.args[0]
        return self.ret(eng, st, c, mk("box", h))

    @m("std::mem::drop", "mem::forget", "drop_in_place")
    def f_drop(self, eng, st, c): return self.ret(eng, st, c, UNIT)

    @m("std::mem::replace", "mem::take", "mem::swap", "Option::take_", "Option::replace_")
    def f_replace(self, eng, st, c):
        b, p = eng.target(c.args[0]); old = eng.load(st, b, p)
        if c.name == "swap":
            b2, p2 = eng.target(c.args[1]); o2 = eng.load(st, b2, p2)
            eng.store(st, b, p, o2, c.site); eng.store(st, b2, p2, old, c.site)
            return self.ret(eng, st, c, UNIT)
        if c.name == "take":
            ti = strip_ref(eng, c.atys[0]); nv = self.default_of(eng, ti)
            if nv is None: nv = mk("post", c.site, "take")
        else: nv = c.args[1]
        eng.store(st, b, p, nv, c.site)
        return self.ret(eng, st, c, old)

    def default_of(self, eng, ti):
        ty = eng.p.ty(ti); s = ty["s"]; k = ty["k"]
        if k == "int": return I(0)
        if k == "bool": return B(0)
        if k == "adt":
            d = ty["def"]
            if d.endswith("::Option"): return NONE
            if d in ("std::string::String", "std::path::PathBuf", "std::ffi::OsString"): return EMPTY
            if d.endswith("::Vec"): return EMPTY if self.is_u8(eng, ty["args"][0]) else coll("vec", (), I(0))
            if d.endswith("::VecDeque"): return coll("deque", (), I(0))
        if k == "array":
            n = ty.get("n")
            if n is not None and self.is_u8(eng, ty["to"]): return mk("rep", I(0), n)
        if k == "tuple" and not ty["args"]: return UNIT
        return None

    def is_u8(self, eng, ti): return eng.p.tys(ti) == "u8"

    @m("Default::default")
    def f_default(self, eng, st, c):
        ti = c.dty
        ty = eng.p.ty(ti)
        if ty.get("def") in HASHERS: return self.new_hasher(eng, st, c, HASHERS[ty["def"]])
        v = self.default_of(eng, ti)
        if v is None and ty.get("def", "").endswith("GenericArray"): v = mk("rep", I(0), 32)
        if v is None: return self.opaque(eng, st, c)
        return self.ret(eng, st, c, v)

    # ------------------------------------------------------------ integers, comparison
    INTOPS = {"saturating_sub", "saturating_add", "saturating_mul", "checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem",
              "wrapping_add", "wrapping_sub", "wrapping_mul", "min", "max", "div_ceil", "is_multiple_of", "overflowing_add", "abs_diff", "next_multiple_of",
              "is_power_of_two", "checked_next_multiple_of", "rem_euclid", "div_euclid", "checked_div_ceil"}
    INTS = {"u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize", "u128"}

    def lookup(self, c):
        f = Models.lookup(self, c)
        if f is not None: return f
        q = norm(c.path).split("::")
        if len(q) >= 2 and q[-2] in self.INTS:
            if q[-1] in self.INTOPS: return self.f_intop
            if q[-1] == "from_str_radix": return self.f_parse_int
            if q[-1].startswith("is_ascii") or q[-1] in ("to_ascii_lowercase", "to_ascii_uppercase", "count_ones", "leading_zeros", "pow", "trailing_zeros"): return self.f_pure
        if q[-2:] == ["intrinsics", "integer_min"] or q[-2:] == ["intrinsics", "integer_max"]: return self.f_intop
        return None

    @m("Step::forward_unchecked", "Step::forward")
    def f_step(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        return self.ret(eng, st, c, add(eng.content(st, c.args[0]), eng.content(st, c.args[1])))

    @m("Step::backward_unchecked", "Step::backward")
    def f_step_back(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        return self.ret(eng, st, c, sub(eng.content(st, c.args[0]), eng.content(st, c.args[1])))

    def f_pure(self, eng, st, c):
        return self.ret(eng, st, c, mk("p", short(c.path), tuple(self.text(eng, st, a) for a in c.args)))

    def f_intop(self, eng, st, c):
        tn = norm(c.path).split("::")[-2]
        if tn not in self.INTS: tn = eng.p.tys(c.atys[0]) if c.atys else "u64"
        a, b = (eng.content(st, x) for x in (list(c.args) + [I(0)])[:2])
        n = c.name.replace("integer_", "")
        for x in (a, b):
            if x.k not in ("int", "bool"): eng.tty.setdefault(x, tn)
        mx = linear.MAX.get(tn, (1 << 64) - 1)
        if n == "saturating_sub":
            if a.k == "int" and b.k == "int": return self.ret(eng, st, c, I(max(0, a.a[0] - b.a[0])))
            return self.ret(eng, st, c, mk("p", "satsub", (a, b)))
        if n in ("min", "max"):
            if a.k == "int" and b.k == "int": return self.ret(eng, st, c, I(min(a.a[0], b.a[0]) if n == "min" else max(a.a[0], b.a[0])))
            if eng.known(st, self.le(a, b)) == 1: return self.ret(eng, st, c, a if n == "min" else b)
            if eng.known(st, self.le(b, a)) == 1: return self.ret(eng, st, c, b if n == "min" else a)
            return self.ret(eng, st, c, mk("p", n, (a, b)))
        if n.startswith("checked_"):
            op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}.get(n[8:])
            if op is None: return self.opaque(eng, st, c)
            if op in ("Div", "Rem"):
                bad = mk("op", "Eq", b, I(0)) if b.k != "int" else B(b.a[0] == 0)
                v = eng.binop(st, op, a, b, tn)
            else:
                r = eng.binop(st, op + "WithOverflow", a, b, tn)
                v, bad = r.a[2]
            return self.fork_bool(eng, st, c, bad, NONE, some(v))
        if n == "div_ceil": return self.ret(eng, st, c, mk("p", "div_ceil", (a, b)))
        if n == "is_multiple_of": return self.ret(eng, st, c, eng.binop(st, "Eq", eng.binop(st, "Rem", a, b, tn), I(0), tn))
        return self.f_pure(eng, st, c)

    def fork_bool(self, eng, st, c, cond, vtrue, vfalse):
        k = eng.known(st, cond)
        if k is not None: return self.ret(eng, st, c, vtrue if k else vfalse)
        return self.fork(eng, st, c, [(vtrue, [], [(cond, 1)]), (vfalse, [], [(cond, 0)])])

    @m("cmp::PartialEq::eq", "cmp::PartialEq::ne")
    def f_eq(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        a, b = self.text(eng, st, c.args[0]), self.text(eng, st, c.args[1])
        r = self.eq(eng, st, a, b)
        ne = c.name == "ne"
        if r.k == "op" and r.a[0] == "Eq" and any(x.k == "disc" for x in r.a[1:]): return self.fork_bool(eng, st, c, r, B(not ne), B(ne))
        if r.k == "op" and r.a[0] == "Eq" and len(c.atys) > 1 and any(PATHTY.search(eng.p.tys(t)) for t in c.atys[:2] if t is not None):
            # paths are compared component by component, not byte by byte
            r = mk("p", "patheq", tuple(sorted(r.a[1:], key=lambda t: t.id)))
        if ne: r = eng.not_(r)
        return self.ret(eng, st, c, r)

    def eq(self, eng, st, a, b):
        if a is EMPTY and b.k == "bytes" or b is EMPTY and a.k == "bytes": return B(0)
        if a.k == "bytes" and b.k == "bytes": return B(a.a[0] == b.a[0])
        if a.k == "agg" and b.k == "agg" and a.a[0] == b.a[0] and not str(a.a[0]).startswith("closure"):
            if a.a[1] != b.a[1]: return B(0)
            if not a.a[2]: return B(1)
            if len(a.a[2]) == len(b.a[2]) == 1: return self.eq(eng, st, a.a[2][0], b.a[2][0])
        if b.k == "agg" and a.k != "agg": a, b = b, a
        if a.k == "agg" and not a.a[2] and b.k != "agg":
            return eng.binop(st, "Eq", mk("disc", b), I(eng.variant_disc(a.a[0], a.a[1], None)), "isize")
        if a.k == "bytes" and lenof(b).k == "int" and lenof(b).a[0] != len(a.a[0]): return B(0)
        if b.k == "bytes" and lenof(a).k == "int" and lenof(a).a[0] != len(b.a[0]): return B(0)
        return eng.binop(st, "Eq", a, b, "u64")

    @m("cmp::Ord::cmp", "cmp::PartialOrd::partial_cmp")
    def f_cmp(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        ti = strip_ref(eng, c.atys[0]); ty = eng.p.ty(ti)
        a, b = self.text(eng, st, c.args[0]), self.text(eng, st, c.args[1])
        kind = "int" if ty["k"] in ("int", "char", "bool") else "path" if ty["s"].endswith(("Path", "PathBuf")) or "std::path::Path" in ty["s"] else "bytes"
        if ty["k"] == "adt" and kind == "bytes" and not ty["s"].endswith(("OsStr", "OsString", "String", "u8>")): kind = ty["s"]
        if a is b: v = agg("std::cmp::Ordering", 1, ())
        else: v = mk("p", "cmp:" + kind, (a, b))
        if c.name == "partial_cmp": v = some(v)
        return self.ret(eng, st, c, v)

    @m("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
    def f_lt(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        a, b = self.text(eng, st, c.args[0]), self.text(eng, st, c.args[1])
        return self.ret(eng, st, c, eng.binop(st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.name], a, b, "u64"))

    @m("ops::BitAnd::bitand", "ops::Shr::shr", "ops::Shl::shl", "ops::BitOr::bitor", "ops::Add::add", "ops::Sub::sub", "ops::Mul::mul", "ops::Div::div", "ops::Rem::rem", "ops::BitXor::bitxor")
    def f_arith(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        a, b = eng.content(st, c.args[0]), eng.content(st, c.args[1])
        tn = eng.p.tys(strip_ref(eng, c.atys[0]))
        if tn not in self.INTS: return self.opaque(eng, st, c)
        op = {"bitand": "BitAnd", "shr": "Shr", "shl": "Shl", "bitor": "BitOr", "bitxor": "BitXor"}.get(c.name, c.name.capitalize())
        return self.ret(eng, st, c, eng.binop(st, op, a, b, tn))

    # ------------------------------------------------------------ text
    @m("String::from_utf8_lossy", "String::to_string_lossy", "Path::to_string_lossy", "OsStr::to_string_lossy", "Path::display", "Path::to_str_", "str::escape_default")
    def f_lossy(self, eng, st, c):
        return self.ret(eng, st, c, agg(COW, 0, (ref(mk("C", mk("p", "lossy", (self.text(eng, st, c.args[0]),)))),)) if "lossy" in c.name else mk("p", c.name, (self.text(eng, st, c.args[0]),)))

    @m("str::to_lowercase", "str::to_ascii_lowercase", "slice::ascii::to_ascii_lowercase", "OsStr::to_ascii_lowercase", "slice::[T]::to_ascii_lowercase",
       "str::to_uppercase", "str::to_ascii_uppercase", "slice::ascii::to_ascii_uppercase", "OsStr::to_ascii_uppercase", "slice::[T]::to_ascii_uppercase", "str::trim", "str::trim_start", "str::trim_end")
    def f_case(self, eng, st, c):
        x = mk("p", "lower" if "lower" in c.name else "upper" if "upper" in c.name else c.name, (self.text(eng, st, c.args[0]),))
        return self.ret(eng, st, c, ref(mk("C", x)) if "trim" in c.name else x)

    @m("str::eq_ignore_ascii_case", "slice::ascii::eq_ignore_ascii_case", "OsStr::eq_ignore_ascii_case")
    def f_eqcase(self, eng, st, c):
        a, b = (mk("p", "lower", (self.text(eng, st, x),)) for x in c.args)
        return self.ret(eng, st, c, self.eq(eng, st, a, b))

    @m("str::from_utf8", "String::from_utf8", "Path::to_str", "OsStr::to_str")
    def f_utf8(self, eng, st, c):
        x = self.text(eng, st, c.args[0]); t = mk("p", "utf8", (x,))
        good = c.args[0] if c.name == "from_utf8" or c.name == "to_str" else x
        if c.name == "to_str": return self.fork_bool(eng, st, c, t, some(good), NONE)
        k = eng.known(st, t)
        e = eng.atom(st, "res", c.site, "err:utf8", ())
        if k is not None: return self.ret(eng, st, c, ok(good) if k else err(e))
        return self.fork(eng, st, c, [(ok(good), [], [(t, 1)]), (err(e), [], [(t, 0)])])

    def f_parse_int(self, eng, st, c):
        x = self.text(eng, st, c.args[0]); radix = eng.content(st, c.args[1]) if len(c.args) > 1 else I(10)
        v = mk("p", "parse_int", (x, radix)); t = mk("p", "is_int", (x, radix))
        tn = norm(c.path).split("::")[-2]
        eng.tty.setdefault(v, tn if tn in self.INTS else "u64")
        e = eng.atom(st, "res", c.site, "err:int", ())
        k = eng.known(st, t)
        if x is EMPTY or x.k == "bytes" and not x.a[0]: k = 0
        if k is not None: return self.ret(eng, st, c, ok(v) if k else err(e))
        return self.fork(eng, st, c, [(ok(v), [], [(t, 1)]), (err(e), [], [(t, 0)])])

    @m("str::parse", "FromStr::from_str")
    def f_parse(self, eng, st, c):
        dt = eng.p.ty(c.dty)
        t = dt["args"][0] if dt.get("args") else None
        if t is not None:
            k = eng.p.impl_tab.get(("std::str::FromStr", "from_str"), {}).get(t)
            if k in eng.p.bodies: return eng.inline(st, c, eng.p.bodies[k], c.args)
            if eng.p.tys(t) in self.INTS:
                return self.f_parse_int(eng, st, c)
        return self.opaque(eng, st, c)

    @m("ToString::to_string", "string::SpecToString::spec_to_string")
    def f_to_string(self, eng, st, c):
        ti = c.callee.get("self", c.atys[0])
        return self.ret(eng, st, c, self.display(eng, st, "Display", c.args[0], ti, None))

    @m("slice::[T]::starts_with", "slice::[T]::ends_with", "str::starts_with", "str::ends_with")
    def f_starts(self, eng, st, c):
        a, b = self.text(eng, st, c.args[0]), self.text(eng, st, c.args[1])
        if b.k == "int": b = BY(chr(b.a[0]).encode())
        if b is EMPTY: return self.ret(eng, st, c, B(1))
        t = mk("p", c.name, (a, b))
        if a is EMPTY: return self.ret(eng, st, c, B(0))
        k = self.known(eng, st, t) if t not in st.facts else st.facts[t]
        return self.ret(eng, st, c, B(k) if k is not None else t)

    @m("slice::[T]::is_empty", "Vec::is_empty", "str::is_empty", "String::is_empty", "OsStr::is_empty", "VecDeque::is_empty")
    def f_is_empty(self, eng, st, c):
        l = lenof(self.text(eng, st, c.args[0]))
        return self.ret(eng, st, c, eng.binop(st, "Eq", l, I(0), "usize"))

    @m("slice::[T]::len", "Vec::len", "str::len", "String::len", "VecDeque::len", "OsStr::len", "ExactSizeIterator::len")
    def f_len(self, eng, st, c):
        x = self.text(eng, st, c.args[0])
        if x.k == "it":
            l = self.it_len(x)
            if l is None: return self.opaque(eng, st, c)
        else: l = lenof(x)
        if l.k != "int": eng.tty.setdefault(l, "usize")
        return self.ret(eng, st, c, l)

    @m("Path::file_name", "Path::parent", "Path::extension", "Path::file_stem")
    def f_pathopt(self, eng, st, c):
        x = self.text(eng, st, c.args[0])
        return self.ret(eng, st, c, mk("p", c.name, (x,)))

    @m("Path::is_absolute", "Path::is_relative", "Path::has_root")
    def f_isabs(self, eng, st, c):
        x = self.text(eng, st, c.args[0])
        t = mk("p", "is_absolute", (x,))
        if x is EMPTY: t = B(0)
        elif x.k == "bytes": t = B(x.a[0].startswith(b"/"))
        else:
            sw = mk("p", "starts_with", (x, BY(b"/")))
            k = st.facts.get(sw)
            if k is not None: t = B(k)
        if c.name == "is_relative": t = eng.not_(t)
        return self.ret(eng, st, c, t)

    @m("Path::join")
    def f_join(self, eng, st, c):
        a, b = self.text(eng, st, c.args[0]), self.text(eng, st, c.args[1])
        return self.ret(eng, st, c, mk("p", "join", (a, b)))

    @m("PathBuf::push")
    def f_pathpush(self, eng, st, c):
        b_, p_ = self.loc(eng, st, c.args[0])
        a = eng.load(st, b_, p_); b = self.text(eng, st, c.args[1])
        eng.store(st, b_, p_, mk("p", "join", (self.text(eng, st, a), b)), c.site)
        return self.ret(eng, st, c, UNIT)

    @m("PathBuf::new", "String::new", "OsString::new")
    def f_newtext(self, eng, st, c): return self.ret(eng, st, c, EMPTY)

    @m("String::with_capacity", "PathBuf::with_capacity")
    def f_newtextcap(self, eng, st, c):
        return self.ret(eng, st, c, EMPTY, self.ev(eng, st, c, "alloc", "String::with_capacity", (c.args[0],)))

    @m("Vec::new", "VecDeque::new", "Vec::with_capacity", "VecDeque::with_capacity")
    def f_newcoll(self, eng, st, c):
        ty = eng.p.ty(c.dty)
        u8 = ty.get("args") and self.is_u8(eng, ty["args"][0])
        v = EMPTY if u8 else coll("deque" if "Deque" in ty["s"][:40] else "vec", (), I(0))
        evs = [self.ev(eng, st, c, "alloc", short(c.path), (c.args[0],))] if c.args else []
        return self.ret(eng, st, c, v, *evs)

    @m("Vec::reserve", "String::reserve", "Vec::reserve_exact", "VecDeque::reserve")
    def f_reserve(self, eng, st, c):
        return self.ret(eng, st, c, UNIT, self.ev(eng, st, c, "alloc", short(c.path), (c.args[1],)))

    @m("vec::from_elem")
    def f_from_elem(self, eng, st, c):
        n = eng.content(st, c.args[1])
        return self.ret(eng, st, c, mk("rep", c.args[0], n), self.ev(eng, st, c, "alloc", "vec![x; n]", (n,)))

    @m("slice::[T]::into_vec", "Vec::shrink_to_fit")
    def f_shrink(self, eng, st, c):
        return self.ret(eng, st, c, c.args[0] if c.name == "into_vec" else UNIT)

    def append(self, eng, st, c, ptr, piece, cell=None):
        b, p = cell or self.loc(eng, st, ptr)
        old = self.text(eng, st, eng.load(st, b, p))
        new = text([old, piece])
        eng.store(st, b, p, new, c.site)
        i = b.a[0] if b.k == "D" and not p else mk("loc", b, p)
        return self.ev_raw(eng, st, c, "text", "append", (i, piece, old))

    @m("Vec::extend_from_slice", "String::push_str", "OsString::push", "Vec::append_", "Extend::extend")
    def f_push_str(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        ti = strip_ref(eng, c.atys[0]); ty = eng.p.ty(ti)
        x = self.text(eng, st, c.args[1])
        if x.k == "it":
            if x.a[0] == "idx": x = x.a[1] if x.a[2].k == "int" and x.a[2].a[0] == 0 else sl(x.a[1], x.a[2], lenof(x.a[1]))
            else: x = mk("post", c.site, "ext")
        b, p = self.loc(eng, st, c.args[0])
        old = eng.load(st, b, p)
        if old.k == "coll":
            eng.store(st, b, p, coll(old.a[0], old.a[1] + ((mk("elem", x, mk("param", "?")),)), add(old.a[2], lenof(x))), c.site)
            return self.ret(eng, st, c, UNIT)
        e = self.append(eng, st, c, None, x, (b, p))
        return self.ret(eng, st, c, UNIT, e)

    @m("String::push", "fmt::Write::write_char", "fmt::Write::write_str", "Formatter::write_str", "Formatter::write_char", "Formatter::pad")
    def f_push_char(self, eng, st, c):
        x = self.text(eng, st, c.args[1])
        if "char" in c.name or c.name == "push":
            x = self.charpiece(x)
        if c.name == "pad": x = mk("padded", x)
        e = self.append(eng, st, c, c.args[0], x)
        if c.name == "push": return self.ret(eng, st, c, UNIT, e)
        return self.fmt_result(eng, st, c, e)

    def charpiece(self, x):
        if x.k == "int": return BY(chr(x.a[0]).encode())
        if x.k == "cast" and x.a[0] == "char": return mk("chr", x.a[1])
        return mk("chr", x)

    def fmt_result(self, eng, st, c, *evs):
        """writing to a Formatter may fail, appending to a String does not"""
        ti = strip_ref(eng, c.atys[0])
        if "Formatter" in eng.p.tys(ti):
            s2 = st.copy()
            return eng.finish(s2, c, err(mk("zst", "std::fmt::Error")), [self.ev_raw(eng, s2, c, "text", "failed", ())]) + eng.finish(st, c, ok(UNIT), list(evs))
        return self.ret(eng, st, c, ok(UNIT), *evs)

    @m("Vec::push", "VecDeque::push_back", "VecDeque::push_front", "Vec::insert", "BinaryHeap::push", "Vec::append", "VecDeque::append", "BTreeSet::insert", "HashSet::insert")
    def f_push(self, eng, st, c):
        b, p = self.loc(eng, st, c.args[0])
        old = eng.load(st, b, p)
        x = c.args[-1]
        ti = strip_ref(eng, c.atys[0]); ty = eng.p.ty(ti)
        if ty.get("args") and self.is_u8(eng, ty["args"][0]) and c.name == "push":
            v = eng.content(st, x)
            piece = BY([v.a[0]]) if v.k == "int" else mk("byte", v)
            e = self.append(eng, st, c, None, piece, (b, p))
            return self.ret(eng, st, c, UNIT, e)
        if old.k != "coll":
            if old.k in ("cat", "bytes") or old is EMPTY: old = coll("vec", (), lenof(old))
            else: old = coll("vec", (mk("elem", old, mk("param", "?")),), lenof(old))
        if c.name == "append":
            b2, p2 = self.loc(eng, st, c.args[1]); o2 = eng.load(st, b2, p2)
            if o2.k != "coll": o2 = coll("vec", (mk("elem", o2, mk("param", "?")),), lenof(o2))
            eng.store(st, b, p, coll(old.a[0], old.a[1] + o2.a[1], add(old.a[2], o2.a[2])), c.site)
            eng.store(st, b2, p2, coll(o2.a[0], (), I(0)), c.site)
            return self.ret(eng, st, c, UNIT, self.ev(eng, st, c, "coll", "append", (self.ident(eng, st, c.args[0]), o2)))
        e = self.ev_raw(eng, st, c, "coll", c.name, (mk("loc", b, p) if not (b.k == "D" and not p) else b.a[0], eng.content(st, x), old), None, ti)
        w = self.wrap(eng, st, x)
        eng.store(st, b, p, coll(old.a[0], old.a[1] + (w,), add(old.a[2], I(1))), c.site)
        return self.ret(eng, st, c, UNIT, e)

    def wrap(self, eng, st, v, rename=True):
        at = {a for a in subterms(v) if a.k != "param"}
        if not at: return v
        fs = []
        for t, x in st.facts.items():
            if t.k == "ne":
                if t.a[0].k != "disc": continue
            elif (t.k == "op" and t.a[0] in ("Lt", "Le")) or not isinstance(x, int): continue
            if subterms(t) & at: fs.append((t, x))
        # the atoms of a stored element are names local to the element: use one canonical name each
        m = {}; used = set(a for a in at if a.k == "wk")
        for a in sorted(at, key=lambda z: z.id) if rename else ():
            if a.k not in ("res", "el", "post", "phi"): continue
            w = strip_(a)
            if w in used: continue
            used.add(w); m[a] = w
        if m:
            memo = {}
            v = subst(v, m, memo)
            fs = [(subst(t, m, memo), x) for t, x in fs]
        return ce(v, fs)

    @m("Vec::clear", "String::clear", "VecDeque::clear", "PathBuf::clear")
    def f_clear(self, eng, st, c):
        b, p = self.loc(eng, st, c.args[0])
        old = eng.load(st, b, p)
        ti = strip_ref(eng, c.atys[0]); ty = eng.p.ty(ti)
        u8 = "String" in ty["s"][:25] or "PathBuf" in ty["s"][:25] or (ty.get("args") and self.is_u8(eng, ty["args"][0]))
        eng.store(st, b, p, EMPTY if u8 else coll("deque" if "Deque" in ty["s"][:40] else "vec", (), I(0)), c.site)
        return self.ret(eng, st, c, UNIT, self.ev_raw(eng, st, c, "coll" if not u8 else "text", "clear", (mk("loc", b, p) if not (b.k == "D" and not p) else b.a[0], old), None, ti))

    @m("Vec::truncate", "String::truncate")
    def f_trunc(self, eng, st, c):
        b, p = self.loc(eng, st, c.args[0])
        old = self.text(eng, st, eng.load(st, b, p)); n = eng.content(st, c.args[1])
        if old.k == "coll": nv = coll(old.a[0], old.a[1], mk("p", "min", (old.a[2], n)))
        elif eng.known(st, self.le(n, lenof(old))) == 1: nv = self.cut_last(old, n)
        else: nv = mk("post", c.site, "trunc")
        eng.store(st, b, p, nv, c.site)
        return self.ret(eng, st, c, UNIT)

    def cut_last(self, old, n):
        if sub(lenof(old), I(1)) is n: return mk("init", old)
        return sl(old, I(0), n)

    # ------------------------------------------------------------ taking elements out of collections
    def instantiate(self, eng, st, site, e, cl, tag="e"):
        """an arbitrary instance of collection element e; (value, facts)"""
        v, facts = unce(e)
        mp = {}
        els = eng.el_src if hasattr(eng, "el_src") else None
        def conv(x, pos):
            if x in mp: return mp[x]
            k = x.k
            if k in ("int", "bool", "bytes", "fn", "fnkey", "zst", "const"): return x
            if k == "ref":
                if x.a[0].k == "C": return ref(mk("C", conv(x.a[0].a[0], pos + ("*",))), x.a[1])
                if x.a[0].k == "D":
                    q = x.a[0].a[0]
                    if params_only(q): return x
                    return ref(mk("D", conv(q, pos + ("d",))), x.a[1])
                return x
            if k == "cell": return conv(eng.get(st, x.a[0]), pos)
            if params_only(x) and k != "coll": return x
            if k == "agg": return mk("agg", x.a[0], x.a[1], tuple(conv(y, pos + ((x.a[1], i),)) for i, y in enumerate(x.a[2])))
            if k == "future": return mk("future", conv(x.a[0], pos + ("fut",)))
            if k in ("dyn",): return mk("dyn", conv(x.a[0], pos), x.a[1])
            if k == "box": return x
            if k == "hs": return mk("hs", x.a[0], conv(x.a[1], pos + ("hs",)))
            if k == "upd": return mk("upd", conv(x.a[0], pos + ("u",)), tuple((q, conv(y, pos + (str(q),))) for q, y in x.a[1]))
            if k == "coll":
                return coll(x.a[0], [self._convce(conv, y, pos + ("c",), mp) for y in x.a[1]], conv(x.a[2], pos + ("n",)) if not params_only(x.a[2]) else x.a[2], x.a[3])
            if k == "p" and x.a[0] == "entry_name": return mk("p", "entry_name", (conv(x.a[1][0], pos + ("n",)),))
            y = mk("el", site, tag, pos)
            if x in eng.tty: eng.tty[y] = eng.tty[x]
            mp[x] = y
            if els is not None: els.setdefault(y, set()).add(x)
            return y
        nv = conv(v, ())
        am = {a: y for a, y in mp.items() if a.k in ATOMS}
        nf = []
        for t, x in facts:
            t2 = subst(t, am, {})
            if all(a.k == "param" or (a.k == "el" and a.a[0] is site) or (a.k != "wk" and a not in am) for a in subterms(t2)): nf.append((t2, x))
        return nv, nf

    def _convce(self, conv, y, pos, mp):
        v, f = unce(y)
        # inner elements keep their own abstraction: only rename what the outer element renamed
        am = {a: z for a, z in mp.items() if a.k in ATOMS}
        return subst(y, am, {}) if am else y

    def take_out(self, eng, st, c, cl, mkval, size=None, evs=()):
        """fork over the elements of a collection; mkval(state, value) -> outs"""
        outs = []
        site = c.site
        eng.age(st, site)
        # re-read: ageing may have renamed the elements
        seen = set()
        for e in cl.a[1]:
            s = st.copy()
            v, fs = self.instantiate(eng, s, site, e, cl)
            kk = (v, tuple(sorted(((t.id, x) for t, x in fs))))
            if kk in seen: continue
            seen.add(kk)
            good = True
            for t, x in fs:
                if not eng.assume(s, t, x): good = False; break
            if good: outs += mkval(s, v)
        return outs

    def opt_out(self, eng, st, c, b, p, name, remove=True):
        """pop-like operation on the collection at (b, p)"""
        site = c.site
        eng.age(st, site)
        cl = eng.load(st, b, p)
        ident = mk("loc", b, p) if not (b.k == "D" and not p) else b.a[0]
        ti = strip_ref(eng, c.atys[0])
        outs = []
        if cl.k != "coll":
            l = lenof(cl)
            x = eng.atom(st, "res", site, name, (cl,))
            if remove: eng.store(st, b, p, mk("post", site, name), site)
            return self.fork(eng, st, c, [(some(x), [self.ev_raw(eng, st, c, "coll", name, (ident, x), x, "some")], []), (NONE, [self.ev_raw(eng, st, c, "coll", name, (ident,), None, "none")], [])])
        sz = cl.a[2]
        empty = eng.known(st, self.le(sz, I(0))) if sz.k != "int" else int(sz.a[0] == 0)
        if empty != 1:
            s1 = st.copy()
            if sz.k == "int" or eng.assume(s1, self.lt(I(0), sz), 1):
                def go(s, v):
                    if remove:
                        cur = eng.load(s, b, p)
                        eng.store(s, b, p, coll(cur.a[0], cur.a[1] if not (cur.a[2].k == "int" and cur.a[2].a[0] == 1) else (), sub(cur.a[2], I(1)), cur.a[3]), site)
                    return eng.finish(s, c, some(v), [self.ev_raw(eng, s, c, "coll", name, (ident, eng.content(s, v)), v, (ti, "some"))])
                outs += self.take_out(eng, s1, c, cl, go)
        if empty != 0:
            s2 = st.copy()
            if sz.k == "int" or eng.assume(s2, sz, 0):
                outs += eng.finish(s2, c, NONE, [self.ev_raw(eng, s2, c, "coll", name, (ident,), None, (ti, "none"))])
        return outs

    @m("VecDeque::pop_front", "VecDeque::pop_back", "Vec::pop", "String::pop", "BinaryHeap::pop")
    def f_pop(self, eng, st, c):
        b, p = self.loc(eng, st, c.args[0])
        ti = strip_ref(eng, c.atys[0]); ty = eng.p.ty(ti)
        if "String" in ty["s"][:25] or (ty.get("args") and self.is_u8(eng, ty["args"][0])):
            old = self.text(eng, st, eng.load(st, b, p))
            l = lenof(old)
            cond = eng.binop(st, "Eq", l, I(0), "usize")
            outs = []
            k = eng.known(st, cond)
            if k != 1:
                s = st.copy()
                if k == 0 or eng.assume(s, cond, 0):
                    last = eng.elem(old, sub(l, I(1)))
                    if old.k == "cat" and old.a[0] and old.a[0][-1].k == "byte": nv = text(old.a[0][:-1])
                    else: nv = mk("init", old) if old.k != "bytes" else bytesv(old.a[0][:-1])
                    eng.store(s, b, p, nv, c.site)
                    outs += eng.finish(s, c, some(last), [])
            if k != 0:
                s = st.copy()
                if k == 1 or eng.assume(s, cond, 1): outs += eng.finish(s, c, NONE, [])
            return outs
        return self.opt_out(eng, st, c, b, p, c.name)

    @m("VecDeque::front", "VecDeque::back", "slice::[T]::first", "slice::[T]::last", "VecDeque::front_mut", "VecDeque::get", "slice::[T]::get", "VecDeque::back_mut", "slice::[T]::get_mut", "slice::[T]::first_mut", "slice::[T]::last_mut", "str::get")
    def f_peek(self, eng, st, c):
        b, p = self.loc(eng, st, c.args[0])
        cl = eng.load(st, b, p)
        if cl.k != "coll":
            x = self.text(eng, st, cl); l = lenof(x)
            if c.name in ("get", "get_mut"):
                i = c.args[1]
                rg = self.range_of(eng, st, i, l)
                if rg is not None:
                    lo, hi = rg
                    good = [(self.le(lo, hi), 1), (self.le(hi, l), 1)]
                    outs = []
                    s = st.copy()
                    if all(t.k == "bool" and t.a[0] == 1 or (t.k != "bool" and eng.assume(s, t, v)) for t, v in good):
                        outs += eng.finish(s, c, some(self.cut(x, b, p, lo, hi, c.name)), [])
                    for t, v in good:
                        s = st.copy()
                        if t.k == "bool":
                            if t.a[0] == 0: outs += eng.finish(s, c, NONE, [])
                        elif eng.known(s, t) != 1 and eng.assume(s, t, 0): outs += eng.finish(s, c, NONE, [])
                    return outs
                i = eng.content(st, i)
            else: i = I(0) if "first" in c.name or "front" in c.name else sub(l, I(1))
            cond = self.lt(i, l) if c.name in ("get", "get_mut") else self.lt(I(0), l)
            return self.fork_bool(eng, st, c, cond, some(ref(b, p + (("i", i),))), NONE)
        outs = []
        sz = cl.a[2]
        empty = eng.known(st, self.le(sz, I(0))) if sz.k != "int" else int(sz.a[0] == 0)
        if empty != 1:
            s1 = st.copy()
            if sz.k == "int" or eng.assume(s1, self.lt(I(0), sz), 1):
                if c.name.endswith("_mut"): outs += self.materialise(eng, s1, c, b, p, lambda s, r: eng.finish(s, c, some(r), []))
                else: outs += self.take_out(eng, s1, c, cl, lambda s, v: eng.finish(s, c, some(ref(mk("C", v))), []))
        if empty != 0 or c.name.startswith("get"):
            s2 = st.copy()
            if c.name.startswith("get") or sz.k == "int" or eng.assume(s2, sz, 0): outs += eng.finish(s2, c, NONE, [])
        return outs

    def fold_cell(self, eng, st, h):
        """forget the individual identity of a materialised element"""
        cell = mk("cell", h)
        if h not in st.mem: return
        v = st.mem[h]
        w = self.wrap(eng, st, v)
        for b, x in list(st.mem.items()):
            if cell in subterms(x): st.mem[b] = subst(x, {cell: w}, {})
        st.mem.pop(h, None)

    def materialise(self, eng, st, c, b, p, k):
        """reference to an arbitrary element of the collection at (b, p)"""
        h = mk("H", c.site)
        eng.age(st, c.site)
        self.fold_cell(eng, st, h)
        cl = eng.load(st, b, p)
        def go(s, v):
            s.mem[h] = v
            cur = eng.load(s, b, p)
            eng.store(s, b, p, coll(cur.a[0], cur.a[1] + (mk("cell", h),), cur.a[2], cur.a[3]), c.site)
            return k(s, ref(h))
        return self.take_out(eng, st, c, cl, go)

    # ------------------------------------------------------------ indexing
    def range_of(self, eng, st, v, l):
        v = eng.content(st, v)
        if v.k == "zst" and "RangeFull" in v.a[0]: return I(0), l
        if v.k != "agg": return None
        d = v.a[0]
        if d == "std::ops::Range": return v.a[2][0], v.a[2][1]
        if d == "std::ops::RangeFrom": return v.a[2][0], l
        if d == "std::ops::RangeTo": return I(0), v.a[2][0]
        if d == "std::ops::RangeFull": return I(0), l
        if d == "std::ops::RangeInclusive": return v.a[2][0], add(v.a[2][1], I(1))
        if d == "std::ops::RangeToInclusive": return I(0), add(v.a[2][0], I(1))
        return None

    @m("ops::Index::index", "ops::IndexMut::index_mut", "SliceIndex::index", "SliceIndex::index_mut")
    def f_index(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        b, p = self.loc(eng, st, c.args[0])
        x = eng.load(st, b, p)
        if x.k == "agg" and x.a[0] == COW: return self.opaque(eng, st, c)
        xt = self.text(eng, st, x) if x.k != "coll" else x
        l = lenof(xt)
        if l.k != "int": eng.tty.setdefault(l, "usize")
        rg = self.range_of(eng, st, c.args[1], l)
        if rg is not None:
            lo, hi = rg
            outs = []
            for t in (self.le(lo, hi), self.le(hi, l)):
                st2, o = self.panic_fork(eng, st, c, t, "slice index out of range")
                outs += o
                if st2 is None: return outs
                st = st2
            full = lo.k == "int" and lo.a[0] == 0 and hi is l
            return outs + eng.finish(st, c, ref(b, p) if full else self.cut(xt, b, p, lo, hi, c.name), [])
        i = eng.content(st, c.args[1])
        if x.k == "coll":
            st2, outs = self.coll_bound(eng, st, c, x, i)
            if st2 is None: return outs
            st = st2
            if c.name == "index": return outs + self.take_out(eng, st, c, x, lambda s, v: eng.finish(s, c, ref(mk("C", v)), []))
            return outs + self.materialise(eng, st, c, b, p, lambda s, r: eng.finish(s, c, r, []))
        st2, outs = self.panic_fork(eng, st, c, self.lt(i, l), "index out of bounds")
        if st2 is None: return outs
        return outs + eng.finish(st2, c, ref(b, p + (("i", i),)), [])

    def cut(self, x, b, p, lo, hi, name):
        """a reference to the bytes lo..hi of text x at a place; a field of x stands for itself"""
        f = field_bound(x, lo, hi) if x.k != "coll" and not name.endswith("_mut") else None
        return ref(mk("C", f)) if f is not None else ref(b, p + (("rng", lo, hi),))

    def coll_bound(self, eng, st, c, x, i):
        return self.panic_fork(eng, st, c, self.lt(i, x.a[2]), "index out of bounds")

    @m("slice::[T]::copy_from_slice", "slice::[T]::clone_from_slice")
    def f_copy_from(self, eng, st, c):
        b, p = self.loc(eng, st, c.args[0])
        old = eng.load(st, b, p); x = self.text(eng, st, c.args[1])
        st2, outs = self.panic_fork(eng, st, c, eng.binop(st, "Eq", lenof(old), lenof(x), "usize"), "copy_from_slice length mismatch")
        if st2 is None: return outs
        self.put(eng, st2, b, p, x, c.site)
        return outs + eng.finish(st2, c, UNIT, [])

    def put(self, eng, st, b, p, x, site):
        if p and p[-1][0] == "rng":
            old = self.text(eng, st, eng.load(st, b, p[:-1]))
            eng.store(st, b, p[:-1], mk("ovl", old, p[-1][1], p[-1][2], x), site)
        else: eng.store(st, b, p, x, site)

    @m("slice::[T]::split_at", "str::split_at")
    def f_split_at(self, eng, st, c):
        b, p = self.loc(eng, st, c.args[0]); x = self.text(eng, st, eng.load(st, b, p)); i = eng.content(st, c.args[1]); l = lenof(x)
        st2, outs = self.panic_fork(eng, st, c, self.le(i, l), "split_at out of range")
        if st2 is None: return outs
        return outs + eng.finish(st2, c, agg("tuple", 0, (self.cut(x, b, p, I(0), i, c.name), ref(b, p + (("rng", i, l),)))), [])

    @m("slice::[T]::split_first", "slice::[T]::split_last")
    def f_split_first(self, eng, st, c):
        b, p = self.loc(eng, st, c.args[0]); cl = eng.load(st, b, p)
        if cl.k == "coll": return self.opaque(eng, st, c)
        x = self.text(eng, st, cl); l = lenof(x)
        i, lo, hi = (I(0), I(1), l) if "first" in c.name else (sub(l, I(1)), I(0), sub(l, I(1)))
        return self.fork_bool(eng, st, c, self.lt(I(0), l), some(agg("tuple", 0, (ref(b, p + (("i", i),)), ref(b, p + (("rng", lo, hi),))))), NONE)

    @m("slice::[T]::contains", "str::contains")
    def f_contains(self, eng, st, c):
        b, p = self.loc(eng, st, c.args[0]); cl = eng.load(st, b, p); y = eng.content(st, c.args[1])
        if cl.k == "coll" or y.k not in ("int", "bytes"): return self.opaque(eng, st, c)
        if y.k == "int": y = BY(bytes([y.a[0]]) if y.a[0] < 128 else chr(y.a[0]).encode() if c.name.startswith("str") else bytes([y.a[0] & 0xff]))
        return eng.finish(st, c, mk("p", "contains", (self.text(eng, st, cl), y)), [])

    @m("slice::[T]::strip_prefix", "str::strip_prefix", "slice::[T]::strip_suffix", "str::strip_suffix")
    def f_strip(self, eng, st, c):
        b, p = self.loc(eng, st, c.args[0]); x = self.text(eng, st, eng.load(st, b, p)); y = self.text(eng, st, c.args[1])
        if y.k == "int": y = BY(chr(y.a[0]).encode())
        l = lenof(x); n = lenof(y)
        pre = "prefix" in c.name
        t = mk("p", "starts_with" if pre else "ends_with", (x, y))
        rng = (n, l) if pre else (I(0), sub(l, n))
        return self.fork_bool(eng, st, c, t, some(ref(b, p + (("rng",) + rng,))), NONE)

    # ------------------------------------------------------------ iterators
    def it_len(self, it):
        if it.a[0] == "idx": return sub(lenof(it.a[1]), it.a[2])
        if it.a[0] == "coll": return it.a[1].a[2]
        return None

    @m("slice::[T]::iter", "VecDeque::iter", "slice::[T]::iter_mut", "VecDeque::iter_mut", "IntoIterator::into_iter", "VecDeque::drain", "Vec::drain", "str::bytes", "IntoIterator::into_iter")
    def f_iter(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        v = c.args[0]; ti = c.atys[0]; ty = eng.p.ty(ti)
        if c.name == "into_iter":
            if ty["k"] == "adt" and not ty["def"].endswith(("::Vec", "::VecDeque", "::Option", "::GroupBy", "IntoChunks")) or ty["k"] in ("closure", "dyn"):
                return self.ret(eng, st, c, v)
            if ty["k"] == "ref" and eng.p.ty(ty["to"])["k"] == "adt" and not eng.p.ty(ty["to"])["def"].endswith(("::Vec", "::VecDeque", "::GroupBy", "::Option")) and ty.get("mut"):
                return self.ret(eng, st, c, v)       # &mut I where I: Iterator
        mode = "own"
        if c.name in ("iter", "bytes") or (ty["k"] == "ref" and not ty.get("mut")): mode = "ref"
        elif c.name == "iter_mut" or ty["k"] == "ref": mode = "mut"
        if c.name == "bytes": mode = "val"
        if ty["k"] == "adt" and ty["def"].endswith("::Option"):
            return self.ret(eng, st, c, mk("it", "opt", v))
        if c.name == "drain":
            b, p = self.loc(eng, st, v); x = eng.load(st, b, p)
            eng.store(st, b, p, coll(x.a[0], (), I(0)) if x.k == "coll" else EMPTY, c.site)
            mode = "own"
            if x.k == "coll": return self.ret(eng, st, c, mk("it", "coll", x, mode))
            return self.ret(eng, st, c, mk("it", "idx", x, I(0), "val", lenof(x)))
        if mode == "own":
            x = v
        else:
            b, p = self.loc(eng, st, v); x = eng.load(st, b, p)
        if x.k == "it" and x.a[0] == "grp": return self.ret(eng, st, c, mk("it", "groups", x.a[1], x.a[2]))
        if mode == "mut":
            return self.ret(eng, st, c, mk("it", "mut", ref(b, p), I(0)))
        if x.k == "coll": return self.ret(eng, st, c, mk("it", "coll", x, mode))
        x = self.text(eng, st, x) if mode != "own" or x.k != "agg" else x
        return self.ret(eng, st, c, mk("it", "idx", x, I(0), "val" if mode in ("own", "val") else "ref", lenof(x)))

    @m("Iterator::next", "DoubleEndedIterator::next_back")
    def f_next(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        b, p = self.loc(eng, st, c.args[0])
        it = eng.load(st, b, p)
        ty = eng.p.ty(strip_ref(eng, c.atys[0]))
        back = c.name == "next_back"
        if it.k == "agg" and it.a[0] == "std::ops::Range": return self.next_range(eng, st, c, b, p, it, back)
        if it.k == "agg" and it.a[0] == "std::ops::RangeInclusive": return self.next_range_incl(eng, st, c, b, p, it)
        if it.k == "agg" and it.a[0] == "std::ops::RangeFrom":
            eng.store(st, b, p, agg(it.a[0], 0, (add(it.a[2][0], I(1)),)), c.site)
            return self.ret(eng, st, c, some(it.a[2][0]))
        if it.k == "it":
            f = getattr(self, "n_" + it.a[0], None)
            if f: return f(eng, st, c, b, p, it)
        # unknown iterator
        x = eng.atom(st, "res", c.site, "next", (eng.content(st, it),))
        it = eng.load(st, b, p)
        nm = ty.get("def", ty["s"])
        return self.fork(eng, st, c, [(some(x), [self.ev_raw(eng, st, c, "next", nm, (eng.content(st, it), x), x, "some")], []),
                                      (NONE, [self.ev_raw(eng, st, c, "next", nm, (eng.content(st, it),), None, "none")], [])])

    def next_range(self, eng, st, c, b, p, it, back=False):
        lo, hi = it.a[2]
        ti = eng.p.ty(strip_ref(eng, c.atys[0]))["args"]
        tn = eng.p.tys(ti[0]) if ti else "usize"
        for x in (lo, hi):
            if x.k != "int": eng.tty.setdefault(x, tn)
        cond = self.lt(lo, hi); k = eng.known(st, cond)
        outs = []
        if k != 0:
            s = st.copy()
            if k == 1 or eng.assume(s, cond, 1):
                if back:
                    eng.store(s, b, p, agg(it.a[0], 0, (lo, sub(hi, I(1)))), c.site); r = sub(hi, I(1))
                else:
                    eng.store(s, b, p, agg(it.a[0], 0, (add(lo, I(1)), hi)), c.site); r = lo
                outs += eng.finish(s, c, some(r), [self.ev_raw(eng, s, c, "next", "range", (lo, hi), r, "some")])
        if k != 1:
            s = st.copy()
            if k == 0 or eng.assume(s, cond, 0): outs += eng.finish(s, c, NONE, [self.ev_raw(eng, s, c, "next", "range", (lo, hi), None, "none")])
        return outs

    def next_range_incl(self, eng, st, c, b, p, it):
        lo, hi = it.a[2][0], it.a[2][1]
        ex = it.a[2][2] if len(it.a[2]) > 2 else B(0)
        outs = []
        for cond, val in ((self.lt(lo, hi), "more"), (eng.binop(st, "Eq", lo, hi, "u64"), "last"), (self.lt(hi, lo), "none")):
            for e in (0, 1):
                if ex.k == "bool" and ex.a[0] != e: continue
                s = st.copy()
                k = eng.known(s, cond)
                if k == 0 or (k is None and not eng.assume(s, cond, 1)): continue
                if ex.k != "bool" and not eng.assume(s, ex, e): continue
                if e or val == "none": outs += eng.finish(s, c, NONE, [])
                elif val == "more":
                    eng.store(s, b, p, agg(it.a[0], 0, (add(lo, I(1)), hi, B(0))), c.site); outs += eng.finish(s, c, some(lo), [])
                else:
                    eng.store(s, b, p, agg(it.a[0], 0, (lo, hi, B(1))), c.site); outs += eng.finish(s, c, some(lo), [])
        return outs

    def n_opt(self, eng, st, c, b, p, it):
        eng.store(st, b, p, mk("it", "opt", NONE), c.site)
        return self.ret(eng, st, c, it.a[1])

    @m("Iterator::position")
    def f_position(self, eng, st, c):
        b, p = self.loc(eng, st, c.args[0]); it = eng.load(st, b, p)
        if it.k != "it" or it.a[0] != "idx": return None
        t = self.pred_bytes(eng, st, c.args[1])
        if t is None: return None
        if len(t) == 1 and it.a[2] is I(0) and it.a[4] is lenof(it.a[1]) and (it.a[1].a[0] if it.a[1].k == "slice" else it.a[1]).k in ("init", "p", "phi", "param", "fld", "deref", "el", "elem"):
            # the same as splitting the text at its first separator
            x = it.a[1].a[0] if it.a[1].k == "deref" and it.a[1].a[0].k == "phi" else it.a[1]
            sep = BY(t); h = mk("p", "has_sep", (x, sep)); fl, tl = mk("p", "field", (x, sep)), mk("p", "tail", (x, sep)); outs = []
            k = eng.known(st, h)
            s2 = st.copy()
            if k != 1 and (k == 0 or eng.assume(s2, h, 0)): outs += eng.finish(s2, c, NONE, [self.ev_raw(eng, s2, c, "search", "position", (x, sep), None, "none")])
            if k != 0 and (k == 1 or eng.assume(st, h, 1)):
                f = self.lensum(x, fl, tl); n = lenof(fl)
                if f not in st.facts: st.facts = dict(st.facts); st.facts[f] = 1
                eng.store(st, b, p, mk("it", "idx", x, add(n, I(1)), it.a[3], it.a[4]), c.site)
                outs += eng.finish(st, c, some(n), [self.ev_raw(eng, st, c, "search", "position", (x, sep, it.a[2], n), n, "some")])
            return outs
        s2 = st.copy()
        outs = eng.finish(s2, c, NONE, [self.ev_raw(eng, s2, c, "search", "position", (it.a[1], BY(t)), None, "none")])
        n = eng.atom(st, "res", c.site, "position", ()); eng.tty[n] = "usize"
        it = eng.load(st, b, p)
        _, src, pos, mode, end = it.a
        if not eng.assume(st, self.lt(add(pos, n), end), 1): return outs
        eng.assume(st, self.lt(n, sub(end, pos)), 1)
        if len(t) == 1: eng.assume(st, eng.binop(st, "Eq", eng.elem(src, add(pos, n)), I(t[0]), "u8"), 1)
        eng.store(st, b, p, mk("it", "idx", src, add(add(pos, n), I(1)), mode, end), c.site)
        return outs + eng.finish(st, c, some(n), [self.ev_raw(eng, st, c, "search", "position", (src, BY(t), pos, n), n, "some")])

    def n_idx(self, eng, st, c, b, p, it):
        _, src, pos, mode, end = it.a
        back = c.name == "next_back"
        cond = self.lt(pos, end); k = eng.known(st, cond)
        outs = []
        if k != 0:
            s = st.copy()
            if k == 1 or eng.assume(s, cond, 1):
                if back: end2 = sub(end, I(1)); at = end2; npos = pos
                else: at = pos; npos = add(pos, I(1)); end2 = end
                eng.store(s, b, p, mk("it", "idx", src, npos, mode, end2), c.site)
                e = eng.elem(src, at)
                v = e if mode == "val" else ref(mk("C", e))
                outs += eng.finish(s, c, some(v), [self.ev_raw(eng, s, c, "next", "idx", (src, at), e, "some")])
        if k != 1:
            s = st.copy()
            if k == 0 or eng.assume(s, cond, 0): outs += eng.finish(s, c, NONE, [self.ev_raw(eng, s, c, "next", "idx", (src, pos), None, "none")])
        return outs

    def n_mut(self, eng, st, c, b, p, it):
        _, ptr, pos = it.a
        vb, vp = eng.target(ptr)
        v = eng.load(st, vb, vp)
        if v.k == "coll":
            s2 = st.copy()
            outs = eng.finish(s2, c, NONE, [])
            if v.a[1]: outs = self.materialise(eng, st, c, vb, vp, lambda s, r: eng.finish(s, c, some(r), [])) + outs
            return outs
        end = lenof(v)
        cond = self.lt(pos, end)
        outs = []
        k = eng.known(st, cond)
        if k != 0:
            s = st.copy()
            if k == 1 or eng.assume(s, cond, 1):
                eng.store(s, b, p, mk("it", "mut", ptr, add(pos, I(1))), c.site)
                outs += eng.finish(s, c, some(ref(vb, vp + (("i", pos),))), [])
        if k != 1:
            s = st.copy()
            if k == 0 or eng.assume(s, cond, 0): outs += eng.finish(s, c, NONE, [])
        return outs

    def n_coll(self, eng, st, c, b, p, it):
        eng.age(st, c.site); it = eng.load(st, b, p)
        _, cl, mode = it.a
        s2 = st.copy()
        attrs = cl.a[3]
        nm = "coll_back" if c.name == "next_back" else "coll"
        outs = eng.finish(s2, c, NONE, [self.ev_raw(eng, s2, c, "next", nm, (cl,), None, "none")])
        if cl.a[1]:
            def go(s, v):
                x = v if mode == "own" else ref(mk("C", v))
                return eng.finish(s, c, some(x), [self.ev_raw(eng, s, c, "next", nm, (cl, eng.content(s, v)), v, "some")])
            outs = self.take_out(eng, st, c, cl, go) + outs
        return outs

    # slices split into chunks, fields
    @m("slice::[T]::chunks", "slice::[T]::chunks_exact")
    def f_chunks(self, eng, st, c):
        x = self.text(eng, st, c.args[0]); n = eng.content(st, c.args[1])
        st2, outs = self.panic_fork(eng, st, c, eng.binop(st, "Ne", n, I(0), "usize"), "chunk size is zero")
        if st2 is None: return outs
        return outs + eng.finish(st2, c, mk("it", "chunks", x, n, I(0), c.name), [])

    def n_chunks(self, eng, st, c, b, p, it):
        _, src, n, i, kind = it.a
        cnt = mk("p", "nchunks", (src, n))
        cond = self.lt(i, cnt); k = eng.known(st, cond)
        if i.k == "int" and i.a[0] == 0:
            # the first chunk exists iff the slice is not empty
            c0 = eng.binop(st, "Eq", lenof(src), I(0), "usize")
            k0 = eng.known(st, c0)
            if k0 is not None and kind == "chunks": k = 1 - k0
        outs = []
        if k != 0:
            s = st.copy()
            if k == 1 or eng.assume(s, cond, 1):
                eng.store(s, b, p, mk("it", "chunks", src, n, add(i, I(1)), kind), c.site)
                e = mk("elem", mk("p", kind, (src, n)), i)
                outs += eng.finish(s, c, some(ref(mk("C", e))), [self.ev_raw(eng, s, c, "next", "chunk", (src, n, i), e, "some")])
        if k != 1:
            s = st.copy()
            if k == 0 or eng.assume(s, cond, 0): outs += eng.finish(s, c, NONE, [self.ev_raw(eng, s, c, "next", "chunk", (src, n, i), None, "none")])
        return outs

    def sep_of(self, eng, st, f):
        """byte set accepted by a separator (byte, char, string or closure)"""
        v = eng.content(st, f)
        if v.k == "int": return BY(chr(v.a[0]).encode())
        if v.k == "bytes": return v
        r = self.pred_bytes(eng, st, f)
        if r is not None and len(r) == 1: return BY(r)
        return None

    def pred_bytes(self, eng, st, f):
        """the set of bytes on which a closure |c: &u8| -> bool is true, or None"""
        fv = f
        if fv.k == "ref": fv = eng.deref(st, fv)
        if fv.k == "agg" and str(fv.a[0]).startswith("closure:"):
            key = eng.p.ty(int(fv.a[0].split(":")[1]))["key"]
        elif fv.k == "fn": key = eng.p.ty(fv.a[0]).get("key")
        else: return None
        env = eng.content(st, fv)
        return byte_table(eng.p, type(self), key, env)

    @m("slice::[T]::splitn", "str::splitn", "slice::[T]::split", "str::split", "str::split_once", "slice::[T]::split_once", "str::rsplitn", "str::split_terminator")
    def f_splitn(self, eng, st, c):
        x = self.text(eng, st, c.args[0])
        if c.name == "splitn": n = eng.content(st, c.args[1]); sep = self.sep_of(eng, st, c.args[2])
        elif c.name in ("split", "split_once"): n = None; sep = self.sep_of(eng, st, c.args[1])
        else: return self.opaque(eng, st, c)
        if c.name == "split_once":
            if sep is None: return self.opaque(eng, st, c)
            h = mk("p", "has_sep", (x, sep))
            fl, tl = mk("p", "field", (x, sep)), mk("p", "tail", (x, sep))
            return self.fork(eng, st, c, [(some(agg("tuple", 0, (ref(mk("C", fl)), ref(mk("C", tl))))), [], [(h, 1), (self.lensum(x, fl, tl), 1)]), (NONE, [], [(h, 0)])])
        if sep is None: return self.ret(eng, st, c, mk("it", "unk", x, c.name))
        return self.ret(eng, st, c, mk("it", "split", x, n if n is not None else I(-1), sep, I(0)))

    def lensum(self, x, fl, tl):
        return mk("op", "Eq", lenof(x), add(add(lenof(fl), lenof(tl)), I(1)))

    def n_split(self, eng, st, c, b, p, it):
        _, x, n, sep, stage = it.a
        done = mk("it", "split", x, n, sep, I(2))
        if stage.k == "int" and stage.a[0] == 2: return self.ret(eng, st, c, NONE)
        if n.k == "int" and n.a[0] == 0: return self.ret(eng, st, c, NONE)
        if n.k == "int" and n.a[0] == 1:
            eng.store(st, b, p, done, c.site)
            return self.ret(eng, st, c, some(ref(mk("C", x))))
        if n.k == "int" and n.a[0] >= 2:
            h = mk("p", "has_sep", (x, sep)); fl, tl = mk("p", "field", (x, sep)), mk("p", "tail", (x, sep))
            k = eng.known(st, h)
            if sep.k == "bytes" and x is EMPTY: k = 0
            outs = []
            if k != 0:
                s = st.copy()
                if k == 1 or eng.assume(s, h, 1):
                    f = self.lensum(x, fl, tl)
                    if f not in s.facts: s.facts = dict(s.facts); s.facts[f] = 1
                    eng.store(s, b, p, mk("it", "split", tl, I(n.a[0] - 1), sep, I(0)), c.site)
                    outs += eng.finish(s, c, some(ref(mk("C", fl))), [])
            if k != 1:
                s = st.copy()
                if k == 0 or eng.assume(s, h, 0):
                    eng.store(s, b, p, done, c.site)
                    outs += eng.finish(s, c, some(ref(mk("C", x))), [])
            return outs
        a = eng.atom(st, "res", c.site, "part", (x, sep))
        return self.fork(eng, st, c, [(some(ref(mk("C", a))), [], []), (NONE, [], [])])

    @m("str::split_whitespace", "str::lines", "Path::components", "str::chars", "str::char_indices", "Path::iter", "str::split_ascii_whitespace", "Path::ancestors")
    def f_parts(self, eng, st, c):
        return self.ret(eng, st, c, mk("it", "parts", self.text(eng, st, c.args[0]), c.name, I(0)))

    def n_parts(self, eng, st, c, b, p, it):
        _, x, kind, k = it.a
        if k.k != "int" or k.a[0] >= 8 or kind in ("components", "chars", "char_indices", "ancestors", "iter"):
            a = eng.atom(st, "res", c.site, kind, (x,)); nk = k
            it = eng.load(st, b, p)
        else:
            a = mk("p", "word", (x, mk("bytes", kind.encode()), k)); nk = add(k, I(1))
        v = a if kind in ("components", "chars", "char_indices") else ref(mk("C", a))
        s2 = st.copy()
        if k.k == "int" and isinstance(it.a[3], T): eng.store(st, b, p, mk("it", "parts", it.a[1], kind, nk), c.site)
        return eng.finish(st, c, some(v), [self.ev_raw(eng, st, c, "next", kind, (x, a), a, "some")]) + \
            eng.finish(s2, c, NONE, [self.ev_raw(eng, s2, c, "next", kind, (x,), None, "none")])

    # ------------------------------------------------------------ sorting and grouping
    @m("slice::[T]::sort_by", "slice::[T]::sort_unstable_by", "slice::[T]::sort", "slice::[T]::sort_unstable", "slice::[T]::sort_by_key", "slice::[T]::sort_unstable_by_key",
       "slice::[T]::sort_by_cached_key", "slice::[T]::reverse", "VecDeque::make_contiguous")
    def f_sort(self, eng, st, c):
        b, p = self.loc(eng, st, c.args[0])
        cl = eng.load(st, b, p)
        if c.name == "make_contiguous": return self.ret(eng, st, c, ref(b, p))
        if cl.k != "coll": return self.ret(eng, st, c, UNIT, self.ev(eng, st, c, "sort", c.name, (cl,), None, None))
        if c.name == "reverse":
            at = tuple(("sorted", x[1], {"asc": "desc", "desc": "asc"}.get(x[2], x[2])) if x[0] == "sorted" else x for x in cl.a[3])
        else:
            how = ()
            if cl.a[1]:
                hs = {self.sort_spec(eng, st, c, e) for e in cl.a[1]}
                how = tuple(hs)[0] if len(hs) == 1 else ("?", "?")
                at = (("sorted",) + how,)
            else: at = ()
        eng.store(st, b, p, coll(cl.a[0], cl.a[1], cl.a[2], at), c.site)
        return self.ret(eng, st, c, UNIT, self.ev_raw(eng, st, c, "sort", c.name, (cl,), None, at))

    def sort_spec(self, eng, st, c, e):
        """(key as function of the element, asc/desc) of a sort call for one element shape"""
        v, _ = unce(e)
        if v.k == "cell": v = eng.get(st, v.a[0])
        v = eng.content(st, v)
        def shape(x, tag, pos):
            if x.k == "agg": return mk("agg", x.a[0], x.a[1], tuple(shape(y, tag, pos + (i,)) for i, y in enumerate(x.a[2])))
            if x.k == "p" and x.a[0] == "entry_name": return mk("p", "entry_name", (mk("param", tag, pos),))
            if x.k == "p" and x.a[0] == "join": return mk("p", "join", tuple(shape(y, tag, pos + ("j%d" % i,)) for i, y in enumerate(x.a[1])))
            return mk("param", tag, pos)
        a, b_ = shape(v, "A", ()), shape(v, "B", ())
        if c.name in ("sort", "sort_unstable"): return ("elem", "asc")
        f = c.args[1]
        fv = eng.deref(st, f) if f.k == "ref" else f
        if fv.k == "agg" and str(fv.a[0]).startswith("closure:"): key = eng.p.ty(int(fv.a[0].split(":")[1]))["key"]
        elif fv.k == "fn": key = eng.p.ty(fv.a[0]).get("key")
        else: return ("?", "?")
        env = eng.content(st, fv)
        if "key" in c.name:
            rs = summarise(eng.p, type(self), key, env, [ref(mk("C", a))])
            if rs is None: return ("?", "?")
            rb = summarise(eng.p, type(self), key, env, [ref(mk("C", b_))])
            if rb is None: return ("?", "?")
            both = [(dict(list(x[0].items()) + list(y[0].items())), mk("p", "cmp:key", (eng.content(x[2].st, x[1]) if x[2].st else x[1], eng.content(y[2].st, y[1]) if y[2].st else y[1]))) for x in rs for y in rb]
            return name_order(both)
        rs = summarise(eng.p, type(self), key, env, [ref(mk("C", a)), ref(mk("C", b_))])
        if rs is None: return ("?", "?")
        return name_order([(r[0], r[1]) for r in rs])

    @m("itertools::Itertools::group_by", "Itertools::chunk_by", "Itertools::group_by")
    def f_group(self, eng, st, c):
        src = c.args[0]
        cl = None
        if src.k == "it" and src.a[0] == "coll": cl = src.a[1]
        elif src.k == "agg" and str(src.a[0]).endswith("::Rev") and src.a[2] and src.a[2][0].k == "it" and src.a[2][0].a[0] == "coll":
            x = src.a[2][0].a[1]
            if x.k == "coll":
                cl = coll(x.a[0], x.a[1], x.a[2], tuple(("sorted", a[1], {"asc": "desc", "desc": "asc"}.get(a[2], a[2])) if a[0] == "sorted" else a for a in x.a[3]))
        f = c.args[1]
        h = mk("H", mk("env", c.site)); st.mem[h] = f
        return self.ret(eng, st, c, mk("it", "grp", cl if cl is not None else eng.content(st, src), mk("box", h)))

    def n_groups(self, eng, st, c, b, p, it):
        eng.age(st, c.site); it = eng.load(st, b, p)
        cl, fn = it.a[1], it.a[2]
        s2 = st.copy()
        outs = eng.finish(s2, c, NONE, [self.ev_raw(eng, s2, c, "next", "groups", (cl,), None, "none")])
        if cl.k != "coll" or not cl.a[1]: return outs
        def go(s, v):
            h = mk("H", mk("grpel", c.site)); s.mem[h] = v
            members = coll("group", (self.wrap(eng, s, v, False),), mk("el", c.site, "n", ()), cl.a[3])
            return eng.call_value(s, c, fn, [ref(h)], Kont(_k_group, c, members, cl))
        return self.take_out(eng, st, c, cl, go) + outs

def _k_group(eng, st, fr, val, c, members, cl):
    key = eng.content(st, val)
    gv = agg("tuple", 0, (key, mk("it", "coll", members, "own")))
    return eng.finish(st, c, some(gv), [eng.models.ev_raw(eng, st, c, "next", "groups", (cl, gv), gv, "some")], kont=c.kont)

# ---------------------------------------------------------------- sub-analyses
_summ = {}
def summarise(prog, mcls, key, env, args, nodes=4000):
    """list of (facts, value, events) for all returns of a function, or None"""
    k = (id(prog), key, env, tuple(args))
    if k in _summ: return _summ[k]
    body = prog.bodies.get(key)
    r = None
    if body is not None:
        e = Engine(prog, mcls(), {"keep_final": True, "maxnodes": nodes})
        a = list(args)
        if body.closure:
            a0 = ref(mk("C", env)) if prog.ty(body.locals[1])["k"] == "ref" else env
            a = [a0] + ([agg("tuple", 0, a)] if body.argc == 2 and len(a) != 1 else a)
        try:
            e.run(key, a)
            r = []
            for n in e.nodes:
                if n.kind == "return" and n.st is not None: r.append((n.st.facts, n.val, n))
                elif n.kind in ("panic", "other"): r.append((n.st.facts if n.st else {}, mk("bottom", n.kind), n))
            r = r if not any(x[1].k == "bottom" and x[2].kind == "other" for x in r) else None
        except Unsupported: r = None
    _summ[k] = r
    return r

def name_order(rs):
    """("name", "asc"/"desc") for a comparator by entry name, ("other", text) when it orders some names otherwise"""
    import evalt
    es = set()
    for facts, v in rs:
        for t in list(facts) + [v]:
            for x in find(t, lambda z: z.k == "p" and z.a[0] == "entry_name"): es.add(x.a[1][0])
    pa = [x for x in es if x.k == "param" and x.a[0] == "A"]; pb = [x for x in es if x.k == "param" and x.a[0] == "B"]
    if len(pa) != 1 or len(pb) != 1 or pa[0].a[1] != pb[0].a[1]:
        return ("other", "it does not compare the names") if not es and rs and all(x[1].k == "p" and x[1].a[0].startswith("cmp:") for x in rs) else ("?", "?")
    o = evalt.order_of(rs, pa, pb)
    if o is None: return ("?", "?")
    if isinstance(o, tuple): return ("other", "%r and %r are not ordered by their bytes" % o)
    return ("name", o)

_bt = {}
def byte_table(prog, mcls, key, env):
    """bytes on which fn(&u8) -> bool / fn(u8) -> bool is true"""
    k = (id(prog), key, env)
    if k in _bt: return _bt[k]
    body = prog.bodies.get(key); r = None
    if body is not None:
        p = mk("param", "byte")
        ai = 2 if body.closure else 1
        a = p
        if len(body.locals) > ai:
            ti = body.locals[ai]; d = 0
            while prog.ty(ti)["k"] == "ref": ti = prog.ty(ti)["to"]; d += 1
            for _ in range(d): a = ref(mk("C", a))
        rs = summarise(prog, mcls, key, env, [a])
        if rs is not None:
            r = []
            for bv in range(256):
                val = None
                for facts, v, _ in rs:
                    if all(eval_byte(t, p, bv) == x for t, x in facts.items() if isinstance(x, int)) and all(eval_byte(t.a[0], p, bv) not in x for t, x in facts.items() if not isinstance(x, int)):
                        w = eval_byte(v, p, bv)
                        val = "?" if w is None or (val is not None and val != w) else w
                if val is None or val == "?": r = None; break
                if val: r.append(bv)
            if r is not None: r = bytes(r)
    _bt[k] = r
    return r

def eval_byte(t, p, bv):
    """value of a term over one byte variable, or None"""
    if t is p: return bv
    if t.k in ("int", "bool"): return t.a[0]
    if t.k == "cast":
        x = eval_byte(t.a[1], p, bv)
        if x is None: return None
        if t.a[0] == "u8" or t.a[0] == "i8": return x & 255
        return x
    if t.k == "op":
        xs = [eval_byte(y, p, bv) for y in t.a[1:]]
        if any(x is None for x in xs): return None
        o = t.a[0]
        try:
            return {"Eq": lambda a, b: int(a == b), "Ne": lambda a, b: int(a != b), "Lt": lambda a, b: int(a < b), "Le": lambda a, b: int(a <= b),
                    "Gt": lambda a, b: int(a > b), "Ge": lambda a, b: int(a >= b), "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "BitAnd": lambda a, b: a & b,
                    "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b, "Shl": lambda a, b: a << b, "Shr": lambda a, b: a >> b, "Mul": lambda a, b: a * b, "Div": lambda a, b: a // b, "Rem": lambda a, b: a % b,
                    "Not": lambda a: int(not a)}[o](*xs)
        except Exception: return None
    if t.k == "ovf":
        x = eval_byte(t.a[1], p, bv); y = eval_byte(t.a[2], p, bv)
        if x is None or y is None: return None
        z = {"Add": x + y, "Sub": x - y, "Mul": x * y}.get(t.a[0])
        mx = linear.MAX.get(t.a[3], (1 << 64) - 1)
        return None if z is None else int(not 0 <= z <= mx)
    if t.k == "elem" and t.a[0].k in ("bytes", "agg"):
        i = eval_byte(t.a[1], p, bv); z = t.a[0]
        if i is None: return None
        if z.k == "bytes": return z.a[0][i] if 0 <= i < len(z.a[0]) else None
        return eval_byte(z.a[2][i], p, bv) if z.a[0] == "array" and 0 <= i < len(z.a[2]) else None
    if t.k == "p":
        x = eval_byte(t.a[1][0], p, bv) if t.a[1] else None
        if x is None: return None
        n = t.a[0].split("::")[-1]
        if len(t.a[1]) == 2:
            y = eval_byte(t.a[1][1], p, bv)
            f = {"wrapping_add": lambda a, b: (a + b) & 255, "wrapping_sub": lambda a, b: (a - b) & 255, "wrapping_mul": lambda a, b: (a * b) & 255, "min": min, "max": max,
                 "satsub": lambda a, b: max(0, a - b), "satadd": lambda a, b: min(255, a + b), "abs_diff": lambda a, b: abs(a - b)}.get(n)
            return None if y is None or f is None else f(x, y)
        ch = chr(x) if x < 128 else None
        if n == "is_ascii": return int(x < 128)
        if n.startswith("is_ascii_"):
            if ch is None: return 0
            f = {"digit": lambda h: h in "0123456789", "hexdigit": lambda h: h in "0123456789abcdefABCDEF", "alphabetic": str.isalpha, "alphanumeric": str.isalnum,
                 "uppercase": str.isupper, "lowercase": str.islower, "whitespace": lambda h: h in " \t\n\r\x0c", "graphic": lambda h: 0x21 <= ord(h) <= 0x7e,
                 "punctuation": lambda h: 0x21 <= ord(h) <= 0x7e and not h.isalnum(), "control": lambda h: ord(h) < 32 or ord(h) == 127}.get(n[9:])
            return None if f is None else int(bool(f(ch)))
        if n == "to_ascii_lowercase": return ord(chr(x).lower()) if x < 128 else x
        if n == "to_ascii_uppercase": return ord(chr(x).upper()) if x < 128 else x
    return None
