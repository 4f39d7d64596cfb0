"""Transfer functions: hashers, formatting, reading, writing, files, threads."""
from terms import *
import core, linear
from core import Ev, Kont, Unsupported, Engine, bytesv
from models import *
from xfer import X, COW, summarise, eval_byte, byte_table

ALGOS = (("Sha512Trunc256", "sha512/256"), ("VarBlake2b", "blake2b"), ("blake3::Hasher", "blake3/256"), ("Sha512", "sha512/512"),
         ("Sha256", "sha256/256"), ("Sha384", "sha512/384"), ("Blake2b", "blake2b/512"), ("VarBlake2s", "blake2s"))
def algo_of(s):
    for k, v in ALGOS:
        if s.endswith(k) or s.split("<")[0].endswith(k): return v
    return None

# what a hasher has consumed since it was created or reset
MANY = mk("fed", "many")           # several pieces
MIXED = mk("fed", "mixed")         # data fed after a digest was taken without reset
def feed(c, x):
    if c is EMPTY: return mk("fed", "one", x)
    if c.a[0] == "stale" or c is MIXED: return MIXED
    return MANY
def taken(c):
    if c is EMPTY or c is MIXED: return c
    if c.a[0] == "stale": return c
    return mk("fed", "stale", c)

class M(X):
    # ------------------------------------------------------------ hashers
    def new_hasher(self, eng, st, c, algo):
        o = eng.atom(st, "res", c.site, "hasher", ())
        v = mk("hs", BY(algo.encode()), o, EMPTY)
        return self.ret(eng, st, c, v, self.ev_raw(eng, st, c, "hash", "new", (v,), v))

    def hasher_at(self, eng, st, ptr):
        b, p = self.loc(eng, st, ptr)
        v = eng.load(st, b, p)
        return (b, p, v) if v.k == "hs" else (b, p, None)

    def is_hasher(self, eng, c):
        ti = c.callee.get("self")
        if ti is None and c.atys: ti = strip_ref(eng, c.atys[0])
        if ti is None: return False
        ti = strip_ref(eng, ti)
        return algo_of(eng.p.tys(ti)) is not None

    @m("digest::Digest::new", "blake3::Hasher::new", "VariableOutput::new", "digest::variable::VariableOutput::new", "Digest::new", "FixedOutput::new", "VarBlake2b::new", "NewMac::new")
    def f_hnew(self, eng, st, c):
        dt = eng.p.ty(c.dty); s = dt["s"]
        if dt.get("def") == RES:
            s = eng.p.tys(dt["args"][0]); a = algo_of(s)
            n = eng.content(st, c.args[0])
            if a is None or n.k != "int": return self.opaque(eng, st, c)
            o = eng.atom(st, "res", c.site, "hasher", ())
            v = mk("hs", BY((a + "/%d" % (n.a[0] * 8)).encode()), o, EMPTY)
            lim = 64
            if not 0 < n.a[0] <= lim: return self.ret(eng, st, c, err(mk("zst", "InvalidOutputSize")))
            return self.ret(eng, st, c, ok(v), self.ev_raw(eng, st, c, "hash", "new", (v,), v))
        a = algo_of(s)
        if a is None: return self.opaque(eng, st, c)
        return self.new_hasher(eng, st, c, a)

    @m("Default::default")
    def f_default(self, eng, st, c):
        a = algo_of(eng.p.tys(c.dty))
        if a is not None and eng.p.ty(c.dty)["k"] == "adt" and "/" in a: return self.new_hasher(eng, st, c, a)
        return X.f_default(self, eng, st, c)

    @m("Clone::clone", "Option::cloned_")
    def f_clone(self, eng, st, c):
        v = eng.deref(st, c.args[0])
        if v.k == "hs":
            o = eng.atom(st, "res", c.site, "hasher", ())
            v = eng.deref(st, c.args[0])
            n = mk("hs", v.a[0], o, v.a[2])
            return self.ret(eng, st, c, n, self.ev_raw(eng, st, c, "hash", "clone", (v, n), n))
        return X.f_clone(self, eng, st, c)

    def do_feed(self, eng, st, c, b, p, v, x):
        e = self.ev_raw(eng, st, c, "hash", "feed", (v, x))
        if x is not EMPTY: eng.store(st, b, p, mk("hs", v.a[0], v.a[1], feed(v.a[2], x)), c.site)
        return e

    @m("digest::Update::update", "Update::update", "digest::Digest::update", "blake3::Hasher::update", "blake3::Hasher::update_rayon")
    def f_hupdate(self, eng, st, c):
        b, p, v = self.hasher_at(eng, st, c.args[0])
        if v is None: return self.opaque(eng, st, c)
        x = self.text(eng, st, c.args[1])
        e = self.do_feed(eng, st, c, b, p, v, x)
        r = c.args[0] if not self.nullary(eng, c) else UNIT
        return self.ret(eng, st, c, r, e)

    @m("Update::chain", "Digest::chain")
    def f_hchain(self, eng, st, c):
        v = c.args[0]
        if v.k != "hs": return self.opaque(eng, st, c)
        x = self.text(eng, st, c.args[1])
        return self.ret(eng, st, c, mk("hs", v.a[0], v.a[1], feed(v.a[2], x)), self.ev_raw(eng, st, c, "hash", "feed", (v, x)))

    def digest(self, v): return mk("p", "digest", (v.a[0], v.a[1], v.a[2]))

    def take_digest(self, eng, st, c, b, p, v, reset):
        d = self.digest(v)
        evs = [self.ev_raw(eng, st, c, "hash", "final", (v, d), d)]
        nv = mk("hs", v.a[0], v.a[1], EMPTY if reset else taken(v.a[2]))
        if reset: evs.append(self.ev_raw(eng, st, c, "hash", "reset", (v,)))
        if b is not None: eng.store(st, b, p, nv, c.site)
        return d, evs

    @m("FixedOutputDirty::finalize_into_dirty", "FixedOutput::finalize_into_reset", "FixedOutput::finalize_into")
    def f_hinto(self, eng, st, c):
        if c.name == "finalize_into":
            v = c.args[0]; b = p = None
            if v.k != "hs": return self.opaque(eng, st, c)
        else:
            b, p, v = self.hasher_at(eng, st, c.args[0])
            if v is None: return self.opaque(eng, st, c)
        d, evs = self.take_digest(eng, st, c, b, p, v, c.name == "finalize_into_reset")
        ob, op = self.loc(eng, st, c.args[1])
        self.put(eng, st, ob, op, d, c.site)
        return self.ret(eng, st, c, UNIT, *evs)

    @m("blake3::Hasher::finalize", "Digest::finalize", "FixedOutput::finalize_fixed", "FixedOutput::finalize_fixed_reset", "Digest::finalize_reset", "DynDigest::finalize_reset")
    def f_hfinal(self, eng, st, c):
        if c.args[0].k == "hs": b = p = None; v = c.args[0]
        else: b, p, v = self.hasher_at(eng, st, c.args[0])
        if v is None: return self.opaque(eng, st, c)
        d, evs = self.take_digest(eng, st, c, b, p, v, "reset" in c.name)
        return self.ret(eng, st, c, d, *evs)

    @m("VariableOutput::finalize_variable_reset", "VariableOutput::finalize_variable", "VariableOutputDirty::finalize_variable_dirty")
    def f_hvar(self, eng, st, c):
        if c.args[0].k == "hs": b = p = None; v = c.args[0]
        else: b, p, v = self.hasher_at(eng, st, c.args[0])
        if v is None: return self.opaque(eng, st, c)
        d, evs = self.take_digest(eng, st, c, b, p, v, "reset" in c.name)
        c2 = c.with_args(c.args)
        outs = eng.call_value(st, c2, c.args[1], [ref(mk("C", d))], Kont(_k_unit, c))
        return [(f, bl, s, evs + list(e)) for f, bl, s, e in outs]

    @m("digest::Reset::reset", "Reset::reset", "blake3::Hasher::reset", "Digest::reset")
    def f_hreset(self, eng, st, c):
        b, p, v = self.hasher_at(eng, st, c.args[0])
        if v is None: return self.opaque(eng, st, c)
        eng.store(st, b, p, mk("hs", v.a[0], v.a[1], EMPTY), c.site)
        r = c.args[0] if not self.nullary(eng, c) else UNIT
        return self.ret(eng, st, c, r, self.ev_raw(eng, st, c, "hash", "reset", (v,)))

    @m("blake3::Hash::to_hex")
    def f_tohex(self, eng, st, c):
        return self.ret(eng, st, c, mk("p", "hex", (self.text(eng, st, c.args[0]), UNIT)))

    # ------------------------------------------------------------ formatting
    @m("fmt::rt::Argument::new_display", "fmt::rt::Argument::new_lower_hex", "fmt::rt::Argument::new_debug", "fmt::rt::Argument::new_upper_hex",
       "Argument::new_octal", "Argument::new_binary", "Argument::new_lower_exp", "Argument::new_pointer")
    def f_arg(self, eng, st, c):
        tr = {"new_display": "Display", "new_lower_hex": "LowerHex", "new_debug": "Debug", "new_upper_hex": "UpperHex"}.get(c.name, c.name)
        return self.ret(eng, st, c, mk("farg", tr, c.args[0], strip1(eng, c.atys[0])))

    @m("fmt::Arguments::new", "std::fmt::Arguments::new", "fmt::Arguments::from_str", "fmt::Arguments::new_const")
    def f_args(self, eng, st, c):
        if c.name == "from_str": return self.ret(eng, st, c, mk("fargs", self.text(eng, st, c.args[0])))
        tpl = eng.deref(st, c.args[0])
        args = eng.deref(st, c.args[1])
        t = self.template(eng, st, tpl, args)
        if t is None: return self.opaque(eng, st, c)
        return self.ret(eng, st, c, mk("fargs", t))

    def template(self, eng, st, tpl, args):
        if tpl.k != "bytes" or args.k != "agg": return None
        b = tpl.a[0]; i = 0; nxt = 0; out = []
        while i < len(b):
            n = b[i]; i += 1
            if n == 0: break
            if n < 0x80:
                out.append(BY(b[i:i + n])); i += n
            elif n == 0x80:
                ln = int.from_bytes(b[i:i + 2], "little"); i += 2
                out.append(BY(b[i:i + ln])); i += ln
            elif n >= 0xC0:
                o = {}
                if n & 1: o["flags"] = int.from_bytes(b[i:i + 4], "little"); i += 4
                if n & 2: o["width"] = int.from_bytes(b[i:i + 2], "little"); i += 2
                if n & 4: o["prec"] = int.from_bytes(b[i:i + 2], "little"); i += 2
                if n & 8: nxt = int.from_bytes(b[i:i + 2], "little"); i += 2
                if n & 0x10: o["width"] = ("arg", o.get("width"))
                if n & 0x20: o["prec"] = ("arg", o.get("prec"))
                if nxt >= len(args.a[2]): return None
                a = args.a[2][nxt]; nxt += 1
                if a.k != "farg": return None
                if o.get("flags") in (0xE0000020, 0x20) and "width" not in o and "prec" not in o: o = {}
                out.append(self.display(eng, st, a.a[0], a.a[1], a.a[2], tuple(sorted(o.items())) or None))
            else: return None
        return text(out) if out else EMPTY

    def display(self, eng, st, tr, ptr, ti, opts):
        """text that formatting the value behind ptr produces"""
        while True:
            ty = eng.p.ty(ti)
            if ty["k"] == "ref":
                ptr = eng.deref(st, ptr); ti = ty["to"]; continue
            if ty.get("def") in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc") and ty["args"]:
                ti = ty["args"][0]; continue
            if ty.get("def") == COW and tr == "Display":
                return self.pad(self.text(eng, st, ptr), opts)
            break
        v = self.text(eng, st, ptr)
        return self.show(eng, st, tr, v, ti, opts)

    def pad(self, t, opts):
        return t if not opts else mk("p", "padded:" + repr(opts), (t,))

    def show(self, eng, st, tr, v, ti, opts):
        ty = eng.p.ty(ti); s = ty["s"]
        o = mk("opts", repr(opts)) if opts else UNIT
        if tr == "Display":
            if ty["k"] == "str" or s in ("std::string::String", "str"): return self.pad(v, opts)
            if ty["k"] == "int":
                if not opts and v.k == "int": return BY(str(v.a[0]).encode())
                return mk("p", "dec", (v,)) if not opts else mk("p", "dec", (v, o))
            if ty["k"] == "char" and not opts: return self.charpiece(v)
            if v.k == "p" and v.a[0] == "hex": return v
            if s.endswith("fmt::Arguments<'_>") and v.k == "fargs": return v.a[0]
        if tr == "LowerHex" and ty["k"] == "int": return mk("p", "xdec", (v, o))
        key = eng.p.impl_tab.get(("std::fmt::" + tr, "fmt"), {}).get(ti)
        if key and key in eng.p.bodies and tr in ("Display", "LowerHex", "UpperHex"):
            r = self.fmt_body(eng, st, key, v, opts)
            if r is not None: return r
        return mk("p", "show:" + tr + ":" + (s if not key else key), (v, o))

    def fmt_body(self, eng, st, key, v, opts):
        """text produced by a local fmt implementation, from a summary of its body"""
        if opts and not (len(opts) == 1 and opts[0][0] == "prec" and isinstance(opts[0][1], int)): return None
        k = classify_fmt(eng.p, type(self), key)
        if k is None: return None
        kind = k[0]
        if kind == "escape":
            x = get_path(v, k[1])
            return mk("p", "esc", (x,)) if x is not None and not opts else None
        if kind == "hex":
            x = get_path(v, k[1])
            if x is None: return None
            return mk("p", "hex", (x, UNIT if not opts else I(opts[0][1])))
        if kind == "const":
            if opts: return None
            d = k[1]   # list of (disc path term builder, value, text)
            x = get_path(v, d)
            if x is None: return None
            dv = eng.disc(st, x, None)
            kv = eng.known(st, dv)
            if kv is not None: return BY(k[2][kv]) if kv in k[2] else None
            return mk("p", "name", (dv, mk("tab", tuple(sorted(k[2].items())))))
        return None

    @m("fmt::format", "std::fmt::format", "alloc::fmt::format")
    def f_format(self, eng, st, c):
        a = c.args[0]
        return self.ret(eng, st, c, a.a[0] if a.k == "fargs" else mk("p", "formatted", (eng.content(st, a),)))

    @m("Formatter::precision", "Formatter::width", "Formatter::alternate", "Formatter::sign_plus", "Formatter::fill")
    def f_prec(self, eng, st, c):
        b, p = self.loc(eng, st, c.args[0])
        i = b.a[0] if b.k == "D" and not p else mk("loc", b, p)
        if not params_ok(i): i = mk("param", "fmtopts")
        v = mk("p", "fmt_" + c.name, (i,))
        if c.name == "precision" and eng.opts.get("precision") is not None: v = agg("std::option::Option", 1, (I(eng.opts["precision"]),))
        return self.ret(eng, st, c, v)

    @m("fmt::Display::fmt", "fmt::LowerHex::fmt", "fmt::Debug::fmt")
    def f_fmt(self, eng, st, c):
        """direct call of a formatting trait on a foreign type"""
        tr = c.callee.get("trait", "std::fmt::Display").split("::")[-1]
        t = self.display(eng, st, tr, c.args[0], strip1(eng, c.atys[0]), None)
        e = self.append(eng, st, c, c.args[1], mk("p", "fmtpad", (t,)) if t.k != "bytes" else t)
        s2 = st.copy()
        return eng.finish(s2, c, err(mk("zst", "std::fmt::Error")), [self.ev_raw(eng, s2, c, "text", "failed", ())]) + eng.finish(st, c, ok(UNIT), [e])

    @m("Formatter::write_fmt", "fmt::Write::write_fmt")
    def f_fmt_write(self, eng, st, c):
        a = c.args[1]
        t = a.a[0] if a.k == "fargs" else mk("p", "formatted", (eng.content(st, a),))
        return self.fmt_result(eng, st, c, self.append(eng, st, c, c.args[0], t))

    @m("Formatter::debug_struct_field1_finish", "Formatter::debug_struct_field2_finish", "Formatter::debug_struct_field3_finish", "Formatter::debug_struct_field4_finish", "Formatter::debug_tuple_field1_finish", "Formatter::debug_tuple_field2_finish")
    def f_dbg(self, eng, st, c):
        return self.ret(eng, st, c, ok(UNIT))

    # ------------------------------------------------------------ writing
    def self_writer(self, eng, st, ptr, ti):
        """(pointer, type) of the concrete writer behind references and boxes"""
        n = 0
        while n < 12:
            n += 1
            ty = eng.p.ty(ti) if ti is not None else {"k": "?", "s": "?"}
            if ty["k"] == "ref": ptr = eng.deref(st, ptr); ti = ty["to"]; continue
            if ty.get("def") == "std::boxed::Box": ptr = eng.deref(st, ptr); ti = ty["args"][0]; continue
            if ty["k"] == "dyn":
                v = ptr
                while v.k == "ref":
                    nv = eng.load(st, v.a[0], v.a[1])
                    if nv.k in ("dyn", "ref"): v = nv
                    else: break
                if v.k == "dyn":
                    ptr = v.a[0]; ti = v.a[1]
                    if ptr.k == "box": ptr = ref(ptr.a[0])
                    continue
            break
        return ptr, ti

    def do_write(self, eng, st, c, ptr, ti, x, bulk, kont=None):
        """write text x; result io::Result<()> if bulk else io::Result<usize>"""
        ptr, ti = self.self_writer(eng, st, ptr, ti)
        ty = eng.p.ty(ti) if ti is not None else {"k": "?", "s": "?"}
        key = eng.p.impl_tab.get(("std::io::Write", "write"), {}).get(ti)
        c = c.with_args(c.args)
        if kont is not None: c.kont = kont
        if key in eng.p.bodies:
            xp = ref(mk("C", x))
            if bulk:
                if x is EMPTY: return eng.finish(st, c, ok(UNIT))
                return eng.inline(st, c, eng.p.bodies[key], [ptr, xp], Kont(_k_bulk, c, x, ptr, key), mark="bulk")
            return eng.inline(st, c, eng.p.bodies[key], [ptr, xp])
        okv = UNIT if bulk else lenof(x)
        b, p = self.loc(eng, st, ptr)
        cur = eng.load(st, b, p)
        if cur.k == "hs" or (ty.get("k") == "adt" and algo_of(ty["s"])):
            if cur.k != "hs": return self.opaque(eng, st, c)
            e = self.do_feed(eng, st, c, b, p, cur, x)
            return eng.finish(st, c, ok(okv), [e])
        s = ty["s"]
        if s.startswith("std::vec::Vec<u8"):
            e = self.append(eng, st, c, None, x, (b, p))
            return eng.finish(st, c, ok(okv), [e])
        if s.startswith(("std::io::Stderr", "std::io::StderrLock")):
            r = eng.atom(st, "res", c.site, "stderr", ())
            return eng.finish(st, c, r, [self.ev_raw(eng, st, c, "stderr", "write", (x,))])
        if ty.get("k") in ("dyn", "param", "?"): return self.sink_write(eng, st, c, mk("param", "dyn"), x, bulk)
        return self.sink_write(eng, st, c, mk("param", s), x, bulk)

    def sink_write(self, eng, st, c, ident, x, bulk):
        outs = []
        s2 = st.copy()
        e = eng.atom(s2, "res", c.site, "err:write", ())
        outs += eng.finish(s2, c, err(e), [self.ev_raw(eng, s2, c, "sink", "write", (ident, x), e, "err")])
        if bulk: return outs + eng.finish(st, c, ok(UNIT), [self.ev_raw(eng, st, c, "sink", "write", (ident, x), UNIT, "ok")])
        n = eng.atom(st, "res", c.site, "nwritten", ())
        eng.tty[n] = "usize"
        l = lenof(x)
        if eng.assume(st, self.le(n, l), 1): outs += eng.finish(st, c, ok(n), [self.ev_raw(eng, st, c, "sink", "partial", (ident, x, n), n, "ok")])
        return outs

    @m("ext_write")
    def f_ext_write(self, eng, st, c):
        x = self.text(eng, st, c.args[1]); i = self.ident(eng, st, c.args[0])
        if self.in_mark(c.fr, "bulk") or self.in_mark(c.fr, "rest"):
            outs = []
            if not self.in_mark(c.fr, "rest"):
                s2 = st.copy()
                e = eng.atom(s2, "res", c.site, "err:write", ())
                outs = eng.finish(s2, c, err(e), [self.ev_raw(eng, s2, c, "sink", "write", (i, x), e, "err")])
                if eng.opts.get("short") and x.k != "byte" and not (x.k == "bytes" and len(x.a[0]) < 2):
                    # accepts a proper prefix; write_all calls again with the rest
                    s3 = st.copy()
                    n = eng.atom(s3, "res", c.site, "nwritten", ()); eng.tty[n] = "usize"
                    if eng.assume(s3, self.le(n, lenof(x)), 1): outs += eng.finish(s3, c, ok(n), [self.ev_raw(eng, s3, c, "sink", "partial", (i, x, n), n, "ok")])
            return outs + eng.finish(st, c, ok(lenof(x)), [self.ev_raw(eng, st, c, "sink", "write", (i, x), UNIT, "ok")])
        return self.sink_write(eng, st, c, i, x, False)

    @m("ext_flush")
    def f_ext_flush(self, eng, st, c):
        return self.fork_io(eng, st, c, "sink", "flush", (self.ident(eng, st, c.args[0]),), UNIT)

    @m("io::Write::write_all", "io::Write::write_fmt", "io::Write::write")
    def f_write(self, eng, st, c):
        if c.name == "write" and c.callee.get("key") in eng.p.bodies: return None
        a = c.args[1]
        if c.name == "write_fmt": x = a.a[0] if a.k == "fargs" else mk("p", "formatted", (eng.content(st, a),))
        else: x = self.text(eng, st, a)
        ti = c.callee.get("self")
        if ti is None: ti = strip1(eng, c.atys[0])
        return self.do_write(eng, st, c, c.args[0], ti, x, c.name != "write")

    @m("io::Write::flush")
    def f_flush(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        ti = c.callee.get("self")
        if ti is None: ti = strip1(eng, c.atys[0])
        ptr, ti = self.self_writer(eng, st, c.args[0], ti)
        key = eng.p.impl_tab.get(("std::io::Write", "flush"), {}).get(ti)
        if key in eng.p.bodies: return eng.inline(st, c, eng.p.bodies[key], [ptr])
        s = eng.p.tys(ti) if ti is not None else "?"
        if algo_of(s) or s.startswith("std::vec::Vec<u8"): return self.ret(eng, st, c, ok(UNIT))
        if s.startswith("std::io::Stderr"):
            return self.ret(eng, st, c, eng.atom(st, "res", c.site, "stderr", ()))
        i = mk("param", "dyn") if ti is None or eng.p.ty(ti)["k"] in ("dyn", "param") else mk("param", s)
        return self.fork_io(eng, st, c, "sink", "flush", (i,), UNIT)

    # ------------------------------------------------------------ reading
    @m("io::Read::take", "Read::take")
    def f_take(self, eng, st, c):
        return self.ret(eng, st, c, agg("std::io::Take", 0, (c.args[0], c.args[1])))

    @m("Take::limit", "Take::into_inner", "Take::set_limit", "Take::get_mut", "Take::get_ref")
    def f_takefn(self, eng, st, c):
        b, p = eng.target(c.args[0])
        if c.name == "into_inner": return self.ret(eng, st, c, eng.project(c.args[0], ("f", 0)))
        if c.name == "limit": return self.ret(eng, st, c, eng.load(st, b, p + (("f", 1),)))
        if c.name == "set_limit": eng.store(st, b, p + (("f", 1),), c.args[1], c.site); return self.ret(eng, st, c, UNIT)
        return self.ret(eng, st, c, ref(b, p + (("f", 0),)))

    def source(self, eng, st, v):
        """(stream identity, limit) of a reader value"""
        lim = None; n = 0
        while n < 12:
            n += 1
            if v.k == "agg" and v.a[0] == "std::io::Take":
                l = eng.content(st, v.a[2][1])
                lim = l if lim is None else mk("p", "min", (lim, l))
                v = v.a[2][0]; continue
            if v.k == "agg" and v.a[0].endswith("BufReader"): v = v.a[2][0]; continue
            if v.k in ("ref", "dyn", "box"):
                b, p = eng.target(v); w = eng.load(st, b, p)
                if w.k in ("ref", "dyn", "box") or (w.k == "agg" and (w.a[0] == "std::io::Take" or w.a[0].endswith("BufReader"))): v = w; continue
                if w.k == "agg" or w.k == "deref": return (mk("loc", b, p) if b.k != "D" or p else b.a[0]), lim
                return w, lim
            break
        return v, lim

    @m("io::copy", "std::io::copy")
    def f_iocopy(self, eng, st, c):
        src, lim = self.source(eng, st, c.args[0])
        site = c.site
        sid = eng.content(st, src)
        outs = []
        s2 = st.copy()
        e = eng.atom(s2, "res", site, "err:read", ())
        src2, _ = self.source(eng, s2, c.args[0])
        outs += eng.finish(s2, c, err(e), [self.ev_raw(eng, s2, c, "fs", "read", (eng.content(s2, src2), lim or I(-1)), e, "err")])
        s3 = st.copy()
        r = eng.atom(st, "res", site, "chunk", ())
        src, lim = self.source(eng, st, c.args[0])
        sid = eng.content(st, src)
        x = mk("chunk", r, sid, lim if lim is not None else I(-1))
        l = lenof(x); eng.tty[l] = "u64"
        if lim is not None: eng.assume(st, self.le(l, lim), 1)
        ev = self.ev_raw(eng, st, c, "fs", "read", (sid, lim or I(-1), x), x, "ok")
        wt = strip1(eng, c.atys[1]) if eng.p.ty(c.atys[1])["k"] == "ref" else c.atys[1]
        ptr, ti = self.self_writer(eng, st, c.args[1], wt)
        # the data reaches the writer, unless there is none
        res = self.do_write(eng, st, c, ptr, ti, x, True, Kont(_k_copy, c, l))
        return outs + [(f, bl, s, [ev] + list(e)) for f, bl, s, e in res]

    @m("ext_read")
    def f_ext_read(self, eng, st, c):
        sid = self.ident(eng, st, c.args[0])
        return self.do_read(eng, st, c, sid, c.args[1])

    def do_read(self, eng, st, c, sid, bufp):
        s2 = st.copy()
        e = eng.atom(s2, "res", c.site, "err:read", ())
        outs = eng.finish(s2, c, err(e), [self.ev_raw(eng, s2, c, "fs", "read", (sid,), e, "err")])
        b, p = self.loc(eng, st, bufp)
        l = lenof(self.text(eng, st, eng.load(st, b, p)))
        n = eng.atom(st, "res", c.site, "nread", ()); eng.tty[n] = "usize"
        l = lenof(self.text(eng, st, eng.load(st, b, p)))
        d = mk("res", c.site, "data", ())
        self.put(eng, st, b, p, mk("buf", d, l), c.site)
        if eng.assume(st, self.le(n, l), 1): outs += eng.finish(st, c, ok(n), [self.ev_raw(eng, st, c, "fs", "read", (sid, l, d, n), n, "ok")])
        return outs

    @m("io::Read::read")
    def f_read(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        src, lim = self.source(eng, st, c.args[0])
        return self.do_read(eng, st, c, eng.content(st, src), c.args[1])

    @m("io::Read::read_exact")
    def f_read_exact(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        src, lim = self.source(eng, st, c.args[0]); sid = eng.content(st, src)
        s2 = st.copy()
        e = eng.atom(s2, "res", c.site, "err:read", ())
        outs = eng.finish(s2, c, err(e), [self.ev_raw(eng, s2, c, "fs", "read_exact", (sid,), e, "err")])
        d = eng.atom(st, "res", c.site, "data", ())
        b, p = self.loc(eng, st, c.args[1])
        l = lenof(self.text(eng, st, eng.load(st, b, p)))
        x = mk("buf", d, l)
        self.put(eng, st, b, p, x, c.site)
        return outs + eng.finish(st, c, ok(UNIT), [self.ev_raw(eng, st, c, "fs", "read_exact", (sid, l, x), x, "ok")])

    @m("io::Read::read_to_end", "io::Read::read_to_string")
    def f_read_to_end(self, eng, st, c):
        src, lim = self.source(eng, st, c.args[0]); sid = eng.content(st, src)
        s2 = st.copy()
        e = eng.atom(s2, "res", c.site, "err:read", ())
        outs = eng.finish(s2, c, err(e), [self.ev_raw(eng, s2, c, "fs", "read", (sid, lim or I(-1)), e, "err")])
        r = eng.atom(st, "res", c.site, "chunk", ())
        src, lim = self.source(eng, st, c.args[0]); sid = eng.content(st, src)
        x = mk("chunk", r, sid, lim if lim is not None else I(-1)); l = lenof(x); eng.tty[l] = "u64"
        if lim is not None: eng.assume(st, self.le(l, lim), 1)
        b, p = self.loc(eng, st, c.args[1])
        ev2 = self.append(eng, st, c, None, x, (b, p))
        return outs + eng.finish(st, c, ok(l), [self.ev_raw(eng, st, c, "fs", "read", (sid, lim or I(-1), x), x, "ok"), ev2])

    @m("io::BufRead::read_until", "io::BufRead::read_line")
    def f_read_until(self, eng, st, c):
        if c.callee.get("key") in eng.p.bodies: return None
        src, lim = self.source(eng, st, c.args[0]); sid = eng.content(st, src)
        delim = eng.content(st, c.args[1]) if c.name == "read_until" else I(10)
        bufp = c.args[-1]
        if eng.p.ty(strip1(eng, c.atys[-1]))["k"] == "ref": bufp = eng.deref(st, bufp)
        s2 = st.copy()
        e = eng.atom(s2, "res", c.site, "err:read", ())
        b, p = self.loc(eng, s2, bufp)
        old = self.text(eng, s2, eng.load(s2, b, p))
        eng.store(s2, b, p, text([old, mk("res", c.site, "partial", ())]), c.site)
        outs = eng.finish(s2, c, err(e), [self.ev_raw(eng, s2, c, "fs", "read_line", (sid, delim), e, "err")])
        x = eng.atom(st, "res", c.site, "line", ())
        b, p = self.loc(eng, st, bufp)
        old = self.text(eng, st, eng.load(st, b, p))
        eng.store(st, b, p, text([old, x]), c.site)
        ev = self.ev_raw(eng, st, c, "fs", "read_line", (sid, delim, x, old), x, "ok")
        l = lenof(x); eng.tty[l] = "usize"
        # nothing was left / a piece ending with the delimiter, or the rest of the stream
        return outs + eng.finish(st, c, ok(l), [ev])

    @m("ext_fill")
    def f_ext_fill(self, eng, st, c):
        sid = self.ident(eng, st, c.args[0])
        d = eng.atom(st, "res", c.site, "filled", ())
        return self.fork_io(eng, st, c, "fs", "fill_buf", (sid,), ref(mk("C", d)))

    @m("ext_consume")
    def f_ext_consume(self, eng, st, c):
        return self.ret(eng, st, c, UNIT, self.ev(eng, st, c, "fs", "consume", (self.ident(eng, st, c.args[0]), c.args[1])))

    @m("ext_seek")
    def f_ext_seek(self, eng, st, c):
        n = eng.atom(st, "res", c.site, "pos", ()); eng.tty[n] = "u64"
        return self.fork_io(eng, st, c, "fs", "seek", (self.ident(eng, st, c.args[0]), c.args[1]), n)

    @m("ext_nondet")
    def f_nondet(self, eng, st, c):
        s2 = st.copy()
        return eng.finish(s2, c, B(1), []) + eng.finish(st, c, B(0), [])

    @m("io::BufReader::new", "BufReader::with_capacity", "BufReader::get_mut", "BufReader::into_inner")
    def f_bufreader(self, eng, st, c):
        return self.ret(eng, st, c, agg("std::io::BufReader", 0, (c.args[-1],)))

    # ------------------------------------------------------------ files and directories
    def fsop(self, eng, st, c, name, args, okv_name, evname=None):
        """a fallible filesystem call returning Ok(fresh atom)"""
        s2 = st.copy()
        e = eng.atom(s2, "res", c.site, "err:" + name, ())
        args2 = tuple(self.fsarg(eng, s2, a) for a in args)
        outs = eng.finish(s2, c, err(e), [self.ev_raw(eng, s2, c, "fs", name, args2, e, "err")])
        v = eng.atom(st, "res", c.site, okv_name, ()) if isinstance(okv_name, str) else None
        args = tuple(self.fsarg(eng, st, a) for a in args)
        if v is None: v = okv_name(args)
        return outs + eng.finish(st, c, ok(v), [self.ev_raw(eng, st, c, "fs", name, args, v, "ok")])

    def fsarg(self, eng, st, a): return self.text(eng, st, a)

    @m("openat::Dir::open", "dir::openat::Dir::open")
    def f_dopen(self, eng, st, c): return self.fsop(eng, st, c, "open_root", (c.args[0],), "dir")
    @m("openat::Dir::sub_dir", "Dir::sub_dir")
    def f_subdir(self, eng, st, c): return self.fsop(eng, st, c, "sub_dir", (c.args[0], c.args[1]), "dir")
    @m("openat::Dir::open_file", "Dir::open_file")
    def f_openfile(self, eng, st, c): return self.fsop(eng, st, c, "open_file", (c.args[0], c.args[1]), "file")
    @m("openat::Dir::metadata", "Dir::metadata")
    def f_dmeta(self, eng, st, c):
        return self.fsop(eng, st, c, "lstat", (c.args[0], c.args[1]), lambda args: mk("p", "lmeta", args))
    @m("openat::Dir::read_link", "Dir::read_link")
    def f_readlink(self, eng, st, c): return self.fsop(eng, st, c, "read_link", (c.args[0], c.args[1]), "target")
    @m("openat::Dir::recover_path", "Dir::recover_path")
    def f_recover(self, eng, st, c): return self.fsop(eng, st, c, "recover_path", (c.args[0],), "recovered")
    @m("openat::Dir::list_self", "openat::Dir::list_dir", "Dir::list_dir", "Dir::list_self")
    def f_listdir(self, eng, st, c):
        s2 = st.copy()
        e = eng.atom(s2, "res", c.site, "err:list_dir", ())
        args2 = tuple(self.text(eng, s2, a) for a in c.args)
        outs = eng.finish(s2, c, err(e), [self.ev_raw(eng, s2, c, "fs", "list_dir", args2, e, "err")])
        args = tuple(self.text(eng, st, a) for a in c.args)
        return outs + eng.finish(st, c, ok(mk("it", "entries", args[0], args[1] if len(args) > 1 else BY(b"."))), [self.ev_raw(eng, st, c, "fs", "list_dir", args, None, "ok")])

    def n_entries(self, eng, st, c, b, p, it):
        s2 = st.copy(); s3 = st.copy()
        outs = eng.finish(s2, c, NONE, [self.ev_raw(eng, s2, c, "fs", "next_entry", (it.a[1],), None, "end")])
        e = eng.atom(s3, "res", c.site, "err:next_entry", ())
        it3 = eng.load(s3, b, p)
        outs += eng.finish(s3, c, some(err(e)), [self.ev_raw(eng, s3, c, "fs", "next_entry", (it3.a[1],), e, "err")])
        x = eng.atom(st, "res", c.site, "entry", ())
        it = eng.load(st, b, p)
        f = mk("op", "Eq", mk("p", "listed_in", (x,)), it.a[1])
        st.facts = dict(st.facts); st.facts[f] = 1
        return outs + eng.finish(st, c, some(ok(x)), [self.ev_raw(eng, st, c, "fs", "next_entry", (it.a[1], x, it.a[2]), x, "ok")])

    @m("openat::Entry::file_name", "Entry::file_name")
    def f_fname(self, eng, st, c):
        return self.ret(eng, st, c, ref(mk("C", mk("p", "entry_name", (self.text(eng, st, c.args[0]),)))))
    @m("openat::Entry::simple_type", "Entry::simple_type")
    def f_stype(self, eng, st, c):
        return self.ret(eng, st, c, mk("p", "dtype", (self.text(eng, st, c.args[0]),)))
    @m("openat::Metadata::simple_type", "metadata::Metadata::simple_type")
    def f_mtype(self, eng, st, c):
        return self.ret(eng, st, c, mk("p", "stat_type", (self.text(eng, st, c.args[0]),)))
    @m("fs::File::metadata")
    def f_fmeta(self, eng, st, c): return self.fsop(eng, st, c, "fstat", (c.args[0],), "meta")
    @m("fs::File::open")
    def f_fopen(self, eng, st, c): return self.fsop(eng, st, c, "fopen", (c.args[0],), "file")
    @m("fs::Metadata::len", "openat::Metadata::len", "MetadataExt::size", "metadata::Metadata::len")
    def f_mlen(self, eng, st, c):
        v = mk("p", "meta_len", (self.text(eng, st, c.args[0]),)); eng.tty[v] = "u64"
        return self.ret(eng, st, c, v)
    @m("fs::Metadata::permissions", "metadata::Metadata::permissions")
    def f_perm(self, eng, st, c): return self.ret(eng, st, c, mk("p", "perm", (self.text(eng, st, c.args[0]),)))
    @m("PermissionsExt::mode", "MetadataExt::mode")
    def f_mode(self, eng, st, c):
        x = self.text(eng, st, c.args[0])
        if x.k == "p" and x.a[0] == "perm": x = x.a[1][0]
        v = mk("p", "mode", (x,)); eng.tty[v] = "u32"
        return self.ret(eng, st, c, v)

    # ------------------------------------------------------------ threads
    @m("futures_cpupool::CpuPool::new", "CpuPool::new", "CpuPool::new_num_cpus", "cpupool::Builder::new")
    def f_pool(self, eng, st, c):
        return self.ret(eng, st, c, mk("p", "pool", tuple(eng.content(st, a) for a in c.args)), self.ev(eng, st, c, "thread", "pool", c.args))

    @m("futures_cpupool::CpuPool::spawn_fn", "CpuPool::spawn_fn")
    def f_spawn(self, eng, st, c):
        c2 = c.with_args(c.args)
        b = None
        f = c.args[1]
        if f.k == "agg" and str(f.a[0]).startswith("closure:"):
            b = eng.p.bodies.get(eng.p.ty(int(f.a[0].split(":")[1]))["key"])
        ev = self.ev(eng, st, c, "thread", "spawn", (c.args[1],))
        if b is None: outs = self.opaque(eng, st, c)
        else:
            want_ref = eng.p.ty(b.locals[1])["k"] == "ref"
            a0 = f
            if want_ref:
                h = mk("H", mk("env", c.site)); st.mem[h] = f; a0 = ref(h)
            outs = eng.inline(st, c, b, [a0], Kont(_k_spawn, c), mark="spawn")
        return [(fr, bl, s, [ev] + list(e)) for fr, bl, s, e in outs]

    @m("futures::Future::wait", "future::Future::wait", "Future::wait")
    def f_wait(self, eng, st, c):
        v = c.args[0]
        if v.k == "ref": v = eng.deref(st, v)
        if v.k == "future": return self.ret(eng, st, c, v.a[0], self.ev(eng, st, c, "thread", "wait", (v,)))
        return self.opaque(eng, st, c)

    @m("executor::spawn", "task_impl::spawn", "futures::executor::spawn")
    def f_exspawn(self, eng, st, c): return self.ret(eng, st, c, mk("agg", "Spawn", 0, (c.args[0],)))

    @m("Spawn::poll_future_notify", "task_impl::Spawn::poll_future_notify", "Future::poll")
    def f_poll(self, eng, st, c):
        v = c.args[0]
        if v.k == "ref": v = eng.deref(st, v)
        if v.k == "agg" and v.a[0] == "Spawn": v = v.a[2][0]
        n = 0
        while v.k == "ref" and n < 5: v = eng.deref(st, v); n += 1
        if v.k != "future": return self.opaque(eng, st, c)
        A = "futures::Async"
        x = v.a[0]
        s2 = st.copy()
        outs = eng.finish(s2, c, ok(agg(A, 1, ())), [self.ev(eng, s2, c, "thread", "poll", (v,), None, "notready")])
        ev = self.ev(eng, st, c, "thread", "poll", (v,), None, "ready")
        if x.k == "agg" and x.a[0] == RES:
            r = ok(agg(A, 0, (x.a[2][0],))) if x.a[1] == 0 else x
            return outs + eng.finish(st, c, r, [ev])
        return outs + self.opaque(eng, st, c)

    # ------------------------------------------------------------ environment
    @m("Instant::now", "SystemTime::now")
    def f_now(self, eng, st, c): return self.ret(eng, st, c, mk("p", "clock", ()), self.ev(eng, st, c, "env", "clock"))
    @m("Instant::duration_since", "Instant::elapsed", "Duration::as_secs", "Duration::subsec_nanos", "Duration::from_millis", "Duration::from_secs", "Duration::as_millis", "Duration::as_secs_f64")
    def f_dur(self, eng, st, c): return self.ret(eng, st, c, mk("p", c.name, tuple(eng.content(st, a) for a in c.args)))
    @m("num_cpus::get")
    def f_ncpu(self, eng, st, c):
        v = mk("p", "num_cpus", ()); eng.tty[v] = "usize"
        return self.ret(eng, st, c, v, self.ev(eng, st, c, "env", "num_cpus"))
    @m("io::_print")
    def f_print(self, eng, st, c):
        a = eng.content(st, c.args[0])
        x = a.a[0] if a.k == "fargs" else mk("p", "formatted", (a,))
        c2 = c.with_args(c.args); c2.kont = core.Kont(_k_print, c)
        return self.sink_write(eng, st, c2, mk("param", "std::io::Stdout"), x, True)
    @m("io::stderr", "io::stdout")
    def f_stderr(self, eng, st, c): return self.ret(eng, st, c, mk("p", c.name, ()))
    @m("log::max_level", "log::__private_api::loc")
    def f_log(self, eng, st, c): return self.ret(eng, st, c, mk("p", "log_" + c.name, ()))
    @m("log::__private_api::log")
    def f_log2(self, eng, st, c): return self.ret(eng, st, c, UNIT, self.ev_raw(eng, st, c, "log", "log"))

def _k_print(eng, st, fr, val, c):
    if val.k == "agg" and val.a[1] == 1: return [(None, ("panic", "print"), st, [eng.models.ev_raw(eng, st, c, "panic", "print")])]
    return eng.finish(st, c, UNIT)

def params_ok(x): return all(a.k == "param" for a in subterms(x))
def strip1(eng, ti):
    ty = eng.p.ty(ti)
    return ty["to"] if ty["k"] in ("ref", "ptr") else ti
def strip_deep(x): return x

def atomlike(v): return v.k in ("res", "wk") and "nwritten" in v.a

def _k_unit(eng, st, fr, val, c): return eng.finish(st, c, UNIT, [])

def _k_bulk(eng, st, fr, val, c, x=None, ptr=None, key=None):
    """io::Result<usize> of one complete write -> io::Result<()>"""
    v = val
    if x is not None and v.k == "agg" and v.a[0] == RES and v.a[1] == 0 and eng.opts.get("short") and atomlike(v.a[2][0]):
        rest = sl(x, v.a[2][0], lenof(x))
        return eng.inline(st, c, eng.p.bodies[key], [ptr, ref(mk("C", rest))], Kont(_k_bulk, c), mark="rest")
    if v.k == "agg" and v.a[0] == RES:
        return eng.finish(st, c, ok(UNIT) if v.a[1] == 0 else v, [])
    d = mk("disc", v)
    s2 = st.copy(); outs = []
    if eng.assume(st, d, 0): outs += eng.finish(st, c, ok(UNIT), [])
    if eng.assume(s2, d, 1): outs += eng.finish(s2, c, err(mk("fld", v, 1, 0)), [])
    return outs

def _k_copy(eng, st, fr, val, c, l):
    v = val
    if v.k == "agg" and v.a[0] == RES and v.a[1] == 0: return eng.finish(st, c, ok(l), [])
    return eng.finish(st, c, v, [])

def _k_spawn(eng, st, fr, val, c):
    v = eng.content(st, val)
    return eng.finish(st, c, mk("future", v), [eng.models.ev_raw(eng, st, c, "thread", "done", (v,))])

def get_path(v, path):
    for i in path:
        if v.k == "agg" and i < len(v.a[2]): v = v.a[2][i]
        else: v = mk("fld", v, None, i)
    return v

# ---------------------------------------------------------------- local formatting implementations
_cls = {}
def classify_fmt(prog, mcls, key):
    """('escape', path) / ('hex', path) / ('const', path, {disc: text}) / None"""
    k = (id(prog), key)
    if k in _cls: return _cls[k]
    _cls[k] = None
    import fmtcls
    _cls[k] = fmtcls.classify(prog, mcls, key)
    return _cls[k]
