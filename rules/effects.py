"""C12: what the reachable code can do to the world outside; C08: what the written bytes depend on."""
import re
from terms import *
import graph
from graph import Viol
from models import norm
from scanrules import expand

# operations that create, change, remove or link filesystem objects, or start processes
MUT = [r"^std::fs::(write|remove_file|remove_dir|remove_dir_all|rename|copy|create_dir|create_dir_all|hard_link|soft_link|set_permissions|set_times|set_times_nofollow)$",
       r"^std::fs::File::(create|create_new|create_buffered|set_len|set_permissions|set_times|set_modified)$",
       r"^std::fs::DirBuilder::create$", r"^std::os::unix::fs::(symlink|chown|fchown|lchown|chroot|mkfifo)$",
       r"^std::os::unix::fs::FileExt::(write_at|write_all_at)$",
       r"^openat::.*Dir::(write_file|append_file|create_file|new_unnamed_file|link_file_at|new_file|update_file|symlink|create_dir|local_rename|local_exchange|remove_dir|remove_file)$",
       r"^openat::(?:dir::)?(rename|hardlink|rename_flags)$",
       r"^std::process::Command::(spawn|output|status)$", r"^std::os::unix::process::CommandExt::exec$",
       r"^tempfile::.*(tempfile|tempdir|tempfile_in|tempdir_in|new|new_in|persist|persist_noclobber|keep|create|spooled_tempfile)$",
       r"^libc::(?:.*::)?(unlink|unlinkat|rename|renameat|renameat2|mkdir|mkdirat|rmdir|link|linkat|symlink|symlinkat|creat|truncate|ftruncate|chmod|fchmod|fchmodat|chown|fchown|lchown|fchownat|utime|utimes|utimensat|futimens|futimes|mknod|mknodat|mkfifo|setxattr|fsetxattr|lsetxattr|removexattr|fremovexattr|fork|vfork|execv|execve|execvp|posix_spawn|posix_spawnp|system|fallocate|pwrite|mkstemp|mkdtemp)$",
       r"^std::os::unix::net::Unix(Listener|Datagram)::bind$"]
# calls that may or may not, depending on arguments that this rule looks at itself or cannot see
OPENW = r"^std::fs::OpenOptions::(write|append|create|create_new|truncate)$"
WATCH = r"^(std::fs::|std::os::|openat::|libc::|std::process::|tempfile::|nix::|rustix::|std::net::)"
READ = [r"^std::fs::(read|read_to_string|read_dir|read_link|metadata|symlink_metadata|canonicalize|exists|try_exists)$",
        r"^std::fs::File::(open|open_buffered|metadata|try_clone|options|sync_all|sync_data|lock|unlock|try_lock|lock_shared)$",
        r"^std::fs::(Metadata|Permissions|FileType|DirEntry|ReadDir|OpenOptions)::(?!write|append|create|create_new|truncate)\w+$",
        r"^std::os::(unix|fd|linux)::(?!.*(write_at|symlink|chown|chroot|mkfifo)).*$",
        r"^openat::(dir::)?(openat::)?Dir::(cwd|open|list_dir|list_self|sub_dir|read_link|open_file|recover_path|metadata|self_metadata|try_clone|is_exists)$",
        r"^openat::.*(Entry|Metadata|DirIter|DirPosition)::\w+$", r"^std::process::(exit|abort|id)$", r"^std::process::ExitCode::\w+$",
        r"^libc::(?:.*::)?(fstat|fstatat|lstat|stat|read|pread|close|readlink|readlinkat|getpid|geteuid|getuid|posix_fadvise|lseek|__errno_location)$"]
rx = lambda l: [re.compile(x) for x in l]
MUT, READ, WATCH, OPENW = rx(MUT), rx(READ), re.compile(WATCH), re.compile(OPENW)

def callees(prog):
    """(function body, span, path called or used as a value, operands)"""
    for k, b in prog.bodies.items():
        for bl in b.blocks:
            t = bl["t"]
            if t[0] != "call" or not isinstance(t[1], dict): continue
            for p in {t[1].get("path"), t[1].get("rpath")} - {None}: yield b, t[5], norm(p), t

def spanof(sp):
    try: return "%s:%s" % (sp[0], sp[1])
    except Exception: return str(sp)

def effects(prog, cli=False):
    v = {}; und = set(); n = 0; seen = set()
    opens = []
    for b, sp, p, t in callees(prog):
        n += 1
        if b.crate not in ("dir_signature", "index", "probe") and not p.startswith(("openat", "libc", "tempfile")): pass
        if not WATCH.match(p): continue
        seen.add(p)
        if cli and p == "std::fs::File::create": opens.append((b, sp)); continue
        if any(r.match(p) for r in MUT):
            v.setdefault("%s calls %s" % (graph.short(graph.strip_key(b.key)), p), ("%s calls %s at %s, which changes the filesystem or starts a process" % (graph.short(graph.strip_key(b.key)), p, spanof(sp)), [spanof(sp)]))
        elif OPENW.match(p):
            # .write(false) and the like are harmless
            a = t[2][1] if len(t[2]) > 1 else None
            if "false" in str(a).lower() or ("'int'" in str(a) and ", 0" in str(a)): continue
            v.setdefault("%s opens for writing" % graph.short(graph.strip_key(b.key)), ("%s opens a file with %s at %s" % (graph.short(graph.strip_key(b.key)), p, spanof(sp)), [spanof(sp)]))
        elif not any(r.match(p) for r in READ): und.add("effect of %s is not known" % p)
    for ty in prog.types:
        if ty["k"] == "fndef":
            p = norm(ty["def"]); n += 1
            if any(r.match(p) for r in MUT) and not (cli and p == "std::fs::File::create"): v.setdefault("passes %s" % p, ("%s is passed as a function value" % p, []))
    return v, n, seen, und, opens

def effects_unit(ctx, dump, crate):
    prog = ctx.prog(dump, crate)
    def run():
        graph.PROG[0] = prog
        v, n, seen, und, opens = effects(prog, crate == "index")
        return v, {"functions_analysed": len(prog.bodies), "call_sites": n, "effectful_operations_seen": sorted(seen), "creating_call_sites": len(opens)}, "; ".join(sorted(und)) or None
    return ("effects of %s/%s" % (dump, crate), run)

# ---------------------------------------------------------------- C08
META = ("modified", "accessed", "created", "mtime", "mtime_nsec", "atime", "atime_nsec", "ctime", "ctime_nsec", "ino", "dev", "rdev", "nlink", "uid", "gid", "blocks", "blksize", "readonly")
SRC = rx([r"^std::time::", r"^std::env::", r"^std::process::(id|parent_id)$", r"^std::thread::(current|Thread::)", r"^(rand|fastrand|getrandom|uuid)", r"^std::hash::(random|RandomState|BuildHasher)",
          r"^std::collections::hash(_map|_set|::map|::set)::(\w+::)*(iter|iter_mut|keys|values|values_mut|drain|into_iter|into_keys|into_values|next)$",
          r"^(&(mut )?)?std::collections::hash(_map|_set)::(Iter|IterMut|IntoIter|Keys|Values|Drain|IntoKeys|IntoValues)\b",
          r"^std::collections::Hash(Map|Set)::(iter|iter_mut|keys|values|values_mut|drain|into_iter|into_keys|into_values)$", r"^num_cpus::", r"available_parallelism$", r"^(chrono|time)::", r"^std::net::", r"^hostname", r"^std::ptr::.*(addr|expose)", r"^libc::(?:.*::)?(time|getpid|getuid|geteuid|gethostname|rand|random)$",
          r"^std::os::.*MetadataExt::(%s)$" % "|".join(META), r"^std::fs::Metadata::(%s)$" % "|".join(META[:3])])
STAT_OK = ("st_mode", "st_size")

def stat_fields(prog):
    for ty in prog.types:
        if ty.get("def") == "libc::stat" and ty.get("v"): return {i: f[0] for i, f in enumerate(ty["v"][0]["f"])}
    return {}

class Taint:
    """terms that come from a source the index must not depend on"""
    def __init__(self, g):
        self.bad = {}; self.g = g; self.memo = {}
        self.stat = stat_fields(g.eng.p); self.stats = set()
        for e in g.events():
            if e.kind == "env": self.bad[e.site] = e.name
            elif e.kind == "ext":
                if any(n and any(r.search(n) for r in SRC) for n in [e.name] + list(e.info or ())): self.bad[e.site] = e.name
                if e.name.endswith("Metadata::stat"): self.stats.add(e.site)
    def __call__(self, t):
        r = self.memo.get(t, 0)
        if r == 0:
            r = None
            for y in expand(self.g, t):
                r = self.find(y)
                if r: break
            self.memo[t] = r
        return r
    def find(self, t):
        for x in walk(t):
            if x.k == "p" and x.a[0] in ("clock", "num_cpus"): return x.a[0]
            if x.k == "p" and isinstance(x.a[0], str) and x.a[0].startswith("show:") and "Pointer" in x.a[0]: return "an address"
            if x.k in ("res", "post", "wk"):
                for s in x.a:
                    if s in self.bad: return self.bad[s]
            if x.k == "fld" and x.a[0].k in ("deref", "res", "wk") and any(y.k in ("res", "wk") and any(s in self.stats for s in y.a) for y in walk(x.a[0])):
                n = self.stat.get(x.a[2])
                if n and n not in STAT_OK: return "stat field " + n
        return None

_w = {}
def walk(t):
    r = _w.get(t)
    if r is None:
        out = []; seen = set(); st = [t]
        while st:
            x = st.pop()
            if isinstance(x, (tuple, frozenset)): st.extend(x); continue
            if not isinstance(x, T) or x in seen: continue
            seen.add(x)
            out.append(x)
            if x.k != "site": st.extend(x.a)
        r = _w[t] = out
    return r

def label(e): return (e.kind, e.name, e.info, e.args if e.kind != "fs" else ())

def independent(g, pid):
    """no forbidden source in what is written or hashed, nor in a decision that changes it"""
    T_ = Taint(g); v = {}; n = 0; und = None
    for e in g.events():
        if e.kind == "sink" and e.name in ("write", "partial") or e.kind == "hash":
            n += 1
            for a in e.args:
                s = T_(a) if isinstance(a, T) else None
                if s: v.setdefault("%s/%s" % (graph.fn(e), s), ("bytes derived from %s are %s" % (s, "written to the index" if e.kind == "sink" else "hashed"), [graph.describe(e)])); break
    # decisions
    def relevant(e): return e.kind in ("sink", "hash") or e.kind == "fs" and e.name in ("open_root", "sub_dir", "list_dir", "open_file", "read_link", "read")
    def tfacts(e): return frozenset((t, x) for t, x in e.facts.items() if T_(t))
    brs = {}
    for ss in g.succ:
        l = [(e, tfacts(e)) for evs, _ in ss for e in evs[-1:] if e.kind == "br"]
        if len({x for _, x in l}) > 1:
            for e, x in l: brs[id(e)] = x
    states = n
    if brs:
        f = g.filtered(lambda e: relevant(e) or id(e) in brs)
        eq = Equal(f, brs)
        for ss in f.succ:
            l = [(e, evs, t) for evs, t in ss for e in evs[-1:] if id(e) in brs]
            for e, evs, t in l[1:]:
                if brs[id(e)] == brs[id(l[0][0])]: continue
                r = eq.same((l[0][1], l[0][2]), (evs, t))
                src = sorted(T_(t2) for t2, _ in brs[id(e)] ^ brs[id(l[0][0])])[0]
                if r is None: und = "comparison limit reached"
                elif r is not True: v.setdefault("%s/decision on %s" % (graph.short(e.fn), src), ("what is written or hashed depends on %s: after one outcome %s follows, after the other it cannot" % (src, r), [graph.describe(e)]))
        states += eq.pairs
    # owner-execute is the only mode bit that may matter
    acc = {}
    import scanrules
    o = scanrules.exe(g, pid, acc); states += o[1]
    x, fl = ({m: e for ms, e in acc.get(c, {}).values() for m in ms} for c in (120, 102))
    for b in (0, 0o100):
        xs = {m for m in x if m & 0o100 == b}; fs = {m for m in fl if m & 0o100 == b}
        if xs and fs and xs - fs and fs - xs:
            m = max(xs - fs); v.setdefault("mode bits", ("a file of mode 0o%o is marked `x` and one of mode 0o%o `f`: a mode bit other than owner-execute decides" % (m, max(fs - xs)), [graph.describe(x[m])])); break
    return v, states, True, und

class Equal:
    """equality of the sets of visible event sequences that follow two points"""
    def __init__(self, f, hidden):
        self.f = f; self.pairs = 0; self.hid = hidden; self.par = {}
        self.steps = []
        for ss in f.succ:
            self.steps.append([(tuple(label(e) for e in evs if id(e) not in hidden), t) for evs, t in ss])
    def find(self, x):
        while self.par.get(x, x) != x: x = self.par[x]
        return x
    def close(self, items):
        seen = set(items); st = list(items)
        while st:
            evs, t = st.pop()
            if evs: continue
            for l, t2 in self.steps[t]:
                if (l, t2) not in seen: seen.add((l, t2)); st.append((l, t2))
        out = {}; ends = set()
        for evs, t in seen:
            if evs: out.setdefault(evs[0], set()).add((evs[1:], t))
            elif self.f.kind[t] is not None: ends.add((self.f.kind[t] if isinstance(self.f.kind[t], str) else self.f.kind[t][0], ))
        return out, frozenset(ends)
    def same(self, a, b, limit=60000):
        strip = lambda x: (tuple(label(e) for e in x[0] if id(e) not in self.hid), x[1])
        work = [(frozenset([strip(a)]), frozenset([strip(b)]))]
        cl = self.__dict__.setdefault("cl", {})
        while work:
            x, y = work.pop()
            rx_, ry = self.find(x), self.find(y)
            if rx_ == ry: continue
            self.pairs += 1
            if self.pairs > limit: return None
            self.par[rx_] = ry
            for z in (x, y):
                if z not in cl: cl[z] = self.close(z)
            (ox, ex), (oy, ey) = cl[x], cl[y]
            if set(ox) != set(oy):
                d = sorted((set(ox) ^ set(oy)), key=lambda z: (z[0], z[1]))[0]; self.par = {}
                return "`%s %s`" % (d[0], d[1])
            if ex != ey: self.par = {}; return "a different end"
            for k in ox: work.append((frozenset(ox[k]), frozenset(oy[k])))
        return True
