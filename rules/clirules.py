"""C29: the command line tool."""
from terms import *
import graph, evalt, units
from graph import Viol, fn
from effects import walk

SCAN = "dir_signature::v1::scan"
WANT = {"-o": "ParseOption", "--write-index": "ParseOption", "-q": "StoreFalse", "--no-progress": "StoreFalse", "--progress": "StoreTrue",
        "--hash": "Store", "-t": "Store", "--threads": "Store"}
ROLE = {"--write-index": "index", "--no-progress": "progress", "--hash": "hash", "--threads": "threads"}

def find(t, pred): return any(pred(x) for x in walk(t))

def options(g):
    """({site of a refer call: role}, {option: action}, undecided)"""
    names = {}; roles = {}; und = []
    for e in g.events():
        if e.kind != "ext" or not e.name.startswith("argparse::"): continue
        m = e.name.split("::")[-1]
        if m not in ("add_option", "add_argument"): continue
        # the innermost `refer` of the call chain
        rs = [x.a[0] for x in walk(e.args[0]) if x.k in ("res", "wk") and "refer" in x.a]
        rs = [s for s in rs if s.k == "site"] or [y for x in walk(e.args[0]) for y in x.a if getattr(y, "k", None) == "site" and x.k in ("res", "wk") and "refer" in x.a]
        if len(set(rs)) != 1: und.append("target of %s" % m); continue
        act = e.args[2]
        act = act.a[0].split("::")[-1] if act.k == "agg" else None
        if act is None: und.append("action of an option"); continue
        if m == "add_argument":
            if act in ("List", "Collect"): roles[rs[0]] = "dirs"
            continue
        lits = [x.a[0].decode("latin1") for x in walk(e.args[1]) if x.k == "bytes"]
        for n in lits:
            names[n] = (act, rs[0])
            if n in ROLE: roles[rs[0]] = ROLE[n]
    return names, roles, und

def role_of(t, roles):
    """role of the option variable whose value t is"""
    if t.k == "post" and t.a[1] == "m1": return roles.get(t.a[0])
    if t.k == "wk" and t.a[0] == "post" and t.a[2] == "m1": return roles.get(t.a[1])
    return None

def exact(t, role, roles):
    """True: the option's value itself (or its payload); False: something else; None: not known"""
    x = t
    while x.k in ("fld", "deref") or x.k == "cast": x = x.a[0] if x.k != "cast" else x.a[1]
    if role_of(x, roles) == role: return True
    if not any(role_of(y, roles) == role for y in walk(t)): return False if not find(t, lambda y: y.k in ("phi", "res", "post")) else None
    return False if find(t, lambda y: y.k in ("p", "res") and any(isinstance(n, str) and n.split("::")[-1] in ALTER for n in y.a)) else None
ALTER = ("with_extension", "with_file_name", "join", "parent", "file_name", "strip_prefix", "components", "canonicalize")

def run(g, pid):
    prog = g.eng.p; v = {}
    names, roles, und = options(g); und = set(und)
    thr = prog is not None and any("threaded_writer" in b.path for b in prog.bodies.values())
    for n, act in WANT.items():
        if n not in names: v["option/%s" % n] = ("the tool has no option %s" % n, [])
        elif names[n][0] != act: v["option/%s" % n] = ("option %s has the action %s, not %s" % (n, names[n][0], act), [])
    for a, b in (("-o", "--write-index"), ("-q", "--no-progress"), ("--progress", "--no-progress"), ("-t", "--threads")):
        if a in names and b in names and names[a][1] is not names[b][1]: v["option/%s target" % a] = ("options %s and %s set different variables" % (a, b), [])
    if "dirs" not in roles.values(): und.add("directory argument")
    def has(t, r): return find(t, lambda x: role_of(x, roles) == r)
    ix = units.cfg_fields(prog)
    keep = lambda e: (e.kind == "ext" and (e.name in (SCAN, "std::fs::File::create", "std::process::exit") or e.name.endswith(("parse_args", "io::_eprint"))) or e.kind == "sink" or e.kind in ("br", "stderr", "log")
                      or e.kind == "next" and has(e.args[0], "dirs") or e.kind == "coll" and e.name in ("push", "push_back", "insert"))
    f = g.filtered(keep)
    def learn(e, role, cur):
        """value of a boolean option variable / presence of an optional one that a branch establishes"""
        for t, x in e.facts.items():
            if not has(t, role): continue
            vs = {y for y in walk(t) if role_of(y, roles) == role}
            ds = {y for y in walk(t) if y.k == "disc" and role_of(y.a[0], roles) == role}
            ok = []
            for c in (0, 1):
                env = {y: c for y in (ds or vs)}
                h = evalt.holds(t, x, env)
                if h is None: ok = None; break
                ok.append(h)
            if ok == [True, False]: cur = 0
            elif ok == [False, True]: cur = 1
        return cur
    # state: progress, index present, directory being added, iteration ended, scan result term, scan ok?, message printed, file created
    TV = (0, 1, 2, 3, 7, 40)
    indexed = not any(e.kind == "next" for e in f.events()) and any(find(t, lambda y: y.k == "op" and y.a[0] in ("Lt", "Le") and y.a[1].k != "int" and y.a[2].k == "len" and has(y.a[2], "dirs")) for e in f.events() if e.kind == "br" for t in e.facts)
    if indexed: und.add("directories looked at by index")
    init = (None, None, None, False, None, None, False, TV)
    seen = []
    prefixes = set()
    def step(s, e):
        pg, ixp, cur, done, res, okk, printed, tv = s
        if e.kind == "br":
            pg = learn(e, "progress", pg); ixp = learn(e, "index", ixp)
            for t, x in e.facts.items():
                if has(t, "threads"): tv = tuple(c for c in tv if evalt.holds(t, x, {y: c for y in walk(t) if role_of(y, roles) == "threads"}) is not False)
                if find(t, lambda y: y.k == "agg" and y.a[0] == "log::Level" and y.a[1] == 0): printed = True
                if res is not None and t.k == "disc" and t.a[0] is res and x in (0, 1): okk = x == 0
                if res is not None and t.k == "ne" and t.a[0].k == "disc" and t.a[0].a[0] is res: okk = 0 not in x and okk or (False if 0 in x else True if 1 in x else okk)
            return (pg, ixp, cur, done, res, okk, printed, tv)
        if e.kind == "sink":
            return Viol("stdout", "the tool writes text other than the index to standard output", e) if res is None and ixp != 1 else s
        if e.kind == "stderr" or e.kind == "ext" and e.name.endswith("_eprint"): return (pg, ixp, cur, done, res, okk, True, tv) if okk is False or res is None else s
        if e.kind == "log": return s
        if e.kind == "next":
            if cur is not None: return Viol("directory skipped", "a directory given on the command line is not added to the configuration", e)
            if e.info == "none" or e.res is None: return (pg, ixp, None, True, res, okk, printed, tv)
            return (pg, ixp, e.res, False, res, okk, printed, tv)
        if e.kind == "coll":
            x = e.args[1] if len(e.args) > 1 else None
            if x is None or x.k != "agg" or len(x.a[2]) != 2: return s
            p, q = x.a[2]
            if not has(p, "dirs") and find(p, lambda y: y.k in ("res", "post") or y.k == "wk" and y.a[0] in ("res", "post")):
                und.add("path of a configured directory"); return (pg, ixp, None, done, res, okk, printed, tv)
            if not has(p, "dirs"): return Viol("directory/path", "a configured directory is not one given on the command line: %s" % show(p, 5)[:80], e)
            prefixes.add(q)
            if cur is not None and not find(p, lambda y: y is cur): return Viol("directory/other", "the directory added is not the one being looked at", e)
            return (pg, ixp, None, done, res, okk, printed, tv)
        n = e.name
        if n.endswith("File::create"):
            x = exact(e.args[0], "index", roles)
            if x is None: und.add("name of the file created")
            if x is False: return Viol("file/path", "the tool creates a file that is not the one named by --write-index", e)
            return s
        if n.endswith("parse_args"): return s
        if n == SCAN:
            seen.append(e)
            c = e.args[0]
            if res is not None: return Viol("scan/twice", "the scan is run twice on one path", e)
            if cur is not None: return Viol("directory skipped", "a directory given on the command line is not added to the configuration", e)
            if not done and not indexed: return Viol("directories", "the scan starts before all directories given on the command line were added", e)
            if c.k != "agg": und.add("configuration passed to scan"); return (pg, ixp, cur, done, e.res, None, False, tv)
            fs = c.a[2]
            h = fs[ix["hash"]]
            if role_of(h, roles) != "hash" and not has(h, "hash"):
                return Viol("hash", "the scan is not given the hash chosen with --hash but %s" % show(h, 4)[:60], e)
            t = fs[ix["threads"]]
            if thr:
                var = next((x for x in walk(t) if role_of(x, roles) == "threads"), None)
                for n_ in tv:
                    z = evalt.num(t, {x: n_ for x in walk(t) if role_of(x, roles) == "threads"})
                    if z is None:
                        if var is None and not find(t, lambda x: x.k == "phi" or x.k == "wk" and x.a[0] == "phi"): return Viol("threads", "the number of threads given is not passed to the scan", e)
                        und.add("number of threads"); break
                    if max(z, 1) != max(n_ + 1, 1): return Viol("threads", "with --threads %d the scan is configured with %d, not %d, threads" % (n_, z, n_ + 1), e)
            b = fs[ix["print_progress"]]
            for c_ in (0, 1):
                if pg is not None and pg != c_: continue
                env = {x: c_ for x in walk(b) if role_of(x, roles) == "progress"}
                z = evalt.num(b, env)
                if z is None: und.add("progress flag")
                elif bool(z) != bool(c_): return Viol("progress", "progress is %s although the option says %s" % ("on" if z else "off", "on" if c_ else "off"), e)
            o = e.args[1] if len(e.args) > 1 else None
            if o is not None:
                file = find(o, lambda y: y.k in ("res", "wk") and "create" in y.a); out = find(o, lambda y: y.k == "p" and y.a[0] == "stdout")
                if not file and not out: und.add("destination of the scan")
                elif file and ixp == 0 or out and not file and ixp == 1 or ixp is None: return Viol("destination", "the index does not go where --write-index says", e)
            return (pg, ixp, cur, done, e.res, None, False, tv)
        if n == "std::process::exit": return finish(s, e.args[0], e)
        return s
    def finish(s, val, e=None):
        pg, ixp, cur, done, res, okk, printed, tv = s
        z = evalt.num(val, {}) if val is not None else None
        if z is None:
            if val is not None and find(val, lambda y: y.k in ("res", "wk") and "parse_args" in y.a):
                return s if res is None else Viol("status/argparse", "the exit status after a scan is that of the argument parser", e)
            und.add("exit status"); return s
        if z & 0xff == 0:
            if res is None: return Viol("status/no scan", "the tool exits with status 0 without having scanned", e)
            if okk is not True: return Viol("status/ignored", "the tool exits with status 0 although the scan did not return success", e)
        else:
            if okk is True: return Viol("status/success", "the tool exits with a failure status after a successful scan", e)
            if not printed: return Viol("message", "the tool fails without printing an error", e)
        return s
    def end(s, kind, val):
        if kind == "return":
            r = finish(s, val)
            return r if isinstance(r, Viol) else None
    out, n, full = f.run(init, step, end)
    v.update(out)
    if not seen: und.add("no call of scan found")
    meta = [x.a[0] for e in g.events() if e.kind == "ext" and e.name.endswith("add_argument") for x in e.args[1:2] if x.k == "bytes"]
    if prefixes and all(p.k == "bytes" for p in prefixes) and any(b"PREFIX" in m for m in meta):
        v["prefix never split"] = ("`PREFIX:DIR` arguments are never split: the whole argument is used as the directory, the prefix is always %s" % b", ".join(sorted(p.a[0] for p in prefixes)).decode("latin1"), [])
    return v, n, full, "; ".join(sorted(und)) or None

def main(g, pid):
    """the process ends with the status run() returned"""
    v = {}; und = set()
    def step(s, e):
        if e.kind == "ext" and e.name == "run": return e.res
        if e.kind == "ext" and e.name == "std::process::exit":
            if s is None: return Viol("main/early", "main exits without running the tool", e)
            if e.args[0] is not s: return Viol("main/status", "the process does not exit with the status of the run but with %s" % show(e.args[0], 4)[:60], e)
            return "done"
        return s
    def end(s, kind, val):
        if kind == "return" and s != "done":
            if s is not None and val is not None and find(val, lambda y: y is s): return None
            return Viol("main/return", "main returns without reporting the status of the run", None)
    f = g.filtered(lambda e: e.kind == "ext")
    out, n, full = f.run(None, step, end)
    return out, n, full

def created(g, pid):
    """C12: the tool creates only the file of its index option"""
    names, roles, und = options(g); v = {}; n = 0
    for e in g.events():
        if e.kind == "ext" and e.name.endswith(("File::create", "File::create_new", "OpenOptions::open", "fs::write")):
            n += 1
            x = exact(e.args[0], "index", roles)
            if x is None: und.append("name of the file created")
            if x is False: v["created/%s" % e.name.split("::")[-1]] = ("the tool creates a file that is not the one named by --write-index: %s" % show(e.args[0], 5)[:80], [graph.describe(e)])
    return v, n, True, "; ".join(sorted(set(und))) or None
