"""The analysed roots and the configurations they are analysed under."""
import core, xio, graph
from terms import *

HASHES = {"sha512/256": 0, "blake2b/256": 1, "blake3/256": 2}

def fld(v, *p):
    for i in p: v = mk("fld", v, None, i)
    return v

def root_args(prog, key):
    b = prog.bodies[key]
    return [mk("param", b.rawlocals[i + 1][1] or "a%d" % i) if len(b.rawlocals[i + 1]) > 1 else mk("param", "a%d" % i) for i in range(b.argc)]

def analyse(prog, root, facts=None, maxnodes=400000, **opts):
    key = prog.root(root)
    opts.setdefault("branch", True); opts.setdefault("calls", True)
    eng = core.Engine(prog, xio.M(), dict(opts, maxnodes=maxnodes))
    eng.run(key, root_args(prog, key), facts)
    g = graph.Graph(eng, root); g.tag = root
    return g

def cfg_fields(prog):
    """{field name: index} of ScannerConfig"""
    for ty in prog.types:
        if ty.get("def") == "dir_signature::ScannerConfig" and ty.get("v"): return {f[0]: i for i, f in enumerate(ty["v"][0]["f"])}
    return {}

def scan(prog, h=None, threaded=None, progress=None, **kw):
    cfg = mk("deref", mk("param", "cfg")); ix = cfg_fields(prog)
    f = {}; threads_ = threaded
    if h is not None: f[mk("disc", fld(cfg, ix["hash"], 0))] = h
    if threaded is not None: f[mk("op", "Lt", I(1), fld(cfg, ix["threads"]))] = threaded
    if kw.pop("noroots", False): f[lenof(fld(cfg, ix["dirs"]))] = 0
    if progress is not None: f[fld(cfg, ix["print_progress"])] = progress
    g = analyse(prog, "r_scan", f, **kw)
    g.tag = "threaded scan" if threaded else "scan"
    g.opt_hash, g.opt_threads, g.opt_progress = h, threads_, progress
    return g
