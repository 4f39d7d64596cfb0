#!/usr/bin/env python3
"""check.py build            build the MIR extractor
   check.py dump             ... and extract the program
   check.py C01 [--thorough] decide one property on /repo's current tree"""
import sys, os, json, time, hashlib, subprocess, fcntl, shutil, traceback, threading, resource
V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path[:0] = [V + "/engine", V + "/rules"]
B = V + "/build"

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise SystemExit("check.py: build step failed (%s)\n%s" % (" ".join(cmd[:3]), r.stdout[-4000:]))
    return r.stdout

def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        for d, ds, fs in os.walk(p) if os.path.isdir(p) else [(os.path.dirname(p), [], [os.path.basename(p)])]:
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                q = os.path.join(d, f)
                if os.path.isfile(q): h.update(q.encode() + b"\0"); h.update(open(q, "rb").read()); h.update(b"\0")
    return h.hexdigest()

def build_driver():
    os.makedirs(B, exist_ok=True)
    want = digest([V + "/driver"]); st = B + "/mirdump.sum"
    if os.path.exists(B + "/mirdump") and os.path.exists(st) and open(st).read() == want: return
    sh(["rustc", "+nightly", "--edition", "2024", "-O", V + "/driver/main.rs", "-o", B + "/mirdump"])
    open(st, "w").write(want)

def dump_one(threads, err):
    n = "thr" if threads else "seq"
    try:
        out = B + "/dump-" + n; tgt = B + "/target-" + n
        src = digest([REPO + "/src", REPO + "/Cargo.toml", REPO + "/Cargo.lock"])
        want = src + digest([V + "/probe/src", V + "/probe/Cargo.toml", V + "/driver"])
        st = out + ".sum"
        if os.path.exists(st) and open(st).read() == want and os.path.exists(out + "/probe.json"): return
        if os.path.exists(st): os.remove(st)
        # the previous tree's build products are not trusted to look older than the sources
        for fp in (tgt + "/debug/.fingerprint", tgt + "/debug/build"):
            for d in (os.listdir(fp) if os.path.isdir(fp) else ()):
                if d.startswith(("dir-signature", "probe")): shutil.rmtree(os.path.join(fp, d))
        os.makedirs(out, exist_ok=True)
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = sh(["rustc", "+nightly", "--print", "sysroot"]).strip() + "/lib"
        env.update(MIRDUMP_OUT=out, MIRDUMP_CRATES="probe,index", MIRDUMP_DESCEND=V + "/driver/descend.txt", RUSTC_WORKSPACE_WRAPPER=B + "/mirdump",
                   RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on --cap-lints=allow", CARGO_NET_OFFLINE="true")
        cmd = ["cargo", "+nightly", "check", "--offline", "--locked", "--manifest-path", V + "/probe/Cargo.toml", "--target-dir", tgt, "--lib", "--bins"]
        if threads: cmd += ["--features", "threads"]
        sh(cmd, env=env, cwd=V)
        open(st, "w").write(want)
    except BaseException as e: err.append(e)

def dump():
    os.makedirs(B, exist_ok=True)
    with open(B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        err = []
        ts = [threading.Thread(target=dump_one, args=(t, err)) for t in (True, False)]
        for t in ts: t.start()
        for t in ts: t.join()
        if err: raise err[0]

# ------------------------------------------------------------------- running
def run_units(units, jobs=8, budget=600):
    """units: [(name, fn)], each run in a child of its own; yields (name, result | exception text)"""
    import pickle, select
    todo = list(units); live = {}; out = {}
    t0 = time.time()
    while todo or live:
        while todo and len(live) < jobs:
            name, f = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
                    sys.setrecursionlimit(100000)
                    res = ("ok", f())
                except BaseException as e:
                    res = ("fail", "%s: %s" % (type(e).__name__, e) + "\n" + traceback.format_exc()[-1500:])
                with os.fdopen(w, "wb") as fh: pickle.dump(res, fh)
                os._exit(0)
            os.close(w); live[r] = (pid, name, [])
        left = budget - (time.time() - t0)
        rs, _, _ = select.select(list(live), [], [], max(0.0, min(5, left)))
        for r in rs:
            d = os.read(r, 1 << 20)
            if d: live[r][2].append(d); continue
            pid, name, buf = live.pop(r); os.close(r); os.waitpid(pid, 0)
            try: out[name] = pickle.loads(b"".join(buf))
            except Exception: out[name] = ("fail", "analysis process ended without a result")
        if left <= 0:
            for r, (pid, name, _) in live.items():
                os.kill(pid, 9); os.waitpid(pid, 0); os.close(r); out[name] = ("fail", "time budget exhausted")
            for name, _ in todo: out[name] = ("fail", "time budget exhausted")
            return out
    return out

def known(pid):
    out = []
    for l in open(V + "/KNOWN_FINDINGS"):
        l = l.strip()
        if l.startswith("known: property=%s " % pid):
            r = l[len("known: property=%s " % pid):]
            key, _, what = r.partition(" :: ")
            out.append((key.strip(), what.strip()))
    return out

def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    t0 = time.time()
    dump()
    import registry
    P = registry.PROPS[pid]
    ctx = registry.Ctx({"thr": B + "/dump-thr", "seq": B + "/dump-seq"}, tier)
    units = P["units"](ctx, pid)
    res = run_units(units)
    viols = {}; und = {}; cov = {}
    for name, _ in units:
        st, r = res[name]
        if st == "fail": und[name] = r; continue
        cov[name] = r.get("stats", {})
        if r.get("undecided"): und[name] = r["undecided"]
        for k, (msg, wit) in r["viols"].items(): viols.setdefault(k, (msg, wit, []))[2].append(name)
    kn = known(pid); fired = []
    rd = V + "/evidence/replay"; os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(pid + "-"): os.remove(os.path.join(rd, f))
    bad = []
    for k, (msg, wit, us) in sorted(viols.items()):
        for kk, what in kn:
            if kk == k: fired.append(kk); print("KNOWN-FINDING: property=%s %s" % (pid, what)); break
        else: bad.append((k, msg, wit, us))
    for n, (k, msg, wit, us) in enumerate(bad[:20]):
        p = "%s/%s-%d.txt" % (rd, pid, n)
        with open(p, "w") as fh:
            fh.write("property: %s\nkey: %s\nviolation: %s\nfound in: %s\npath through the code (source order of execution):\n" % (pid, k, msg, ", ".join(us)))
            for x in wit: fh.write("  %s\n" % x)
        print("%s: %s" % (k, msg[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    tot = {}
    for s in cov.values():
        for k, v in s.items():
            if isinstance(v, int): tot[k] = tot.get(k, 0) + v
    c = {"explanation": P["explain"], "rule": P["rule"], "units_analysed": len(cov), "units_undecided": len(und)}
    c.update(tot)
    c["per_unit"] = cov
    if und: c["undecided"] = und
    if fired: c["known_findings"] = fired
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P.get("level", "other"), "coverage": c,
          "assumptions": P.get("assume", registry.ASSUME), "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1, default=str)
    print("%s: %s; %d unit(s) analysed, %d undecided, %d violation(s), %d known, %.1fs" % (pid, tier, len(cov), len(und), len(bad), len(fired), time.time() - t0))
    for k, v in und.items(): print("undecided: %s: %s" % (k, str(v).splitlines()[0][:200]))
    sys.exit(1 if bad else 0)

if __name__ == "__main__":
    if len(sys.argv) < 2: raise SystemExit(__doc__)
    if sys.argv[1] == "build": os.makedirs(B, exist_ok=True); build_driver()
    elif sys.argv[1] == "dump": dump()
    else: main()
