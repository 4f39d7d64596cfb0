"""plant.py ID PROPERTY: reads an edit script on stdin:
   file: <path>  then  <<<< old ==== new >>>>  blocks, then 'demo:' followed by main.rs; 'needs:' and 'breaks:' lines first.
Verifies the planted bug in a scratch copy of /repo and writes seeded/<id>/."""
import sys, re, os, subprocess, json, shutil
pid, prop = sys.argv[1:3]
s = sys.stdin.read()
head, _, demo = s.partition("\ndemo:\n")
needs = re.search(r"^needs: (.*)$", head, re.M).group(1); breaks = re.search(r"^breaks: (.*)$", head, re.M).group(1)
W = "/tmp/plant-" + pid
subprocess.run(["/bin/rm", "-rf", W]); subprocess.check_call(["cp", "-a", "/repo", W])
cur = None
for m in re.finditer(r"^file: (\S+)$|^<<<<\n(.*?)^====\n(.*?)^>>>>$", head, re.M | re.S):
    if m.group(1): cur = W + "/" + m.group(1); continue
    t = open(cur).read()
    assert t.count(m.group(2)) == 1, ("occurrences", t.count(m.group(2)), m.group(2))
    open(cur, "w").write(t.replace(m.group(2), m.group(3)))
patch = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
D = "/verif/seeded/" + pid
os.makedirs(D, exist_ok=True)
open(D + "/patch.diff", "w").write(patch)
BIN = "bin:" in head.split("\n")
open(D + "/demo.sh", "w").write('''#!/bin/bash
# exits 0 when the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/demo/src" "$T/scratch"
cp "$here/main.rs" "$T/demo/src/main.rs"
cp "$repo/Cargo.lock" "$T/demo/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2018"\\n[workspace]\\n[dependencies]\\ndir-signature = { path = "%s" }\\n' "$repo" > "$T/demo/Cargo.toml"
CARGO_TARGET_DIR="$T/target" cargo build --offline -q --manifest-path "$T/demo/Cargo.toml" || exit 2
@BIN@cd "$T/scratch" && timeout 120 "$T/target/debug/demo" "$T/scratch" "$T/target/debug/index"
'''.replace("@BIN@", 'CARGO_TARGET_DIR="$T/target" cargo build --offline -q --bin index --manifest-path "$repo/Cargo.toml" || exit 2\n' if BIN else ""))
os.chmod(D + "/demo.sh", 0o755)
open(D + "/main.rs", "w").write(demo)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
def run(cwd):
    r = subprocess.run(["bash", D + "/demo.sh"], cwd=cwd, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]
if "--demo-only" not in sys.argv:
    env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR="/tmp/plant-target")
    for f in ([], ["--no-default-features"]):
        r = subprocess.run(["cargo", "test", "--offline", "-q"] + f, cwd=W, env=env, capture_output=True, text=True)
        if r.returncode: print("TESTS FAIL", (r.stdout + r.stderr)[-1500:]); sys.exit(1)
a = run(W); b = run("/repo")
print("patched:", a[0], a[1][-300:]); print("unpatched:", b[0], b[1][-300:])
print("OK" if a[0] not in (0, 2) and b[0] == 0 else "BAD DEMO")
subprocess.run(["/bin/rm", "-rf", W])
