#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: turns bug specifications into seeded/<id>/ folders and confirms each of them.

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)], demo (main.rs), needs, breaks, and
optionally features. A bug is kept once, in a scratch copy of /repo, its patch builds, passes the stable tests, and its
demo passes without and fails with it. With --check the property's check is then run in /repo with the patch applied.
"""
import json, os, subprocess, sys, shutil, tempfile, textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant/repo"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", DEMO_TARGET="/tmp/plant/demo_target", RUST_BACKTRACE="0")
DEMO = '''#!/bin/bash
# Runs main.rs (beside this file) against the crate in the current directory.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
here="$(cd "$(dirname "$0")" && pwd)"
exec python3 - "$here" "$PWD" <<'PY'
import os, shutil, subprocess, sys, tempfile
here, repo = sys.argv[1:]
with tempfile.TemporaryDirectory() as tmp:
    os.makedirs(tmp + "/src")
    shutil.copy(here + "/main.rs", tmp + "/src/main.rs")
    if os.path.exists(repo + "/Cargo.lock"):
        shutil.copy(repo + "/Cargo.lock", tmp + "/Cargo.lock")
    with open(tmp + "/Cargo.toml", "w") as f:
        f.write('[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2024"\\n[workspace]\\n[dependencies]\\n'
                'node_tree = { path = "%s/node_tree_core"FEATURES }EXTRA\\n[profile.dev]\\ndebug = false\\nincremental = false\\n' % repo)
    target = os.environ.get("DEMO_TARGET", tmp + "/target")
    env = dict(os.environ, CARGO_TARGET_DIR=target)
    build = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=tmp, env=env, stderr=subprocess.PIPE, text=True)
    if build.returncode != 0:
        print("\\n".join(l for l in build.stderr.splitlines() if "error" in l)[:4000])
        sys.exit(1)
    try:
        run = subprocess.run([target + "/debug/demo"], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
        print(run.stdout.decode("utf8", "replace")[-3000:])
        sys.exit(0 if run.returncode == 0 else 1)
    except subprocess.TimeoutExpired:
        print("timed out")
        sys.exit(1)
PY
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def scratch():
    if os.path.isdir(SCRATCH):
        sh(["git", "-C", SCRATCH, "checkout", "-q", "--", "."])
    else:
        os.makedirs("/tmp/plant", exist_ok=True)
        sh(["cp", "-a", "/repo", SCRATCH])
    head = lambda d: sh(["git", "-C", d, "rev-parse", "HEAD"]).stdout
    assert head(SCRATCH) == head("/repo"), "scratch copy out of date"

def demo(folder):
    return sh(["bash", folder + "/demo.sh"], cwd=SCRATCH)

def stable_passes():
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = sh(["timeout", "-k", "5", "150", "cargo", "test", "--workspace", "--locked", "--offline", "--no-fail-fast", "-q"], cwd=SCRATCH)
    return out

def plant(bug, check):
    folder = f"{VERIF}/seeded/{bug['id']}"
    scratch()
    for path, old, new in bug["edits"]:
        full = f"{SCRATCH}/{path}"
        text = open(full).read()
        if text.count(old) != 1:
            return f"edit matches {text.count(old)} times in {path}: {old[:60]!r}"
        open(full, "w").write(text.replace(old, new))
    diff = sh(["git", "-C", SCRATCH, "diff"]).stdout
    sh(["git", "-C", SCRATCH, "checkout", "-q", "--", "."])
    tmp = f"/tmp/plant/new/{bug['id']}"
    os.makedirs(tmp, exist_ok=True)
    open(tmp + "/patch.diff", "w").write(diff)
    feat = bug.get("features")
    open(tmp + "/demo.sh", "w").write(DEMO.replace("FEATURES", ', features = ["%s"]' % feat if feat else "").replace("EXTRA", "\\nglam = \"0.29\"" if feat == "glam" else ""))
    rig = open("/tmp/plant/rig.rs").read() if bug.get("rig", True) else ""
    open(tmp + "/main.rs", "w").write(rig + textwrap.dedent(bug["demo"]))
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(tmp + "/meta.json", "w"), indent=2)
    r = demo(tmp)
    if r.returncode != 0:
        return "demo fails on the unchanged tree:\n" + r.stdout[-3500:]
    a = sh(["git", "-C", SCRATCH, "apply", tmp + "/patch.diff"])
    if a.returncode != 0:
        return "patch does not apply: " + a.stdout
    r = demo(tmp)
    if r.returncode == 0:
        return "demo passes with the patch:\n" + r.stdout[-1500:]
    if "error" in r.stdout and "could not compile" in r.stdout and not bug.get("compile"):
        return "patched tree does not compile:\n" + r.stdout[-3000:]
    t = stable_passes()
    if t.returncode != 0:
        bad = [l for l in t.stdout.splitlines() if "FAILED" in l or "panicked" in l or l.startswith("error")]
        return "tests fail with the patch:\n" + "\n".join(bad[:12])
    b = sh(["cargo", "build", "--workspace", "--all-features", "--locked", "--offline"], cwd=SCRATCH)
    if b.returncode != 0:
        return "all-features build fails"
    failing = [l for l in r.stdout.splitlines() if "panicked" in l or "assert" in l or "left" in l or "right" in l][-4:]
    os.makedirs(folder, exist_ok=True)
    for f in os.listdir(tmp):
        shutil.copy(f"{tmp}/{f}", f"{folder}/{f}")
    msg = "kept (demo: " + " / ".join(failing)[:200] + ")"
    return msg

def run_check(bug):
    folder = f"{VERIF}/seeded/{bug['id']}"
    assert not sh(["git", "-C", "/repo", "status", "--short"]).stdout.strip()
    a = sh(["git", "-C", "/repo", "apply", folder + "/patch.diff"])
    assert a.returncode == 0, a.stdout
    try:
        r = sh([VERIF + "/check.sh", bug["property"]], cwd=VERIF)
    finally:
        sh(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    caught = r.returncode == 1 and f"VIOLATION property={bug['property']} " in r.stdout
    return ("CAUGHT" if caught else f"MISSED (exit {r.returncode})\n" + r.stdout[-1500:])

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ns = {}
    exec(open(args[0]).read(), ns)
    for bug in ns["BUGS"]:
        if args[1:] and bug["id"] not in args[1:]:
            continue
        if "--checkonly" not in sys.argv:
            res = plant(bug, False)
            print(f"{bug['id']}: {res}", flush=True)
            if not res.startswith("kept"):
                continue
        if "--check" in sys.argv or "--checkonly" in sys.argv:
            print(f"{bug['id']}: {run_check(bug)}", flush=True)
    if os.path.isdir(SCRATCH):
        sh(["git", "-C", SCRATCH, "checkout", "-q", "--", "."])
