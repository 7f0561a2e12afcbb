#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and keeps them in /verif/seeded.

plant.py FILE.py [ID..]  FILE.py defines BUGS = [dict(id, property, file, edits=[(old, new)..],
                         demo (Rust main), needs, breaks)]
plant.py catch [ID..]    runs the quick check of each kept bug's property against it (in /repo)
"""
import json, os, re, shutil, subprocess, sys, time

VERIF = "/verif"
SEEDED = VERIF + "/seeded"
COPY = "/tmp/seed-copy"
DEMO_SH = '''#!/bin/bash
# Exit 0 if the library, in the current directory, behaves as the property says.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$here/demo.lock" "$d/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nmagog = { path = "%s" }\\n[workspace]\\n' "$repo" > "$d/Cargo.toml"
cd "$d" || exit 99
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS="-A warnings" CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet || exit 98
timeout 60 "$d/target/debug/demo"
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def fresh():
    if os.path.exists(COPY):
        shutil.rmtree(COPY)
    sh(["cp", "-a", "/repo", COPY])


def tests():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="")
    fp = COPY + "/target/debug/.fingerprint"
    for d in os.listdir(fp):
        if d.startswith("magog-"):
            shutil.rmtree(os.path.join(fp, d))
    p = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"], cwd=COPY, env=env, timeout=600)
    ok = sum(int(x) for x in re.findall(r"(\d+) passed", p.stdout))
    bad = re.findall(r"^test (.*) \.\.\. FAILED", p.stdout, re.M)
    return p.returncode, ok, bad, p.stdout


def lock():
    with open(VERIF + "/harness/Cargo.lock") as f:
        return f.read().replace('"magog-conformance"', '"demo"')


def plant(b):
    d = os.path.join("/tmp/seed-new", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(b["demo"])
    open(d + "/demo.lock", "w").write(lock())
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    sh(["git", "checkout", "--", "."], cwd=COPY)
    p = sh(["bash", d + "/demo.sh"], cwd=COPY)
    if p.returncode != 0:
        return "demo fails on the unchanged tree: " + p.stdout[-800:]
    for e in b["edits"]:
        f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
        path = os.path.join(COPY, f)
        s = open(path).read()
        if s.count(old) != 1:
            return f"{f}: {s.count(old)} matches of {old[:60]!r}"
        open(path, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=COPY, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    rc, ok, bad, out = tests()
    if rc != 0:
        return f"tests: {bad[:6]} " + ("" if bad else out[-1500:])
    p = sh(["bash", d + "/demo.sh"], cwd=COPY)
    if p.returncode == 0:
        return "demo passes with the change"
    if p.returncode in (98, 99):
        return "demo does not build with the change: " + p.stdout[-800:]
    sh(["git", "checkout", "--", "."], cwd=COPY)
    dest = os.path.join(SEEDED, b["id"])
    shutil.rmtree(dest, ignore_errors=True)
    shutil.move(d, dest)
    return None


def catch(ids):
    """Runs the checks against the bugs, in copies of /repo and /verif."""
    base = "/tmp/seed-catch"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    repo, verif = base + "/repo", base + "/verif"
    sh(["cp", "-a", "/repo", repo])
    sh(["cp", "-a", VERIF, verif])
    toml = verif + "/harness/Cargo.toml"
    s = open(toml).read().replace('"/repo', '"' + repo)
    open(toml, "w").write(s)
    for i in ids or sorted(os.listdir(SEEDED)):
        d = os.path.join(SEEDED, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        p = sh(["git", "-C", repo, "apply", d + "/patch.diff"])
        if p.returncode:
            print(i, "does not apply", p.stdout)
            continue
        try:
            t = time.time()
            p = sh([verif + "/check.py", prop], cwd=verif)
        finally:
            sh(["git", "-C", repo, "checkout", "--", "."])
        caught = p.returncode == 1 and f"VIOLATION property={prop}" in p.stdout
        print(f"{i:28} {prop} {'caught' if caught else 'MISSED (exit %d)' % p.returncode} {time.time()-t:.0f} s   "
              + " | ".join(p.stdout.strip().splitlines()[-2:])[:200], flush=True)
    shutil.rmtree(base)


if sys.argv[1] == "catch":
    catch(sys.argv[2:])
else:
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    os.makedirs(SEEDED, exist_ok=True)
    fresh()
    for b in ns["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        r = plant(b)
        print(b["id"], "kept" if r is None else "REJECTED: " + r, flush=True)
    shutil.rmtree(COPY)
