#!/usr/bin/env python3
"""Mechanical mutants of /repo, in scratch copies below /tmp/mut.

mutate.py survive [N]   which mutants compile and pass the existing tests (N workers)
mutate.py catch [N]     runs the checks of the properties a file belongs to on them
"""
import json, os, queue, re, shutil, subprocess, sys, threading

DIR = "/tmp/mut"
FILES = {
    "src/flatbush/hilbert.rs": "C05 C01",
    "src/flatbush/mod.rs": "C01 C02 C03 C04 C05 C23",
    "src/linear/primitives/envelope.rs": "C18", "src/linear/primitives/position.rs": "C22 C18",
    "src/linear/primitives/segment.rs": "C18", "src/linear/types/line.rs": "C18",
    "src/linear/types/multiline.rs": "C18", "src/linear/types/multipoint.rs": "C18", "src/linear/types/point.rs": "C18",
    "src/planar/algorithms/convex_hull.rs": "C15",
    "src/planar/algorithms/loop_relation.rs": "C12 C13 C19 C20",
    "src/planar/primitives/envelope.rs": "C06 C01 C17", "src/planar/primitives/mod.rs": "C06 C08 C07",
    "src/planar/primitives/position.rs": "C22 C11 C25", "src/planar/primitives/segment.rs": "C07 C08 C21 C22 C09 C23 C25",
    "src/planar/primitives/triangle.rs": "C08 C25",
    "src/planar/types/empty.rs": "C17 C14", "src/planar/types/geometry.rs": "C17 C14 C25",
    "src/planar/types/line_string.rs": "C23 C21 C14 C09 C25 C17", "src/planar/types/multi_line_string.rs": "C10 C14 C21 C23 C17 C25",
    "src/planar/types/multi_point.rs": "C11 C17 C25", "src/planar/types/multi_polygon.rs": "C13 C14 C24 C17 C25",
    "src/planar/types/point.rs": "C17 C25 C11", "src/planar/types/polygon.rs": "C12 C24 C14 C17 C15 C25",
    "src/planar/validation/line_string.rs": "C09 C20 C19", "src/planar/validation/multi_line_string.rs": "C10 C20 C19",
    "src/planar/validation/multi_point.rs": "C11 C20", "src/planar/validation/multi_polygon.rs": "C13 C20 C19",
    "src/planar/validation/point.rs": "C20 C22 C17", "src/planar/validation/polygon.rs": "C12 C20 C19 C13",
    "src/serde/wkt.rs": "C16", "src/coordinate.rs": "C22",
}
SWAPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
         (" < ", " > "), (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" * ", " + "), (" / ", " * "),
         (" % ", " / "), ("true", "false"), ("false", "true"), (".min(", ".max("), (".max(", ".min("), ("min_", "max_"),
         ("Left", "Right"), ("Right", "Left"), ("start", "end"), ("end", "start"), ("first()", "last()"),
         ("last()", "first()"), (".any(", ".all("), (".all(", ".any("), ("..=", ".."), ("..", "..="), ("continue", "break"),
         ("break", "continue"), ("is_some", "is_none"), ("is_none", "is_some"), ("is_ok()", "is_err()"), (">> ", "<< "),
         ("<< ", ">> "), (" & ", " | "), (" | ", " & "), (" ^ ", " | "), (".x", ".y"), (".y", ".x"), ("+=", "-="), ("-=", "+="),
         ("Some(", "None.or(Some("), (".rev()", ""), ("?;", ";"), ("abs()", "neg()"), ("Inside", "Outside"),
         ("Contains", "Within"), ("Disjoint", "Crosses"), (".0", ".1"), (".1", ".0"), ("floor", "ceil"), ("-", ""), ("!", ""),
         ("push(", "len(); ("), ("is_finite()", "is_nan()"), ("_a", "_b"), ("_b", "_a"), ("lhs", "rhs"), ("rhs", "lhs"), ("p1", "p2"), ("p2", "p1")]
NUMBER = re.compile(r"(?<![\w.])(\d+)(?![\w.])")


def mutants():
    out = []
    for f in FILES:
        lines = open("/repo/" + f).read().split("\n")
        stop = next((i for i, l in enumerate(lines) if l.strip() == "#[cfg(test)]"), len(lines))
        for i in range(stop):
            l = lines[i]
            code = l.split("//")[0]
            t = code.strip()
            if not t or t.startswith(("use ", "pub use", "#", "pub mod", "mod ", "impl", "pub trait", "trait", "type ")):
                continue
            new = set()
            for a, b in SWAPS:
                for m in re.finditer(re.escape(a), code):
                    if a[0].isalpha() and m.start() and (code[m.start() - 1].isalnum()):
                        continue
                    new.add(l[:m.start()] + b + l[m.end():])
            for m in NUMBER.finditer(code):
                n = int(m.group(1))
                for k in {n + 1, max(n - 1, 0)} - {n}:
                    new.add(l[:m.start()] + str(k) + l[m.end():])
            if t.startswith("if ") and t.endswith("{") and " let " not in t:
                c = re.match(r"(\s*)if (.*) \{$", code.rstrip())
                if c:
                    new |= {f"{c[1]}if true || ({c[2]}) {{", f"{c[1]}if false && ({c[2]}) {{"}
            if t.endswith(";") and not t.startswith(("let ", "pub ", "type", "}", ")")):
                new.add("")
            if t.startswith("return ") and t.endswith(";"):
                new.add("")
            for n in sorted(new - {l}):
                out.append((f, i, n))
    return out


ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", RUSTFLAGS="-A warnings",
           CARGO_PROFILE_DEV_DEBUG="none", CARGO_INCREMENTAL="1", CARGO_BUILD_JOBS="2")


def sh(cmd, cwd, timeout, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def apply(repo, m):
    p = os.path.join(repo, m[0])
    lines = open("/repo/" + m[0]).read().split("\n")
    lines[m[1]] = m[2]
    open(p, "w").write("\n".join(lines))


def restore(repo, m):
    shutil.copyfile("/repo/" + m[0], os.path.join(repo, m[0]))
    os.utime(os.path.join(repo, m[0]))


def pool(n, work, items):
    q = queue.Queue()
    for x in items:
        q.put(x)

    def go(k):
        while True:
            try:
                x = q.get_nowait()
            except queue.Empty:
                return
            work(k, x)
    ts = [threading.Thread(target=go, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def survive(n):
    all_ = mutants()
    print(len(all_), "mutants", flush=True)
    repos = []
    for k in range(n):
        r = f"{DIR}/s{k}"
        shutil.rmtree(r, ignore_errors=True)
        sh(["cp", "-a", "/repo", r], "/", 60)
        repos.append(r)
    count = {"fails to build": 0, "killed": 0, "survives": 0}
    out = open(DIR + "/survivors.ndjson", "w")
    lock = threading.Lock()

    def work(k, m):
        apply(repos[k], m)
        rc, log = sh(["cargo", "test", "--offline", "--no-run"], repos[k], 300)
        if rc:
            what = "fails to build"
        else:
            rc, log = sh(["cargo", "test", "--offline"], repos[k], 60)
            what = "killed" if rc else "survives"
        restore(repos[k], m)
        with lock:
            count[what] += 1
            if what == "survives":
                out.write(json.dumps(m) + "\n")
                out.flush()
            if sum(count.values()) % 100 == 0:
                print(count, flush=True)
    pool(n, work, all_)
    print(count)


def catch(n, path):
    ms = [json.loads(l) for l in open(path)]
    done = {}
    if os.path.exists(DIR + "/caught.ndjson"):
        for l in open(DIR + "/caught.ndjson"):
            x = json.loads(l)
            done[json.dumps(x["mutant"])] = x
    out = open(DIR + "/caught.ndjson", "a")
    lock = threading.Lock()
    dirs = []
    for k in range(n):
        d = f"{DIR}/c{k}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh(["cp", "-a", "/repo", d + "/repo"], "/", 60)
        sh(["cp", "-a", "/verif", d + "/verif"], "/", 60)
        for f in ("harness/Cargo.toml",):
            s = open(f"{d}/verif/{f}").read().replace("/repo", d + "/repo")
            open(f"{d}/verif/{f}", "w").write(s)
        dirs.append(d)

    def work(k, m):
        if json.dumps(m) in done:
            return
        d = dirs[k]
        apply(d + "/repo", m)
        res = None
        for p in FILES[m[0]].split():
            rc, log = sh([d + "/verif/check.py", p], d + "/verif", 900, dict(os.environ))
            if rc == 1 and "VIOLATION property=" in log:
                res = p
                break
            if rc != 0:
                res = "exit %d of %s: %s" % (rc, p, log[-600:])
        restore(d + "/repo", m)
        with lock:
            out.write(json.dumps({"mutant": m, "by": res, "was": open("/repo/" + m[0]).read().split("\n")[m[1]]}) + "\n")
            out.flush()
    pool(n, work, ms)


if sys.argv[1] == "survive":
    survive(int((sys.argv[2:] or ["6"])[0]))
elif sys.argv[1] == "catch":
    catch(int((sys.argv[2:] or ["4"])[0]), DIR + "/survivors.ndjson")
else:
    print(len(mutants()))
