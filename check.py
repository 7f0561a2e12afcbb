#!/usr/bin/env python3
"""Decides one property: check.py C01 [--tier quick|thorough] [--seed N]

 1. builds the conformance harness against /repo's working tree;
 2. model-checks the design machines of the property (TLC) and replays the
    behaviours they predict on the real library        (specification -> code);
 3. drives the real library, records what it did, and has TLC validate the
    recording against the specification                (code -> specification).

check.py show FILE   executes the sessions of a replay file and says what the
                     specification expects.
Exit 0: the property held; 1: VIOLATION; 2: the check itself failed.
"""
import json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
HARNESS = os.path.join(TARGET, "debug", "magog-conformance")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"

# The design machines that belong to a property: module, what it is to emit, how
# its sessions are bound to the code, and the embeddings they run under.
#   replay: the machine predicts the outcomes, and the code has to produce them
#   record: the code's outcomes are recorded, and TLC validates the recording
BOTH = "64,0,0,0;32,2,0,0"
THREE = BOTH + ";32,-3,-1000,37"
# also far smaller and larger than any absolute tolerance
WIDE = BOTH + ";64,-90,0,0;32,-40,0,0;64,300,0,0;32,45,0,0"
WIDER = WIDE + ";32,-3,-1000,37"
# the smallest and the largest floats there are, where nothing is multiplied
EXTREME = ";64,-1072,0,0;64,990,0,0;32,-147,0,0"
# a negative sign for every other zero
SIGNS = ";65,0,0,0;33,5,0,0"
# and, where that does not matter, coordinates that floats can only approximate
FINE = ";32,1000,0,0;64,1000,0,0;64,1001,17,-40"
# and affine maps: far away, another scale for each axis, shears (see harness/src/emb.rs)
SKEW = ";64,1140,1,-3;32,1110,-1,1;64,525540,0,0;64,20000020,3,4;64,30000011,0,0;32,30000003,0,0"
MODELS = {
    "C01": [("MC_Index", "range", "replay", WIDE + SIGNS + EXTREME)],
    "C02": [("MC_Index", "self", "replay", WIDE + SIGNS + EXTREME)],
    "C03": [("MC_Index", "join", "replay", WIDE + SIGNS + EXTREME)],
    "C04": [("MC_Index", "walk", "record", BOTH)],
    "C05": [("MC_Hilbert", "design", "none", ""), ("MC_Hilbert", "four", "record", BOTH),
            ("MC_Hilbert", "sixteen", "record", BOTH)],
    "C06": [("MC_Envelope", "grow", "replay", WIDE + SIGNS + EXTREME), ("MC_Envelope", "pairs", "replay", WIDE + SIGNS + EXTREME)],
    "C07": [("MC_Segments", "seg", "record", BOTH + FINE + SKEW)],
    "C08": [("MC_Calls", "loc", "replay", WIDER + SKEW)],
    "C09": [("MC_Draw", "valid", "replay", WIDER + SIGNS + FINE + SKEW)],
    "C10": [("MC_MLines", "pairs", "replay", WIDER + SIGNS + FINE + SKEW), ("MC_MLines", "triples", "replay", WIDER + SIGNS + FINE + SKEW)],
    "C11": [("MC_Calls", "points", "replay", WIDE + SIGNS + EXTREME)],
    "C12": [("MC_Rings", "hole", "replay", WIDER + SIGNS + FINE + SKEW), ("MC_Loops", "poly", "replay", WIDER + SIGNS + FINE + SKEW), ("MC_Loops", "pocket", "replay", WIDER + SIGNS + FINE + SKEW)],
    "C13": [("MC_Rings", "island", "replay", WIDER + SIGNS + FINE + SKEW), ("MC_Loops", "multi", "replay", WIDE + SIGNS + FINE + SKEW), ("MC_Loops", "mpocket", "replay", WIDE + SIGNS + FINE + SKEW)],
    "C14": [("MC_Draw", "ends", "replay", WIDER + SIGNS + EXTREME), ("MC_Boundary", "lines", "replay", WIDER + SIGNS + EXTREME),
            ("MC_Boundary", "polys", "replay", WIDER + SIGNS + EXTREME)],
    "C15": [("MC_Hull", "hull", "replay", WIDER + SIGNS + FINE + SKEW)],
    "C16": [("MC_Wkt", "wkt", "replay", "64,0,0,0")],
    "C17": [("MC_Calls", "infos", "replay", WIDE + SIGNS)],
    "C18": [("MC_Linear", "grow", "replay", WIDE + SIGNS + EXTREME), ("MC_Linear", "pairs", "replay", WIDE + SIGNS + EXTREME),
            ("MC_Linear", "lines", "replay", WIDE + SIGNS + EXTREME)],
    "C19": [("MC_Loops", "rep", "replay", WIDE + SIGNS)],
    "C20": [("MC_Calls", "totals", "record", BOTH)],
    "C21": [("MC_Calls", "lengths", "record", BOTH)],
    "C22": [("MC_Calls", "pairs", "replay", WIDE + SIGNS)],
    "C23": [("MC_Calls", "lines", "replay", WIDE + SIGNS)],
    "C24": [("MC_Hull", "surf", "record", BOTH + ";64,-1074,0,0;64,1021,0,0"), ("MC_Hull", "surf4", "record", BOTH), ("MC_Loops", "surf", "record", BOTH + ";64,-1074,0,0")],
    "C25": [("MC_Calls", "converts", "replay", WIDER + SIGNS + EXTREME)],
    "C26": [("MC_Geoms", "geoms", "replay", WIDER + SIGNS)],
}
# Seeds of a run, one after the other.
ROUNDS = {"quick": 1, "thorough": 4}


class ToolError(Exception):
    pass


def note(*a):
    print(*a, flush=True)


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTFLAGS="-A warnings", CARGO_NET_OFFLINE="true",
               RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    fp = os.path.join(TARGET, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("magog-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    p = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("the harness does not build:\n" + p.stdout[-3000:])


def tlc(module, cfg, work, env, timeout, workers=8):
    """Returns (distinct states, states generated, log)."""
    meta = os.path.join(work, "meta-" + module)
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-Xss512m", "-Xmx14g", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-deadlock", "-config", cfg, module + ".tla"]
    e = dict(os.environ, **env)
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC took more than {timeout} s for {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(work, module + ".log"), "w") as f:
        f.write(p.stdout)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", p.stdout)
    if p.returncode != 0 or not m:
        raise ToolError(f"TLC failed on {module} (exit {p.returncode}):\n" + p.stdout[-4000:])
    return int(m.group(2)), int(m.group(1)), p.stdout


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def harness(args, work, timeout):
    """Returns (stdout, None), or (stdout, session during which it ended)."""
    env = dict(os.environ, RUST_BACKTRACE="0")
    begin = os.path.join(work, "begin")

    def go(extra):
        try:
            return subprocess.run([HARNESS] + args + extra + ["--patience", "90"], cwd=work, env=env, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout,
                                  preexec_fn=limits)
        except subprocess.TimeoutExpired:
            raise ToolError("the harness took more than %d s" % timeout)

    p = go([])
    if p.returncode == 0:
        return p.stdout, None
    m = re.search(r"^HANG (.*)$", p.stdout, re.M)
    if m:
        return p.stdout, ("does not return", json.loads(m.group(1)))
    if p.returncode < 0:
        # ended by a signal (stack, memory): find the session
        if os.path.exists(begin):
            os.remove(begin)
        p = go(["--begin", begin])
        if p.returncode < 0 and os.path.exists(begin):
            with open(begin) as f:
                return p.stdout, ("ends the process (signal %d)" % -p.returncode, json.loads(f.readline()))
    raise ToolError("the harness failed (exit %s):\n%s" % (p.returncode, p.stderr[-3000:]))


def counts(out):
    m = re.search(r"SESSIONS (\d+) EVENTS (\d+)(?: DIFFER (\d+))?", out)
    if not m:
        raise ToolError("the harness printed no counts")
    return int(m.group(1)), int(m.group(2)), int(m.group(3) or 0)


def tla_to_json(text):
    return json.loads(text.replace("<<", "[").replace(">>", "]"))


PART = 40 << 20  # TLC has all values of a recording in memory


def validate(trace, work, timeout):
    """Validate recorded sessions. Returns states, transitions, [(session, event, expected)]."""
    if os.path.getsize(trace) <= PART:
        return validate_part(trace, work, timeout)
    states, events, bad, first, part = 0, 0, [], 0, trace + ".part"
    with open(trace) as f:
        while not bad:
            lines = f.readlines(PART)
            if not lines:
                break
            with open(part, "w") as g:
                g.writelines(lines)
            a, b, c = validate_part(part, work, timeout)
            states, events = states + a, events + b
            bad = [[x[0] + first] + x[1:] for x in c]
            first += len(lines)
    os.remove(part)
    return states, events, bad


def validate_part(trace, work, timeout):
    rejected = os.path.join(work, "rejected")
    if os.path.exists(rejected):
        os.remove(rejected)
    try:
        states, gen, log = tlc("Trace", "Trace.cfg", work, {"TRACE": trace, "REJECTED": rejected}, timeout)
    except ToolError as e:
        # An outcome so strange that the specification has no value for it is rejected as well.
        where = re.findall(r"^/\\ (n|s) = (\d+)$", str(e), re.M)
        if not re.search(r"Attempted to|Overflow", str(e)) or len(where) < 2:
            raise
        last = dict(where)
        return 0, 0, [[int(last["s"]), int(last["n"]) + 1, []]]
    sessions = events = 0
    with open(trace) as f:
        for l in f:
            sessions += 1
            events += len(json.loads(l)[1])
    if states != sessions + events:
        raise ToolError(f"TLC read {states} states of {sessions} sessions with {events} events")
    bad, torn = [], 0
    if os.path.exists(rejected):
        with open(rejected) as f:
            for l in f:
                l = l.strip().strip('"').replace('\\"', '"')
                if l:
                    try:
                        bad.append(tla_to_json(l))
                    except ValueError:
                        torn += 1
    if torn and not bad:
        raise ToolError("TLC rejected events, but its report can not be read")
    return states, events, sorted(bad)


def known(prop):
    """The sessions listed as known findings of the property, and what fails."""
    out = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for l in f:
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                session, end = json.JSONDecoder().raw_decode(m.group(2))
                out.append((session, m.group(2)[end:].strip()))
    return out


def asked(session):
    """A session without its outcomes."""
    return [session[0], [e[:2] for e in session[1]]]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = 0
        self.machines, self.samples, self.ops = [], [], {}
        self.violations = []
        self.known = known(prop)
        self.slow = 3000 if tier == "thorough" else 700

    def violate(self, what, session, at=None, expected=None):
        if any(asked(session) == asked(k) for k, _ in self.known):
            return
        self.violations.append({"what": what, "session": session, "event": at, "expected": expected})

    def sample(self, kind, ev):
        s = json.dumps(ev)
        if len(s) < 600 and len(self.samples) < 12:
            self.samples.append({"source": kind, "event [operation, input, status, output]": ev})

    # -- specification -> code
    def model(self, module, what, mode, embs):
        names = [f"{module}_{what}_{self.tier}.cfg", f"{module}_{self.tier}.cfg", f"{module}_{what}.cfg", f"{module}.cfg"]
        cfg = next(n for n in names if os.path.exists(os.path.join(SPEC, n)))
        emit = os.path.join(self.work, "predicted")
        for f in (emit, emit + ".json"):
            if os.path.exists(f):
                os.remove(f)
        states, gen, log = tlc(module, cfg, self.work, {"EMIT": emit, "WHAT": what}, self.slow)
        self.states += states
        self.transitions += gen
        entry = {"machine": module, "explored": what, "config": cfg, "distinct_states": states,
                 "states_generated": gen}
        self.machines.append(entry)
        if mode == "none":
            return
        if not os.path.exists(emit):
            raise ToolError(f"{module} predicted nothing")
        # (where it checks liveness, TLC takes some steps more than once)
        subprocess.run(["sort", "-u", "-S", "4G", "-o", emit, emit], env=dict(os.environ, LC_ALL="C", TMPDIR=self.work), check=True)
        if mode == "record":
            trace = os.path.join(self.work, "trace.ndjson")
            out, ended = harness(["run", emit, "--embs", embs, "--out", trace], self.work, self.slow)
            if ended:
                return self.violate("a call " + ended[0], ended[1])
            sessions, events, _ = counts(out)
            entry["enumerated_sessions_recorded"] = sessions
            self.accept(trace, f"recorded ({module})", sessions, events)
            return
        diff = os.path.join(self.work, "differ")
        out, ended = harness(["replay", emit, "--embs", embs, "--out", diff], self.work, self.slow)
        if ended:
            return self.violate("a call " + ended[0], ended[1])
        sessions, events, differ = counts(out)
        entry["predicted_sessions_replayed"] = sessions
        entry["predicted_events_replayed"] = events
        self.traces += sessions
        self.events += events
        with open(emit) as f:
            for i, l in enumerate(f):
                if i in (3, 77):
                    self.sample(f"predicted ({module})", tla_to_json(l.strip().strip('"').replace('\\"', '"'))[1][-1])
        if differ:
            with open(diff) as f:
                for l in f:
                    want, got = (json.loads(x) for x in l.split("\t"))
                    for i, (w, g) in enumerate(zip(want[1], got[1])):
                        if w != g:
                            self.violate(f"not what {module} predicts", got, i + 1, [w[3]])
                            break

    # -- code -> specification
    def traces_of(self, seed):
        trace = os.path.join(self.work, "trace.ndjson")
        out, ended = harness(["gen", self.prop, str(seed), self.tier, "--out", trace], self.work, self.slow)
        if ended:
            return self.violate("a call " + ended[0], ended[1])
        sessions, events, _ = counts(out)
        self.accept(trace, "recorded", sessions, events)

    def accept(self, trace, kind, sessions, events):
        states, transitions, bad = validate(trace, self.work, self.slow)
        self.states += states
        self.transitions += transitions
        self.traces += sessions
        self.events += events
        picks = {b[0] for b in bad}
        chosen = {}
        seen = {}
        with open(trace) as f:
            for i, l in enumerate(f, 1):
                s = json.loads(l)
                for e in s[1]:
                    k = e[0]
                    self.ops[k] = self.ops.get(k, 0) + 1
                    seen[k] = seen.get(k, 0) + 1
                    if seen[k] == 2:
                        self.sample(kind, e)
                if i in picks:
                    chosen[i] = s
        for b in bad:
            self.violate("the specification does not allow it", chosen[b[0]], b[1], b[2])

    def findings(self):
        """Report the known findings that are still there."""
        if not self.known:
            return
        src, trace = os.path.join(self.work, "known"), os.path.join(self.work, "trace.ndjson")
        with open(src, "w") as f:
            for s, _ in self.known:
                f.write(json.dumps(s) + "\n")
        out, ended = harness(["run", src, "--out", trace], self.work, self.slow)
        if ended:
            return self.violations.append(
                {"what": "a call " + ended[0], "session": ended[1], "event": None, "expected": None})
        for s in sorted({b[0] for b in validate(trace, self.work, self.slow)[2]}):
            note(f"KNOWN-FINDING: property={self.prop} {self.known[s - 1][1]}: {json.dumps(self.known[s - 1][0])}")

    def run(self):
        t = time.time()
        build()
        self.findings()
        for model in MODELS.get(self.prop, []):
            if not self.violations:
                self.model(*model)
        for i in range(ROUNDS[self.tier]):
            if not self.violations:
                self.traces_of(self.seed + 7919 * i)
        wall = time.time() - t
        self.evidence(wall)
        if self.violations:
            self.report()
            return 1
        note(f"{self.prop}: held in {self.traces} sessions ({self.events} calls), {self.states} states, {wall:.1f} s")
        return 0

    def evidence(self, wall):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        e = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "calls_of_the_library_compared": self.events,
                "machines": self.machines,
                "recorded_calls_by_operation": self.ops,
                "samples": self.samples,
            },
            "assumptions": [
                "Coordinates are integers scaled by powers of two (f32, f64), on which the specification computes exactly.",
                "The harness translates between the specification's values and the library's faithfully.",
            ],
            "wall_s": round(wall, 2), "violations": len(self.violations),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)

    def report(self):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.prop + ".ndjson")
        v = sorted(self.violations, key=lambda v: len(json.dumps(v["session"])))
        with open(path, "w") as f:
            for x in v[:20]:
                f.write(json.dumps(x) + "\n")
        x = v[0]
        if x["event"]:
            e = x["session"][1][x["event"] - 1]
            note(f"embedding {x['session'][0]}, call {x['event']} of its session: {e[0]} {json.dumps(e[1])[:2000]}")
            note("  outcome:  " + ("panic" if e[2] == 1 else json.dumps(e[3])[:2000]))
            if x["expected"]:
                note("  expected: " + json.dumps(x["expected"][0])[:2000])
        else:
            note("session: " + json.dumps(x["session"])[:2000])
        note(f"{len(v)} sessions: {x['what']}")
        note(f"VIOLATION property={self.prop} replay={path}")


def show(path):
    build()
    work = os.path.join(BUILD, "work", "show")
    os.makedirs(work, exist_ok=True)
    src, trace = os.path.join(work, "sessions"), os.path.join(work, "trace")
    with open(path) as f, open(src, "w") as g:
        for l in f:
            s = json.loads(l)
            s = s["session"] if isinstance(s, dict) else s
            g.write(json.dumps([s[0], [e[:2] for e in s[1]]]) + "\n")
    out, ended = harness(["run", src, "--out", trace], work, 300)
    if ended:
        note("a call " + ended[0] + ": " + json.dumps(ended[1]))
        return 1
    _, _, bad = validate(trace, work, 300)
    with open(trace) as f:
        lines = [json.loads(l) for l in f]
    for s, n, want in bad:
        e = lines[s - 1][1][n - 1]
        note(f"session {s}, call {n}: {json.dumps(e)}\n  expected: {json.dumps(want)}")
    note(f"{len(lines)} sessions, {len(bad)} calls rejected")
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a[0] == "show":
        return show(a[1])
    if a[0] == "setup":
        build()
        return 0
    opt = lambda name, other: a[a.index(name) + 1] if name in a else other
    tier = opt("--tier", os.environ.get("VERIF_TIER") or "quick")
    seed = int(opt("--seed", os.environ.get("VERIF_SEED") or "1"))
    return Check(a[0], tier, seed).run()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        note("CHECK FAILED: " + str(e))
        sys.exit(2)
