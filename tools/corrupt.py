#!/usr/bin/env python3
"""How sharp the specification is: recorded sessions of the real library are
corrupted, one outcome per session, and validated.  Prints, per operation and kind
of corruption, how many of the corrupted outcomes the specification rejected.

corrupt.py [C01 C02 ...]     (writes only below build/work/corrupt)
"""
import copy, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check

WORK = os.path.join(check.BUILD, "work", "corrupt")
RELATIONAL = {"g.surf", "seg.x", "seg.info", "len.ls", "len.mls", "tot"}
KINDS = ["status", "number", "drop", "repeat", "swap"]


def leaves(x, path=()):
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    else:
        yield path, x


def lists(x, path=()):
    if isinstance(x, list):
        if x:
            yield path, x
        for i, y in enumerate(x):
            yield from lists(y, path + (i,))


def at(x, path):
    for i in path:
        x = x[i]
    return x


def kind_of(x):
    return 0 if not isinstance(x, list) else 1 if not x else [kind_of(x[0])]


def corrupt(ev, kind, r):
    """A corrupted event, or None."""
    ev = copy.deepcopy(ev)
    if kind == "status":
        ev[2], ev[3] = 1, []
        return ev
    out = [ev[3]]
    if kind == "number":
        ls = list(leaves(out))
        if not ls:
            return None
        p, v = r.choice(ls)
        if abs(v) > 900_000_000:
            new = 0
        else:
            new = 1 - v if v in (0, 1) and r.random() < .7 else v + r.choice([-1, 1])
        at(out, p[:-1])[p[-1]] = new
    else:
        ls = [(p, l) for p, l in lists(out[0], (0,)) if len(l) > (1 if kind == "swap" else 0)]
        if not ls:
            return None
        # (only outcomes that the harness could have recorded)
        if ev[0] == "walk":
            ls = [(p, l) for p, l in ls if p[-1] == 3 and len(p) % 2]
        elif ev[0] == "order":
            ls = [(p, l) for p, l in ls if len(p) == 1]
        elif ev[0] in RELATIONAL:
            ls = []
        if not ls:
            return None
        p, l = r.choice(ls)
        i = r.randrange(len(l))
        if kind == "drop":
            del l[i]
        elif kind == "repeat":
            l.insert(i, copy.deepcopy(l[i]))
        else:
            j = r.randrange(len(l))
            if l[i] == l[j] or kind_of(l[i]) != kind_of(l[j]):
                return None
            l[i], l[j] = l[j], l[i]
    ev[3] = out[0]
    return ev


def main():
    os.makedirs(WORK, exist_ok=True)
    check.build()
    r = random.Random(7)
    total = {}
    missed = []
    for prop in sys.argv[1:] or ["C%02d" % i for i in range(1, 26)]:
        trace = os.path.join(WORK, "trace.ndjson")
        check.harness(["gen", prop, "5", "quick", "--out", trace], WORK, 600)
        with open(trace) as f:
            all_ = [json.loads(l) for l in f]
        r.shuffle(all_)
        marks = []
        with open(trace, "w") as f:
            for s in all_[:3000]:
                n = r.randrange(len(s[1]))
                kind = r.choice(KINDS)
                ev = corrupt(s[1][n], kind, r)
                if ev is None:
                    continue
                was = s[1][n]
                s[1][n] = ev
                f.write(json.dumps(s) + "\n")
                marks.append((n + 1, ev[0], kind, was, ev))
        _, _, bad = check.validate(trace, WORK, 900)
        got = {(b[0], b[1]) for b in bad}
        for i, (n, op, kind, was, ev) in enumerate(marks, 1):
            t = total.setdefault((op, kind), [0, 0])
            t[1] += 1
            if (i, n) in got:
                t[0] += 1
                got.discard((i, n))
            else:
                missed.append((op, kind, was, ev))
        if got:
            print(f"{prop}: rejected events that were not corrupted: {sorted(got)[:5]}")
        print(prop, len(marks), flush=True)
    for (op, kind), (a, b) in sorted(total.items()):
        print(f"{op:12} {kind:8} rejected {a:5} of {b:5}")
    for m in missed[:400:10]:
        print(m[0], m[1], "in", json.dumps(m[2][1])[:150], "was", json.dumps(m[2][3])[:100], "now", json.dumps(m[3][3])[:100])


main()
