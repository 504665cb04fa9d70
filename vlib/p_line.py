"""C23, C24: the line oriented servers"""
import json
import os
import random

from .core import SPEC, harness
from .p_lock import crashed, incomplete

D = os.path.join(SPEC, "line")
OWN = {True: "C24", False: "C23"}


def f(name):
    return os.path.join(D, name)


def classify(t, at):
    kinds = {i + 1: c["tel"] for i, c in enumerate(t["cfg"])}
    own = {OWN[k] for k in kinds.values()}
    ev = t["ev"]
    if at > len(ev):
        return own
    e = ev[at - 1]
    locky = any(x["e"] in ("xacq", "hold") for x in ev[:at - 1])
    s = {OWN[kinds[e["c"]]]} if e.get("c") in kinds else own
    if e["e"] in ("quiet", "spin", "panic", "busy"):
        s |= {"C26"}
    if locky and e["e"] in ("exec", "quiet", "xacq", "xrel", "busy"):
        s |= {"C02", "C25"}
    return s


def trace(run, label, want, **kw):
    tr, s = harness(run, "line", run.path(label + ".ndjson"), seed=run.seed, **kw)
    if incomplete(s, tr, want):
        crashed(run, label, tr, s)
    run.validate(f("LineTrace.tla"), f("LineTrace.cfg"), tr, label, classify, shards=8)


def check(run, prof, n, models, gens, per, mutants):
    for m in models:
        run.model(f("MCLine.tla"), f("MCLine%s.cfg" % m), workers=8, timeout=850,
                  what="every stream up to a length, compared with its meaning as a whole; instance '%s'" % m)
    for m, prop in mutants:
        run.model(f("MCLine.tla"), f("MCLineBad%s.cfg" % m), workers=8, timeout=850, expect=prop, what="mutant " + m)
    rng = random.Random(run.seed)
    lines = []
    for kind, tel in gens:
        g = run.graph(f("MCLine.tla"), f("GenLine%s.cfg" % kind))
        ws = g.walks(maxlen=60, rng=rng, limit=per) + g.random_walks(per // 4, 60, rng)
        run.extra.setdefault("graphs", {})[kind] = {"edges": g.edges, "covered": g.covered, "walks": len(ws)}
        lines += [{"cfg": [{"tel": tel, "rt": 10, "wt": 10}], "steps": w} for w in ws]
    p = run.path("seqs")
    with open(p, "w") as o:
        for x in lines:
            o.write(json.dumps(x) + "\n")
    trace(run, "line-walks", len(lines), seqs=p)
    trace(run, "line", n, n=n, prof=prof, len=run.pick(40, 60))


def c23(run):
    check(run, "raw,raw,raw,mix", run.pick(3000, 60000), run.pick(["RawQ", "BothQ"], ["RawQ", "BothQ", "Raw", "Both"]),
          [("Raw", False), ("Lock", False)], 4000, [])


def c24(run):
    check(run, "tel,tel,tel,mix", run.pick(3000, 60000), run.pick(["TelQ", "NegQ"], ["TelQ", "BothQ", "Tel", "Neg", "Both"]),
          run.pick([("Neg", True), ("TLock", True)], [("Neg", True), ("TLock", True), ("Tel", True)]), 4000,
          [("Pops", "InOrder"), ("Erase", "InOrder"), ("Loop", "NoLoops")])


CHECKS = {"C23": c23, "C24": c24}
