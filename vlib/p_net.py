"""C25, C26: several servers, several clients, over real sockets"""
import json
import os
import random

from .core import SPEC, harness
from .p_lock import crashed, incomplete

D = os.path.join(SPEC, "serve")
PROTOS = ["raw", "unix", "tel", "core", "abort", "pm", "his"]


def f(name):
    return os.path.join(D, name)


def classify(t, at):
    return {"C26"}


def trace(run, label, want, **kw):
    tr, s = harness(run, "net", run.path(label + ".ndjson"), seed=run.seed, **kw)
    if incomplete(s, tr, want):
        crashed(run, label, tr, s)
    run.validate(f("ServeTrace.tla"), f("ServeTrace.cfg"), tr, label, classify, shards=8)


def c26(run):
    for m in run.pick(["MCServeQ", "MCServeLiveQ"], ["MCServeQ", "MCServeLiveQ", "MCServe", "MCServeLive"]):
        run.model(f("MCServe.tla"), f(m + ".cfg"), workers=8, timeout=850,
                  what="every sequence of connects, requests, faults and departures, instance '%s'" % m)
    for m, prop in [("More", "AtMost"), ("Any", "Order"), ("Leak", "Served"), ("Dies", "Served")]:
        run.model(f("MCServe.tla"), f("MCServeBad%s.cfg" % m), workers=8, timeout=850, expect=prop, what="mutant " + m)
    rng = random.Random(run.seed)
    g = run.graph(f("MCServe.tla"), f("GenServe.cfg"))
    ws = g.walks(maxlen=40, rng=rng) + g.random_walks(run.pick(300, 2000), 30, rng)
    run.extra.setdefault("graphs", {})["GenServe"] = {"edges": g.edges, "covered": g.covered, "walks": len(ws)}
    lines = []
    for i, w in enumerate(ws):
        for p in run.pick([PROTOS[i % 7], PROTOS[(i // 7 + 1 + i) % 7]], PROTOS):
            for lim in run.pick([1 + i % 2], [1, 2]):
                lines.append({"p": p, "lim": lim, "steps": w})
    p = run.path("seqs")
    with open(p, "w") as o:
        for x in lines:
            o.write(json.dumps(x) + "\n")
    trace(run, "net-walks", len(lines), seqs=p)
    n = run.pick(5600, 80000)
    trace(run, "net", n, n=n, len=run.pick(30, 40))
    n = run.pick(280, 5000)
    trace(run, "net-fd", n, n=n, len=30, fd=1, par=16)


X = os.path.join(SPEC, "cross")


def xf(name):
    return os.path.join(X, name)


def xclassify(t, at):
    return {"C25"}


def xtrace(run, label, want, **kw):
    tr, s = harness(run, "cross", run.path(label + ".ndjson"), seed=run.seed, **kw)
    if incomplete(s, tr, want):
        crashed(run, label, tr, s)
    run.validate(xf("CrossTrace.tla"), xf("CrossTrace.cfg"), tr, label, xclassify, shards=8)


def c25(run):
    for m in run.pick(["RawQ", "KeyQ", "LiveQ"], ["RawQ", "KeyQ", "LiveQ", "Q", "Pair", "PairRaw"]):
        run.model(xf("MCCross.tla"), xf("MCCross%s.cfg" % m), workers=8, timeout=850,
                  what="every history of a few requests of clients of several protocols, instance '%s'" % m)
    for m, prop in [("Any", "Excluded"), ("Again", "Truth"), ("Keeps", "Sane")]:
        run.model(xf("MCCross.tla"), xf("MCCrossBad%s.cfg" % m), workers=8, timeout=850, expect=prop, what="mutant " + m)
    rng = random.Random(run.seed)
    lines = []
    for gen, kinds in run.pick([("Q", ["raw", "vxi", "his"]), ("Tel", ["tel", "his"])],
                               [("Q", ["raw", "vxi", "his"]), ("Q", ["tel", "vxi", "his"]), ("Tel", ["tel", "his"]),
                                ("4", ["raw", "vxi", "his", "his"])]):
        g = run.graph(xf("MCCross.tla"), xf("GenCross%s.cfg" % gen))
        ws = g.walks(maxlen=40, rng=rng, limit=8000) + g.random_walks(run.pick(200, 2000), 25, rng)
        run.extra.setdefault("graphs", {})[gen] = {"edges": g.edges, "covered": g.covered, "walks": len(ws)}
        lines += [{"kinds": kinds, "steps": w} for w in ws]
    p = run.path("seqs")
    with open(p, "w") as o:
        for x in lines:
            o.write(json.dumps(x) + "\n")
    xtrace(run, "cross-walks", len(lines), seqs=p)
    n = run.pick(2000, 12000)
    xtrace(run, "cross", n, n=n, len=run.pick(30, 40))


CHECKS = {"C25": c25, "C26": c26}
