"""C22: the port mapper and the RPC clients"""
import json
import os
import random

from . import p_vxi
from .core import SPEC, harness
from .p_lock import crashed, incomplete

D = os.path.join(SPEC, "rpc")


def r(name):
    return os.path.join(D, name)


def classify(t, at):
    return {"C22"}


def c22(run):
    for m in run.pick(["MCRpcQ"], ["MCRpcQ", "MCRpc", "MCRpcK"]):
        run.model(r("MCRpc.tla"), r(m + ".cfg"), workers=8, timeout=850,
                  what="port mapper client and a peer which may reply anything at any time, instance '%s'" % m)
    run.model(r("MCRpc.tla"), r("MCRpcBad.cfg"), workers=4, timeout=850, expect="OwnReply", what="mutant: any reply will do")
    # Behaviours of the model, replayed against the clients
    rng = random.Random(run.seed)
    lines = []
    for kind, per in run.pick([("GenRpcQ", 400), ("GenRpcReg", 120)], [("GenRpcQ", 2000), ("GenRpc", 8000), ("GenRpcReg", 2000)]):
        g = run.graph(r("MCRpc.tla"), r(kind + ".cfg"))
        ws = g.walks(maxlen=40, rng=rng, limit=per) + g.random_walks(per // 4, 40, rng)
        run.extra.setdefault("graphs", {})[kind] = {"edges": g.edges, "covered": g.covered, "walks": len(ws)}
        lines += ws
    f = run.path("seqs")
    with open(f, "w") as o:
        for x in lines:
            o.write(json.dumps(x) + "\n")
    for label, want, kw in [("rpc-walks", len(lines), {"seqs": f}), ("rpc", run.pick(500, 8000), {"len": run.pick(12, 20)})]:
        if "seqs" not in kw:
            kw["n"] = want
        tr, s = harness(run, "rpcc", run.path(label + ".ndjson"), seed=run.seed, **kw)
        if incomplete(s, tr, want):
            crashed(run, label, tr, s)
        run.validate(r("RpcTrace.tla"), r("RpcTrace.cfg"), tr, label, classify, shards=8)
    # The port mapper server
    p_vxi.trace(run, "vxi", run.pick(200, 3000), n=run.pick(200, 3000), prof="pm", len=run.pick(25, 35))


CHECKS = {"C22": c22}
