"""C15-C22: the VXI-11 server, its RPC layer and the port mapper"""
import json
import os
import random

from .core import SPEC, harness, log
from .p_lock import crashed, incomplete

D = os.path.join(SPEC, "vxi")


def v(name):
    return os.path.join(D, name)


ALL = {"C15", "C16", "C17", "C18", "C19", "C20", "C21"}
#: Properties which promise something about the calls
OPS = {"create": {"C15"}, "destroy": {"C15"}, "write": {"C17"}, "read": {"C17"}, "stb": {"C19"},
       "trig": {"C16"}, "clear": {"C17"}, "rem": {"C16"}, "loc": {"C16"}, "lock": {"C16"}, "unlock": {"C16"},
       "srq": {"C20"}, "ichan": {"C20"}, "dchan": {"C20"}, "docmd": {"C15"}, "abort": {"C18"},
       "getport": {"C22"}, "dump": {"C22"}, "null": {"C21"}, "bad": {"C21"}, "junk": {"C21"}}
ACCESS = {"write", "read", "stb", "trig", "clear", "rem", "loc"}
LINK = ACCESS | {"destroy", "lock", "unlock", "srq", "docmd", "abort"}


def odd(m):
    """Not an ordinary call"""
    return m["op"] in ("bad", "junk") or m["rv"] != 2 or m["cr"] or m["ve"]


def classify(t, at):
    ev = t["ev"]
    if at > len(ev):
        return set(ALL)
    e = ev[at - 1]
    k = e["e"]
    pre = ev[:at - 1]
    if k in ("crash", "panic", "refused"):
        return ALL | {"C22", "C26", "C25"}
    calls = {(x["c"], x["m"]["x"]): x["m"] for x in pre if x["e"] == "call"}
    done = {(x["c"], x["x"]) for x in pre if x["e"] == "reply"}
    ended = {x["c"] for x in pre if x["e"] in ("eof", "gone")}
    kinds = {x["c"]: x["k"] for x in pre if x["e"] == "conn"}
    leaving = any(x["e"] in ("gone", "shut", "eof") for x in pre)
    aborts = any(m["op"] == "abort" for m in calls.values())
    locks = any(m["op"] == "lock" or (m["op"] == "create" and m["b"]) for m in calls.values()) \
        or any(x["e"] in ("xacq", "hold") for x in pre)
    destroyed = any(m["op"] == "destroy" for m in calls.values())
    strange = any(odd(m) for m in calls.values())
    pending = [(c, x) for (c, x) in calls if (c, x) not in done and c not in ended]

    def about(m):
        s = set(OPS.get(m["op"], ALL))
        if m["op"] in ACCESS and locks:
            s |= {"C16"}
        if m["op"] in ("lock", "create") and aborts or m["op"] in ACCESS and aborts:
            s |= {"C18"}
        if m["op"] in LINK and (destroyed or leaving):
            s |= {"C15"}
        if m["op"] in ("create", "destroy") and locks:
            s |= {"C16"}
        if odd(m):
            s |= {"C21"}
        return s

    s = set()
    if k == "reply":
        m = calls.get((e["c"], e["x"]))
        if kinds.get(e["c"]) in ("pmt", "pmu"):
            s |= {"C22"}
        if m is None or (e["c"], e["x"]) in done:
            return s | {"C21"}
        own = [x for (c, x) in calls if c == e["c"] and (c, x) not in done]
        if own and own[0] != e["x"]:
            s |= {"C21"}
        if e["st"] != "ok" or odd(m):
            s |= {"C21"}
        s |= about(m)
        if e["err"] == 4:
            s |= {"C15", "C18"} if m["op"] == "abort" else {"C15"}
        if e["err"] == 23:
            s |= {"C18"}
        if e["err"] in (3, 11):
            s |= {"C16", "C18"}
        if m["op"] in LINK and e["err"] == 0:
            s |= {"C15"}
        return s
    if k in ("eof", "garbage"):
        s |= {"C21"}
        own = [m for (c, x), m in calls.items() if c == e["c"] and (c, x) not in done]
        for m in own[:1]:
            s |= about(m)
        return s | ({"C22"} if kinds.get(e["c"]) in ("pmt", "pmu") else {"C15"})
    if k == "late":
        own = [calls[(c, x)] for (c, x) in pending if c == e.get("c")] or [calls[p] for p in pending]
        for m in own[:2]:
            s |= about(m)
        if any(m["op"] in ACCESS | {"lock", "create"} for m in own[:1]):
            s |= {"C16", "C18"}
        return s | {"C21", "C15"}
    if k in ("exec", "trig", "clear", "rem", "stb", "llo"):
        s |= {"exec": {"C17"}, "trig": {"C16"}, "clear": {"C17"}, "rem": {"C16"}, "stb": {"C19"}}.get(k, {"C16"})
        if locks or leaving or destroyed:
            s |= {"C16", "C15"}
        if aborts:
            s |= {"C18"}
        if strange:
            s |= {"C21"}
        return s
    if k in ("intr", "noise"):
        return {"C20", "C15"} if destroyed or leaving else {"C20"}
    if k in ("xacq", "xrel"):
        return {"C15", "C16"}
    if k == "quiet":
        first = {}
        for c, x in pending:
            first.setdefault(c, calls[(c, x)])
        for c, m in first.items():
            s |= about(m) | {"C21"}
            if kinds.get(c) in ("pmt", "pmu"):
                s |= {"C22"}
            if m["op"] in ACCESS | {"lock"}:
                s |= {"C16"} | ({"C18"} if aborts else set())
        if leaving:
            s |= {"C15", "C21", "C16"}
        if locks:
            s |= {"C15", "C16"}
        if any(x["e"] == "pub" for x in pre):
            s |= {"C20"}
        return s
    return set(ALL)


EST = {
    "Link": [["conn", "core"], ["conn", "core"], ["conn", "abort"], 1],
    "Lock": [["conn", "core"], ["conn", "core"], 1, 2],
    "Data": [["conn", "core"], 1],
    "Abort": [["conn", "core"], ["conn", "core"], ["conn", "abort"], 1, 2],
    "Stb": [["conn", "core"], ["conn", "core"], 1, 2],
    "Srq": [["conn", "core"], 1],
    "Rpc": [["conn", "core"], ["conn", "core"], 1, 2],
}


def established(kind):
    out = []
    for s in EST[kind.rstrip("Q")]:
        out.append(s if isinstance(s, list) else ["call", s, "create", 0, False, False, -1, 0, s])
    return out + [["quiet"]]


def behaviours(run, kinds, per):
    """Harness input: behaviours of the model which cover its transitions"""
    rng = random.Random(run.seed)
    lines = []
    for kind in kinds:
        g = run.graph(v("MCVxi.tla"), v("GenV%s.cfg" % kind))
        ws = g.walks(maxlen=40, rng=rng, limit=per) + g.random_walks(per // 4, 40, rng)
        run.extra.setdefault("graphs", {})[kind] = {"edges": g.edges, "covered": g.covered, "walks": len(ws)}
        lines += [established(kind) + w for w in ws]
    return lines


def trace(run, label, want, **kw):
    tr, s = harness(run, "vxi", run.path(label + ".ndjson"), seed=run.seed, **kw)
    if incomplete(s, tr, want):
        crashed(run, label, tr, s)
    run.validate(v("VxiTrace.tla"), v("VxiTrace.cfg"), tr, label, classify, shards=8)


def check(run, profs, n, models, gens=(), per=100, mutants=()):
    for m in models:
        run.model(v("MCVxi.tla"), v("MCV%s.cfg" % m), workers=8, timeout=850,
                  what="VXI-11 server, small instance '%s'" % m)
    if not run.quick:
        for m, prop in mutants:
            run.model(v("MCVxi.tla"), v("MCVBad%s.cfg" % m), workers=8, timeout=850, expect=prop, what="mutant " + m)
    if gens:
        lines = behaviours(run, gens, per)
        f = run.path("seqs")
        with open(f, "w") as o:
            for x in lines:
                o.write(json.dumps(x) + "\n")
        trace(run, "vxi-walks", len(lines), seqs=f)
    if n:
        trace(run, "vxi", n, n=n, prof=profs, len=run.pick(25, 35))


def c15(run):
    check(run, "link,link,mix", run.pick(700, 9000), run.pick(["LinkQ"], ["LinkQ", "Link"]), ["LinkQ"],
          run.pick(120, 1500), [("Keeps", "Sane"), ("Any", "LinkTruth")])


def c16(run):
    check(run, "lock,lock,mix,stb", run.pick(700, 10000), run.pick(["LockQ"], ["LockQ", "Lock"]), ["LockQ"],
          run.pick(120, 1500), [("Entitled", "OnlyEntitled"), ("Never", "RestIsQuiet")])


def c17(run):
    check(run, "data,data,data,mix", run.pick(700, 10000), run.pick(["DataQ"], ["DataQ", "Data"]),
          run.pick(["DataQ"], ["Data"]), run.pick(120, 1500), [("Twice", "BytesOnce")])


def c18(run):
    check(run, "abort,abort,abort,mix", run.pick(700, 10000), run.pick(["AbortQ"], ["AbortQ", "Abort"]), ["AbortQ"],
          run.pick(120, 1500), [("Sticky", "AbortOnly")])


def c19(run):
    check(run, "stb,stb,stb,mix", run.pick(700, 10000), run.pick(["DataQ"], ["StbQ", "Stb"]), ["StbQ"],
          run.pick(120, 1500), [("Mav", "StatusTruth")])


def c20(run):
    check(run, "srq,srq,srq,mix", run.pick(700, 10000), run.pick(["SrqQ"], ["SrqQ", "Srq"]), ["SrqQ"],
          run.pick(120, 1500), [("Again", "NotTooMany")])


def c21(run):
    check(run, "rpc,rpc,pm,mix", run.pick(700, 10000), run.pick(["LinkQ"], ["RpcQ", "Rpc"]), run.pick([], ["RpcQ"]),
          run.pick(120, 1500))


CHECKS = {"C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21}
