"""C07-C14: the HiSLIP server"""
import json
import os
import random

from .core import SPEC, harness, log
from .p_lock import crashed, incomplete

D = os.path.join(SPEC, "hislip")


def h(name):
    return os.path.join(D, name)


ALL = {"C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"}
#: Request types on the asynchronous channel and the properties which promise their answers
REQ = {4: "C10", 24: "C10", 19: "C09", 15: "C08", 21: "C12", 10: "C14"}
ANS = {5: "C10", 25: "C10", 23: "C09", 9: "C09", 16: "C08", 20: "C12", 22: "C12", 11: "C14", 1: "C07", 18: "C07",
       6: "C08", 7: "C08"}


def sessions(ev):
    """Connection -> name of its session as far as a client can tell"""
    sid, ses = {}, {}
    for e in ev:
        if e["e"] == "recv" and e["t"] == 1:
            sid[e["pl"]] = e["c"]
            ses[e["c"]] = e["c"]
        if e["e"] == "send" and e["t"] == 17 and e["c"] not in ses and e["pl"] in sid:
            ses[e["c"]] = sid[e["pl"]]
    return ses


def classify(t, at):
    ev = t["ev"]
    if at > len(ev):
        return set(ALL)
    e = ev[at - 1]
    k = e["e"]
    pre = ev[:at - 1]
    if k == "crash":
        return set(ALL) | {"C26"}
    if k == "mem":
        return {"C05"}
    ses = sessions(pre)
    mine = {c for c in ses if ses[c] == ses.get(e.get("c"))} | {e.get("c")}
    sent = [x for x in pre if x["e"] == "send" and x["c"] in mine]
    bad = any(x["x"] or x["t"] >= 39 for x in sent)
    cut = any(x["e"] in ("gone", "shut") and x["c"] in mine for x in pre)
    types = {x["t"] for x in sent}
    s = set()
    if k in ("panic", "garbage", "truncated", "spin"):
        s |= {"C13", "C11"}
        if k == "panic":
            # Whatever was asked for last
            last = next((x for x in reversed(pre) if x["e"] == "send"), {})
            s |= {REQ.get(last.get("t"), "C08")}
            if "C05" in str(e):
                s |= {"C05"}
        return s | ({"C07"} if k == "panic" else set()) | ({"C08"} if k in ("garbage", "truncated") else set())
    if k in ("deadlock", "busy", "late", "early"):
        s |= {"C11"}
        if k in ("early", "late"):
            s |= {"C10"}
        if k == "deadlock":
            s |= {"C09", "C10", "C12", "C14"}
        return s
    if k in ("xacq", "xrel"):
        return {"C10", "C04", "C07"}
    if k == "quiet":
        s |= {"C11"}
        # What has been asked and not been answered, by anybody still there
        open_ = {x["c"] for x in pre if x["e"] == "conn"} - {x["c"] for x in pre if x["e"] == "eof"}
        for c in open_:
            own = [x["t"] for x in pre if x["e"] == "send" and x["c"] == c]
            got = [x["t"] for x in pre if x["e"] == "recv" and x["c"] == c]
            if c not in ses and own:
                s |= {"C07"}
            if any(x["e"] == "send" and x["c"] == c and (x["x"] or x["t"] >= 39) for x in pre):
                s |= {"C13"}
            asyn = c in ses and ses[c] != c
            if asyn:
                for q, a in ((4, 5), (24, 25), (19, 23), (15, 16), (21, 22), (10, 11)):
                    if own.count(q) > got.count(a):
                        s |= {REQ[q]}
                if any(x["e"] == "pub" for x in pre):
                    s |= {"C12"}
            else:
                if own.count(8) > got.count(9):
                    s |= {"C09"}
                if own and own[-1] in (6, 7, 12):
                    s |= {"C08"}
                # A lock stands in the way
                if any(x["e"] in ("xacq",) or (x["e"] == "send" and x["t"] == 4) for x in pre):
                    s |= {"C10"}
            if any(x["e"] in ("gone", "shut") and x["c"] == c for x in pre):
                s |= {"C07", "C13"}
        # Or the lock differs
        if any(x["e"] == "send" and x["t"] in (4,) for x in pre):
            s |= {"C10", "C04"}
        if any(x["e"] in ("gone", "shut") for x in pre):
            s |= {"C04", "C07"}
        return s
    if k == "recv":
        ty = e["t"]
        s |= {ANS.get(ty, "C13")}
        if ty in (2, 3):
            s |= {"C13"}
            last = sent[-1]["t"] if sent else None
            if ty == 2:
                s |= {"C07"}
            if last in REQ:
                s |= {REQ[last]}
            if ty == 3 and 10 in types:
                s |= {"C14"}
            if last in (6, 7, 12):
                s |= {"C08"}
        if ty in (6, 7, 1):
            s |= {"C08"} if ty != 1 else {"C07"}
            if 19 in types:
                s |= {"C09"}
        if bad:
            s |= {"C13"}
        if ty in (5, 25) :
            s |= {"C10", "C04"}
        return s
    if k == "eof":
        s |= {"C13", "C11"}
        if not any(x["e"] == "recv" and x["c"] == e["c"] for x in pre) or e["c"] not in ses:
            s |= {"C07"}
        last = sent[-1]["t"] if sent else None
        if last in REQ:
            s |= {REQ[last]}
        if last in (6, 7, 12):
            s |= {"C08"}
        if any(x["e"] == "pub" for x in pre):
            s |= {"C12"}
        if 19 in types or 8 in types:
            s |= {"C09"}
        if 10 in types:
            s |= {"C14"}
        return s
    if k in ("exec", "trig"):
        s |= {"C08"}
        if 19 in types:
            s |= {"C09"}
        if bad or cut:
            s |= {"C13"}
        if e["c"] == ses.get(e["c"]) and not any(x["e"] == "recv" and x["t"] == 18 and ses.get(x["c"]) == e["c"] for x in pre):
            s |= {"C07"}
        if locked_others(pre, ses, e["c"]):
            s |= {"C10", "C02"}
        return s
    if k == "clear":
        s |= {"C09"}
        if locked_others(pre, ses, e["c"]):
            s |= {"C02"}
        return s
    if k == "call":
        s |= {"C12"} if e["op"] == "stb" else {"C14", "C12"} if e["op"] == "rem" else {"C14"}
        if locked_others(pre, ses, e["c"]):
            s |= {"C02"}
        return s
    return set(ALL)


def locked_others(pre, ses, c):
    return any(x["e"] == "xacq" and x["r"] == "ok" for x in pre) or \
        any(x["e"] == "recv" and x["t"] == 5 and x["cc"] == 1 and ses.get(x["c"]) != ses.get(c) for x in pre)


MAXM = ["send", 2, 15, 0, 0, 0, [0, 0, 0, 0, 0, 0, 0, 2]]
EST = {
    1: [["init", 512, []], ["quiet"], ["att", 1], ["quiet"], MAXM, ["quiet"]],
    2: [["init", 512, []], ["quiet"], ["att", 1], ["quiet"], ["init", 512, []], ["quiet"], ["att", 3], ["quiet"]],
}


def convert(kind, walk):
    """Behaviour of the model as steps of the harness"""
    if kind == "Setup":
        out = []
        for s in walk:
            if s[0] == "send" and s[2] == 0:
                out.append(["initon", s[1], s[4], []])
            elif s[0] == "send" and s[2] == 17:
                out.append(["atton", s[1], s[5] - 1])
            else:
                out.append(s)
        return out
    return EST[2 if kind == "Lock" else 1] + walk


def behaviours(run, kinds, per):
    """Harness input: behaviours of the model which cover its transitions"""
    rng = random.Random(run.seed)
    lines = []
    for kind in kinds:
        g = run.graph(h("MCHislip.tla"), h("Gen%s.cfg" % kind))
        ws = g.walks(maxlen=40, rng=rng, limit=per)
        run.extra.setdefault("graphs", {})[kind] = {"edges": g.edges, "covered": g.covered, "walks": len(ws)}
        for w in ws:
            lines.append({"maxs": 1 if kind.startswith("Setup") else 4, "steps": convert(kind, w)})
        for w in g.random_walks(per // 4, 40, rng):
            lines.append({"maxs": 1 if kind.startswith("Setup") else 4, "steps": convert(kind, w)})
    return lines


def check(run, profs, n, models, gens=(), per=100, mutants=()):
    for m in models:
        run.model(h("MCHislip.tla"), h("MCH%s.cfg" % m), workers=8, timeout=850,
                  what="HiSLIP server, small instance '%s'" % m)
    if not run.quick:
        for m, prop in mutants:
            run.model(h("MCHislip.tla"), h("MCHBad%s.cfg" % m), workers=8, timeout=850, expect=prop, what="mutant " + m)
    if gens:
        lines = behaviours(run, gens, per)
        f = run.path("seqs")
        with open(f, "w") as o:
            for x in lines:
                o.write(json.dumps(x) + "\n")
        tr, s = harness(run, "hislip", run.path("walk.ndjson"), seqs=f, seed=run.seed)
        if incomplete(s, tr, len(lines)):
            crashed(run, "hislip-walks", tr, s)
        run.validate(h("HislipTrace.tla"), h("HislipTrace.cfg"), tr, "hislip-walks", classify, shards=8)
    if n:
        tr, s = harness(run, "hislip", run.path("rand.ndjson"), n=n, prof=profs, seed=run.seed,
                        len=run.pick(25, 35))
        if incomplete(s, tr, n):
            crashed(run, "hislip", tr, s)
        run.validate(h("HislipTrace.tla"), h("HislipTrace.cfg"), tr, "hislip", classify, shards=8)


def c07(run):
    check(run, "setup,setup,setup,mix", run.pick(500, 8000), run.pick(["SetupQ"], ["SetupQ", "Setup"]),
          run.pick(["SetupQ"], ["Setup"]), run.pick(150, 3000), mutants=[("Twice", "AttachOnce"), ("Limit", "LimitHolds")])
    # Until identifiers are used again
    n = run.pick(6, 60)
    tr, s = harness(run, "hislip-cycle", run.path("wrap.ndjson"), seed=run.seed, wrap=n)
    if incomplete(s, tr, n):
        crashed(run, "hislip-wrap", tr, s)
    run.extra["sessions_opened_until_identifiers_wrap"] = sum(t["rounds"] for t in tr)
    run.validate(h("HislipTrace.tla"), h("HislipTrace.cfg"), tr, "hislip-wrap", classify, shards=6)


def c08(run):
    check(run, "data,data,data,mix", run.pick(450, 8000), ["Data"], ["Data"], run.pick(150, 1000))


def c09(run):
    check(run, "clear,clear,clear,mix", run.pick(450, 8000), ["Clear"], ["Clear"], run.pick(150, 1000),
          mutants=[("Keeps", "FreshAfterAck")])


def c10(run):
    check(run, "lock,lock,lock,mix", run.pick(450, 8000), run.pick(["LockQ"], ["LockQ", "Lock"]),
          run.pick(["LockQ"], ["Lock"]), run.pick(150, 2000),
          mutants=[("Never", "RestIsQuiet"), ("Blind", "LockTruth"), ("Entitled", "OnlyEntitled")])


def c11(run):
    check(run, "chan,chan,mix,clear,lock", run.pick(500, 9000), run.pick(["Data", "ChanQ"], ["Data", "Chan", "Lock", "Clear"]),
          run.pick(["ChanQ"], ["Chan"]), run.pick(150, 3000), mutants=[("Never", "RestIsQuiet")])


def c12(run):
    check(run, "srq,srq,srq,mix", run.pick(500, 8000), ["Srq"], ["Srq"], run.pick(150, 600),
          mutants=[("SrqA", "OneSrq"), ("SrqN", "SrqNotLost")])


def c13(run):
    check(run, "bad,bad,bad,mix", run.pick(600, 10000), ["Bad", "BadNew"], ["Bad"], run.pick(150, 1000))


def c14(run):
    check(run, "remote,remote,remote,mix", run.pick(450, 8000), run.pick(["RemQ"], ["RemQ", "Rem"]), ["Rem"],
          run.pick(150, 1500), mutants=[("Calls", "RemoteDone")])


CHECKS = {"C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14}
