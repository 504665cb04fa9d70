"""C01-C05: the device lock and the status bus (lxi-device)"""
import json
import os
import random
from concurrent.futures import ThreadPoolExecutor

from .core import SPEC, ToolError, harness, log

LOCK = os.path.join(SPEC, "lock")
STATUS = os.path.join(SPEC, "status")


def lk(name):
    return os.path.join(LOCK, name)


def classify_seq(t, at):
    """Which properties does the first unexplained event of a lock history speak about?"""
    ev = t["ev"]
    e = ev[at - 1]
    k = e["e"]
    if k == "panic":
        return {"C01", "C02", "C03", "C04"}
    if k in ("quiet", "deadlock", "stuck"):
        return {"C03"}
    if k == "ret":
        op = next((x for x in reversed(ev[:at - 1]) if x["e"] == "inv" and x["t"] == e["t"]), {}).get("op")
        return {"acq": {"C01"}, "lock": {"C02"}, "can": {"C01", "C02"}, "info": {"C01"}}.get(op, {"C04"})
    if k in ("obs", "inconsistent"):
        last = next((x for x in reversed(ev[:at - 1]) if x["e"] in ("inv", "drop", "cancel", "ret", "new")), {})
        if last.get("e") == "ret":
            last = next((x for x in reversed(ev[:at - 1]) if x["e"] == "inv" and x["t"] == last["t"]), {})
        kind = last.get("op", last.get("e"))
        if kind in ("rel", "force", "drop", "cancel"):
            return {"C01", "C04"}
        return {"C01", "C02"}
    return {"C01", "C02", "C03", "C04"}


def classify_conc(t, at):
    ev = t["ev"]
    e = ev[at - 1]
    s = classify_seq(t, at)
    if e["e"] == "ret":
        # In a concurrent history a wrong state shows up at whoever looks at it next
        ops = {x.get("op") for x in ev[:at] if x["e"] == "inv"}
        if s & {"C01"} and ops & {"rel", "force", "drop"}:
            s = s | {"C04"}
    if e["e"] == "obs":
        s = {"C01", "C04"}
    return s


def models(run, impl=True):
    run.model(lk("MCSharedLock.tla"), lk(run.pick("MCSharedLockQ.cfg", "MCSharedLock.cfg")), workers=6,
              what="ownership, grant, release and cancel properties of the specification")
    if impl:
        run.model(lk("LockImpl.tla"), lk(run.pick("MCLockImplQ.cfg", "MCLockImpl2.cfg")), workers=6,
                  what="check/listen/check-again algorithm refines SharedLock, loses no wake-up, makes progress")
        if not run.quick:
            run.model(lk("LockImpl.tla"), lk("MCLockImpl3.cfg"), workers=8, timeout=850,
                      what="the same with three clients")
            run.model(lk("LockImpl.tla"), lk("MCLockImplBad1.cfg"), expect="GrantSafe", what="mutant: no re-check")
            run.model(lk("LockImpl.tla"), lk("MCLockImplBad2.cfg"), expect="NoLostWakeup",
                      what="mutant: no second check after listening")
            run.model(lk("LockImpl.tla"), lk("MCLockImplBad3.cfg"), expect="NoLostWakeup",
                      what="mutant: release does not notify")


def sequential(run, n_walks, n_random):
    g = run.graph(lk("LockGen.tla"), lk(run.pick("MCLockGen3.cfg", "MCLockGen3.cfg")))
    rng = random.Random(run.seed)
    ws = g.walks(maxlen=50, rng=rng)
    total, cov = g.edges, g.covered
    if n_walks and len(ws) > n_walks:
        ws = rng.sample(ws, n_walks)
    # Two processes working on one (remote) handle
    g2 = run.graph(lk("LockGen.tla"), lk("MCLockGenShared.cfg"))
    ws2 = g2.walks(maxlen=50, rng=rng, limit=max(50, n_walks // 4) if n_walks else None)
    ws = ws + ws2
    f = run.path("seqs")
    with open(f, "w") as h:
        for w in ws:
            h.write(json.dumps(w) + "\n")
    tr, s = harness(run, "lock-seq", run.path("seq.ndjson"), seqs=f, n=n_random, seed=run.seed)
    if incomplete(s, tr, len(ws) + n_random):
        crashed(run, "lock-seq", tr, s)
    run.extra["graph_edges"] = total
    run.extra["walks_replayed"] = len(ws)
    run.extra["graph_edges_covered_by_all_walks"] = cov
    run.validate(lk("LockTrace.tla"), lk("LockTrace.cfg"), tr, "lock-seq", classify_seq)


def incomplete(s, traces, want):
    """Did the driver fail?  It may stop early when too many histories got stuck (which shows in them)."""
    return s["rc"] != 0 or (len(traces) != want and not s.get("stopped"))


def crashed(run, label, traces, s):
    """The harness process died: the code under test took it down"""
    run.violation(label, {"id": "crash", "ev": [{"e": "crash", "rc": str(s["rc"])}], "stderr": s["stderr"],
                          "args": s["args"]}, 1, "harness process ended with %s" % s["rc"])


def concurrent(run, n, dfs, bound, profile):
    """Schedules of concurrent users of the lock, explored by several processes"""
    parts = 8

    def part(i):
        return harness(run, "lock-conc", run.path("conc%d.ndjson" % i), n=n, dfs=dfs, bound=bound, profile=profile,
                       seed=run.seed, part=i, parts=parts)

    with ThreadPoolExecutor(parts) as ex:
        res = list(ex.map(part, range(parts)))
    tr, seen = [], set()
    for t, s in res:
        if s["rc"] != 0:
            crashed(run, "lock-conc", t, s)
        for x in t:
            key = json.dumps(x["ev"])
            if key not in seen:
                seen.add(key)
                tr.append(x)
    run.extra["schedules_run"] = sum(s.get("runs", 0) for _, s in res)
    run.extra["scheduling_decisions"] = sum(s.get("switches", 0) for _, s in res)
    run.validate(lk("LockTrace.tla"), lk("LockTrace.cfg"), tr, "lock-conc", classify_conc)


def c01(run):
    models(run, impl=False)
    sequential(run, run.pick(400, 0), run.pick(300, 3000))
    concurrent(run, run.pick(6000, 60000), run.pick(200, 4000), 2, 2)


def c02(run):
    models(run)
    sequential(run, run.pick(200, 0), run.pick(200, 2000))
    concurrent(run, run.pick(6000, 80000), run.pick(2500, 12000), run.pick(2, 3), 1)


def c03(run):
    models(run)
    sequential(run, run.pick(200, 0), run.pick(200, 2000))
    concurrent(run, run.pick(9000, 80000), run.pick(600, 6000), run.pick(2, 3), 0)


def c04(run):
    models(run, impl=False)
    sequential(run, run.pick(400, 0), run.pick(300, 3000))
    concurrent(run, run.pick(6000, 60000), run.pick(200, 4000), 2, 9)


def bus_models(run):
    run.model(os.path.join(STATUS, "StatusBus.tla"), os.path.join(STATUS, run.pick("MCStatusBusQ.cfg", "MCStatusBus.cfg")),
              workers=6, what="delivery, order and isolation of the status broadcast")
    run.model(os.path.join(STATUS, "StatusBus.tla"), os.path.join(STATUS, "MCStatusBusLive.cfg"), workers=4,
              what="publishing never waits, receivers are woken")


def classify_bus(t, at):
    return {"C05"} if t["ev"][at - 1]["e"] == "mem" else {"C06"}


def c05(run):
    run.model(lk("LockImpl.tla"), lk(run.pick("MCLockImplQ.cfg", "MCLockImpl2.cfg")), workers=6,
              what="Bounded: listeners only belong to pending requests")
    rng = random.Random(run.seed)
    g = run.graph(lk("LockGen.tla"), lk("MCLockGen3.cfg"))
    cyc = g.cycles(run.pick(300, 3000), rng, avoid=("drop",))
    g2 = run.graph(lk("LockGen.tla"), lk("MCLockGenShared.cfg"))
    cyc += g2.cycles(run.pick(100, 1000), rng, avoid=("drop",))
    f = run.path("cyc")
    with open(f, "w") as h:
        for c in cyc:
            h.write(json.dumps(c) + "\n")
    tr, s = harness(run, "lock-cycle", run.path("cycle.ndjson"), seqs=f, seed=run.seed, reps=run.pick(100, 400))
    if s["rc"] != 0:
        crashed(run, "lock-cycle", tr, s)
    run.validate(lk("LockTrace.tla"), lk("LockTrace.cfg"), tr, "lock-cycle",
                 lambda t, at: {"C05"} if t["ev"][at - 1]["e"] == "mem" else classify_seq(t, at))
    tr, s = harness(run, "status", run.path("st.ndjson"), seed=run.seed, cycles=run.pick(200, 2000), reps=200)
    if s["rc"] != 0:
        crashed(run, "status", tr, s)
    run.validate(os.path.join(STATUS, "StatusTrace.tla"), os.path.join(STATUS, "StatusTrace.cfg"), tr,
                 "status-cycle", classify_bus, dedupe=False)
    # Sessions and links which come and go
    hd = os.path.join(SPEC, "hislip")
    n = run.pick(300, 6000)
    tr, s = harness(run, "hislip-cycle", run.path("hc.ndjson"), seed=run.seed, n=n, reps=10)
    if incomplete(s, tr, n):
        crashed(run, "hislip-cycle", tr, s)
    rounds = sum(x["rounds"] for x in tr)
    run.validate(os.path.join(hd, "HislipTrace.tla"), os.path.join(hd, "HislipTrace.cfg"), tr, "hislip-cycle",
                 only_mem, shards=8)
    vd = os.path.join(SPEC, "vxi")
    n, parts = run.pick(80, 800), 8
    with ThreadPoolExecutor(parts) as ex:
        res = list(ex.map(lambda i: harness(run, "vxi-cycle", run.path("vc%d.ndjson" % i), seed=run.seed, n=n, reps=10,
                                            part=i, parts=parts), range(parts)))
    for x, s in res:
        if s["rc"] != 0:
            crashed(run, "vxi-cycle", x, s)
    tr = [t for x, _ in res for t in x]
    run.extra["rounds_of_sessions_and_links"] = rounds + sum(90 for t in tr if t["m"])
    run.validate(os.path.join(vd, "VxiTrace.tla"), os.path.join(vd, "VxiTrace.cfg"), tr, "vxi-cycle", only_mem, shards=8)


def only_mem(t, at):
    """Anything else which is wrong in these histories belongs to the checks of the servers"""
    k = t["ev"][at - 1]["e"] if at <= len(t["ev"]) else ""
    return {"C05"} if k in ("mem", "crash") else set()


def c06(run):
    bus_models(run)
    rng = random.Random(run.seed)
    g = run.graph(os.path.join(STATUS, "StatusGen.tla"), os.path.join(STATUS, "StatusGen.cfg"))
    ws = g.walks(maxlen=40, rng=rng)
    run.extra["graph_edges"] = g.edges
    run.extra["graph_edges_covered_by_all_walks"] = g.covered
    f = run.path("seqs")
    with open(f, "w") as h:
        for w in ws:
            h.write(json.dumps(w) + "\n")
    tr, s = harness(run, "status", run.path("st.ndjson"), seed=run.seed, seqs=f, n=run.pick(400, 4000),
                    conc=run.pick(2500, 30000))
    if s["rc"] != 0:
        crashed(run, "status", tr, s)
    run.extra["schedules_run"] = s.get("runs")
    run.validate(os.path.join(STATUS, "StatusTrace.tla"), os.path.join(STATUS, "StatusTrace.cfg"), tr,
                 "status", classify_bus)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06}
