"""Shared machinery: building the harness, running TLC, validating traces, reporting."""
import collections
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, "work")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """The machinery itself failed: no verdict"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Run:
    """One execution of the check of a property"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.models = []
        self.workloads = []
        self.samples = []
        self.violations = []
        self.stopped = []
        self.known = []
        self.assumptions = []
        self.extra = {}
        self.dir = os.path.join(WORK, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = os.path.join(WORK, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self._findings = load_known(prop)

    def path(self, name):
        return os.path.join(self.dir, name)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- model checking -------------------------------------------------------------------
    def model(self, module, cfg, workers=4, timeout=600, expect=None, what=""):
        """Check a model. expect: None (must hold) or text which must be found violated."""
        r = tlc(module, cfg, workers=workers, timeout=timeout, metadir=self.path("md-" + os.path.basename(cfg)))
        bad = r.violation
        rec = {"module": os.path.relpath(module, VERIF), "cfg": os.path.basename(cfg),
               "states": r.distinct, "transitions": r.generated, "seconds": round(r.secs, 1)}
        if what:
            rec["what"] = what
        if expect is None:
            if bad is not None or not r.finished:
                raise ToolError("model %s/%s: %s\n%s" % (module, cfg, bad, r.tail()))
            rec["result"] = "holds"
            self.states += r.distinct
            self.transitions += r.generated
        else:
            if bad is None or expect not in bad:
                raise ToolError("mutant model %s/%s: expected violation of %s, got %s\n%s"
                                % (module, cfg, expect, bad, r.tail()))
            rec["result"] = "violates %s, as it must" % expect
        self.models.append(rec)
        return r

    def graph(self, module, cfg, timeout=600):
        """State graph printed by a generator specification"""
        r = tlc(module, cfg, workers=1, timeout=timeout, metadir=self.path("md-" + os.path.basename(cfg)))
        if r.violation is not None or not r.finished:
            raise ToolError("generator %s/%s: %s\n%s" % (module, cfg, r.violation, r.tail()))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": os.path.relpath(module, VERIF), "cfg": os.path.basename(cfg),
                            "states": r.distinct, "transitions": r.generated,
                            "seconds": round(r.secs, 1), "result": "enumerated"})
        g = Graph(r.out)
        if g.nstates != r.distinct:
            raise ToolError("generator %s: %d states read, TLC found %d" % (cfg, g.nstates, r.distinct))
        return g

    # -- traces ---------------------------------------------------------------------------
    def validate(self, module, cfg, traces, label, classify, shards=6, timeout=800, env=None,
                 dedupe=True, replay=None):
        """Check recorded traces against the specification.

        classify(trace, index) -> set of properties the rejected event speaks about (or None
        for 'this one'); index is that of the first event the specification cannot explain."""
        total = len(traces)
        if dedupe:
            seen, uniq = set(), []
            for t in traces:
                k = hashlib.sha1(json.dumps(t["ev"], sort_keys=True).encode()
                                 + json.dumps(t.get("cfg"), sort_keys=True).encode()).digest()
                if k not in seen:
                    seen.add(k)
                    uniq.append(t)
            traces = uniq
        res = validate(module, cfg, traces, self.path("val-" + label), shards=shards, timeout=timeout, env=env)
        self.states += res.distinct
        self.transitions += res.generated
        self.traces += len(traces)
        self.events += sum(len(t["ev"]) for t in traces)
        rejected = 0
        others = collections.Counter()
        for i, at, why in res.rejects:
            t = traces[i]
            props = classify(t, at)
            if props is None or self.prop in props:
                rejected += 1
                self.violation(label, t, at, why, replay)
            else:
                others.update(props)
        self.workloads.append({"workload": label, "spec": os.path.relpath(module, VERIF), "runs": total,
                               "distinct_traces": len(traces), "events": sum(len(t["ev"]) for t in traces),
                               "rejected": rejected, "seconds": round(res.secs, 1)})
        if others:
            self.workloads[-1]["rejections_of_other_properties"] = dict(others)
        if traces and len(self.samples) < 3:
            t = traces[len(traces) // 2]
            self.samples.append({"workload": label, "id": t.get("id"), "cfg": t.get("cfg"), "ev": t["ev"][:40]})
        return res

    def violation(self, label, trace, at, why="", replay=None):
        sig = signature(label, trace, at)
        for f in self._findings:
            if f in sig:
                if f not in self.known:
                    self.known.append(f)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, f))
                return
        n = len(self.violations) + 1
        path = os.path.join(self.replays, "%s-%d.json" % (self.prop, n))
        if n <= 5:
            ev = trace.get("ev", [])
            doc = {"property": self.prop, "workload": label, "seed": self.seed, "tier": self.tier,
                   "first_unexplained_event": at, "event": ev[at - 1] if 0 < at <= len(ev) else None,
                   "why": why, "signature": sig, "replay": replay, "trace": trace}
            with open(path, "w") as f:
                json.dump(doc, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            log("  %s: event %d of %s: %s %s" % (label, at, trace.get("id"), doc["event"], why))
            for e in ev[max(0, at - 12):at]:
                log("     ", json.dumps(e)[:300])
        self.violations.append(sig)

    # -- wrapping up ----------------------------------------------------------------------
    def finish(self, level="model_checking", extra_cov=None):
        if self.stopped and not self.violations:
            # Many histories took too long, and none of them is explained by that
            self.violation(self.stopped[0], {"id": "stopped", "ev": [{"e": "stopped"}]}, 1, "driver stopped early")
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_validated": self.events,
                "models": self.models, "workloads": self.workloads,
                "samples": self.samples,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        ev["coverage"].update(self.extra)
        if self.known:
            ev["coverage"]["known_findings_seen"] = self.known
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        log("%s %s: %d states, %d traces (%d events), %d violations, %.1fs"
            % (self.prop, self.tier, self.states, self.traces, self.events, len(self.violations),
               time.time() - self.t0))
        return 1 if self.violations else 0


def signature(label, trace, at):
    ev = trace.get("ev", [])
    e = ev[at - 1] if 0 < at <= len(ev) else {"e": "end"}
    return "%s:%s" % (label, json.dumps(e, sort_keys=True))


def load_known(prop):
    """'finding: property=<id> <substring of the signature>' lines; 'fixed:' lines suppress nothing"""
    res = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append(m.group(2))
    except FileNotFoundError:
        pass
    return res


# ---------------------------------------------------------------------------------------------
# Harness

def build():
    env = dict(os.environ)
    env["RUSTFLAGS"] = "-Awarnings --cfg lxi_verif"
    env["CARGO_NET_OFFLINE"] = "true"
    env.setdefault("CARGO_TARGET_DIR", os.path.join(HARNESS, "target"))
    t = time.time()
    p = subprocess.run(["cargo", "+stable", "build", "--offline", "--locked", "--quiet"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness does not build:\n" + p.stdout[-4000:])
    log("harness built in %.1fs" % (time.time() - t))
    return os.path.join(env["CARGO_TARGET_DIR"], "debug", "lxih")


class Enough(Exception):
    """A violation is known, and looking for more takes too long"""


def harness(run, cmd, out, timeout=600, **kw):
    """Run a harness command; returns (traces, summary)"""
    if run.violations and time.time() - run.t0 > 200:
        raise Enough()
    timeout = max(60, min(timeout, run.t0 + 800 - time.time()))
    exe = os.path.join(HARNESS, "target", "debug", "lxih")
    args = [exe, cmd, "quiet=1", "out=" + out] + ["%s=%s" % (k, v) for k, v in kw.items()]
    t = time.time()
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           errors="replace")
        rc = p.returncode
        so, se = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, so, se = "timeout", "", (e.stderr or b"").decode("utf8", "replace") if isinstance(e.stderr, bytes) else ""
    traces = []
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                try:
                    traces.append(json.loads(line))
                except ValueError:
                    pass
    summary = {}
    for line in so.splitlines():
        if line.startswith("{"):
            try:
                summary.update(json.loads(line))
            except ValueError:
                pass
    summary["rc"] = rc
    if summary.get("stopped"):
        run.stopped.append(cmd)
    summary["secs"] = round(time.time() - t, 1)
    summary["stderr"] = se[-3000:]
    summary["args"] = args[1:]
    if rc != 0:
        log("harness %s ended with %s: %s" % (cmd, rc, se[-1500:]))
    return traces, summary


# ---------------------------------------------------------------------------------------------
# TLC

class TlcResult:
    def __init__(self, out, secs, rc):
        self.out, self.secs, self.rc = out, secs, rc
        m = None
        for m in re.finditer(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out):
            pass
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        self.finished = "Model checking completed. No error has been found." in out
        self.violation = None
        m = re.search(r"^Error: (.*)$", out, re.M)
        if m:
            self.violation = m.group(1)
            mm = re.search(r"Error: (?:Invariant|Temporal property|Action property) (.*?) (?:is|was) violated", out)
            if mm:
                self.violation = mm.group(0)[7:]
            if "of module" in self.violation and "Action property line" in self.violation:
                self.violation = name_property(self.violation) + " " + self.violation
            if "Temporal properties were violated" in out:
                self.violation = "Temporal properties were violated"
            if "Deadlock reached" in out:
                self.violation = "Deadlock reached"

    def tail(self):
        lines = [l for l in self.out.splitlines() if not l.startswith(('<<"EDGE"', "Semantic", "Parsing"))]
        return "\n".join(lines[-60:])


def name_property(text):
    """Name of the definition enclosing a source position reported by TLC"""
    m = re.search(r"line (\d+), col \d+ to .* of module (\w+)", text)
    for root, _, files in os.walk(SPEC):
        if m and m.group(2) + ".tla" in files:
            lines = open(os.path.join(root, m.group(2) + ".tla")).read().splitlines()
            for i in range(int(m.group(1)) - 1, -1, -1):
                d = re.match(r"(\w+)(\(.*\))? ==", lines[i])
                if d:
                    return d.group(1)
    return "?"


def tlc(module, cfg, workers=1, timeout=600, metadir=None, env=None, heap="3g", extra=()):
    d = os.path.dirname(module)
    e = dict(os.environ)
    if env:
        e.update(env)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m",
           "-Djava.io.tmpdir=" + (os.path.dirname(metadir) if metadir else "/tmp"),
           "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", metadir, "-config", os.path.basename(cfg), *extra, os.path.basename(module)]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC %s %s timed out after %ds" % (module, cfg, timeout))
    finally:
        shutil.rmtree(metadir, ignore_errors=True)
    return TlcResult(p.stdout, time.time() - t, p.returncode)


class ValResult:
    pass


def validate(module, cfg, traces, base, shards=6, timeout=800, env=None):
    """Split traces in shards, let TLC explain each of them. Returns rejects [(index, event, why)]"""
    r = ValResult()
    r.rejects, r.distinct, r.generated = [], 0, 0
    t0 = time.time()
    n = max(1, min(shards, (len(traces) + 19) // 20))
    # Longest processing time first keeps the shards balanced
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["ev"]))
    parts = [order[k::n] for k in range(n)]
    errors = []

    def work(k):
        idx = parts[k]
        if not idx:
            return
        f = "%s-%d.ndjson" % (base, k)
        with open(f, "w") as h:
            for i in idx:
                h.write(json.dumps(traces[i]) + "\n")
        e = {"TRACES": f}
        e.update(env or {})
        try:
            res = tlc(module, cfg, workers=1, timeout=timeout, metadir="%s-md%d" % (base, k), env=e, heap="2500m")
        except ToolError as x:
            errors.append(str(x))
            return
        for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', res.out):
            r.rejects.append((idx[int(m.group(1)) - 1], int(m.group(2)), "not explained by the specification"))
        if not res.finished:
            # TLC reports a violated POSTCONDITION/ASSUME as an error: only tolerate a clean run
            errors.append("validation of %s failed: %s\n%s" % (module, res.violation, res.tail()))
        r.distinct += res.distinct
        r.generated += res.generated
        os.unlink(f)

    ths = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errors:
        raise ToolError(errors[0])
    r.rejects.sort()
    r.secs = time.time() - t0
    return r


# ---------------------------------------------------------------------------------------------
# Walks over the state graph of a generator specification

class Graph:
    """Edges <<"EDGE", from, label, to>>; internal steps have the empty label"""

    def __init__(self, out):
        self.ids = {}
        self.succ = collections.defaultdict(list)
        self.init = None
        n = 0
        for line in out.splitlines():
            if not line.startswith('<<"EDGE", '):
                continue
            a, lab, b = parse_edge(line)
            ia, ib = self._id(a), self._id(b)
            self.succ[ia].append((lab, ib))
            n += 1
        self.edges = n
        self.nstates = len(self.ids)

    def _id(self, s):
        if s not in self.ids:
            self.ids[s] = len(self.ids)
        return self.ids[s]

    def walks(self, maxlen=60, limit=None, rng=None, start=0, max_internal=10000):
        """Walks from the initial state which together cover every edge (up to the limit)"""
        rng = rng or random.Random(1)
        unc = {s: set(range(len(e))) for s, e in self.succ.items()}
        left = self.edges
        out = []
        covered = 0
        while left and (limit is None or len(out) < limit):
            cur, seq, ext, new = start, [], 0, 0
            while ext < maxlen:
                if unc.get(cur):
                    k = rng.choice(sorted(unc[cur])) if len(unc[cur]) < 64 else next(iter(unc[cur]))
                    path = [(cur, k)]
                else:
                    path = self._near(cur, unc, maxlen - ext)
                    if path is None:
                        break
                for s, k in path:
                    if k in unc.get(s, ()):
                        unc[s].discard(k)
                        left -= 1
                        new += 1
                    lab, t = self.succ[s][k]
                    if lab:
                        seq.append(lab)
                        ext += 1
                    cur = t
            if not new:
                break
            covered += new
            # Finish internal steps
            out.append(seq)
        self.covered = covered
        return out

    def _near(self, s, unc, depth):
        prev = {s: None}
        q = collections.deque([(s, 0)])
        while q:
            u, d = q.popleft()
            if d > depth + 6:
                return None
            for k, (lab, v) in enumerate(self.succ.get(u, ())):
                if v in prev:
                    continue
                prev[v] = (u, k)
                if unc.get(v):
                    path = []
                    x = v
                    while prev[x] is not None:
                        path.append(prev[x])
                        x = prev[x][0]
                    return path[::-1]
                q.append((v, d + 1))
        return None

    def cycles(self, count, rng, prelen=10, cyclen=4, maxback=12, start=0, avoid=()):
        """(prefix, cycle) pairs: a random place and a way from there back to it"""
        out, tries = [], 0
        while len(out) < count and tries < count * 20:
            tries += 1
            pre, s = self._rwalk(start, rng.randrange(prelen + 1), rng, avoid)
            cyc, t = self._rwalk(s, 1 + rng.randrange(cyclen), rng, avoid)
            back = self._path(t, s, maxback)
            if back is None or not (cyc or back):
                continue
            out.append({"pre": pre, "cyc": cyc + back})
        return out

    def _internal(self, s):
        es = self.succ.get(s, ())
        return bool(es) and all(not lab for lab, _ in es)

    def _rwalk(self, s, n, rng, avoid=()):
        seq = []
        while len(seq) < n or self._internal(s):
            es = self.succ.get(s)
            if not es:
                break
            lab, t = rng.choice(es)
            if lab and lab[0] in avoid and rng.random() < 0.9 and any(l and l[0] not in avoid for l, _ in es):
                continue
            s = t
            if lab:
                seq.append(lab)
        return seq, s

    def _path(self, a, b, depth):
        if a == b:
            return []
        prev, q = {a: None}, collections.deque([(a, 0)])
        while q:
            u, d = q.popleft()
            if d > depth * 3:
                return None
            for k, (lab, v) in enumerate(self.succ.get(u, ())):
                if v in prev:
                    continue
                prev[v] = (u, lab)
                if v == b:
                    path, x = [], v
                    while prev[x] is not None:
                        if prev[x][1]:
                            path.append(prev[x][1])
                        x = prev[x][0]
                    return path[::-1]
                q.append((v, d + 1))
        return None

    def random_walks(self, count, maxlen, rng, start=0):
        out = []
        for _ in range(count):
            cur, seq = start, []
            for _ in range(maxlen * 4):
                es = self.succ.get(cur)
                if not es or len(seq) >= maxlen:
                    break
                lab, cur = rng.choice(es)
                if lab:
                    seq.append(lab)
            out.append(seq)
        return out


_EDGE = re.compile(r'^<<"EDGE", "((?:[^"\\]|\\.)*)", (.*), "((?:[^"\\]|\\.)*)">>$')


def parse_edge(line):
    m = _EDGE.match(line)
    if not m:
        raise ToolError("cannot parse " + line[:300])
    lab = m.group(2).replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false")
    return m.group(1), json.loads(lab), m.group(3)
