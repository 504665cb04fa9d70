#!/usr/bin/env python3
"""tv.py MODULE.tla CFG traces.ndjson [show]: validate traces by hand and print what is not explained"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
mod, cfg, f = sys.argv[1:4]
show = int(sys.argv[4]) if len(sys.argv) > 4 else 3
tr = [json.loads(l) for l in open(f)]
r = core.validate(os.path.abspath(mod), os.path.abspath(cfg), tr, "/tmp/tv", shards=8, timeout=800)
print("traces", len(tr), "states", r.distinct, "secs", round(r.secs, 1), "rejected", len(r.rejects))
import collections
c = collections.Counter()
seen = collections.Counter()
for i, at, why in r.rejects:
    t = tr[i]
    e = t["ev"][at-1] if at <= len(t["ev"]) else {"e": "end"}
    k = e["e"] + (":%s" % e.get("t") if e["e"] in ("recv",) else "")
    c[k] += 1
    seen[k] += 1
    if seen[k] <= show:
        print("---", i, t.get("drv"), t.get("seed"), "event", at, "of", len(t["ev"]), t["cfg"] if isinstance(t.get("cfg"), list) else {k: v for k, v in t.get("cfg", {}).items() if k not in("sub","def","maxd")} )
        for e in t["ev"][max(0, at-16):at]:
            print("    ", json.dumps(e)[:220])
print(c)
