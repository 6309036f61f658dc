"""The code generator for the public module (C26): spec/AdfApi*.tla."""
import json
import os

import common as K

# Where the package may lie: its place has nothing to do with what it is.
PLACES = ["", "", "nodes", "marks", "marks/nodes/mark_a.py", "tests", "my project (1)", "caf\u00e9", "atlas_doc_parser/templates", "_private/.hidden", "node_x.py", "vendor"]


def shard(jobs, sp, wd, i):
    d = os.path.join(wd, "g%d" % i)
    os.makedirs(os.path.join(d, "scratch"))
    jp, tp = os.path.join(d, "jobs.json"), os.path.join(d, "trace.json")
    json.dump(jobs, open(jp, "w"))
    K.record("genapi.py", [jp, tp, os.path.join(d, "scratch")], d, env={"PYTHONPATH": ""}, timeout=800)
    n = len(json.load(open(tp)))
    out, st = K.tlc("AdfApiTrace", "AdfApiTrace.cfg", d, env={"TRACE": tp})
    return n, K.fails(out), st


def histories(num, depth, seed, wd):
    out, st = K.tlc("AdfApiGen", "AdfApiGen.cfg", wd, env={"DEPTH": str(depth)}, args=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(seed)])
    hs = {}
    for line in out.split("\n"):
        if line.startswith('"HIST '):
            h = json.loads(json.loads(line)[5:])
            hs[json.dumps(h[:-1])] = h
    if not hs:
        raise K.Machinery("no histories")
    return list(hs.values()), st


def run(prop, tier, seed, schema, sp, wd, res, pool, replay):
    if replay is not None:
        jobs = [dict(replay["job"], id=0)]
    else:
        hs, st = histories(44 if tier == "quick" else 600, 30, seed, wd)
        res.states += st["distinct"]
        res.transitions += st["generated"]
        jobs = [{"id": i, "ops": h, "place": PLACES[i % len(PLACES)]} for i, h in enumerate(hs)]
        res.samples = [json.dumps(jobs[0]["ops"][:8])]
        res.extra["histories"] = len(jobs)
    byid = {j["id"]: j for j in jobs}
    futs = [pool.submit(shard, jobs[k::8], sp, wd, k) for k in range(8) if jobs[k::8]]
    for f in futs:
        n, bad, st = f.result()
        res.states += st["distinct"]
        res.transitions += st["generated"]
        res.validated += n
        merged = {}
        for eid, clauses in bad:
            merged.setdefault(eid, set()).update(clauses)
        for eid, clauses in merged.items():
            res.violations.append({"clauses": sorted(clauses), "event": {}, "job": byid[eid]})
