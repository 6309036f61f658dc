"""Decide one property:  check.py C12   (VERIF_TIER, VERIF_SEED from the environment)
Replay a reported case:  check.py C12 --replay FILE"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as K
import corpora

TRACE_PROPS = ["C%02d" % i for i in (1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25)]


class Result:
    def __init__(self):
        self.states = self.transitions = self.validated = 0
        self.violations = []          # dicts: key, clauses, case
        self.abstained = 0
        self.samples = []
        self.extra = {}


def shard(prop, jobs, schema_path, wd, i):
    """Record one shard with the real code and validate it with TLC."""
    d = os.path.join(wd, "shard%d" % i)
    os.makedirs(d)
    jp, tp = os.path.join(d, "jobs.json"), os.path.join(d, "trace.json")
    json.dump({"prop": prop, "jobs": jobs}, open(jp, "w"))
    K.record("record.py", [jp, tp, schema_path], d)
    events = json.load(open(tp))
    out, st = K.tlc("AdfTrace", "AdfTrace.cfg", d, env={"TRACE": tp, "PROP": prop})
    st["judged"] = int(re.findall(r'"JUDGED", (\d+)', out)[-1])
    return events, K.fails(out), st


def trace_check(prop, schema, schema_path, wd, res, jobs, pool, nshards=8):
    for i, j in enumerate(jobs):
        j["id"] = i
    nshards = max(1, min(nshards, len(jobs) // 20 or 1))
    futs = [pool.submit(shard, prop, jobs[i::nshards], schema_path, wd, i) for i in range(nshards)]
    kinds = {}
    byid = {j["id"]: j for j in jobs}
    for f in futs:
        events, bad, st = f.result()
        res.states += st["distinct"]
        res.transitions += st["generated"]
        res.validated += len(events)
        res.extra["obligations_judged"] = res.extra.get("obligations_judged", 0) + st["judged"]
        ev = {e["id"]: e for e in events}
        for e in events:
            count_kinds(e.get("tree") or e.get("raw") or {}, kinds)
        for eid, clauses in bad:
            if any(c.startswith("MACHINERY") for c in clauses):
                raise K.Machinery("harness inconsistency in event %d: %s" % (eid, clauses))
            real = [c for c in clauses if not c.startswith("~")]
            res.abstained += len(clauses) - len(real)
            if real:
                res.violations.append({"clauses": real, "job": byid[eid], "event": ev[eid]})
    res.extra["elements_by_type"] = dict(sorted(kinds.items()))
    res.extra["documents"] = len(jobs)
    if len(jobs) > 1 and not res.extra["obligations_judged"] and not res.violations:
        raise K.Machinery("vacuous run: the property was never put to the code")


def count_kinds(n, acc):
    if isinstance(n, dict):
        t = n.get("t")
        if isinstance(t, str) and t.startswith("s:"):
            acc[t[2:]] = acc.get(t[2:], 0) + 1
        for k in ("c", "m"):
            for x in n.get(k) or []:
                count_kinds(x, acc)


def key_of(v):
    return hashlib.sha256(json.dumps([v["job"].get("raw", v["job"]), sorted(v["clauses"])], sort_keys=True).encode()).hexdigest()[:16]


def known_findings(prop):
    out = {}
    p = os.path.join(K.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def decide(prop, tier, seed, replay=None):
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix="adf-%s-" % prop)
    res = Result()
    try:
        schema, sp = K.export_schema(wd)
        with cf.ThreadPoolExecutor(max_workers=9) as pool:
            import checks
            import generator
            import sessions
            special = generator if prop == "C26" else sessions
            futs = []
            if replay is None:
                for mc in checks.models(prop, tier):
                    futs.append((mc, pool.submit(checks.run_model, mc, wd, tier)))
            if replay is not None:
                if prop in TRACE_PROPS:
                    trace_check(prop, schema, sp, wd, res, [replay["job"]], pool, 1)
                else:
                    special.run(prop, tier, seed, schema, sp, wd, res, pool, replay)
            else:
                if prop in TRACE_PROPS:
                    jobs = corpora.JOBS[prop](seed, schema, tier)
                    jobs += checks.small_docs(prop, tier, schema, wd)
                    trace_check(prop, schema, sp, wd, res, jobs, pool)
                    res.samples = [json.dumps(j, ensure_ascii=False)[:600] for j in jobs[:: max(1, len(jobs) // 3)][:3]]
                else:
                    special.run(prop, tier, seed, schema, sp, wd, res, pool, None)
            models = {}
            for mc, f in futs:
                st = f.result()
                models[mc["cfg"]] = st
                res.states += st["distinct"]
                res.transitions += st["generated"]
            res.extra["models"] = models
    finally:
        shutil.rmtree(wd, ignore_errors=True)

    known = known_findings(prop)
    fresh, seen = [], set()
    for v in sorted(res.violations, key=lambda v: len(json.dumps(v["job"]))):
        k = key_of(v)
        if k in known:
            if k not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
            seen.add(k)
        else:
            fresh.append((k, v))
    if replay is None:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": dict({"states": res.states, "transitions": res.transitions,
                                "traces_validated_against_impl": res.validated, "samples": res.samples,
                                "abstained": res.abstained}, **res.extra),
              "assumptions": ["documents are generated; the specification judges every recorded call of the real code",
                              "text encoding and projection in harness/project.py are trusted"],
              "violations": len(fresh), "wall_s": round(time.time() - t0, 1)}
        os.makedirs(os.path.join(K.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(K.VERIF, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    if not fresh:
        print("OK property=%s validated=%d states=%d wall=%.1fs" % (prop, res.validated, res.states, time.time() - t0))
        return 0
    for k, v in fresh[:3]:
        d = os.path.join(K.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (prop, k))
        json.dump({"property": prop, "clauses": v["clauses"], "job": v["job"], "event": v["event"]}, open(path, "w"), indent=1)
        print("clauses: %s  case: %s" % (", ".join(v["clauses"]), json.dumps(v["job"].get("raw", v["job"]))[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%d violating cases in all" % len(fresh))
    return 1


def setup():
    """Everything is interpreted: see that the tools work and the specification is well formed."""
    wd = tempfile.mkdtemp(prefix="adf-setup-")
    try:
        schema, _ = K.export_schema(wd)
        K.record("record.py", ["--probe"], wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    print("setup: %d node and %d mark types in the specification" % (len(schema["node"]), len(schema["mark"])))


def main():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    prop = sys.argv[1]
    replay = json.load(open(sys.argv[3])) if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    try:
        rc = decide(prop, K.tier(), K.seed(), replay)
    except K.Machinery as e:
        print("ERROR (framework, no verdict): %s" % e)
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
