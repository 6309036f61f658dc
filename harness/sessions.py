"""Histories of calls and schedules of threads (C08, C09): spec/AdfSession*.tla and spec/AdfThreads.tla."""
import copy
import json
import os
import random

import common as K
import corpora
from gen import Gen, Spoiler

def pools(seed, schema):
    """Documents for the histories: (good ones, parses that must raise)."""
    g = Gen(seed + 77, schema, p_anyval=0.6, p_opt=0.7, budget=18)
    sp = Spoiler(g)
    fl = Gen(seed + 78, schema, p_fail=0.4, budget=14)
    rng = g.rng
    good = []
    c = corpora
    lists = c.dd(c.lst("orderedList", c.item(c.para("a"), c.lst("bulletList", c.item(c.para("b"), c.lst("taskList", c.task("t", "DONE"))))),
                       c.item(c.para("z")), order=7), c.lst("taskList", c.task("x", "DONE"), c.lst("taskList", c.task("y"))))
    params = {"p": {"q": [1, {"r": None}], "s": "t"}, "list": [[], {}]}
    ext = c.dd({"type": "extension", "attrs": {"extensionKey": "k", "extensionType": "t", "parameters": params, "text": "e"}},
               {"type": "paragraph", "attrs": {"localId": "p"}, "content": [{"type": "text", "text": "m", "marks": [
                   {"type": "link", "attrs": {"href": "h", "title": "t"}}, {"type": "strong"}]},
                   {"type": "inlineCard", "attrs": {"data": params, "url": "u"}}]},
               {"type": "table", "content": [{"type": "tableRow", "content": [
                   {"type": "tableCell", "attrs": {"colwidth": [1, 2], "localId": "c"}, "content": [c.para("x|y")]}]}]})
    failing = c.dd(c.para("ok"), {"type": "blockCard", "attrs": {}}, c.lst("bulletList", c.item(c.para("i"), c.lst("bulletList", c.item(
        {"type": "paragraph", "content": [{"type": "text", "text": "k"}, {"type": "date", "attrs": {"timestamp": "x"}}]}))), c.item(c.para("after"))),
        {"type": "table", "content": [{"type": "tableRow", "content": [{"type": "tableHeader", "content": [{"type": "mediaSingle", "content": [
            {"type": "media", "attrs": {"type": "external"}}]}]}]}]}, c.para("end"))
    good += [lists, ext, failing]
    for i in range(8):
        good.append(g.doc())
    for i in range(4):
        good.append(fl.doc())
    for i in range(4):
        good.append(sp.insert_unsupported(sp.insert_unknown(g.doc()), 4))
    for k in range(3):
        good.append(corpora.deep(g, 3 + k))
    for k in range(3):                        # the same document but for one place
        d = g.doc()
        good += [d, variant(d, rng), variant(d, rng)]
    good.append(corpora.alike(corpora.twice(g.doc(), rng), 1))
    bad = [{"raw": {"type": "doc"}, "cat": "node"}, {"raw": {"type": "nope"}, "cat": "node"}, {"raw": {"type": "paragraph"}, "cat": "mark"},
           {"raw": {"content": []}, "cat": "node"}, {"raw": c.dd({"type": "text"}), "cat": "node"},
           {"raw": c.dd({"type": "bulletList", "content": [{"type": "listItem", "content": [{"type": "heading", "attrs": {}}]}]}), "cat": "node"},
           {"raw": {"type": "link", "attrs": {}}, "cat": "mark"}, {"raw": {"type": "layoutSection"}, "cat": "node"}]
    for i in range(12):
        d = g.doc()
        n = len(sp.defects(d))
        if n:
            sp.spoil(sp.defects(d)[rng.randrange(n)])
            bad.append({"raw": d, "cat": "node"})
    return good, bad


def variant(raw, rng):
    """A copy that differs in the value of one place only: a text, an attribute, or the number of children."""
    raw = copy.deepcopy(raw)
    places = []
    for e, cat in corpora.walk(raw):
        if isinstance(e.get("text"), str) and cat == "node":
            places.append((e, "text"))
        if isinstance(e.get("attrs"), dict):
            places += [(e["attrs"], k) for k in e["attrs"] if k not in ("timestamp", "level", "order", "state", "type", "url", "panelType")]
        for k in ("content", "marks"):
            if isinstance(e.get(k), list) and e[k]:
                places.append((e, k))
    if not places:
        return raw
    d, k = rng.choice(places)
    if isinstance(d[k], str):
        d[k] = d[k][:-1] + "Q" if d[k] else "Q"
    elif isinstance(d[k], list):
        d[k] = d[k][:-1]
    else:
        d[k] = {"q": 1} if rng.random() < 0.5 else None
    return raw


def small_pool(schema):
    """Little documents for the schedules, pairs of which share classes."""
    c = corpora
    t = lambda s, *m: {"type": "text", "text": s, "marks": [{"type": x} for x in m]}
    return [c.dd({"type": "paragraph", "attrs": {"localId": "a"}, "content": [t("one", "strong")]}),
            c.dd({"type": "paragraph", "content": [t("two", "em", "strong"), {"type": "placeholder"}]}),
            c.dd(c.lst("orderedList", c.item(c.para("x"), c.lst("bulletList", c.item(c.para("y")))), order=3)),
            c.dd(c.lst("bulletList", c.item(c.para("p"), c.lst("taskList", c.task("q", "DONE")))), c.lst("orderedList", c.item(c.para("z")))),
            c.dd({"type": "panel", "attrs": {"panelType": "tip"}, "content": [{"type": "heading", "attrs": {"level": 2}, "content": [t("h")]}]}),
            c.dd({"type": "table", "content": [c.row(c.cell("tableHeader", c.para("a|b")), c.cell("tableCell", c.para("c")))]}),
            c.dd({"type": "paragraph", "content": [t("k"), {"type": "date", "attrs": {"timestamp": "bad"}}, {"type": "date", "attrs": {"timestamp": "86400000"}}]},
                 {"type": "blockCard", "attrs": {}}, {"type": "codeBlock", "attrs": {"language": "py"}, "content": [t("c\n")]}),
            c.dd({"type": "blockquote", "content": [c.para("q"), {"type": "codeBlock", "content": [t("w")]}]},
                 {"type": "paragraph", "content": [{"type": "text", "text": "l", "marks": [{"type": "link", "attrs": {"href": "h"}}]},
                                                   {"type": "emoji", "attrs": {"shortName": ":s:"}}]})]


def families(seed, schema):
    """Groups of little documents that differ in little: per type of element, its variants and their neighbours."""
    g = Gen(seed + 79, schema, p_anyval=0.3, p_opt=0.6, budget=10)
    rng = g.rng
    c = corpora
    out = []
    for t in sorted(schema["node"]):
        k = schema["node"][t]
        fam = [c.minimal(g, "node", t, False), c.minimal(g, "node", t, True)]
        for _ in range(2):
            g.budget = 8
            fam.append(g.element(t, 4))
        if k["attrs"] != "NONE":
            e = copy.deepcopy(fam[1])
            for name in k["aopt"] + k["areq"]:
                e.setdefault("attrs", {})[name] = {"q": [1, {"r": [name]}], "s": "t"}
            fam.append(e)
        base = fam[1:4]
        for e in base:
            ns = c.neighbours(e, "node", schema, g)
            fam += rng.sample(ns, min(3, len(ns)))
        out.append(fam)
    # a text with every mark, in a paragraph
    for t in sorted(schema["mark"]):
        fam = []
        for m in (c.minimal(g, "mark", t, False), c.minimal(g, "mark", t, True), g.mark(t), g.mark(t)):
            fam.append({"type": "paragraph", "content": [{"type": "text", "text": "k", "marks": [m]}, {"type": "text", "text": "l", "marks": [copy.deepcopy(m)]}]})
        ns = c.neighbours(fam[-1], "node", schema, g)
        out.append(fam + rng.sample(ns, min(5, len(ns))))
    tx = lambda s, *m: {"type": "text", "text": s, "marks": [{"type": x} for x in m]} if m else {"type": "text", "text": s}
    p = lambda *xs: {"type": "paragraph", "content": list(xs)}
    out.append([p(tx("a"), tx("b")), p(tx("ab")), p(tx("a"), tx("b"), tx("c")), p(tx("a", "strong"), tx("b", "strong")), p(tx("a", "em"), tx("b", "strong")),
                p(tx("")), p(tx(""), tx("a")), p(tx("a"), {"type": "hardBreak"}, tx("b")), p(tx("a"), tx("b", "code")), p()])
    ul, ol, tl = (lambda *x, **a: c.lst("bulletList", *x, **a)), (lambda *x, **a: c.lst("orderedList", *x, **a)), (lambda *x: c.lst("taskList", *x))
    it, pa, tk = c.item, c.para, c.task
    out.append([ul(it(pa("a"))), ul(it(pa("a"), ul(it(pa("b"))))), ul(it(pa("a"), ol(it(pa("b")), order=4))), ol(it(pa("a")), it(pa("b"))), ol(it(pa("a"), ul(it(pa("b")))), order=9),
                ol(it(pa("a"), ol(it(pa("b")))), it(pa("c")), order=2), ul(it(pa("a"), pa("b"))), ul(it(pa("a"), tl(tk("b", "DONE")))), ol(order=3), ul(it(pa("a")), it(pa("b")), it(pa("c")))])
    out.append([tl(tk("a")), tl(tk("a", "DONE")), tl(tk("a"), tl(tk("b", "DONE"))), tl(tk("a"), tl(tk("b"), tl(tk("c")))), tl(tk("a"), tk("b", "DONE"), tk("c")), ul(it(tl(tk("a")))), tl()])
    cell, row, table = c.cell, c.row, c.table
    th, td = (lambda *x: cell("tableHeader", *x)), (lambda *x: cell("tableCell", *x))
    out.append([table(row(th(pa("a")))), table(row(td(pa("a|b")))), table(row(th(pa("a")), th(pa("b"))), row(td(pa("c")))), table(row(td(pa("c"))), row(td(pa("a")), td(pa("b")))),
                table(row(td(ul(it(pa("x")))))), table(row(td(pa("a"), pa("b")))), table(), table(row()), table(row(td(pa("a")), td(pa(""))))])
    bad = {"type": "date", "attrs": {"timestamp": "bad"}}
    out.append([p(bad), p(tx("a"), bad), p(bad, tx("a")), pa("a"), ul(it(p(bad)), it(pa("b"))), c.dd(p(bad), pa("z")), table(row(td(p(bad)), td(pa("b")))), c.dd({"type": "blockCard", "attrs": {}}, pa("z"))])
    out.append([c.dd(pa("a")), c.dd(pa("a"), pa("b")), c.dd(), c.dd(pa("")), c.dd({"type": "rule"}), c.dd(ul(it(pa("a")))), c.dd(table(row(td(pa("a"))))),
                c.dd({"type": "codeBlock", "attrs": {"language": "py"}, "content": [tx("c")]}), c.dd({"type": "codeBlock", "content": [tx("c")]})])
    return out


def single_docs(seed, schema, n):
    """Documents of every kind that the other corpora have: empties in all positions, many children, all contexts, awkward texts."""
    g = Gen(seed + 80, schema, p_anyval=0.3, p_opt=0.5, budget=10)
    fl = Gen(seed + 81, schema, p_fail=0.3, p_opt=0.5, budget=10)
    c, r, out = corpora, g.rng, []
    if not n:
        return out
    take = lambda docs, k: out.extend(r.sample(docs, min(k, len(docs))))
    out.extend(c.edge_docs(g, schema, {"doc"}))
    take(list(c.edge_docs(g, schema)), 8 * n)
    take(list(c.sized_docs(g, schema)), n // 2)
    take(list(c.context_docs(g, schema, schema["node"])), 2 * n)
    take(list(c.context_docs(fl, schema, schema["node"])), n)
    take(list(c.spelled_docs(g, schema, None, 0.3)), n // 2)
    take(list(c.spelled_attrs(g, schema, None, 0.3)), n // 2)
    take(list(c.long_docs(g, schema)), n // 4)
    take(list(c.coincidences(g, schema)), n // 2)
    return out


# what a document goes through on its own
SINGLES = [[("parse", 1, 0), ("strict", 1, 0), ("look", 1, 0), ("ser", 1, 0), ("tolerant", 1, 0), ("look", 1, 0), ("parts", 1, 0), ("strict", 1, 0), ("ser", 1, 0), ("look", 1, 0)],
           [("parse", 1, 0), ("tolerant", 1, 0), ("look", 1, 0), ("strict", 1, 0), ("ser", 1, 0), ("back", 1, 2), ("look", 2, 0), ("strict", 2, 0), ("tolerant", 1, 0), ("ser", 2, 0)],
           [("parse", 1, 0), ("parts", 1, 0), ("ser", 1, 0), ("mutout", 1, 0), ("ser", 1, 0), ("again", 1, 2), ("strict", 2, 0), ("strict", 1, 0), ("mutin", 1, 0), ("look", 1, 0), ("tolerant", 1, 0), ("once", 0, 0)],
           [("off", 0, 0), ("parse", 2, 0), ("ser", 2, 0), ("on", 0, 0), ("parse", 1, 0), ("assign", 1, 0), ("look", 1, 0), ("drop", 2, 0), ("strict", 1, 0), ("ser", 1, 0)]]


class Corpus:
    """The documents of a run: positions in docs, by kind."""

    def __init__(self, seed, schema, singles=0):
        self.docs, self.bad = pools(seed, schema)
        self.large = list(range(len(self.docs)))
        self.small = []
        for d in small_pool(schema):
            self.small.append(len(self.docs))
            self.docs.append(d)
        self.fams = []
        for f in families(seed, schema):
            self.fams.append(list(range(len(self.docs), len(self.docs) + len(f))))
            self.docs += f
        self.every = list(range(len(self.docs)))
        new = single_docs(seed, schema, singles)
        self.singles = list(range(len(self.docs), len(self.docs) + len(new)))
        self.docs += new


def histories(prop, depth, wd, simulate=None, seed=1):
    """Histories printed by AdfSessionGen: all of one length, or sampled long ones."""
    args = [] if simulate is None else ["-simulate", "num=%d" % simulate, "-depth", str(depth + 1), "-seed", str(seed)]
    cfg = "AdfSessionGen.cfg" if simulate is None else "AdfSessionSim.cfg"
    out, st = K.tlc("AdfSessionGen", cfg, wd, env={"PROP": prop, "DEPTH": str(depth)}, args=args, heap="4g")
    hs = []
    for line in out.split("\n"):
        if line.startswith('"HIST '):
            hs.append([(x["op"], x["s"], x["d"]) for x in json.loads(json.loads(line)[5:])])
    if not hs:
        raise K.Machinery("no histories")
    if simulate is not None:              # TLC prints every last step of a walk: keep one of each walk
        rng, walks = random.Random(seed), {}
        for h in hs:
            walks.setdefault(json.dumps(h[:-1]), []).append(h)
        hs = [rng.choice(w) for w in walks.values()]
    return hs, st


KINDS = ["kbd", "mem", "stack"]


def faulty(h, rng):
    """A history with a fault chosen for each of its calls that do not end."""
    return [(op, s, d, [rng.choice(KINDS), rng.random(), rng.choice([1, 1, 2, 3])]) if op.startswith("cut") else (op, s, d) for op, s, d in h]


def fault_jobs(prop, tier, seed, co, wd, res, stats, hid):
    """Calls stopped on their way, and what comes after them."""
    rng = random.Random(seed + 9)
    quick, out, n = tier == "quick", [], 0
    nbad = len(co.bad)
    # after each other: a call stopped at every place it passes (about every step-th), and the same call again
    docs = [(d, 1) for d in co.small] + [(rng.choice(f), 3) for f in co.fams] + [(d, 6) for d in co.large[:6]]
    for d, step in docs if prop == "C09" else []:
        k = (12 if quick else 90) // step
        for j in range(k):
            ops, m = [], 14
            for i in range(m):
                pos = ((i * k + j) + rng.random()) / (m * k)
                f = [KINDS[(i + j) % 3] if i % 4 else "kbd", pos, (1, 1, 2, 3)[(i + j // 3) % 4]]
                if (i + j) % 5 == 4:
                    ops += [("parse", 1, d), ("cutuse", 1, 0, f), ("use", 1, 0), ("look", 1, 0)]
                else:
                    ops += [("cutonce", 0, d, f), ("once", 0, rng.choice(co.small) if i % 3 == 2 else d)]
            out.append({"hists": [{"ops": ops, "id": hid, "share": j % 4 == 3}]})
            hid += 1
            n += m
    for num, length in [(160, 30)] if quick else [(3000, 30), (100, 300)]:
        hs, st = histories("cut", length, wd, simulate=num, seed=seed + 40)
        res.transitions += st["generated"]
        for i, h in enumerate(hs):
            docs = [rng.choice(co.every) for _ in range(3)] + rng.sample(rng.choice(co.fams), 3)
            bads = [rng.randrange(nbad) for _ in range(3)]
            h = [(op, s, docs[d % 6] if op in ("parse", "once", "cutonce") else bads[d % 3] if op == "fail" else d) for op, s, d in h]
            h = faulty(h, rng)
            n += sum(len(o) == 4 for o in h)
            if i % 4 == 0:
                out.append({"hists": []})
            out[-1]["hists"].append({"ops": h, "id": hid, "share": i % 4 == 3})
            hid += 1
    stats["calls_stopped"] = n
    return out, hid


def schedules(classes, bound, wd, period=0, walks=None, seed=1):
    args = ["-simulate", "num=%d" % walks, "-depth", str(20 * classes), "-seed", str(seed)] if walks else []
    out, st = K.tlc("AdfThreads", "AdfThreads.cfg", wd, env={"CLASSES": str(classes), "BOUND": str(bound), "PERIOD": str(period)}, args=args, heap="4g")
    n = 4.0 * classes
    ss = [[(t, k / n) for t, k in json.loads(json.loads(line)[6:])] for line in out.split("\n") if line.startswith('"SCHED ')]
    if not ss:
        raise K.Machinery("no schedules")
    return ss, st


def session_shard(mode, jobs, docs, bad, memo_path, sp, wd, name, hashseed):
    d = os.path.join(wd, name)
    os.makedirs(d)
    jp, tp = os.path.join(d, "jobs.json"), os.path.join(d, "trace.json")
    json.dump({"mode": mode, "pool": docs, "bad": bad, "jobs": jobs, "budget": 150 if K.tier() == "quick" else 2400}, open(jp, "w"))
    K.record("session.py", [jp, tp, sp], d, env={"PYTHONHASHSEED": str(hashseed)}, timeout=800 if K.tier() == "quick" else 4000)
    if mode == "memo":
        return json.load(open(tp))
    n = len(json.load(open(tp)))
    out, st = K.tlc("AdfSessionTrace", "AdfSessionTrace.cfg", d, env={"TRACE": tp, "MEMO": memo_path})
    return n, K.fails(out), st


def memoize(docs, bad, sp, wd, pool):
    """What the first call in a fresh process returns, for every document."""
    parts = [pool.submit(session_shard, "memo", {"docs": list(range(len(docs)))[k::8], "bad": list(range(len(bad)))[k::8]}, docs, bad, None, sp, wd, "memo%d" % k, k)
             for k in range(8)]
    memo = {}
    for f in parts:
        memo.update(f.result())
    path = os.path.join(wd, "memo.json")
    json.dump(memo, open(path, "w"))
    return path


def used(job):
    """(documents, failing parses) that a job refers to."""
    if "docs" in job:
        return set(job["docs"]), set()
    ops = [o for h in job["hists"] for o in h["ops"]]
    return {o[2] for o in ops if o[0] in ("parse", "once", "cutonce")}, {o[2] for o in ops if o[0] == "fail"}


def trimmed(mode, job, docs, bad):
    """A self-contained record of a job for its replay."""
    d, b = used(job)
    none = {"type": "doc", "version": 1, "content": []}
    return {"mode": mode, "job": job, "pool": [x if i in d else none for i, x in enumerate(docs)],
            "bad": [x if i in b else {"raw": {}, "cat": "node"} for i, x in enumerate(bad)]}


# histories: length of the exhaustive ones, (number, length) of the sampled ones
HIST = {"quick": (4, [(2000, 24), (96, 80), (6, 500)]), "thorough": (5, [(12000, 24), (2000, 80), (60, 1500)])}


def history_jobs(prop, tier, seed, co, wd, res, stats):
    """Groups of histories; each group runs in one process."""
    rng = random.Random(seed + 5)
    depth, sampled = HIST[tier]
    nbad = len(co.bad)
    groups = []

    def conc(h, docs, bads):
        return [(op, s, docs[d % len(docs)] if op in ("parse", "once") else bads[d % len(bads)] if op == "fail" else d) for op, s, d in h]

    def several(docs, n):
        return rng.sample(docs, n) if len(docs) >= n else [rng.choice(docs) for _ in range(n)]

    hs, st = histories(prop, depth, wd)
    res.states += st["distinct"]
    res.transitions += st["generated"]
    stats["histories_exhaustive_length_%d" % depth] = len(hs)
    rng.shuffle(hs)
    cur = []
    for i, h in enumerate(hs):
        # the abstract documents 0 and 1 stand for a different pair of real ones in each history
        if i % 3 < 2:
            fam = co.fams[i % len(co.fams)]
            a, b = several(fam, 2)
        else:
            a, b = several(co.large if i % 2 else co.every, 2)
        cur.append(conc(h, [a, b], [i % nbad]))
        if len(cur) == 12:
            groups.append(cur)
            cur = []
    groups.append(cur)
    for k, (num, length) in enumerate(sampled):
        hs, st = histories(prop, length, wd, simulate=num, seed=seed + k)
        stats["histories_sampled_length_%d" % length] = len(hs)
        res.transitions += st["generated"]
        for i, h in enumerate(hs):
            if k < 2 and i % 4:           # documents much like each other
                fam = co.fams[(i * 5 + i // len(co.fams)) % len(co.fams)]
                docs = several(fam, 6)
            elif k < 2:
                docs = several(co.large if i % 8 else co.every, 6)
            else:
                docs = several(co.large, 10) + several(co.every, 10)
                h = [(op, s, rng.randrange(len(docs)) if op in ("parse", "once") else d) for op, s, d in h]
            if i % (6, 2, 1)[k] == 0:
                groups.append([])
            groups[-1].append(conc(h, docs, several(list(range(nbad)), 3)))
    # one after another, all documents that are much like each other
    for fam in co.fams * (4 if tier == "quick" else 24):
        h = []
        for d in rng.sample(fam, len(fam)) + rng.sample(fam, len(fam)):
            slot = rng.randint(1, 3)
            h += rng.choice([[("once", 0, d)], [("parse", slot, d), ("ser", slot, 0)], [("parse", slot, d), ("strict", slot, 0), ("drop", slot, 0)],
                             [("parse", slot, d), ("parts", slot, 0)]])
        groups.append([h])
    stats["histories_of_families"] = len(co.fams) * (4 if tier == "quick" else 24)
    # documents of every kind, each on its own
    for i, d in enumerate(co.singles):
        if i % 4 == 0:
            groups.append([])
        for k in range(2):
            groups[-1].append([(op, s, d if op in ("parse", "once") else x) for op, s, x in SINGLES[(2 * i + k + i // 2) % 4]])
    stats["documents_on_their_own"] = len(co.singles)
    n, jobs = 0, []
    for gr in groups:
        hists = []
        for h in gr:
            hists.append({"ops": h, "id": n, "share": n % 4 == 3})
            n += 1
        if hists:
            jobs.append({"hists": hists})
    return jobs, n


# schedules: (positions, preemptions, cap, at distinct lines?)
SCHED = {"quick": [(60, 1, None, False), (60, 1, 3200, True), (12, 2, 600, False)],
         "thorough": [(250, 1, None, False), (60, 1, 30000, True), (12, 2, None, False), (12, 2, 6000, True), (5, 4, 8000, False)]}


# threads that take turns: (positions, steps in a row), and positions of random walks with hundreds of switches
TURNS = [(25, 1), (60, 1), (60, 2), (60, 5), (150, 1), (250, 1), (250, 2), (250, 3)]
WALKS = [40, 150]


def turn_jobs(tier, seed, co, wd, res, stats, hid):
    """Schedules in which both threads run all the time."""
    rng = random.Random(seed + 8)
    out, m = [], 10 if tier == "quick" else 100
    ss = []
    for classes, period in TURNS:
        x, st = schedules(classes, 5000, wd, period)
        ss += [(classes, s) for s in x for _ in range(m)]
        res.states += st["distinct"]
        res.transitions += st["generated"]
    for classes in WALKS:
        x, st = schedules(classes, 5000, wd, 0, 8 * m, seed)
        res.transitions += st["generated"]
        ss += [(classes, s) for s in x]
    for n, (classes, s) in enumerate(ss):
        small = co.small + [rng.choice(f) for f in rng.sample(co.fams, 8)]
        a = rng.choice(co.large if n % 5 == 4 else small)
        b = a if n % 3 else rng.choice(co.large if n % 5 == 4 else small)
        out.append({"docs": [a, b], "segs": s, "opcodes": n % 4 == 3, "loc": False, "share": n % 3 == 2, "jitter": rng.uniform(-0.5, 0.5) / (4 * classes), "id": hid})
        hid += 1
    stats["schedules_in_turns"] = len(out)
    return out, hid


def schedule_jobs(tier, seed, co, wd, res, stats, hid):
    rng = random.Random(seed + 6)
    out, n = [], 0
    tiny = [f[1] for f in co.fams]
    for classes, bound, cap, loc in SCHED[tier]:
        ss, st = schedules(classes, bound, wd)
        res.states += st["distinct"]
        res.transitions += st["generated"]
        if loc:
            ss = [x for _ in range(1 + (cap or 0) // len(ss)) for x in ss]
        if cap:
            ss = rng.sample(ss, min(cap, len(ss)))
        key = "schedules_%d_preemptions" % bound
        stats[key] = stats.get(key, 0) + len(ss)
        for s in ss:
            sm = co.small
            i = n % len(sm)
            a, b = (sm[i], sm[(i + 1 + (n // len(sm)) % (len(sm) - 1)) % len(sm)]) if n % 3 else (sm[i], sm[i])
            if loc and n % 2:
                f = co.fams[(n // 2) % len(co.fams)]
                a, b = f[1], rng.choice(f + [rng.choice(tiny)])
            elif n % 7 == 6:
                a, b = rng.choice(co.large), rng.choice(co.large)
            out.append({"docs": [a, b], "segs": s, "share": a == b and n % 2 == 0, "opcodes": not loc and n % 2 == 1, "loc": loc and n % 4 + 1, "jitter": rng.uniform(-0.5, 0.5) / (4 * classes), "id": hid})
            hid += 1
            n += 1
    return out, hid


def stress_jobs(tier, seed, co, stats, hid):
    rng = random.Random(seed + 7)
    out = []
    for i in range(64 if tier == "quick" else 800):
        docs = co.every if i % 2 else co.large
        ds = [rng.choice(docs) for _ in range(rng.choice([2, 4, 8]))]
        out.append({"docs": [ds[0]] * len(ds) if i % 3 == 2 else ds, "share": i % 3 == 2, "times": 3, "id": hid})
        hid += 1
    stats["stress_runs"] = len(out)
    return out, hid


def run(prop, tier, seed, schema, sp, wd, res, pool, replay):
    work, byid, stats = [], {}, {}
    if replay is not None:
        r = replay["job"]
        docs, bad = r["pool"], r["bad"]
        byid = {h["id"]: (r["mode"], r["job"]) for h in r["job"].get("hists", [r["job"]])}
        work = [(r["mode"], [r["job"]])]
    else:
        co = Corpus(seed, schema, {"C08": (150, 1200)}.get(prop, (0, 0))[tier == "thorough"])
        docs, bad = co.docs, co.bad
        jobs, hid = history_jobs(prop, tier, seed, co, wd, res, stats)
        for j in jobs:
            for h in j["hists"]:
                byid[h["id"]] = ("hist", j)
        work += [("hist", jobs[k::8]) for k in range(8)]
        res.samples = [json.dumps(jobs[0]["hists"][0]), json.dumps(jobs[-1]["hists"][-1]["ops"][:12])]
        faults, hid = fault_jobs(prop, tier, seed, co, wd, res, stats, hid)
        for j in faults:
            for h in j["hists"]:
                byid[h["id"]] = ("hist", j)
        work += [("hist", faults[k::8]) for k in range(8)]
        if prop == "C09":
            turns, hid = turn_jobs(tier, seed, co, wd, res, stats, hid)
            sched, hid = schedule_jobs(tier, seed, co, wd, res, stats, hid)
            sched = turns + sched
            stress, hid = stress_jobs(tier, seed, co, stats, hid)
            byid.update({j["id"]: ("sched", j) for j in sched})
            byid.update({j["id"]: ("stress", j) for j in stress})
            work += [("sched", sched[k::8]) for k in range(8)] + [("stress", stress[k::4]) for k in range(4)]
            res.samples.append(json.dumps(sched[-1]))
        stats["documents"] = len(docs)
        res.extra.update(stats)
    memo = memoize(docs, bad, sp, wd, pool)
    futs = [pool.submit(session_shard, m, js, docs, bad, memo, sp, wd, "s%d" % i, (seed * 31 + i * 17) % 4000) for i, (m, js) in enumerate(work) if js]
    for f in futs:
        n, bad_ids, st = f.result()
        res.states += st["distinct"]
        res.transitions += st["generated"]
        res.validated += n
        merged = {}
        for eid, clauses in bad_ids:
            merged.setdefault(eid, set()).update(clauses)
        for eid, clauses in merged.items():
            mode, job = byid[eid]
            res.violations.append({"clauses": sorted(clauses), "event": {}, "job": trimmed(mode, job, docs, bad)})
