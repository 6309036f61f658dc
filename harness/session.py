"""Recorder of histories: runs operations of spec/AdfSession.tla on the real library.

usage: session.py JOBS.json OUT.json SCHEMA.json
jobs: {"mode": "memo" | "hist" | "sched" | "stress", "pool": [...], "bad": [...], "jobs": [...]}
Every group of histories, and every schedule, runs in a forked process that has not used the library before.
"""
import copy
import hashlib
import json
import logging
import os
import select
import signal
import sys
import threading
import time

import record as R
import project as P
from record import api, settings

JOBS = json.load(open(sys.argv[1]))
POOL, BAD = JOBS["pool"], JOBS["bad"]


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:14]


def parse(raw, cat="node", how="fn"):
    """(object or None, result)"""
    try:
        o = R.parse_with(how, raw, cat)
    except Exception as e:
        ty, ec = getattr(e, "type_value", "-"), getattr(e, "category", "-")
        return None, "raise:%s:%s:%s:%s" % (R.classify(e), type(e).__name__, ty, ec)
    return o, look(o)


def look(o):
    if o is None:
        return "no-object"
    try:
        return digest(P.enc_obj(o, R.is_opt))
    except Exception as e:
        return "unreadable:" + type(e).__name__


def ser(o):
    """(dict or None, result)"""
    if o is None:
        return None, "no-object"
    try:
        d = o.to_dict()
    except Exception as e:
        return None, "raise:" + type(e).__name__
    return d, digest(P.canon(d))


def md(o, mode):
    if o is None:
        return "no-object"
    try:
        return digest(["md", o.to_markdown() if mode == "s" else o.to_markdown(ignore_error=True)])
    except Exception as e:
        return "raise:%s:%s" % (type(e).__name__, digest(str(e)))


def once(i):
    """Digest of all that handling document i gives; nothing of it is kept."""
    o, r = parse(copy.deepcopy(POOL[i]))
    return digest([r, ser(o)[1], md(o, "s"), md(o, "g")])


def use(o):
    """Digest of a document's serialized form and its Markdown."""
    return digest([ser(o)[1], md(o, "s"), md(o, "g")])


# ---------------------------------------------------------------- faults ------
PACKAGE = os.path.join(R.REPO, "atlas_doc_parser") + os.sep
_CLEANUP = {}


def cleanup(filename):
    """Lines where a program may assume that no call fails: beginnings of try and with, handlers, finally, __exit__."""
    if filename not in _CLEANUP:
        import ast
        out = set()
        span = lambda ns: out.update(x for n in ns for x in range(n.lineno, (n.end_lineno or n.lineno) + 1))
        for n in ast.walk(ast.parse(open(filename, encoding="utf-8").read())):
            if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                out.add(n.lineno)
                span(n.handlers)
                span(n.finalbody)
                if n.finalbody:
                    out.update(range(n.finalbody[0].lineno - 2, n.finalbody[0].lineno))
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                out.update(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__exit__", "__del__"):
                span([n])
        _CLEANUP[filename] = out
    return _CLEANUP[filename]


class Fault:
    """An exception at the nth time that a line of the package is reached, or when the stack is too deep."""

    def __init__(self, kind, at):
        self.kind, self.at, self.n, self.fired = kind, at, 0, False

    def local(self, frame, event, arg):
        if event == "line" and frame.f_lineno == self.at[1]:
            self.n += 1
            if self.n == self.at[2]:
                self.fired = True
                raise KeyboardInterrupt() if self.kind == "kbd" else MemoryError()
        return self.local

    def glob(self, frame, event, arg):
        return self.local if frame.f_code.co_filename == self.at[0] else None

    def call(self, fn, *args, **kw):
        """(did it return?, value or exception)"""
        old, depth, f = sys.getrecursionlimit(), 0, sys._getframe()
        while f:
            depth, f = depth + 1, f.f_back
        try:
            if self.kind == "stack":
                sys.setrecursionlimit(depth + self.at)
            elif self.kind != "none" and not self.fired:
                sys.settrace(self.glob)
            return True, fn(*args, **kw)
        except BaseException as e:
            self.fired = self.fired or self.kind == "stack"
            return False, e
        finally:
            sys.settrace(None)
            sys.setrecursionlimit(old)


def cut(fault, o, raw=None):
    """(result or "cut", document) of parsing raw, or else of using o, under a fault."""
    out = []
    logging.raiseExceptions = False
    if raw is not None:
        ok, x = fault.call(R.parse_with, "fn", raw, "node")
        if not ok and fault.fired:
            return "cut"
        if not ok:
            return digest([parse(raw)[1], ser(None)[1], md(None, "s"), md(None, "g")])
        o = x
        out.append(look(o))
    for f in ("ser", "s", "g"):
        kw, was = {"ignore_error": True} if f == "g" else {}, fault.fired
        go = getattr(o, "to_dict" if f == "ser" else "to_markdown")
        # a tolerant rendering may leave out what fails for lack of memory or stack
        ok, x = Fault("none", None).call(go, **kw) if f == "g" and fault.kind == "stack" else fault.call(go, **kw)
        if fault.fired and not was and (not ok or f == "g" and fault.kind == "mem"):
            return "cut"
        out.append(("raise:" + type(x).__name__ if f == "ser" else "raise:%s:%s" % (type(x).__name__, digest(str(x)))) if not ok else
                   digest(P.canon(x)) if f == "ser" else digest(["md", x]))
    return digest(out)


def places_of(i):
    """For document i, the lines that handling and using it passes: [file, line, times], and how much stack it needs."""
    seen, out = {}, []

    def local(frame, event, arg):
        if event == "line":
            k = (frame.f_code.co_filename, frame.f_lineno)
            seen[k] = seen.get(k, 0) + 1
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PACKAGE) else None

    def listed():
        x = [[f, l, n] for (f, l), n in seen.items() if l not in cleanup(f)]
        seen.clear()
        return x
    raw = copy.deepcopy(POOL[i])
    sys.settrace(glob)
    o = None
    try:
        o = R.parse_with("fn", raw, "node")
    except Exception:
        pass
    finally:
        sys.settrace(None)
    first = listed()
    sys.settrace(glob)
    try:
        use(o)
    finally:
        sys.settrace(None)
    then = listed()
    lo, hi = 1, 900
    while lo < hi:
        f = Fault("stack", (lo + hi) // 2)
        cut(f, None, copy.deepcopy(POOL[i]))
        lo, hi = ((lo + hi) // 2 + 1, hi) if f.fired else (lo, (lo + hi) // 2)
    return {"once": first + then, "use": then, "stack": lo}


PLACES = {}


def fault_of(f, i, what):
    """The fault that f = [kind, position, time] stands for in document i."""
    p = PLACES[i]
    kind, pos, nth = f
    if kind == "stack":
        return Fault("stack", max(2, int(pos * p["stack"])))
    if not p[what]:
        return Fault(kind, ["", 0, 1])
    x = p[what][min(len(p[what]) - 1, int(pos * len(p[what])))]
    return Fault(kind, [x[0], x[1], {1: 1, 2: min(2, x[2])}.get(nth, x[2])])


def scramble(v):
    """Change every place of a dict in place."""
    if isinstance(v, dict):
        for k in list(v):
            if isinstance(v[k], (dict, list)):
                scramble(v[k])
            else:
                v[k] = "MUT"
        if len(v) > 1:
            del v[sorted(v)[0]]
        v["mut"] = 1
    elif isinstance(v, list):
        for i, x in enumerate(v):
            if isinstance(x, (dict, list)):
                scramble(x)
            else:
                v[i] = "MUT"
        v.reverse()
        v.append("MUT")


def parts(o):
    """Digest of what each element below o (marks and attrs objects too) serializes and renders to."""
    import dataclasses
    if o is None:
        return "no-object"
    out = []

    def visit(x):
        if dataclasses.is_dataclass(x):
            try:
                d = x.to_dict()
                out.append(P.canon(d))
                scramble(d)
            except Exception as e:
                out.append("raise:" + type(e).__name__)
            if hasattr(x, "to_markdown"):
                for m in ("sg" if hasattr(x, "is_type_of") and not type(x).__name__.startswith("Mark") else "m"):
                    try:
                        out.append(x.to_markdown("k l") if m == "m" else x.to_markdown() if m == "s" else x.to_markdown(ignore_error=True))
                    except Exception as e:
                        out.append("raise:%s:%s" % (type(e).__name__, e))
            for f in dataclasses.fields(x):
                visit(getattr(x, f.name, None))
        elif isinstance(x, list):
            for y in x:
                visit(y)
    visit(o)
    return digest(out)


def assign(o):
    """Try to assign to every field of every element and attrs object below o."""
    import dataclasses
    if o is None:
        return "no-object"
    out = []

    def visit(x):
        if not dataclasses.is_dataclass(x):
            return
        for f in dataclasses.fields(x):
            old = getattr(x, f.name, None)
            try:
                setattr(x, f.name, "ASSIGNED")
            except Exception:
                pass
            else:
                out.append("%s.%s" % (type(x).__name__, f.name))
                object.__setattr__(x, f.name, old)
            for y in old if isinstance(old, list) else [old]:
                visit(y)
    visit(o)
    return "rejected" if not out else "accepted:" + ",".join(sorted(set(out))[:3])


def run_history(hist, hid, share, out):
    settings.WARN_UNIMPLEMENTED_TYPE = True
    obj, inp, outp, held = {}, {}, {}, {}
    out.append({"op": "fresh", "id": hid})
    for op, s, d, *f in hist:
        same = True
        if op == "parse":
            inp[s] = R.share(POOL[d]) if share else copy.deepcopy(POOL[d])
            before = P.canon(inp[s])
            obj[s], res = parse(inp[s], how="cls" if s == 2 else "fn")
            same = P.canon(inp[s]) == before
            outp[s] = None
            held[s] = d
        elif op in ("again", "back"):
            src = inp[s] if op == "again" else outp[s]
            before = P.canon(src)
            if src is None:
                obj[d], res = None, "no-object"
            else:
                obj[d], res = parse(src)
            same = P.canon(src) == before
            inp[d] = outp[d] = None
            held[d] = held.get(s)
        elif op == "ser":
            outp[s], res = ser(obj[s])
        elif op in ("strict", "tolerant"):
            res = md(obj[s], "s" if op == "strict" else "g")
        elif op == "parts":
            res = parts(obj[s])
        elif op == "once":
            res = once(d)
        elif op == "use":
            res = use(obj[s]) if obj[s] is not None else use(None)
        elif op == "cutonce":
            raw = R.share(POOL[d]) if share else copy.deepcopy(POOL[d])
            before = P.canon(raw)
            res = cut(fault_of(f[0], d, "once"), None, raw)
            same = P.canon(raw) == before
            op = op if res == "cut" else "once"
        elif op == "cutuse":
            res = cut(fault_of(f[0], held[s], "use"), obj[s]) if obj[s] is not None else "cut"
            op = op if res == "cut" else "use"
        elif op == "drop":
            obj[s] = inp[s] = outp[s] = None
            res = "done"
        elif op == "look":
            res = look(obj[s])
        elif op in ("mutin", "mutout"):
            scramble(inp[s] if op == "mutin" else outp[s])
            res = "done"
        elif op == "assign":
            res = assign(obj[s])
        elif op == "fail":
            b = BAD[d]
            _, res = parse(copy.deepcopy(b["raw"]), b["cat"])
        else:
            settings.WARN_UNIMPLEMENTED_TYPE = op == "on"
            res = "done"
        out.append({"op": op, "s": s, "d": d, "res": res, "same": same, "id": hid})
    settings.WARN_UNIMPLEMENTED_TYPE = True


# ---------------------------------------------------------------- threads -----
LIB = (os.path.join(R.REPO, "atlas_doc_parser") + os.sep, os.sep + "func_args" + os.sep)


def traced(filename):
    return filename.startswith(LIB[0]) or LIB[1] in filename


class Baton:
    """Lets one thread run at a time; hands over after a number of lines (or byte codes)."""

    def __init__(self, segs, opcodes, n, places=False):
        self.places = [] if places else None      # where each step of thread 1 was
        self.segs, self.opcodes, self.i = segs, opcodes, 0
        self.count = [0] * (n + 1)
        self.done = [False] * (n + 1)
        self.cond = threading.Condition()
        self.free = False

    def turn(self):
        while self.i < len(self.segs) and self.done[self.segs[self.i][0]]:
            self.i += 1
        return self.segs[self.i][0] if self.i < len(self.segs) else None

    def wait(self, t):
        with self.cond:
            seen, since = sum(self.count), time.time()
            while not self.free and self.turn() not in (t, None):
                self.cond.wait(0.05)
                now = sum(self.count)
                if now != seen:
                    seen, since = now, time.time()
                elif time.time() - since > 0.2:     # the running thread waits for a lock that this one holds
                    self.free = True
                    self.cond.notify_all()

    def tick(self, t, frame):
        self.count[t] += 1
        if self.places is not None:
            self.places.append((frame.f_code.co_filename, frame.f_lineno))
        if self.free or self.i >= len(self.segs):
            return
        seg = self.segs[self.i]
        if seg[0] == t and seg[1] is not None and self.count[t] >= seg[1]:
            with self.cond:
                self.i += 1
                self.cond.notify_all()
            self.wait(t)

    def finish(self, t):
        with self.cond:
            self.done[t] = True
            self.turn()
            self.cond.notify_all()

    def tracer(self, t):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self.tick(t, frame)
            return local

        def glob(frame, event, arg):
            if not traced(frame.f_code.co_filename):
                return None
            if self.opcodes:
                frame.f_trace_opcodes, frame.f_trace_lines = True, False
            return local
        return glob


def distinct(places):
    """Per distinct line that ran, the steps at which it did (the first few, and the last)."""
    at = {}
    for i, p in enumerate(places):
        at.setdefault(p, []).append(i + 1)
    return [v[:3] + v[-1:] for v in at.values()]


def work(t, d, log, times=1, shared=None):
    """Handle document d, logging begin and end of every call."""
    for _ in range(times):
        log("begin", t, "tree:%d" % d, "tree", None)
        o, r = shared or parse(copy.deepcopy(POOL[d]))
        log("end", t, "", "tree", r)
        log("begin", t, "ser:%d" % d, "ser", None)
        log("end", t, "", "ser", ser(o)[1])
        for m in "sg":
            log("begin", t, "md:%s:%d" % (m, d), "md", None)
            log("end", t, "", "md", md(o, m))


def run_threads(docs, segs, opcodes, jid, times=1, places=False, share=False):
    out, lock = [{"op": "fresh", "id": jid}], threading.Lock()

    def log(op, t, what, kind, res):
        with lock:
            e = {"op": op, "s": t, "id": jid, "kind": kind}
            e["what" if op == "begin" else "res"] = what if op == "begin" else res
            out.append(e)
    baton = Baton(segs, opcodes, len(docs), places) if segs is not None else None
    if baton is None:
        sys.setswitchinterval(2e-6)

    # with share, all threads work on one object
    shared = parse(copy.deepcopy(POOL[docs[0]])) if share else None

    def body(t):
        if baton:
            baton.wait(t)
            sys.settrace(baton.tracer(t))
        try:
            work(t, docs[t - 1], log, times, shared)
        finally:
            sys.settrace(None)
            if baton:
                baton.finish(t)
    ths = [threading.Thread(target=body, args=(i + 1,), daemon=True) for i in range(len(docs))]
    for x in ths:
        x.start()
    for x in ths:
        x.join(60)
    if any(x.is_alive() for x in ths):
        return [out[0], {"op": "begin", "s": 8, "id": jid, "kind": "hang", "what": "returns"},
                {"op": "end", "s": 8, "id": jid, "kind": "hang", "res": "never-returned"}], []
    if places:
        return distinct(baton.places)
    return out, baton.count[1:] if baton else []


# ---------------------------------------------------------------- processes ---
def forked(fn, timeout=120):
    """Result of fn in a fresh process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            data = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException as e:
            sys.stderr.write("child: %r\n" % e)
            code = 1
        os._exit(code)
    os.close(w)
    buf, end = [], time.time() + timeout
    while True:
        ok, _, _ = select.select([r], [], [], max(0, end - time.time()))
        if not ok:
            os.kill(pid, signal.SIGKILL)
            break
        x = os.read(r, 1 << 20)
        if not x:
            break
        buf.append(x)
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(b"".join(buf))
    except ValueError:
        return None


def memo_of(i):
    o, r = parse(copy.deepcopy(POOL[i]))
    out = {"tree:%d" % i: r}
    out["ser:%d" % i] = ser(o)[1]
    out["md:s:%d" % i], out["md:g:%d" % i] = md(o, "s"), md(o, "g")
    out["once:%d" % i] = digest([r, out["ser:%d" % i], out["md:s:%d" % i], out["md:g:%d" % i]])
    out["use:%d" % i] = digest([out["ser:%d" % i], out["md:s:%d" % i], out["md:g:%d" % i]])
    return out


def memo_parts(i):
    o, r = parse(copy.deepcopy(POOL[i]))
    return {"parts:%d" % i: parts(o)}


def main():
    mode, start = JOBS["mode"], time.time()
    R.CAP.items = []
    if mode == "memo":
        out = {}
        for i in JOBS["jobs"]["docs"]:
            out.update(forked(lambda: memo_of(i)) or {})
            out.update(forked(lambda: memo_parts(i)) or {})
        for i in JOBS["jobs"]["bad"]:
            b = BAD[i]
            out["bad:%d" % i] = forked(lambda: parse(copy.deepcopy(b["raw"]), b["cat"])[1])
    elif mode == "hist":
        out = []
        for group in JOBS["jobs"]:
            if out and time.time() - start > JOBS["budget"]:     # a code or machine so slow that the rest must be left
                break
            for d in {o[2] for h in group["hists"] for o in h["ops"] if o[0] in ("parse", "cutonce")} \
                    if any(o[0].startswith("cut") for h in group["hists"] for o in h["ops"]) else ():
                if d not in PLACES:
                    PLACES[d] = forked(lambda: places_of(d)) or {"once": [], "use": [], "stack": 100}

            def run():
                ev = []
                for h in group["hists"]:
                    run_history(h["ops"], h["id"], h.get("share", False), ev)
                    R.CAP.items.clear()
                return ev
            r = forked(run)
            if r is None:
                h = group["hists"][0]
                r = [{"op": "fresh", "id": h["id"]}, {"op": "begin", "s": 1, "what": "returns", "kind": "group", "id": h["id"]},
                     {"op": "end", "s": 1, "res": "never-returned", "kind": "group", "id": h["id"]}]
            out += r
    else:
        out, length = [], {}
        for j in JOBS["jobs"]:
            if out and time.time() - start > JOBS["budget"]:
                break
            segs = None
            if mode == "sched":
                segs = []
                for t, frac in j["segs"]:
                    d, loc = j["docs"][t - 1], j.get("loc")
                    key = (d, j["opcodes"], bool(loc), j.get("share", False))
                    if key not in length:
                        length[key] = forked(lambda: run_threads([d], [(1, None)], j["opcodes"], 0, 1, bool(loc), j.get("share", False)))
                    r, at = length[key], None
                    if frac < 1 and loc:
                        frac = min(0.999, max(0, frac + j["jitter"]))
                        v = r[int(frac * len(r))] if r else [100]
                        at = v[min(loc, len(v)) - 1]
                    elif frac < 1:
                        n = r[1][0] if r else 100
                        at = max(1, int(frac * n + j["jitter"] * n))
                    segs.append((t, at))
                for t in (1, 2):
                    segs.append((t, None))
            r = forked(lambda: run_threads(j["docs"], segs, j.get("opcodes", False), j["id"], j.get("times", 1), share=j.get("share", False)))
            if r is None:
                r = [[{"op": "fresh", "id": j["id"]}, {"op": "begin", "s": 1, "what": "returns", "kind": "hang", "id": j["id"]},
                      {"op": "end", "s": 1, "res": "never-returned", "kind": "hang", "id": j["id"]}]]
            out += r[0] if isinstance(r[0], list) else r
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
