"""Recorder: runs the real library of /repo on a list of jobs and writes one trace event per job.

usage: record.py JOBS.json OUT.json SCHEMA.json
"""
import copy
import json
import logging
import os
import re
import resource
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import project as P

from func_args.api import OPT
import atlas_doc_parser.api as api
import atlas_doc_parser.settings as settings


def public(name):
    """A public name.  C23 reports one that is missing from the api; the other properties look for it elsewhere."""
    if hasattr(api, name):
        return getattr(api, name)
    for mod in list(sys.modules.values()):
        if getattr(mod, "__name__", "").startswith("atlas_doc_parser") and hasattr(mod, name):
            return getattr(mod, name)
    raise ImportError(name)


parse_node, parse_mark = public("parse_node"), public("parse_mark")
ParamError, UnimplementedTypeError = public("ParamError"), public("UnimplementedTypeError")
TypeEnum = public("TypeEnum")

REPO = os.environ.get("ADF_REPO", "/repo")
assert os.path.dirname(os.path.dirname(os.path.abspath(api.__file__))) == REPO, api.__file__


def is_opt(v):
    return v is OPT


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.NOTSET)
        self.items = []

    def emit(self, rec):
        if rec.levelno >= logging.INFO:
            m = rec.getMessage()
            self.items.append((rec.levelno, [m, bool(re.search(r"\bnode\b", m, re.I)), bool(re.search(r"\bmark\b", m, re.I))]))

    def take(self, level=logging.WARNING):
        x, self.items = self.items, []
        return [r for n, r in x if n >= level]


CAP = Capture()
logging.getLogger().addHandler(CAP)
logging.getLogger().setLevel(logging.NOTSET)


class JobTimeout(BaseException):
    """A call that does not come back."""


class Limit:
    """Bounds the processor time of one call of the code under test."""
    seconds, hits = 20.0, 0

    def __enter__(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, Limit.seconds)

    def __exit__(self, ty, *_):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if ty is JobTimeout:
            Limit.hits += 1
            Limit.seconds = 2.0


def on_alarm(*_):
    raise JobTimeout()


signal.signal(signal.SIGVTALRM, on_alarm)
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
RAISED = (Exception, JobTimeout)

sys.setrecursionlimit(6000)       # how deep a document may be depends on nothing else
SCHEMA = json.load(open(sys.argv[3])) if len(sys.argv) > 3 else None


def classify(e):
    if isinstance(e, UnimplementedTypeError):
        return "unimpl"
    if isinstance(e, ParamError):
        return "param"
    return "err"


def parse_with(how, raw, cat):
    """Parse through one of the public entry points."""
    if how == "cls":
        k = SCHEMA[cat].get(raw.get("type")) if isinstance(raw.get("type"), str) else None
        if k is not None:
            return getattr(api, k["cls"]).from_dict(raw)
    return (parse_node if cat == "node" else parse_mark)(raw)


ALIAS = False


def share(v, pool=None):
    """A copy of v in which equal parts are one and the same object."""
    pool = {} if pool is None else pool
    if type(v) is dict:
        v = {k: share(x, pool) for k, x in v.items()}
    elif type(v) is list:
        v = [share(x, pool) for x in v]
    else:
        return v
    return pool.setdefault(P.canon(v) + repr(list(v)), v)


def do_parse(raw, cat, how="fn"):
    """(outcome fields, object)"""
    CAP.take()
    try:
        arg = share(raw) if ALIAS else copy.deepcopy(raw)
        with Limit():
            o = parse_with(how, arg, cat)
    except RAISED as e:
        st = classify(e)
        ty, ec = getattr(e, "type_value", "-"), getattr(e, "category", "-")
        return {"st": st, "ety": ty if isinstance(ty, str) else "!" + repr(ty), "ecat": ec if isinstance(ec, str) else repr(ec),
                "exc": type(e).__name__ + ": " + str(e)[:200], "tree": P.NIL}, None
    try:
        tree = P.enc_obj(o, is_opt)
    except Exception as e:
        return {"st": "ok", "ety": "-", "ecat": "-", "exc": str(e)[:200], "tree": dict(P.NIL, cls="!" + type(e).__name__)}, None
    return {"st": "ok", "ety": "-", "ecat": "-", "exc": "", "tree": tree}, o


def serialize(o):
    try:
        with Limit():
            d = o.to_dict()
    except RAISED as e:
        return type(e).__name__, None
    return "ok", d


def dumps_ok(d):
    try:
        json.dumps(d, allow_nan=True)
        return True
    except Exception:
        return False


def render(o, mode):
    """[st, md] of one public to_markdown call."""
    try:
        with Limit():
            md = o.to_markdown() if mode == "s" else o.to_markdown(ignore_error=True)
    except RAISED as e:
        return {"st": "%s: %s" % (type(e).__name__, re.sub(r"0x[0-9a-f]+", "0x", str(e))[:300]), "md": ""}
    if type(md) is not str:
        return {"st": "!" + type(md).__name__, "md": ""}
    return {"st": "ok", "md": md}


def annotate(o, tree, want_words=False):
    """Adds to every node of the projected tree what it renders to."""
    tree["s"] = render(o, "s")
    tree["g"] = render(o, "g")
    if want_words:
        w = [[k, P.words(v[2:])] for k, v in tree["f"] + tree["a"] if v.startswith("s:")]
        tree["w"] = w
    if tree["cp"] == "list":
        for c, t in zip(o.content, tree["c"]):
            annotate(c, t, want_words)
    return tree


def construct(raw, cat, pool=None):
    """The element built with the public constructors instead of from_dict; where ALIAS is on, equal parts are one and the same object."""
    pool = {} if pool is None else pool
    if ALIAS:
        key = cat + json.dumps(raw)
        if key not in pool:
            pool[key] = construct1(raw, cat, pool)
        return pool[key]
    return construct1(raw, cat, pool)


def construct1(raw, cat, pool):
    k = SCHEMA[cat][raw["type"]]
    kw = {}
    for name, v in raw.items():
        if name == "type":
            continue
        if name == "attrs":
            v = getattr(api, k["acls"])(**copy.deepcopy(v))
        elif name == "content":
            v = [construct(x, "node", pool) for x in v]
        elif name == "marks":
            v = [construct(x, "mark", pool) for x in v]
        else:
            v = copy.deepcopy(v)
        kw[name] = v
    return getattr(api, k["cls"])(**kw)


def known(raw, cat):
    """raw without unsupported elements and unknown fields (checked by the specification through C06)."""
    k = SCHEMA[cat][raw["type"]]
    out = {}
    for name, v in raw.items():
        if name == "type" or name in k["xreq"] or (name == "version" and raw["type"] == "doc"):
            out[name] = v
        elif name == "attrs" and k["attrs"] != "NONE":
            out[name] = {x: y for x, y in v.items() if x in k["areq"] or x in k["aopt"]}
        elif name == "content" and k["content"] != "NONE":
            out[name] = [known(x, "node") for x in v if x.get("type") in SCHEMA["node"]]
        elif name == "marks" and k["marks"] != "NONE":
            out[name] = [known(x, "mark") for x in v if x.get("type") in SCHEMA["mark"]]
    return out


LEAVES = ("text", "hardBreak", "rule", "date", "emoji", "mention", "status", "inlineCard", "blockCard", "embedCard",
          "extension", "media")


def drop_failing(raw, tree):
    """raw without the leaves that were observed to fail (supported documents only)."""
    silent = ("caption", "mediaGroup", "mediaInline")
    if raw["type"] in silent or "content" not in raw or tree["cp"] != "list":
        return raw
    out = dict(raw)
    out["content"] = [drop_failing(r, t) for r, t in zip(raw["content"], tree["c"])
                      if not (t["t"][2:] in LEAVES and t["s"]["st"] != "ok")]
    return out


# ------------------------------------------------------------------ jobs ------
def ev_parse(j):
    e, o = do_parse(j["raw"], j["cat"], j.get("how", "fn"))
    e["raw"] = P.enc_raw(j["raw"])
    e["cat"] = j["cat"]
    return e, o


def job_C01(j):
    return ev_parse(j)[0]


def job_C04(j):
    if j.get("how") == "ctor":
        e = {"raw": P.enc_raw(j["raw"]), "cat": j["cat"], "st": "ok", "ety": "-", "ecat": "-", "exc": ""}
        try:
            construct(j["raw"], j["cat"])
        except RAISED as x:
            e["st"], e["exc"] = classify(x), type(x).__name__
        return e
    e = ev_parse(j)[0]
    e.pop("tree")
    return e


def job_C02(j):
    e, _ = ev_parse(j)
    e2, _ = do_parse(j["raw2"], j["cat"])
    e["raw2"] = P.enc_raw(j["raw2"])
    e["st2"], e["tree2"] = e2["st"], e2["tree"]
    return e


def job_C03(j):
    for i, d in enumerate(j.get("prior", [])):
        settings.WARN_UNIMPLEMENTED_TYPE = i != 1
        do_parse(d, "node")
    for v in j["before"]:
        settings.WARN_UNIMPLEMENTED_TYPE = v
    try:
        if j["offFirst"]:
            settings.WARN_UNIMPLEMENTED_TYPE = False
            off, _ = do_parse(j["raw"], j["cat"], j.get("how", "fn"))
            woff = CAP.take(logging.INFO)
        settings.WARN_UNIMPLEMENTED_TYPE = True
        e, _ = ev_parse(j)
        e["warns"] = CAP.take()
        if not j["offFirst"]:
            settings.WARN_UNIMPLEMENTED_TYPE = False
            off, _ = do_parse(j["raw"], j["cat"], j.get("how", "fn"))
            woff = CAP.take(logging.INFO)
    finally:
        settings.WARN_UNIMPLEMENTED_TYPE = True
    e["stOff"], e["treeOff"], e["warnsOff"] = off["st"], off["tree"], woff
    return e


def ser_md(o):
    if o is None:
        return P.NILRAW, []
    st, d = serialize(o)
    ser = P.enc_raw(d) if st == "ok" else dict(P.NILRAW, t="!" + st)
    if type(o).__name__.startswith("Mark"):
        try:
            with Limit():
                md = [["ok", o.to_markdown("abc")]]
        except RAISED as x:
            md = [[type(x).__name__, ""]]
    else:
        md = [[r["st"], r["md"]] for r in (render(o, "s"), render(o, "g"))]
    return ser, md


def job_C05(j):
    e, o = ev_parse(j)
    e2, o2 = do_parse(j["raw2"], j["cat"])
    e["raw2"] = P.enc_raw(j["raw2"])
    e["st2"], e["tree2"] = e2["st"], e2["tree"]
    e["ser"], e["md"] = ser_md(o)
    e["ser2"], e["md2"] = ser_md(o2)
    return e


def copies(o):
    import pickle
    yield "copy", lambda: copy.copy(o)
    yield "deepcopy", lambda: copy.deepcopy(o)
    yield "pickle", lambda: pickle.loads(pickle.dumps(o))
    yield "reparse", lambda: type(o).from_dict(o.to_dict())


def same_hash(a, b):
    """False only if both can be hashed, and differently."""
    try:
        return hash(a) == hash(b)
    except TypeError:
        return True


def job_C25(j):
    """Equality of two parsed elements, and what copies are worth."""
    e, o = ev_parse(j)
    e2, o2 = do_parse(j["raw2"], j["cat2"], j.get("how", "fn"))
    e.update(raw2=P.enc_raw(j["raw2"]), cat2=j["cat2"], st2=e2["st"], tree2=e2["tree"], hash=True, eqs=[], nes=[], others=[], copies=[])
    e["ser"], e["md"] = ser_md(o)
    e["ser2"], e["md2"] = ser_md(o2)
    if o is None:
        return e
    try:
        if o2 is not None:
            e["eqs"], e["nes"] = [o == o2, o2 == o], [o != o2, o2 != o]
            e["hash"] = same_hash(o, o2)
        e["others"] = [o == x for x in (None, o.type, j["raw"], e["md"], o.to_dict(), OPT)]
    except Exception as x:
        e["eqs"] = ["!" + type(x).__name__]
    for how, fn in list(copies(o)) + [("constructed", lambda: construct(known(j["raw"], j["cat"]), j["cat"]))]:
        c = {"how": how, "st": "ok", "eq": False, "tree": P.NIL, "ser": P.NILRAW, "md": []}
        try:
            with Limit():
                x = fn()
            c["eq"] = (x == o) is True and (o == x) is True and (x != o) is False
            c["tree"] = P.enc_obj(x, is_opt)
            c["ser"], c["md"] = ser_md(x)
        except RAISED as x:
            c["st"] = type(x).__name__
        e["copies"].append(c)
    return e


def job_C06(j):
    e, o = ev_parse(j)
    e.update(ser=P.NILRAW, ser2=P.NILRAW, st2="none", tree2=P.NIL, eq=False, cst="none", cser=P.NILRAW, ceq=False)
    if o is None:
        return e
    st, d = serialize(o)
    e["serst"] = st
    if st != "ok":
        e["ser"] = dict(P.NILRAW, t="!" + st)
        return e
    e["ser"] = P.enc_raw(d)
    e2, o2 = do_parse(d, j["cat"])
    e["st2"], e["tree2"] = e2["st"], e2["tree"]
    if o2 is not None:
        e["eq"] = bool(o == o2)
        st2, d2 = serialize(o2)
        e["ser2"] = P.enc_raw(d2) if st2 == "ok" else dict(P.NILRAW, t="!" + st2)
    try:
        c = construct(known(j["raw"], j["cat"]), j["cat"])
        e["cser"], e["cst"], e["ceq"] = P.enc_raw(c.to_dict()), "ok", bool(c == o)
    except Exception as x:
        e["cst"] = type(x).__name__ + ": " + str(x)[:100]
    return e


def job_C07(j):
    e, o = ev_parse(j)
    e.pop("tree")
    e.update(serst="none", alien=[], dumps=True, calien=[], cdumps=True)
    if o is None:
        return e
    e["serst"], d = serialize(o)
    if e["serst"] == "ok":
        e["alien"], e["dumps"] = P.alien(d), dumps_ok(d)
    try:
        c = construct(known(j["raw"], j["cat"]), j["cat"])
        d = c.to_dict()
        e["calien"], e["cdumps"] = P.alien(d), dumps_ok(d)
    except Exception as x:
        e["cdumps"] = False
        e["exc"] = type(x).__name__ + ": " + str(x)[:100]
    return e


def job_render(j):
    """Rendering events: parse, annotate every node with both outcomes."""
    e, o = do_parse(j["raw"], j.get("cat", "node"))
    if o is None:
        return None if not j.get("keep") else dict(e, raw=P.enc_raw(j["raw"]), cat="node", serst="none")
    annotate(o, e["tree"], j.get("words", False))
    if j.get("words"):
        e["words"] = P.words(e["tree"]["s"]["md"])
    if j.get("keep"):
        e["raw"], e["cat"] = P.enc_raw(j["raw"]), "node"
        e["serst"], _ = serialize(o)
    if j.get("twin"):
        e["twin"] = {"st": "none", "md": "", "tree": P.NIL}
        twin = drop_failing(j["raw"], e["tree"])
        t, o2 = do_parse(twin, "node")
        if o2 is not None:
            r = render(o2, "s")
            e["twin"] = {"st": r["st"], "md": r["md"], "tree": t["tree"]}
    return e


def job_C19(j):
    """What strict rendering returns when the stack is short, if it returns anything."""
    e, o = do_parse(j["raw"], j.get("cat", "node"))
    if o is None:
        return None
    annotate(o, e["tree"])
    depth, f = 0, sys._getframe()
    while f:
        depth, f = depth + 1, f.f_back
    old, e["stk"] = sys.getrecursionlimit(), []
    for n in (7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 19, 22, 26, 31, 37, 44, 52, 63, 76, 91):
        sys.setrecursionlimit(depth + n)
        try:
            md = o.to_markdown()
        except RAISED:
            continue
        finally:
            sys.setrecursionlimit(old)
        md = md if type(md) is str else "!" + type(md).__name__
        if md not in e["stk"]:
            e["stk"].append(md)
    return e


def job_C23(j):
    e = {"k": j["k"]}
    if j["k"] == "type":
        r, o = do_parse(j["raw"], j["cat"], j.get("how", "fn"))
        e.update(ty=j["raw"]["type"], cat=j["cat"], st=r["st"], ety=r["ety"], ecat=r["ecat"], exc=r["exc"],
                 cls=r["tree"]["cls"], own="-", exported=False)
        if o is not None:
            e["own"] = o.type if isinstance(o.type, str) else "!"
            e["exported"] = getattr(api, type(o).__name__, None) is type(o)
    elif j["k"] == "query":
        _, o = do_parse(j["raw"], j["cat"])
        q = [getattr(TypeEnum, x, None) for x in j["q"]]
        if o is None or None in q:      # reported by the events about the type and the enumeration
            return None
        if "before" in j:               # the same list object asked for before, with other members
            kept = []
            for b in j["before"]:
                kept[:] = [getattr(TypeEnum, x, None) for x in b]
                try:
                    o.is_type_of(kept)
                except Exception:
                    pass
            kept[:] = q
            q = kept
        try:
            res = bool(o.is_type_of(q[0] if j.get("single") else q))
        except Exception as x:
            res = not (j["raw"]["type"] in j["q"])
        e.update(ty=j["raw"]["type"], q=j["q"], res=res)
    elif j["k"] == "enum":
        e.update(names=[m for m in TypeEnum.__members__], values=[m.value for m in TypeEnum.__members__.values()])
    elif j["k"] == "api":
        e.update(names=sorted(n for n in dir(api) if not n.startswith("__")))
    return e


JOBS = {"C01": job_C01, "C02": job_C02, "C03": job_C03, "C04": job_C04, "C05": job_C05, "C06": job_C06, "C07": job_C07,
        "C19": job_C19, "C23": job_C23, "C25": job_C25}


def main():
    global ALIAS
    if sys.argv[1] == "--probe":
        return
    jobs = json.load(open(sys.argv[1]))
    prop = jobs["prop"]
    fn = JOBS.get(prop, job_render)
    out = []
    for j in jobs["jobs"]:
        if "tz" in j:
            import time
            os.environ["TZ"] = j["tz"]
            time.tzset()
        if Limit.hits > 15:      # enough calls that do not come back
            break
        ALIAS = j["id"] % 2 == 1
        e = fn(j)
        if e is not None:
            e["id"] = j["id"]
            out.append(e)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
