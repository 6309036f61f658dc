"""Models to check per property, and the documents enumerated by the specification."""
import copy
import json
import os
import random

import common as K
import corpora
from gen import Gen, Spoiler

PARSE = ("C01", "C02", "C03", "C04", "C05", "C06", "C07")
RENDER = ("C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C24")
# sizes of the small scopes: documents checked on the model / replayed into the code
SIZES = {"quick": (1, 2), "thorough": (2, 3)}


def models(prop, tier):
    live = "Live" if tier == "thorough" else ""
    size = str(SIZES[tier][0])
    if prop in ("C08", "C09"):
        ms = [dict(module="AdfSessionMC", cfg="AdfSessionMC.cfg", env={})]
        return ms
    if prop == "C26":
        return [dict(module="AdfApiMC", cfg="AdfApiMC.cfg", env={})]
    if prop == "C20":
        return [dict(module="AdfCalendar", cfg="AdfCalendar.cfg", env={"SIZE": size})]
    if prop == "C25":
        return [dict(module="AdfEqual", cfg="AdfEqual.cfg", env={"PROP": prop, "SIZE": size})]
    if prop in PARSE:
        return [dict(module="AdfParser", cfg="AdfParser%s.cfg" % live, env={"PROP": prop, "SIZE": size})]
    if prop in RENDER:
        return [dict(module="AdfRenderer", cfg="AdfRenderer%s.cfg" % live, env={"PROP": prop, "SIZE": size})]
    return []


def run_model(mc, wd, tier):
    out, st = K.tlc(mc["module"], mc["cfg"], wd, env=mc["env"], workers=2 if tier == "quick" else 4,
                    heap="2g" if tier == "quick" else "6g")
    if st["distinct"] == 0:
        raise K.Machinery("the model %s has no states" % mc["cfg"])
    return st


def untag(v):
    k, x = v[:2], v[2:]
    return {"s:": lambda: x, "n:": lambda: int(x), "b:": lambda: x == "true", "f:": lambda: float(x)}.get(k, lambda: None)()


def decode(n):
    """Encoded raw element to JSON."""
    out = {}
    if n["t"] != "-":
        out["type"] = untag(n["t"])
    for k, v in n["f"] or []:
        out[k] = untag(v)
    if n["ap"] == "obj":
        out["attrs"] = {k: untag(v) for k, v in n["a"] or []}
    if n["cp"] == "list":
        out["content"] = [decode(x) for x in n["c"] or []]
    if n["mp"] == "list":
        out["marks"] = [decode(x) for x in n["m"] or []]
    return out


def small_docs(prop, tier, schema, wd):
    if prop not in PARSE + RENDER + ("C25",) or prop in ("C20",):
        return []
    path = os.path.join(wd, "small.json")
    K.tlc("ExportSmall", "ExportSmall.cfg", wd, env={"PROP": prop, "SIZE": str(SIZES[tier][1]), "OUT": path}, heap="4g")
    docs = [decode(d) for d in json.load(open(path))]
    if not docs:
        raise K.Machinery("empty small scope for " + prop)
    rng = random.Random(K.seed())
    sp = Spoiler(Gen(K.seed(), schema))
    out = []
    for i, d in enumerate(docs):
        j = {"raw": d, "cat": "node"}
        if prop == "C01":
            j["how"] = ("fn", "cls")[i % 2]
        elif prop == "C02":
            j["raw2"] = corpora.prune(d, schema)
        elif prop == "C03":
            j.update(offFirst=bool(i % 2), before=[rng.random() < 0.5 for _ in range(rng.randint(0, 2))])
        elif prop == "C05":
            j = {"raw": sp.insert_unknown(copy.deepcopy(d)), "raw2": d, "cat": "node"}
        elif prop == "C25":
            j.update(raw2=corpora.prune(d, schema), cat2="node")
            out += [{"raw": d, "raw2": x, "cat": "node", "cat2": "node"} for x in rng.sample(docs, min(3, len(docs)))]
        elif prop == "C10":
            j["words"] = True
        elif prop == "C18":
            j["twin"] = True
        elif prop == "C24":
            j["keep"] = True
        out.append(j)
    return out
