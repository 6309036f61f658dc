"""Projection of raw documents, real objects and results to the encoding of spec/AdfDoc.tla.

Used inside the recorder process, which runs the code of /repo.
"""
import json
import re

WORD = re.compile(r"Zw\d+k")

NIL = {"cls": "-", "t": "-", "f": [], "ap": "-", "acls": "-", "a": [], "cp": "-", "c": [], "mp": "-", "m": []}
NILRAW = {"t": "-", "f": [], "ap": "-", "a": [], "cp": "-", "c": [], "mp": "-", "m": []}


def tag(v):
    """Tagged string of a value."""
    if v is None:
        return "z"
    tv = type(v)
    if tv is str:
        return "s:" + v
    if tv is bool:
        return "b:true" if v else "b:false"
    if tv is int:
        return "n:%d" % v
    if tv is float:
        return "f:%r" % v
    if tv in (list, dict):
        return "j:" + canon(v)
    return "!" + tv.__name__


def canon(v):
    """Canonical JSON-like text of any value; never fails."""
    tv = type(v)
    if tv is dict:
        return "{" + ",".join("%s:%s" % (canon(k), canon(v[k])) for k in sorted(v, key=lambda k: (str(type(k)), str(k)))) + "}"
    if tv is list:
        return "[" + ",".join(canon(x) for x in v) + "]"
    if v is None or tv in (str, bool, int):
        return json.dumps(v, ensure_ascii=False)
    if tv is float:
        return repr(v) + "f"
    return "!" + tv.__name__


def pairs(d):
    return [[str(k), tag(d[k])] for k in sorted(d, key=str)]


def enc_raw(d):
    """Raw element."""
    if type(d) is not dict:
        return dict(NILRAW, t="!" + type(d).__name__)
    out = {"t": tag(d["type"]) if "type" in d else "-",
           "f": pairs({k: v for k, v in d.items() if k not in ("type", "attrs", "content", "marks")})}
    a = d.get("attrs", out)
    if a is out:
        out["ap"], out["a"] = "-", []
    elif type(a) is dict:
        out["ap"], out["a"] = "obj", pairs(a)
    else:
        out["ap"], out["a"] = tag(a), []
    for key, p, f in (("content", "cp", "c"), ("marks", "mp", "m")):
        v = d.get(key, out)
        if v is out:
            out[p], out[f] = "-", []
        elif type(v) is list and all(type(x) is dict for x in v):
            out[p], out[f] = "list", [enc_raw(x) for x in v]
        else:
            out[p], out[f] = tag(v), []
    return out


def enc_obj(o, is_opt):
    """Parsed object (an element)."""
    import dataclasses
    if not dataclasses.is_dataclass(o) or isinstance(o, type):
        return dict(NIL, cls="!" + type(o).__name__, t=tag(o))
    names = [f.name for f in dataclasses.fields(o)]
    out = {"cls": type(o).__name__, "acls": "-", "ap": "-", "a": [], "cp": "-", "c": [], "mp": "-", "m": []}
    v = getattr(o, "type", None)
    out["t"] = "-" if is_opt(v) else tag(v)
    fs = {}
    for name in names:
        v = getattr(o, name)
        if name == "type" or is_opt(v):
            continue
        if name == "attrs":
            if dataclasses.is_dataclass(v) and not isinstance(v, type):
                out["ap"], out["acls"] = "obj", type(v).__name__
                out["a"] = pairs({f.name: getattr(v, f.name) for f in dataclasses.fields(v)
                                  if not is_opt(getattr(v, f.name))})
            else:
                out["ap"] = tag(v)
        elif name in ("content", "marks"):
            p, f = ("cp", "c") if name == "content" else ("mp", "m")
            if type(v) is list:
                out[p], out[f] = "list", [enc_obj(x, is_opt) for x in v]
            else:
                out[p] = tag(v)
        else:
            fs[name] = v
    out["f"] = pairs(fs)
    return out


def alien(v, path="", out=None):
    """Places in a serialized value that are not plain JSON."""
    out = [] if out is None else out
    if len(out) >= 5:
        return out
    if type(v) is dict:
        for k, x in v.items():
            if type(k) is not str:
                out.append("%s key %r" % (path, k))
            alien(x, "%s.%s" % (path, k), out)
    elif type(v) is list:
        for i, x in enumerate(v):
            alien(x, "%s[%d]" % (path, i), out)
    elif not (v is None or type(v) in (str, bool, int, float)):
        out.append("%s %s" % (path, type(v).__name__))
    return out


def words(s):
    return WORD.findall(s)
