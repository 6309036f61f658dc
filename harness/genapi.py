"""Recorder of AdfApi: edits copies of the package, runs its code generator and imports the result.

usage: genapi.py JOBS.json OUT.json SCRATCH
Every call of the package runs in a process of its own, which may write below SCRATCH only.
"""
import compileall
import hashlib
import json
import os
import shutil
import sys
import typing
import dataclasses
import inspect
import logging
import pathlib
import enum

import jinja2                     # loaded here, so that the processes need not
import func_args.api

REPO = os.environ.get("ADF_REPO", "/repo")
HEAD = """import dataclasses
import typing as T
from func_args.api import REQ, OPT
from ..type_enum import TypeEnum
from ..mark_or_node import Base, BaseMark, BaseNode
"""


def camel(m):
    return "".join(x.capitalize() for x in m.split("_"))


def name_of(m, i, kind):
    """The name of the i-th definition of a module; every second one has a name unlike those of the library."""
    c = camel(m) if "_" in m else "Node" + camel(m)
    odd = i % 2 == 1
    n = "%s%d" % (c, i)
    x = "Zz%s_%d" % (c[4:], i)
    other = "MARK" if m.startswith("node") else "NODE"
    return {"element": n if odd else x, "attrs": n + "Attrs" if odd else x + "Settings", "derived": n + "D" if odd else x + "DAttrs",
            "subattrs": n + "SubAttrs" if odd else "TheAttrsOf" + x,
            "alias": "T_%s_%d" % (m.upper() if m[:5] in ("mark_", "node_") else "NODE_" + m.upper(), i) if odd else "T_%s_%s_%d" % (other, m.upper(), i),
            "imported": "Other" + n, "plain": "Plain" + n if odd else "Node" + x, "private": "_" + n, "function": "Node" + n.lower() if odd else "T" + x,
            "constant": "CONST_" + n.upper() if odd else "NODE_" + n.upper()}[kind]


def code(m, i, kind):
    n, base = name_of(m, i, kind), "BaseMark" if m.startswith("mark") else "BaseNode"
    dc = "@dataclasses.dataclass(frozen=True)\nclass %s(%s):\n    type: str = 'zz'\n"
    return {"element": dc % (n, base), "private": dc % (n, base),
            "attrs": "@dataclasses.dataclass(frozen=True)\nclass %s(Base):\n    x: str = OPT\n" % n,
            "subattrs": "from ..nodes.node_table_cell import NodeTableCellAttrs as _A\n@dataclasses.dataclass(frozen=True)\nclass %s(_A):\n    x: str = OPT\n" % n,
            "derived": "from ..nodes.node_paragraph import NodeParagraph as _P\n" + dc % (n, "_P"),
            "alias": "%s = T.Union[str, %d]\n" % (n, i) if i % 3 == 0 else "%s = T.Union[str, int]\n" % n,
            "imported": "from ..%s as %s\n" % (("nodes.node_text import NodeText", "marks.mark_link import MarkLink", "mark_or_node import BaseNode")[i % 3], n),
            "plain": ("class %s:\n    pass\n" if i % 3 else "@dataclasses.dataclass\nclass %s:\n    type: str = 'zz'\n") % n,
            "function": "def %s():\n    pass\n" % n, "constant": "%s = [1]\n" % n}[kind] + "\n\n"


def path_of(root, m):
    return os.path.join(root, "atlas_doc_parser", "marks" if m.startswith("mark") else "nodes", m + ".py")


def child(root, fn):
    """fn() in a process that sees the package copy below root."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            os.chdir(root)
            sys.path.insert(0, root)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            sys.addaudithook(guard(root))
            out = fn()
        except BaseException as e:
            out = {"st": type(e).__name__, "exc": str(e)[:300]}
        os.write(w, json.dumps(out).encode())
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        x = os.read(r, 1 << 16)
        if not x:
            break
        buf += x
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf) if buf else {"st": "died", "exc": ""}


def guard(root):
    root = os.path.realpath(root) + os.sep

    def hook(event, args):
        if event == "open" and isinstance(args[0], str) and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            if not os.path.realpath(args[0]).startswith(root):
                raise PermissionError("outside of the scratch copy: " + args[0])
        elif event in ("os.remove", "os.rename", "os.rmdir", "shutil.rmtree", "os.system", "subprocess.Popen", "os.unlink", "os.truncate"):
            raise PermissionError(event)
    return hook


def generate():
    import atlas_doc_parser.gen_code as g
    g.main()
    text = g.generate_api_py()
    return {"st": "ok", "text": hashlib.sha1(text.encode()).hexdigest()}


def names():
    import atlas_doc_parser.api as api
    assert os.path.realpath(api.__file__).startswith(os.path.realpath(os.getcwd()) + os.sep), api.__file__
    return {"st": "ok", "names": {n: str(getattr(getattr(api, n), "__module__", "-")) for n in dir(api)
                                  if not (n.startswith("__") and n.endswith("__"))}}


def names_of(root):
    r = child(root, names)
    if r["st"] != "ok":
        raise SystemExit("the package as it is cannot be imported: %s" % r)
    return r["names"]


def main():
    jobs = json.load(open(sys.argv[1]))
    scratch = sys.argv[3]
    out = []
    pristine = os.path.join(scratch, "pristine")
    shutil.copytree(os.path.join(REPO, "atlas_doc_parser"), os.path.join(pristine, "atlas_doc_parser"), ignore=shutil.ignore_patterns("__pycache__", "tests"))
    # compiled here, not by the processes, so that a module that is edited is never taken for its older self
    sys.pycache_prefix = None
    compileall.compile_dir(pristine, quiet=2)
    base = names_of(pristine)
    for j in jobs:
        root = os.path.join(scratch, "h%d" % j["id"], j.get("place", ""))
        shutil.copytree(pristine, root)
        out.append({"op": "fresh", "id": j["id"]})
        mods, api = {}, {}
        for h in j["ops"]:
            e = dict(h, id=j["id"])
            p = path_of(root, h["m"])
            if h["op"] == "write":
                with open(p, "w") as f:
                    f.write(HEAD + "\n\n" + "".join(code(h["m"], i + 1, k) for i, k in enumerate(h["ds"])))
                mods[h["m"]] = h["ds"]
            elif h["op"] == "delete":
                os.remove(p)
                mods.pop(h["m"])
            elif h["op"] == "break":
                with open(p, "w") as f:
                    f.write(("import zz_no_such_module\n", "from ..type_enum import ZzNone\n", "class A:\n    pass\n\n\nfrom .node_zz_none import B\n")[len(h["m"]) % 3])
                mods[h["m"]] = []
            elif h["op"] == "generate":
                e.update({"text": "-"}, **child(root, generate))
                api = {name_of(m, i + 1, k): "%s:%d:%s" % (m, i + 1, k) for m in mods for i, k in enumerate(mods[m])}
                own = {name_of(m, i + 1, k): m for m in mods for i, k in enumerate(mods[m])}
            else:
                r = child(root, names)
                ns = r.get("names", {})
                e.update(st=r["st"], exc=r.get("exc", ""), new=sorted(api[n] for n in ns if n in api),
                         gone=sorted(n for n in base if n not in ns), extra=sorted(n for n in ns if n not in base and n not in api),
                         foreign=sorted(n for n in ns if (n in base and ns[n] != base[n]) or
                                        (n in api and not n.startswith("T_") and not n.startswith("CONST_") and not ns[n].endswith("." + own[n]))))
            out.append(e)
        shutil.rmtree(os.path.join(scratch, "h%d" % j["id"]))
    shutil.rmtree(pristine)
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
