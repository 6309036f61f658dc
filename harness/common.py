"""Running TLC and the recorder."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("ADF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The framework itself failed: never a verdict on the code."""


def tlc(module, cfg, workdir, env=None, args=(), workers=1, heap="1500m", timeout=800, ok=(0,)):
    """Run TLC on spec/<module>.tla with spec/<cfg>.  Returns (stdout, stats)."""
    meta = tempfile.mkdtemp(dir=workdir, prefix="meta")
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m",
           "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ, UNICODE=os.path.join(SPEC, "unicode.json"), LC_ALL="C.UTF-8", JAVA_TOOL_OPTIONS="-Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on %s/%s" % (module, cfg))
    out = p.stdout.decode("utf-8", "replace")
    shutil.rmtree(meta, ignore_errors=True)
    if p.returncode not in ok:
        raise Machinery("TLC exit %d on %s/%s\n%s" % (p.returncode, module, cfg, out[-4000:]))
    st = {"generated": 0, "distinct": 0, "rc": p.returncode}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        st["generated"], st["distinct"] = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The number of states generated: (\d+)", out)      # simulation mode
    if m:
        st["generated"] = int(m[-1])
    return out, st


def export_schema(workdir):
    path = os.path.join(workdir, "schema.json")
    tlc("ExportSchema", "ExportSchema.cfg", workdir, env={"OUT": path})
    s = json.load(open(path))
    for cat in ("node", "mark"):
        for k in s[cat].values():
            for f in ("xreq", "areq", "aopt"):
                k[f] = sorted(k[f])
    for key in ("child", "markof"):
        s[key] = {k: sorted(v) for k, v in s[key].items()}
    s["unsupported"] = sorted(s["unsupported"])
    json.dump(s, open(path, "w"))
    return s, path


def py_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8", CI="true", TZ="UTC", PYTHONPATH=REPO)
    e.update(extra or {})
    return e


def record(script, args, workdir, timeout=600, env=None):
    """Run a recorder under the project's interpreter; bytecode caches are never read or written."""
    cmd = [PY, "-X", "pycache_prefix=" + os.path.join(workdir, "nopyc"), os.path.join(HERE, script)] + list(args)
    try:
        p = subprocess.run(cmd, cwd=workdir, env=py_env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("recorder timed out: %s" % script)
    if p.returncode:
        raise Machinery("recorder failed (%d): %s" % (p.returncode, p.stdout.decode("utf-8", "replace")[-3000:]))
    return p.stdout.decode("utf-8", "replace")


FAIL = re.compile(r'^<<"FAIL", (\d+), \{(.*)\}>>$')


def fails(out):
    """[(event id, [clauses])] from the output of a trace specification."""
    res = []
    # TLC may wrap long values over lines
    text = re.sub(r"\n\s+", " ", out)
    for line in text.split("\n"):
        if '"FAIL"' in line:
            m = re.match(r'<<\s*"FAIL",\s*(\d+),\s*\{(.*)\}\s*>>', line.strip())
            if not m:
                raise Machinery("unreadable verdict: " + line[:300])
            res.append((int(m.group(1)), re.findall(r'"([^"]*)"', m.group(2))))
    return res


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def tier():
    return os.environ.get("VERIF_TIER", "quick") or "quick"
