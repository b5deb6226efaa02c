"""Running TLC on a specification module and reading back what it printed."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """TLC or the harness itself failed (never a verdict about the code)."""


class Result:
    def __init__(self):
        self.prints = []
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.log = ""
        self.coverage = {}


_STAT = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
_SIM = re.compile(r"The number of states generated: (\d+)")
_DEPTH = re.compile(r"depth of the complete state graph search is (\d+)")
_COV = re.compile(r"^<(\w+) line \d+.* of module (\w+)>: (\d+):(\d+)", re.M)


def run(module, cfg, env=None, workers=8, timeout=800, heap="6g", extra=(), stack="64m", coverage=False,
        expect_violation=False):
    """Check `module` with configuration text `cfg`; return what it printed.

    Lines the specification prints with PrintT("@@" \\o ToJson(..)) come back
    as parsed JSON in `.prints`.
    """
    work = tempfile.mkdtemp(prefix="tlc_")
    try:
        cfgp = os.path.join(work, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", f"-Xss{stack}",
               "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dx=1",
               f"-Djava.io.tmpdir={work}", "-cp", JARS, "tlc2.TLC", "-config", cfgp, "-metadir", os.path.join(work, "st"),
               "-noGenerateSpecTE", "-deadlock", "-workers", str(workers)]
        if coverage:
            cmd += ["-coverage", "60"]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired as err:
            raise MachineryError(f"TLC timed out on {module}") from err
        out = p.stdout.decode("utf-8", "replace")
        r = Result()
        rest = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                r.prints.append(json.loads(json.loads(line)[2:]))
            else:
                rest.append(line)
        r.log = "\n".join(rest)
        m = _STAT.search(r.log) or None
        if m:
            r.generated, r.distinct = int(m.group(1)), int(m.group(2))
        m = _DEPTH.search(r.log)
        if m:
            r.depth = int(m.group(1))
        for m in _COV.finditer(r.log):
            r.coverage[m.group(1)] = int(m.group(4))
        ok = "Model checking completed. No error has been found" in r.log
        if not ok and not expect_violation:
            raise MachineryError(f"TLC failed on {module} (exit {p.returncode}):\n" + r.log[-3000:])
        r.ok = ok
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def dump_ndjson(path, rows):
    with open(path, "w") as f:
        for row in rows:
            f.write(json.dumps(row, separators=(",", ":")))
            f.write("\n")
