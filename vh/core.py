"""Shared machinery: loading the code under test, judging, reporting."""
from __future__ import annotations

import contextlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

from . import enc as E
from . import tlc
from .gen import Rng

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def load_repo():
    """Import the working tree's package, never writing byte code next to it."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")      # about odd regular expressions
    m = importlib.import_module("jsonpath")
    if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise tlc.MachineryError(f"jsonpath imported from {m.__file__}, not {REPO}")
    return m


class Hang(Exception):
    pass


class Stuck(BaseException):
    """Call after call does not return: there is no point in going on."""


_HANGS = 0


@contextlib.contextmanager
def limit(seconds=10.0):
    """Turn a call that does not return into an exception (main thread only)."""
    def h(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def call(fn, *a, seconds=10.0, **k):
    """('ok', value) or ('err', exception)."""
    global _HANGS
    try:
        with limit(seconds if _HANGS < 3 else min(seconds, 1.5)):
            return "ok", fn(*a, **k)
    except Hang as e:
        _HANGS += 1
        if _HANGS > 40:
            raise Stuck() from None
        return "err", e
    except RecursionError as e:
        return "err", e
    except Exception as e:  # noqa: BLE001
        return "err", e


def ename(e) -> str:
    return "Hang" if isinstance(e, Hang) else type(e).__name__


def library_failure(e):
    """Was it raised by a call into the code under test (not by the machinery)?"""
    frames = traceback.extract_tb(e.__traceback__)
    for f in reversed(frames):
        n = os.path.realpath(f.filename)
        if n.startswith(os.path.realpath(REPO) + os.sep):
            return True
        if n.startswith(os.path.realpath(VERIF) + os.sep):
            return False
    return False


_JOB = None


def _replay_part(a):
    k, n = a
    cases, fn = _JOB
    bads = []

    def bad(what, detail):
        bads.append((what, json.loads(json.dumps(detail, default=repr))))
    calls = 0
    try:
        for case in cases[k::n]:
            calls += fn(case, bad) or 0
            if len(bads) > 50:
                break
    except Stuck:
        bad("calls do not return", {"case": case})
        return calls, bads, ""
    except Exception as e:  # noqa: BLE001
        if library_failure(e):
            bad("a call that has to succeed fails with " + ename(e), {"case": case, "error": traceback.format_exc()[-1500:]})
            return calls, bads, ""
        return calls, bads, traceback.format_exc()
    return calls, bads, ""


def _gather_part(a):
    k, n = a
    cases, fn = _JOB
    seen = {}
    try:
        for case in cases[k::n]:
            for key, info in fn(case):
                if key in seen:
                    seen[key][1] += 1
                else:
                    seen[key] = [info, 1]
    except Stuck:
        return seen, ("calls do not return", {"case": case})
    except Exception as e:  # noqa: BLE001
        if library_failure(e):
            return seen, ("a call that has to succeed fails with " + ename(e), {"case": case, "error": traceback.format_exc()[-1500:]})
        return seen, traceback.format_exc()
    return seen, ""


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level = level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.skips = {}
        self.violations = []
        self.known = []
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    def rng(self, salt=""):
        return Rng(f"{self.prop}:{self.seed}:{salt}")

    # -- reporting -----------------------------------------------------------
    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violate(self, what, detail):
        self.violations.append((what, detail))

    def finding(self, what):
        """A failure listed in KNOWN_FINDINGS.txt; anything not listed is a violation."""
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            listed = [l for l in f if l.startswith(f"known: property={self.prop} ") and what in l]
        if listed:
            if what not in self.known:
                self.known.append(what)
                print(f"KNOWN-FINDING: property={self.prop} {what}")
        else:
            self.violate(what, {"finding": "not listed"})

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    # -- impl -> spec: judging recorded events -------------------------------
    def judge(self, events, docs=(), module="Trace", describe=None, timeout=800, env=None, key="events",
              constants=""):
        """Have TLC judge each recorded event; collect those it refuses."""
        if not events:
            return {}
        base = tempfile.mkdtemp(prefix="tr_", dir=self.work)
        tp, dp = os.path.join(base, "trace.ndjson"), os.path.join(base, "docs.ndjson")
        tlc.dump_ndjson(tp, events)
        tlc.dump_ndjson(dp, list(docs) or [{"t": "null"}])
        e = {"TRACE": tp, "DOCS": dp}
        e.update(env or {})
        r = tlc.run(module, "INIT Init\nNEXT Next\n" + constants, env=e, timeout=timeout)
        if r.distinct != 2 * len(events):
            raise tlc.MachineryError(f"{module}: {r.distinct} states for {len(events)} events\n{r.log[-2000:]}")
        self.states += r.distinct
        self.transitions += r.generated - len(events)
        self.count(key, len(events))
        verdicts = {}
        for p in r.prints:
            verdicts[p["i"] - 1] = p["v"]
        nskip = 0
        for i, v in sorted(verdicts.items()):
            if v.startswith("skip"):
                nskip += 1
                self.skips[v] = self.skips.get(v, 0) + 1
                continue
            if v.startswith("machinery"):
                raise tlc.MachineryError(f"{v}: {describe(i) if describe else events[i]}")
            self.violate(v, describe(i) if describe else events[i])
        self.traces += len(events) - nskip
        shutil.rmtree(base, ignore_errors=True)
        return verdicts

    def explore(self, module, cfg, key=None, **kw):
        """Model-check a specification module; its printed lines are test cases."""
        r = tlc.run(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("models", {})[key or module] = {
            "distinct_states": r.distinct, "transitions": r.generated, "depth": r.depth, "cases": len(r.prints)}
        return r

    def replay(self, cases, fn, label="replayed"):
        """Replay cases through the code in parallel: fn(case, bad) makes calls, reports by bad(what, detail),
        and returns how many calls it made."""
        global _JOB
        if not cases:
            raise tlc.MachineryError(f"nothing to replay ({label})")
        n = max(1, min(8, os.cpu_count() or 1, len(cases) // 200))
        _JOB = (cases, fn)
        if n == 1:
            outs = [_replay_part((0, 1))]
        else:
            with multiprocessing.get_context("fork").Pool(n) as pool:
                outs = pool.map(_replay_part, [(k, n) for k in range(n)])
        for calls, bads, errs in outs:
            if errs:
                raise tlc.MachineryError(errs)
            self.traces += calls
            self.count(label, calls)
            self.violations.extend(bads)

    def gather(self, cases, fn, label="calls"):
        """Run fn(case) -> [(key, info)] in parallel; every distinct key, with one info and the number of cases that gave it."""
        global _JOB
        n = max(1, min(8, os.cpu_count() or 1, len(cases) // 200))
        _JOB = (cases, fn)
        if n == 1:
            outs = [_gather_part((0, 1))]
        else:
            with multiprocessing.get_context("fork").Pool(n) as pool:
                outs = pool.map(_gather_part, [(k, n) for k in range(n)])
        seen = {}
        for part, err in outs:
            if isinstance(err, tuple):
                self.violate(*err)
            elif err:
                raise tlc.MachineryError(err)
            for key, (info, cnt) in part.items():
                seen[key] = (seen[key][0] if key in seen else info, seen.get(key, (0, 0))[1] + cnt)
        self.count(label, sum(x[1] for x in seen.values()))
        return seen

    # -- the end ---------------------------------------------------------------
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rep = os.path.join(VERIF, "evidence", "replay")
        code = 0
        shown = 0
        if self.violations:
            os.makedirs(rep, exist_ok=True)
            code = 1
            for n, (what, detail) in enumerate(self.violations[:20]):
                path = os.path.join(rep, f"{self.prop}-{n}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "clause": what, "case": detail, "seed": self.seed,
                               "tier": self.tier}, f, indent=1, default=repr)
                shown += 1
                print(f"VIOLATION property={self.prop} replay={path}")
                print(f"  {what}: {json.dumps(detail, default=repr, ensure_ascii=True)[:600]}")
            if len(self.violations) > shown:
                print(f"  ... and {len(self.violations) - shown} more")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"]}
        if self.skips:
            cov["not_claimed"] = self.skips
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        shutil.rmtree(self.work, ignore_errors=True)
        print(f"{self.prop}: {'VIOLATED' if code else 'held'}; states={self.states} transitions={self.transitions} "
              f"traces={self.traces} wall={ev['wall_s']}s")
        return code


def main(fn, prop):
    """Run a check; exit 0 held, 1 violated, 2 machinery failure."""
    c = Check(prop)
    try:
        fn(c)
        code = c.finish()
    except Stuck:
        c.violate("calls do not return", {"hangs": _HANGS})
        code = c.finish()
    except tlc.MachineryError as e:
        if c.violations:
            code = c.finish()
        else:
            print(f"MACHINERY property={prop}: {e}", file=sys.stderr)
            code = 2
    except Exception as e:  # noqa: BLE001
        if library_failure(e):
            c.violate("a call that has to succeed fails with " + ename(e), {"error": traceback.format_exc()[-3000:]})
            code = c.finish()
        else:
            traceback.print_exc()
            code = 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    sys.stdout.flush()
    return code
