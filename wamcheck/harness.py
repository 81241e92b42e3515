"""Runs the cases of one property in a pool of processes and decides.

Verdicts are three-valued:
  exit 0  held on everything observed, and enough was observed
  exit 1  violated; a line VIOLATION property=<id> replay=<path> per distinct kind
  exit 2  inconclusive: the harness failed, timed out, or observed too little
"""

import collections
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

HOME = Path(os.environ.get("WAMCHECK_HOME", Path(__file__).resolve().parents[1]))
FAILFAST = bool(os.environ.get("WAMCHECK_FAILFAST"))  # for quick looks at mutants; verdict stays 1
SAMPLE = float(os.environ.get("WAMCHECK_SAMPLE", "1"))  # likewise: part of the cases
SCRATCH = Path(os.environ.get("WAMCHECK_SCRATCH", tempfile.gettempdir()))


class Obs:
    """What one case observed: counters, samples, violations."""

    def __init__(self):
        self.counters = collections.Counter()
        self.violations = []
        self.signature = None
        self.nontrivial = True
        self.sample = None

    def count(self, name, n=1):
        self.counters[name] += int(n)

    def fail(self, key, msg, **detail):
        """Record a violation; key names the mechanism, not the case."""
        if len(self.violations) < 25:
            self.violations.append({"key": key, "msg": str(msg)[:2000], "detail": _plain(detail)})

    def expect(self, cond, key, msg="", **detail):
        if not cond:
            self.fail(key, msg, **detail)
        return bool(cond)


def _plain(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size < 50 else f"array{x.shape}"
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


class Malformed(Exception):
    """The code under test produced something that cannot be read as documented."""


_MODULE = None


class Lines:
    """Which lines of the package the monitored process executes (each one reported once, so nearly free)."""

    def __init__(self):
        self.hit = {}

    def __enter__(self):
        import wam2layers

        root = str(Path(wam2layers.__file__).resolve().parent) + os.sep
        mon = sys.monitoring
        try:
            mon.use_tool_id(mon.COVERAGE_ID, "wamcheck")
        except ValueError:
            return self

        def line(code, n):
            if code.co_filename.startswith(root):
                self.hit.setdefault(code.co_filename[len(root):], set()).add(n)
            return mon.DISABLE

        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        return self

    def __exit__(self, *a):
        sys.monitoring.set_events(sys.monitoring.COVERAGE_ID, 0)


def _run_case(case, scratch):
    """In the child: run one case in its own scratch folder."""
    obs = Obs()
    d = Path(scratch)
    t0 = time.time()
    error = None
    lines = Lines()
    try:
        os.chdir(d)
        with lines:
            _MODULE.run(case, obs, d)
    except Malformed as e:
        obs.fail("malformed-output", str(e))
    except Exception:
        error = traceback.format_exc()
    return {
        "case": case,
        "counters": dict(obs.counters),
        "violations": obs.violations,
        "signature": obs.signature,
        "nontrivial": bool(obs.nontrivial),
        "sample": _plain(obs.sample),
        "lines": {f: sorted(x) for f, x in lines.hit.items()},
        "error": error,
        "wall": time.time() - t0,
    }


def _child(case, d):
    """Body of the forked child; never returns."""
    rc = 3
    try:
        os.setpgid(0, 0)
        devnull = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(devnull, fd)
        sys.stdout = open(os.devnull, "w")
        sys.stderr = open(os.devnull, "w")
        import warnings

        warnings.simplefilter("ignore")
        (d / "work").mkdir()
        res = _run_case(case, d / "work")
        (d / "result.tmp").write_text(json.dumps(res, default=str))
        os.rename(d / "result.tmp", d / "result.json")
        rc = 0
    except BaseException:
        try:
            (d / "crash.txt").write_text(traceback.format_exc())
        except Exception:
            pass
    finally:
        os._exit(rc)


def run_pool(cases, nproc, deadline):
    """Run every case in a forked process of its own, nproc at a time."""
    queue = list(enumerate(cases))[::-1]
    live = {}
    results, errors = [], []
    while queue or live:
        while queue and len(live) < nproc and time.time() < deadline:
            i, case = queue.pop()
            d = Path(tempfile.mkdtemp(dir=SCRATCH, prefix=f"case{i}_"))
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                _child(case, d)
            live[pid] = (case, d, time.time() + case.get("timeout", 300))
        if not live:
            break
        done = []
        for pid, (case, d, limit) in live.items():
            got, status = os.waitpid(pid, os.WNOHANG)
            if got:
                done.append(pid)
                f = d / "result.json"
                if f.exists():
                    results.append(json.loads(f.read_text()))
                    if FAILFAST and any(not re.match(r"vertical-flux|integer-levels|boundary-at-surface", v["key"]) for v in results[-1]["violations"]):
                        queue.clear()
                else:
                    why = (d / "crash.txt").read_text() if (d / "crash.txt").exists() else f"process ended with status {status}"
                    errors.append(f"case {json.dumps(case, default=str)[:400]}: {why}")
                try:
                    os.killpg(pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                shutil.rmtree(d, ignore_errors=True)
            elif time.time() > min(limit, deadline + 60):
                for kill in (os.killpg, os.kill):
                    try:
                        kill(pid, signal.SIGKILL)
                    except (ProcessLookupError, PermissionError):
                        pass
                errors.append(f"case {json.dumps(case, default=str)[:400]}: watchdog")
                live[pid] = (case, d, float("inf"))
        for pid in done:
            live.pop(pid)
        if not done:
            time.sleep(0.004)
    if queue:
        errors.append(f"deadline reached with {len(queue)} cases left")
    return results, errors


def _warm(warm):
    """Load lazily imported parts once, before forking. Failures do not matter here."""
    d = Path(tempfile.mkdtemp(dir=SCRATCH, prefix="warm_"))
    cwd = os.getcwd()
    err, sys.stderr = sys.stderr, open(os.devnull, "w")
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        os.chdir(d)
        warm(d)
    except Exception:
        pass
    finally:
        sys.stderr, sys.stdout = err, out
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def load_known(prop):
    """Known findings: lines 'KNOWN property=<id> key=<regex> <what fails>'."""
    out = []
    f = HOME / "KNOWN_FINDINGS.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main(argv):
    global _MODULE
    prop = argv[0]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        _MODULE = importlib.import_module(f"wamcheck.props.{prop.lower()}")
    except Exception:
        # The code under test is imported by the monitors: if it no longer imports,
        # nothing can be observed.
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop}: import failed")
        return 2
    try:
        cases = list(_MODULE.cases(tier, seed)) if "--replay" not in argv else []
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop}: no cases")
        return 2
    if "--replay" in argv:
        case = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())["case"]
        cases = [case]
        minimum = {}
    else:
        minimum = dict(getattr(_MODULE, "MINIMUM", {}))
    if SAMPLE < 1:
        cases = random.Random(seed).sample(cases, max(1, int(len(cases) * SAMPLE)))
    # a case list is deterministic for a seed; longest first to fill the pool evenly
    nproc = min(int(os.environ.get("WAMCHECK_PROCS", "8")), max(1, len(cases)))
    deadline = t0 + (780 if tier == "quick" else 3000)

    warm = getattr(_MODULE, "warm", None)
    if warm and len(cases) > 8:
        _warm(warm)
    results, errors = run_pool(cases, nproc, deadline)

    counters = collections.Counter()
    reached = {}
    sigs = set()
    nontrivial = 0
    samples = []
    viol = collections.OrderedDict()
    for r in sorted(results, key=lambda r: json.dumps(r["case"], sort_keys=True, default=str)):
        counters.update(r["counters"])
        for f, x in r.get("lines", {}).items():
            reached.setdefault(f, set()).update(x)
        if r["error"]:
            errors.append(f"case {json.dumps(r['case'])[:300]}: {r['error']}")
        if r["nontrivial"] and not r["error"]:
            s = r["signature"] or hashlib.sha1(
                json.dumps(r["case"], sort_keys=True, default=str).encode()
            ).hexdigest()
            if s not in sigs:
                sigs.add(s)
                nontrivial += 1
        if r["sample"] is not None and len(samples) < 4:
            samples.append(r["sample"])
        for v in r["violations"]:
            viol.setdefault(v["key"], []).append((r["case"], v))
    if not samples and results:
        samples = [results[0]["case"]]

    known = load_known(prop)
    reported, new = [], []
    for key, lst in viol.items():
        hit = next((k for k in known if re.fullmatch(k[0], key)), None)
        if hit:
            reported.append((hit, len(lst)))
        else:
            new.append((key, lst))

    (HOME / "evidence" / "replay").mkdir(parents=True, exist_ok=True)
    lines = []
    for key, lst in new:
        case, v = lst[0]
        name = re.sub(r"[^A-Za-z0-9_.-]", "_", f"{prop}_{key}")[:120]
        path = HOME / "evidence" / "replay" / f"{name}.json"
        path.write_text(json.dumps({"property": prop, "case": case, "violation": v, "times_seen": len(lst)}, indent=1, default=str))
        print(f"  {key} (seen in {len(lst)} places): {v['msg'][:600]}")
        lines.append(f"VIOLATION property={prop} replay={path}")

    short = {k: (counters.get(k, 0), n) for k, n in minimum.items() if counters.get(k, 0) < n}
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(_MODULE, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": nontrivial,
            "rule": _MODULE.RULE,
            "samples": samples,
            "observed": {k: int(v) for k, v in sorted(counters.items())},
            "source_lines_reached": {f: len(x) for f, x in sorted(reached.items())},
            "cases_planned": len(cases),
            "harness_errors": len(errors),
        },
        "assumptions": list(getattr(_MODULE, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(len(lst) for _, lst in new),
    }
    (HOME / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    if os.environ.get("WAMCHECK_LINES"):
        Path(os.environ["WAMCHECK_LINES"], f"{prop}.json").write_text(json.dumps({f: sorted(x) for f, x in reached.items()}))

    for (k, what), n in reported:
        print(f"KNOWN-FINDING: property={prop} {what} (seen {n} times)")
    print(f"{prop} tier={tier} seed={seed} cases={len(results)}/{len(cases)} nontrivial={nontrivial} wall={time.time()-t0:.1f}s")
    print("  observed: " + ", ".join(f"{k}={v}" for k, v in sorted(counters.items())))
    for e in errors[:3]:
        print("  harness error: " + e[-1500:])
    if lines:
        for line in lines:
            print(line)
        return 1
    if errors or short or len(results) < len(cases):
        print(f"INCONCLUSIVE property={prop} errors={len(errors)} too-few={short}")
        return 2
    return 0
