"""Monitoring core: runs workload cases of one property in worker processes,
collects what the monitors observed and turns it into a verdict.

A property module (harness/props/Cnn.py) provides
    TITLE, RULE, TECHNIQUE_ASSUMPTIONS (list), CLAUSES (clause names that must
    all have been evaluated, otherwise the run is inconclusive),
    gen(rng, tier)  -> iterable of JSON-able cases (dicts with at least "kind")
    run(case, mon)  -> drives the real code and reports to the monitor `mon`.

Verdicts: exit 0 held on everything observed, exit 1 violation, exit 2
inconclusive (a clause never reached, or a case timed out).
"""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"
CASE_TIMEOUT = 150
TIER_DEADLINE = {"quick": 480, "thorough": 1500}


class CaseAbort(Exception):
    """The rest of the case cannot be evaluated (already reported)."""


class CaseTimeout(BaseException):
    pass


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


class Mon:
    """Observations of one case."""

    def __init__(self, case):
        self.case = case
        self.counts = {}
        self.events = {}
        self.violations = []
        self.known = []
        self.fingerprints = set()
        self.worst = {}

    # -- bookkeeping -------------------------------------------------------
    def event(self, name, k=1):
        self.events[name] = self.events.get(name, 0) + k

    def seen(self, *key):
        """Register a distinct non-trivial observation."""
        h = hashlib.sha1()
        for k in key:
            if isinstance(k, np.ndarray):
                h.update(np.ascontiguousarray(k).tobytes())
                h.update(str(k.shape).encode())
            else:
                h.update(repr(k).encode())
            h.update(b"|")
        self.fingerprints.add(h.hexdigest()[:16])

    def _count(self, clause):
        self.counts[clause] = self.counts.get(clause, 0) + 1

    def fail(self, clause, msg):
        if len(self.violations) < 20:
            self.violations.append({"clause": clause, "message": str(msg)[:1500]})

    # -- oracles -----------------------------------------------------------
    def ok(self, clause, cond, msg=""):
        self._count(clause)
        if not bool(cond):
            self.fail(clause, msg)
            return False
        return True

    def close(self, clause, got, exp, rtol=1e-7, atol=0.0, scale=None, msg=""):
        """|got-exp| <= atol + rtol*scale, NaN and inf matching by position.
        `scale` defaults to the largest finite magnitude of `exp`."""
        self._count(clause)
        try:
            g = np.asarray(got, dtype=float)
            e = np.asarray(exp, dtype=float)
        except Exception as ex:
            self.fail(clause, "%s: not numeric: %r (%s)" % (msg, got, ex))
            return False
        if g.shape != e.shape:
            if g.size == e.size:
                g = g.reshape(e.shape)
            else:
                self.fail(clause, "%s: shape %s, expected %s" % (msg, g.shape, e.shape))
                return False
        if e.size == 0:
            return True
        fe = np.isfinite(e)
        if (np.isfinite(g) != fe).any() or (
            (~fe).any() and not np.array_equal(g[~fe], e[~fe], equal_nan=True)
        ):
            self.fail(clause, "%s: got %s expected %s" % (msg, _short(g), _short(e)))
            return False
        if not fe.any():
            return True
        s = float(np.max(np.abs(e[fe]))) if scale is None else float(scale)
        d = float(np.max(np.abs(g[fe] - e[fe])))
        tol = atol + rtol * s
        if s > 0 or atol > 0:
            self.worst[clause] = max(self.worst.get(clause, 0.0), d / tol if tol else 0.0)
        if not d <= tol:
            self.fail(
                clause,
                "%s: max deviation %.3g > %.3g; got %s expected %s"
                % (msg, d, tol, _short(g), _short(e)),
            )
            return False
        return True

    def cols(self, clause, got, exp, scales, rtol=1e-9, msg=""):
        """like close, with one scale per column (badly scaled matrices)"""
        try:
            g, e = np.asarray(got, float), np.asarray(exp, float)
        except Exception as ex:
            self._count(clause)
            self.fail(clause, "%s: not numeric (%s)" % (msg, ex))
            return False
        sc = np.asarray(scales, float)
        if g.shape != e.shape and g.size == e.size:
            g = g.reshape(e.shape)
        if g.shape != e.shape:
            return self.close(clause, g, e, rtol=rtol, msg=msg)
        return self.close(clause, g / sc, e / sc, rtol=rtol, scale=1.0, msg=msg)

    def call(self, clause, what, f, *a, **k):
        """Run code under test: valid input, so it must not raise."""
        self._count(clause)
        try:
            return f(*a, **k)
        except CaseTimeout:
            raise
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            where = "; ".join("%s:%s" % (os.path.basename(t.filename), t.name) for t in tb[-4:])
            self.fail(clause, "%s raised %s: %s (%s)" % (what, type(ex).__name__, ex, where))
            raise CaseAbort()

    def rejects(self, clause, what, f, *a, **k):
        """Invalid input: it must raise an exception."""
        self._count(clause)
        try:
            r = f(*a, **k)
        except CaseTimeout:
            raise
        except Exception:
            return True
        self.fail(clause, "%s was accepted, returned %s" % (what, _short(r)))
        return False

    def known_finding(self, key, text):
        self.known.append([key, text])


def confirmed(mon, attempt, n=4, need=3):
    """Judge a clause that depends on a local optimiser: attempt(0, sub) looks at the data themselves; when it fails,
    attempt(1..n, sub) looks at equivalent presentations of the same data (reordered), and a clause is violated only if
    it fails again in at least `need` of them."""
    subs = []
    for j in range(n + 1):
        sub = Mon(mon.case)
        try:
            attempt(j, sub)
        except CaseAbort:
            pass
        subs.append(sub)
        if j == 0 and not sub.violations:
            break
    first = subs[0]
    for k, v in first.counts.items():
        mon.counts[k] = mon.counts.get(k, 0) + v
    for k, v in first.events.items():
        mon.event(k, v)
    for k, v in first.worst.items():
        mon.worst[k] = max(mon.worst.get(k, 0), v)
    mon.fingerprints |= first.fingerprints
    mon.known += first.known
    for v in first.violations:
        if sum(any(w["clause"] == v["clause"] for w in s.violations) for s in subs[1:]) >= need:
            mon.violations.append(v)
        else:
            mon.event("not_confirmed_on_reordered_data")


def _short(x):
    try:
        s = np.array2string(np.asarray(x), precision=6, threshold=8, edgeitems=3)
    except Exception:
        s = repr(x)
    return s.replace("\n", " ")[:300]


# ---------------------------------------------------------------------------
def load_known(prop):
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as fh:
        for line in fh:
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                d = dict(p.split("=", 1) for p in parts[1:3])
                if d["property"] == prop:
                    out[d["key"]] = parts[3]
    return out


def _alarm(*_):
    raise CaseTimeout()


def _work(job):
    mod, case = job
    mon = Mon(case)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    t0 = time.time()
    status = "done"
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                mod.run(case, mon)
    except CaseAbort:
        pass
    except CaseTimeout:
        status = "timeout"
        mon.fail("terminates", "the case did not finish within %d s (cases usually take a few seconds at most)" % CASE_TIMEOUT)
    except Exception as ex:  # outside mon.call: result of the code under test
        tb = traceback.format_exc().strip().splitlines()
        mon.fail("unexpected", "%s: %s | %s" % (type(ex).__name__, ex, " / ".join(t.strip() for t in tb[-7:])))
    finally:
        signal.alarm(0)
    return {
        "case": case,
        "status": status,
        "counts": mon.counts,
        "events": mon.events,
        "violations": mon.violations,
        "known": mon.known,
        "fp": list(mon.fingerprints),
        "worst": mon.worst,
        "t": time.time() - t0,
    }


def execute(prop, mod, tier, seed, cases=None, nproc=None):
    t0 = time.time()
    rng = np.random.default_rng([seed, int(prop[1:]), 0 if tier == "quick" else 1])
    if cases is None:
        cases = [jsonable(c) for c in mod.gen(rng, tier)]
        for i, c in enumerate(cases):
            c.setdefault("seed", int(rng.integers(0, 2**31 - 1)))
    nproc = nproc or min(8, os.cpu_count() or 1)
    deadline = t0 + TIER_DEADLINE[tier]
    results = []
    skipped = 0
    if nproc == 1 or len(cases) == 1:
        for c in cases:
            results.append(_work((mod, c)))
    else:
        ctx = mp.get_context("fork")
        global _MOD
        _MOD = mod
        with ctx.Pool(nproc, maxtasksperchild=None) as pool:
            it = pool.imap_unordered(_work_idx, list(enumerate(cases)), chunksize=1)
            for _ in range(len(cases)):
                left = deadline - time.time()
                try:
                    results.append(it.next(timeout=max(left, 0.01)))
                except mp.TimeoutError:
                    skipped = len(cases) - len(results)
                    pool.terminate()
                    break
    return cases, results, skipped, time.time() - t0


_MOD = None


def _work_idx(job):
    i, case = job
    r = _work((_MOD, case))
    r["i"] = i
    return r


def main(prop, mod, argv):
    tier = "quick"
    replay = None
    i = 0
    while i < len(argv):
        if argv[i] in ("quick", "thorough"):
            tier = argv[i]
        elif argv[i] == "--replay":
            i += 1
            replay = argv[i]
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cases = None
    if replay:
        with open(replay) as fh:
            cases = [json.load(fh)["case"]]
    known = load_known(prop)
    cases, results, skipped, wall = execute(prop, mod, tier, seed, cases)
    results.sort(key=lambda r: r.get("i", 0))

    counts, events, worst, fps = {}, {}, {}, set()
    nviol = 0
    timeouts = 0
    known_hit = {}
    first = {}
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0), v)
        fps.update(r["fp"])
        timeouts += r["status"] == "timeout"
        for key, text in r["known"]:
            if key in known:
                known_hit.setdefault(key, known[key])
            else:
                r["violations"].append({"clause": key, "message": text})
        for v in r["violations"]:
            nviol += 1
            first.setdefault(v["clause"], []).append((r, v))
    missing = [c for c in getattr(mod, "CLAUSES", []) if not counts.get(c)]

    if not replay:
        samples = []
        for r in results[:: max(1, len(results) // 4)][:4]:
            samples.append({"case": r["case"], "monitor_evaluations": r["counts"], "events": r["events"]})
        ev = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": len(results),
                "distinct_nontrivial": len(fps),
                "rule": mod.RULE,
                "samples": jsonable(samples),
                "monitor_evaluations": counts,
                "monitored_events": events,
                "largest_deviation_over_tolerance": {k: round(v, 6) for k, v in worst.items()},
                "cases_not_run_before_deadline": skipped,
                "cases_timed_out": timeouts,
                "clauses_never_reached": missing,
                "known_findings_observed": sorted(known_hit),
                "exhaustive": False,
            },
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
            "wall_s": round(wall, 2),
            "violations": nviol,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)

    total = sum(counts.values())
    slow = sorted(results, key=lambda r: -r["t"])[:1]
    print(
        "%s %s seed=%d: %d cases, %d monitor evaluations, %d distinct observations, %.1fs (slowest case %.1fs)"
        % (prop, tier, seed, len(results), total, len(fps), wall, slow[0]["t"] if slow else 0)
    )
    for k in sorted(counts):
        print("  %-34s %7d%s" % (k, counts[k], ("   worst dev/tol %.3g" % worst[k]) if k in worst else ""))
    for key in sorted(known_hit):
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, key, known_hit[key]))
    if first:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        n = 0
        for clause, lst in first.items():
            if n >= 6:
                break
            r, v = lst[0]
            path = os.path.join(rd, "%s-%s-%d.json" % (prop, "".join(c if c.isalnum() else "_" for c in clause), n))
            if not replay:
                with open(path, "w") as fh:
                    json.dump({"property": prop, "case": r["case"], "clause": clause, "message": v["message"]}, fh, indent=1)
            else:
                path = replay
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  clause %s (%d times): %s" % (clause, len(lst), v["message"]))
            n += 1
        return 1
    if replay:
        print("replayed: no violation")
        return 0
    if missing or timeouts or not results or not fps:
        print("INCONCLUSIVE: clauses never reached %s, timeouts %d" % (missing, timeouts))
        return 2
    return 0
