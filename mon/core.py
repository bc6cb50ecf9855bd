"""Case / observation bookkeeping shared by every check.

A check module (mon/checks/<id>.py) defines

    PROPERTY   the property id
    VENV       "pb5" or "pb3": which prebuilt interpreter runs it
    SCHED      True when the deterministic scheduler has to be installed before
               opentelemetry is imported
    RULE       how cases are made and what makes one non-trivial
    REQUIRED   observation kinds that must be non-zero for a verdict
    WORKLOADS  list of Workload(name, fn, quick, thorough)

fn(case) drives the real code and calls case.fail(...) when the oracle sees the
property broken.  Every random choice comes from case.rng, which is seeded by
(VERIF_SEED, property, workload, index), so a case replays from those four.
"""

import hashlib
import json
import random
import traceback


class Violation(Exception):
    def __init__(self, mechanism, message, detail=None):
        super().__init__(message)
        self.mechanism = mechanism
        self.message = message
        self.detail = detail or {}


class Inconclusive(Exception):
    pass


class Workload:
    def __init__(self, name, fn, quick, thorough=None, chunk=1):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.chunk = chunk


def _short(value, limit=2000):
    text = value if isinstance(value, str) else repr(value)
    return text if len(text) <= limit else text[:limit] + "...[cut]"


class Case:
    def __init__(self, prop, workload, seed, index, tier, stats):
        self.prop = prop
        self.workload = workload
        self.seed = seed
        self.index = index
        self.tier = tier
        self.rng = random.Random(f"{seed}/{prop}/{workload}/{index}")
        self.stats = stats
        self._sig = None
        self.log = []
        self.findings = []

    # -- observations ------------------------------------------------------
    def observe(self, kind, n=1):
        obs = self.stats["observed"]
        obs[kind] = obs.get(kind, 0) + n

    def peak(self, kind, value):
        peaks = self.stats["peaks"]
        if value > peaks.get(kind, float("-inf")):
            peaks[kind] = value

    def sig(self, *parts):
        """Mark the case as non-trivial, with a signature for distinctness."""
        digest = hashlib.blake2b(repr(parts).encode("utf-8", "backslashreplace"), digest_size=8).hexdigest()
        self.stats["sigs"].add(digest)

    def sample(self, value):
        if len(self.stats["samples"]) < 3:
            self.stats["samples"].append(
                {"workload": self.workload, "index": self.index, "case": _short(value, 1500)}
            )

    def note(self, *parts):
        """Trace line kept for the witness of a violation."""
        if len(self.log) < 4000:
            self.log.append(" ".join(_short(p, 300) for p in parts))

    # -- verdicts ----------------------------------------------------------
    def fail(self, mechanism, message, **detail):
        raise Violation(mechanism, message, {k: _short(v) for k, v in detail.items()})

    def check(self, cond, mechanism, message, **detail):
        if not cond:
            self.fail(mechanism, message() if callable(message) else message, **detail)

    def eq(self, got, want, mechanism, message="", **detail):
        if not (got == want):
            self.fail(mechanism, f"{message}: got {_short(got, 600)} want {_short(want, 600)}", **detail)

    def finding(self, mechanism, message):
        """Report a violation without stopping the case (used for mechanisms
        that may be listed as known findings)."""
        self.findings.append((mechanism, message))


def new_stats():
    return {"evaluations": 0, "observed": {}, "peaks": {}, "sigs": set(), "samples": []}


def run_case(module, workload, seed, index, tier, stats):
    """Returns a list of violation dicts (possibly empty)."""
    case = Case(module.PROPERTY, workload.name, seed, index, tier, stats)
    out = []
    try:
        workload.fn(case)
        stats["evaluations"] += 1
    except Violation as exc:
        out.append((exc.mechanism, exc.message, exc.detail, traceback.format_exc(limit=-6)))
    except Inconclusive as exc:
        stats["observed"]["inconclusive_cases"] = stats["observed"].get("inconclusive_cases", 0) + 1
    except Exception as exc:  # the public API raised where it must not
        out.append(
            (
                "unexpected-exception:" + type(exc).__name__,
                f"unexpected {type(exc).__name__}: {_short(exc, 400)}",
                {},
                traceback.format_exc(limit=-12),
            )
        )
    for mechanism, message in case.findings:
        out.append((mechanism, message, {}, ""))
    return [
        {
            "property": module.PROPERTY,
            "workload": workload.name,
            "seed": seed,
            "index": index,
            "mechanism": m,
            "message": msg,
            "detail": det,
            "traceback": tb,
            "log": case.log[-400:],
        }
        for m, msg, det, tb in out
    ]


def dump_stats(stats):
    out = dict(stats)
    out["sigs"] = sorted(stats["sigs"])
    return out


def write_json(path, obj):
    with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=repr)
        f.write("\n")
