"""Entry point of every check:  python -m mon.run <property> [quick|thorough]
[--replay FILE] [--only WORKLOAD] [--jobs N]
"""

import argparse
import ast
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENVS = {
    "pb5": "/opt/venv-pb5/bin/python",
    "pb3": "/opt/venv-pb3/bin/python",
    "api": "/opt/venv-api/bin/python",
}


def read_meta(prop):
    """Static header of the check module, without importing opentelemetry."""
    path = os.path.join(ROOT, "mon", "checks", prop.lower() + ".py")
    tree = ast.parse(open(path).read())
    found = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                found[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    get = found.get
    rule, assumptions = get("RULE", ""), get("ASSUMPTIONS", [])
    return {
        "venv": get("VENV", "pb5"),
        "sched": get("SCHED", False),
        "required": get("REQUIRED", []),
        "rule": rule,
        "assumptions": assumptions,
        "env": get("PROC_ENV", {}),
        "case_timeout": get("CASE_TIMEOUT", 60),
    }


def load_known():
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return [k for k in out if k.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--index", type=int)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    prop = args.property
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    meta = read_meta(prop)
    only, index = args.only, args.index
    if args.replay:
        rep = json.load(open(args.replay))
        seed, only, index, tier = rep["seed"], [rep["workload"]], rep["index"], rep.get("tier", tier)
    started = time.monotonic()
    tmp = tempfile.mkdtemp(prefix=f"mon-{prop}-")
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": tmp,
        "TMPDIR": tmp,
        "PYTHONPATH": ROOT,
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "LANG": "C.UTF-8",
        "TZ": "UTC",
        "VERIF_SEED": str(seed),
        "VERIF_TIER": tier,
    }
    env.update(meta["env"])
    jobs = 1 if index is not None else max(1, args.jobs)
    budget = 240 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "780"))
    procs = []
    for shard in range(jobs):
        spec = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "shard": shard,
            "nshards": jobs,
            "out": os.path.join(tmp, f"out{shard}.json"),
            "budget": budget,
            "only": only,
            "index": index,
            "sched": meta["sched"],
            "case_timeout": meta["case_timeout"],
        }
        err = open(os.path.join(tmp, f"err{shard}"), "wb")
        p = subprocess.Popen(
            [VENVS[meta["venv"]], "-X", "faulthandler", "-W", "ignore", "-m", "mon.worker", json.dumps(spec)],
            cwd=tmp,
            env=env,
            stdin=subprocess.DEVNULL,
            stdout=err,
            stderr=err,
        )
        procs.append((p, spec, err))
    total = {"evaluations": 0, "observed": {}, "peaks": {}, "sigs": set(), "samples": []}
    violations = []
    errors = []
    truncated = 0
    hard = started + budget + 400
    for p, spec, err in procs:
        try:
            p.wait(timeout=max(1, hard - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        err.close()
        try:
            res = json.load(open(spec["out"]))
        except (OSError, ValueError):
            tail = open(err.name, "rb").read()[-3000:].decode("utf-8", "replace")
            errors.append(f"worker {spec['shard']} gave no result (exit {p.returncode}):\n{tail}")
            continue
        if args.v:
            sys.stderr.write(open(err.name, "rb").read()[-3000:].decode("utf-8", "replace"))
        total["evaluations"] += res["evaluations"]
        for k, v in res["observed"].items():
            total["observed"][k] = total["observed"].get(k, 0) + v
        for k, v in res["peaks"].items():
            total["peaks"][k] = max(v, total["peaks"].get(k, v))
        total["sigs"].update(res["sigs"])
        total["samples"].extend(res["samples"])
        truncated += 1 if res.get("truncated") else 0
        violations.extend(res["violations"])
    shutil.rmtree(tmp, ignore_errors=True)

    known = [k for k in load_known() if k["property"] == prop]
    unlisted, listed = [], {}
    for v in violations:
        for k in known:
            if k["mechanism"] == v["mechanism"]:
                listed.setdefault(k["mechanism"], (k, []))[1].append(v)
                break
        else:
            unlisted.append(v)

    for k, (entry, hits) in sorted(listed.items()):
        print(f"KNOWN-FINDING: property={prop} {entry['what']} (mechanism {k}, seen {len(hits)}x this run)")

    rc = 0
    if unlisted:
        rep_dir = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(rep_dir, exist_ok=True)
        seen = set()
        for v in unlisted:
            key = (v["workload"], v["mechanism"])
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 6:
                break
            v["tier"] = tier
            name = re.sub(r"[^A-Za-z0-9_.-]", "_", f"{prop}-{v['workload']}-{v['mechanism']}-{v['seed']}-{v['index']}")
            path = os.path.join(rep_dir, name + ".json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=repr)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  workload={v['workload']} index={v['index']} mechanism={v['mechanism']}: {v['message'][:600]}")
            if args.v or args.replay:
                print(v["traceback"])
                print(json.dumps(v["detail"], indent=1)[:4000])
                print("\n".join(v["log"][-80:]))
        rc = 1
    missing = [k for k in meta["required"] if not total["observed"].get(k)]
    if rc == 0 and (missing or total["evaluations"] == 0) and index is None and not only:
        errors.append(f"inconclusive: monitors never reached: {missing or 'all'}")
    for e in errors:
        print("HARNESS-ERROR:", e)
    if rc == 0 and errors:
        rc = 2
    wall = time.monotonic() - started
    if index is None and not only:
        evidence = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": total["evaluations"],
                "distinct_nontrivial": len(total["sigs"]),
                "rule": meta["rule"],
                "samples": total["samples"][:4],
                "observed_events": total["observed"],
                "peaks": total["peaks"],
                "workers": jobs,
                "workers_truncated_by_budget": truncated,
            },
            "assumptions": meta["assumptions"],
            "wall_s": round(wall, 2),
            "violations": len(unlisted),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True, default=repr)
            f.write("\n")
    print(
        f"{prop} {tier} seed={seed}: cases={total['evaluations']} distinct={len(total['sigs'])} "
        f"violations={len(unlisted)} known={sum(len(h) for _, h in listed.values())} wall={wall:.1f}s "
        f"observed={json.dumps(total['observed'], sort_keys=True)}"
    )
    return rc


if __name__ == "__main__":
    sys.exit(main())
