"""One worker process: runs its share of the cases of one check."""

import faulthandler
import gc
import importlib
import json
import os
import resource
import sys
import threading
import time

_real_time = time.monotonic
_real_sleep = time.sleep


def main():
    spec = json.loads(sys.argv[1])
    sys.setrecursionlimit(5000)
    out_path = spec["out"]
    progress = {"case": None, "since": _real_time(), "cpu": 0.0}

    def cpu():
        r = resource.getrusage(resource.RUSAGE_SELF)
        return r.ru_utime + r.ru_stime

    import _thread

    def flush_and_exit(kind):
        stats = module_state.get("stats")
        from mon.core import dump_stats, write_json

        payload = dump_stats(stats) if stats else {"evaluations": 0, "observed": {}, "peaks": {}, "sigs": [], "samples": []}
        violations = list(module_state.get("violations", []))
        wl, idx = progress["case"] or ("?", -1)
        if kind == "hang":
            with open(out_path + ".stacks", "w") as f:
                faulthandler.dump_traceback(file=f, all_threads=True)
            stacks = open(out_path + ".stacks").read()
            violations.append(
                {
                    "property": spec["property"],
                    "workload": wl,
                    "seed": spec["seed"],
                    "index": idx,
                    "mechanism": "hang",
                    "message": "every thread blocked: the operation never completes (no CPU used while waiting)",
                    "detail": {"stacks": stacks[-6000:]},
                    "traceback": "",
                    "log": [],
                }
            )
        else:
            payload["observed"]["watchdog_busy"] = 1
        payload["violations"] = violations
        payload["done"] = True
        write_json(out_path, payload)
        os._exit(0)

    def watchdog():
        last_cpu = cpu()
        quiet = 0
        while True:
            _real_sleep(5)
            now = cpu()
            if _real_time() - progress["since"] > spec["case_timeout"]:
                quiet = quiet + 1 if now - last_cpu < 0.1 else 0
                if quiet >= 4:
                    flush_and_exit("hang")
                if _real_time() - progress["since"] > 4 * spec["case_timeout"]:
                    flush_and_exit("busy")
            else:
                quiet = 0
            last_cpu = now

    module_state = {}
    module_path = f"mon.checks.{spec['property'].lower()}"
    if spec.get("sched"):
        from mon import sched

        sched.install()
    module = importlib.import_module(module_path)
    import opentelemetry.context as probe

    if not os.path.realpath(probe.__file__).startswith("/repo/"):
        print("HARNESS: opentelemetry is not imported from /repo:", probe.__file__, file=sys.stderr)
        sys.exit(3)
    from mon.core import dump_stats, new_stats, run_case, write_json

    stats = new_stats()
    violations = []
    module_state.update(stats=stats, violations=violations)
    _thread.start_new_thread(watchdog, ())
    tier = spec["tier"]
    deadline = _real_time() + spec["budget"]
    truncated = False
    per_mechanism = {}
    for w in module.WORKLOADS:
        if spec.get("only") and w.name not in spec["only"]:
            continue
        total = w.quick if tier == "quick" else w.thorough
        if spec.get("index") is not None:
            indices = [spec["index"]]
        else:
            indices = range(spec["shard"], total, spec["nshards"])
        for i in indices:
            if _real_time() > deadline:
                truncated = True
                break
            progress.update(case=(w.name, i), since=_real_time())
            for v in run_case(module, w, spec["seed"], i, tier, stats):
                key = (v["workload"], v["mechanism"])
                per_mechanism[key] = per_mechanism.get(key, 0) + 1
                if per_mechanism[key] <= 3:
                    violations.append(v)
            if sum(per_mechanism.values()) > 400:
                truncated = True
                break
    progress.update(since=_real_time() + 10**6)
    finish = getattr(module, "finish", None)
    if finish:
        finish(stats)
    payload = dump_stats(stats)
    payload["violations"] = violations
    payload["truncated"] = truncated
    payload["done"] = True
    write_json(out_path, payload)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
