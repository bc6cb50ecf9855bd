import itertools
import time

from mon import metrics as mm
from mon import quiet, sched
from mon.core import Workload

PROPERTY = "P26"
VENV = "pb5"
SCHED = True
REQUIRED = [
    "exports", "periodic_exports", "final_exports", "flushes", "racing_flushes", "shutdowns", "after_shutdown_flushes", "failed_exports", "raising_exports", "slow_exports", "raising_callbacks", "broken_observations", "slow_callbacks",
    "timed_out_flushes", "exports_after_a_failure", "delta_readers", "cumulative_readers", "measurements", "second_shutdowns", "outlasting_exports", "schedule_gaps", "idle_intervals", "lagging_callbacks", "concurrent_shutdowns", "short_shutdowns", "sufficient_shutdowns",
]
RULE = (
    "Recorders, flushers and the reader's own thread under the schedule fuzzer with virtual time and an exporter that succeeds, fails, raises or stalls; "
    "measurements are distinct powers of two, so every export says which ones it carries; export times are compared with the interval in calm runs; "
    "distinct = program plus context switches."
)
ASSUMPTIONS = [
    "an export that was attempted counts as delivered whatever the exporter made of it; the data of a collection that itself fails is not judged",
    "a reader with an infinite interval has no final export",
    "user code does not call the reader's collect() itself",
]


def exporter_class():
    from opentelemetry.sdk.metrics.export import MetricExporter, MetricExportResult

    class Exporter(MetricExporter):
        def __init__(self, case, plan, clock, **kw):
            super().__init__(**kw)
            self.case, self.plan, self.clock = case, plan, clock
            self.log = []  # [begin, end, time begin, time end, {bits}, outcome]
            self.downs = []
            self.flushed = []
            self.running = 0

        def export(self, metrics_data, timeout_millis=10_000, **kw):
            case = self.case
            values = {}
            for sc, m in mm.streams(metrics_data):
                if m.name == "c":
                    (p,) = m.data.data_points
                    values["c"] = p.value
                elif m.name == "o":
                    values["o"] = [p.value for p in m.data.data_points]
            row = [next(self.clock), None, time.time_ns(), None, values, None]
            self.log.append(row)
            case.check(self.running == 0, "overlap", f"an export began during another: {self.log}")
            case.check(not self.downs, "after-shutdown", "an export began after the exporter was shut down")
            self.running += 1
            n = len(self.log)
            what = self.plan[(n - 1) % len(self.plan)]
            try:
                case.observe("exports")
                if n > 1 and self.log[-2][5] in ("fail", "raise"):
                    case.observe("exports_after_a_failure")
                if what[0] == "slow":
                    case.observe("slow_exports")
                    time.sleep(what[1])
                row[5] = what[0]
                if what[0] == "raise":
                    case.observe("raising_exports")
                    raise (ValueError, OSError, KeyError, TimeoutError, RuntimeError, TypeError)[(n + len(self.plan)) % 6]("export")
                if what[0] == "fail":
                    case.observe("failed_exports")
                    return MetricExportResult.FAILURE
                return MetricExportResult.SUCCESS
            finally:
                self.running -= 1
                row[1], row[3] = next(self.clock), time.time_ns()

        def force_flush(self, timeout_millis=10_000):
            self.flushed.append(next(self.clock))
            return True

        def shutdown(self, timeout_millis=30_000, **kw):
            self.downs.append((next(self.clock), self.running))

    return Exporter


def bits(v):
    return {1 << i for i in range(v.bit_length()) if v >> i & 1} if isinstance(v, int) and v >= 0 else None


def programs(case):
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk.metrics.export import PeriodicExportingMetricReader

    rng = case.rng
    quiet.silence()
    interval = rng.choice([1.0, 0.2, 5.0, 60.0])
    s = sched.Scheduler(rng.random(), max_steps=600_000, early_max_s=min(interval, 0.5))
    box = {}
    hard = rng.random() < 0.5  # faults in callbacks

    def main():
        import threading
        from opentelemetry.sdk.metrics.export import AggregationTemporality as T

        clock, bit = itertools.count(), itertools.count()
        delta = rng.random() < 0.65
        case.observe("delta_readers" if delta else "cumulative_readers")
        plan = [rng.choice([("ok",), ("ok",), ("fail",), ("raise",), ("slow", rng.choice([0.1, interval, 2.5 * interval]))]) for _ in range(rng.randrange(1, 5))]
        ex = exporter_class()(case, plan, clock, preferred_temporality={k: T.DELTA if delta else T.CUMULATIVE for k in mm.kinds()})
        reader = PeriodicExportingMetricReader(ex, export_interval_millis=interval * 1000, export_timeout_millis=rng.choice([5000, 30_000]) if hard else 1e7)
        prov = mm.provider([reader])
        m = prov.get_meter("m")
        c = m.create_counter("c")
        trouble = {"n": 0}
        if hard:

            def cb(o):
                r = rng.random()
                trouble["n"] += 1
                if r < 0.3:
                    case.observe("raising_callbacks")
                    raise rng.choice([ValueError, KeyError, OSError, TypeError, TimeoutError])("callback")
                if r < 0.4:
                    case.observe("broken_observations")
                    trouble["last"] = next(clock)
                    return [Observation("not a number")]
                if r < 0.5:
                    case.observe("slow_callbacks")
                    time.sleep(rng.choice([0.3, 40]))
                    trouble["last"] = next(clock)
                return [Observation(1)]

            m.create_observable_counter("o", [cb])
            m.create_observable_gauge("p", [lambda o: [Observation(2)]])
        rows, flushes = {}, []

        def record(n):
            for _ in range(n):
                v = 1 << next(bit)
                rows[v] = [next(clock), None]
                c.add(v)
                rows[v][1] = next(clock)
                case.observe("measurements")
                if rng.random() < 0.5:
                    time.sleep(rng.choice([0, 0.05, interval * 0.6, interval]))

        def flush(n):
            for _ in range(n):
                time.sleep(rng.choice([0, 0.01, interval, 0.5 * interval]))
                b = next(clock)
                try:
                    ok = (prov if rng.random() < 0.5 else reader).force_flush(1e7)
                except Exception as exc:
                    case.observe("timed_out_flushes")
                    case.check(hard, "flush-raised", f"force_flush raised {exc!r}")
                    flushes.append((b, next(clock), False))
                    continue
                flushes.append((b, next(clock), ok))
                case.check(ok, "flush-false", f"force_flush returned {ok!r}")
                # the exporter may buffer
                case.check(any(b < f for f in ex.flushed), "exporter-not-flushed", f"force_flush did not flush the exporter: {ex.flushed}")
                done = [r for r in ex.log if b < r[0] and r[1] is not None]
                case.check(not done or any(f > done[0][1] for f in ex.flushed), "exporter-not-flushed", "the exporter was not flushed after the export")
                case.observe("flushes")

        ts = [threading.Thread(target=record, args=(rng.randrange(1, 6),)) for _ in range(rng.choice([1, 2]))]
        ts += [threading.Thread(target=flush, args=(rng.randrange(1, 4),)) for _ in range(rng.choice([0, 1, 2]))]
        for t in ts:
            t.start()
        if rng.random() < 0.5:
            time.sleep(interval * rng.choice([0.5, 1.5, 3]))
        racing = rng.random() < 0.4
        if not racing:
            for t in ts:
                t.join()
        rivals = []
        if rng.random() < 0.3:
            # another thread shuts down as well: one of them does it
            rivals = [threading.Thread(target=reader.shutdown, args=(1e9,)) for _ in range(rng.choice([1, 2]))]
            case.observe("concurrent_shutdowns")
        b = next(clock)
        for t in rivals:
            t.start()
        try:
            (prov if rng.random() < 0.6 else reader).shutdown(1e9)
        except Exception as exc:
            case.fail("shutdown-raised", f"{exc!r}")
        for t in rivals:
            t.join()
        e = next(clock)
        case.observe("shutdowns")
        n_down = len(ex.downs)
        for t in ts:
            t.join()
        # final: nothing is exported any more
        c.add(1 << next(bit))
        for x in (reader, prov):
            try:
                x.force_flush(1e7)
                case.observe("after_shutdown_flushes")
            except Exception as exc:
                case.check(hard, "flush-raised", f"force_flush after shutdown raised {exc!r}")
        try:
            reader.shutdown()
            case.observe("second_shutdowns")
        except Exception as exc:
            case.fail("shutdown-raised", f"second: {exc!r}")
        time.sleep(interval * 4)
        box.update(rows=rows, flushes=flushes, ex=ex, down=(b, e), n_down=n_down, delta=delta, last=trouble.get("last", -1), interval=interval)

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
        return
    case.check(not s.thread_exceptions, "raised", f"{s.thread_exceptions}"[:800])
    case.sig(s.signature())
    if not box:
        return
    ex, rows = box["ex"], box["rows"]
    case.check(box["n_down"] == 1 and len(ex.downs) == 1, "exporter-shutdowns", f"exporter shut down {len(ex.downs)} times")
    case.check(ex.downs[0][1] == 0, "shutdown-overlap", "the exporter was shut down during an export")
    log = [r for r in ex.log if "c" in r[4]]
    sent = {}
    prev = 0
    for r in log:
        v = r[4]["c"]
        bs = bits(v)
        case.check(bs is not None and bs <= set(rows), "value", f"exported {v} is not a sum of measurements {sorted(rows)}")
        if not box["delta"]:
            case.check(prev & v == prev, "backwards", f"a cumulative export of {v} after {prev}")
            bs, prev = bits(v & ~prev), v
        for b in bs:
            case.check(b not in sent, "twice", f"measurement {b} exported twice")
            case.check(rows[b][0] < r[1], "future", f"measurement {b} exported before it was made")
            sent[b] = r
    # a collection that failed or timed out has dropped nothing: its measurements come with the next one
    for b, e, ok in box["flushes"]:
        if not ok:
            continue
        for v, r in rows.items():
            if r[1] is not None and r[1] < b and b < ex.downs[0][0]:
                # shutdown may have begun meanwhile: then its final export carries it
                case.check(v in sent and sent[v][1] < e or box["down"][0] < e, "flush-incomplete", f"measurement {v} made before force_flush was not exported when it returned True")
    for f in box["flushes"]:
        if any(r[0] < f[1] and f[0] < r[1] for r in ex.log):
            case.observe("racing_flushes")
    for v, r in rows.items():
        if r[1] is not None and r[1] < box["down"][0] and box["last"] < box["down"][0]:
            case.check(v in sent, "lost", f"measurement {v} made before shutdown was never exported")
    if any(r[0] > box["down"][0] for r in log):
        case.observe("final_exports")


def calm(case):
    """Export times against the interval, with nobody else around; the schedule must survive every kind of failure."""
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk.metrics.export import PeriodicExportingMetricReader

    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=600_000, early_timer=0.0)
    box = {}

    def main():
        clock, bit = itertools.count(), itertools.count()
        from opentelemetry.sdk.metrics.export import AggregationTemporality as T

        interval = rng.choice([1.0, 10.0, 60.0])
        plan = [rng.choice([("ok",), ("fail",), ("raise",), ("slow", rng.choice([0.5, 0.2, 1.5]) * interval)]) for _ in range(rng.randrange(1, 5))]
        ex = exporter_class()(case, plan, clock, preferred_temporality={k: T.DELTA for k in mm.kinds()})
        start = time.time_ns()
        reader = PeriodicExportingMetricReader(ex, export_interval_millis=interval * 1000)
        prov = mm.provider([reader])
        m = prov.get_meter("m")
        c = m.create_counter("c")
        calls, ended, slows = [], [], []
        troubles = rng.sample(range(10), rng.choice([0, 1, 3]))

        def cb(o):
            calls.append(time.time_ns())
            if len(calls) - 1 in troubles and not ended:
                k = rng.choice(["raise", "broken", "slow"])
                case.observe({"raise": "raising_callbacks", "broken": "broken_observations", "slow": "slow_callbacks"}[k])
                if k == "raise":
                    raise rng.choice([ValueError, KeyError, OSError, TypeError, TimeoutError])
                if k == "broken":
                    return [Observation("x")]
                slows.append(calls[-1])
                time.sleep(31)
            if lag:
                case.observe("lagging_callbacks")
                time.sleep(lag)
            return []

        lag = interval * rng.choice([1.2, 3]) if rng.random() < 0.3 and interval < 10 else 0
        m.create_observable_gauge("g", [cb])
        m.create_observable_gauge("h", [lambda o: []])
        total = []
        idle = rng.random() < 0.3
        for i in range(rng.randrange(3, 9)):
            if not idle or rng.random() < 0.5:
                v = 1 << next(bit)
                total.append(v)
                c.add(v)
            else:
                case.observe("idle_intervals")
            time.sleep(interval * rng.choice([0.7, 1, 1, 2.3]))
        end = time.time_ns()
        ended.append(1)  # the final collection succeeds
        quick = not lag and not slows and not any(p[0] == "slow" for p in plan)
        # nothing takes time now, so the final export fits in any timeout
        # otherwise one collection with its export may be under way, and the final one takes as long
        need = 0.04 if quick else 1.1 * (3 * interval + 2 * lag + 31)
        how = rng.choice([1e9, need * 1000, need * 5000])
        if need < 30 and rng.random() < 0.4:
            prov.shutdown()
        else:
            (prov if rng.random() < 0.5 else reader).shutdown(timeout_millis=how)
        case.check(len(ex.downs) == 1 and ex.downs[0][1] == 0, "shutdown-overlap", f"shutdown with enough time ({need} s): exporter shut down {len(ex.downs)} times, during an export: {ex.downs}")
        case.observe("sufficient_shutdowns")
        case.observe("short_shutdowns", quick)
        box.update(ex=ex, calls=calls, start=start, end=end, interval=interval, total=total, lag=lag, slows=slows)

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
        return
    case.check(not s.thread_exceptions, "raised", f"{s.thread_exceptions}"[:800])
    if not box:
        return
    ex, calls, iv = box["ex"], box["calls"], box["interval"]
    case.sig([round(x / 1e9, 1) for x in calls], [r[5] for r in ex.log])
    slow = sum((r[3] - r[2]) for r in ex.log) / 1e9 + 31 * 3 + box["lag"] * len(calls)
    span = (box["end"] - box["start"]) / 1e9
    # collections are never closer than one interval (the final one excepted) and never stop
    periodic = [t for t in calls if t <= box["end"]]
    times = [box["start"]] + periodic
    for a, b in zip(times, times[1:]):
        case.observe("schedule_gaps")
        case.check(b - a >= iv * 1e9 * 0.999, "early", f"collections {round((b - a) / 1e9, 3)} s apart with an interval of {iv} s")
    case.observe("periodic_exports", len(periodic))
    # every interval sees one collection, apart from the time exports and callbacks took
    least = int((span - slow) / iv) - 1
    case.check(len(periodic) >= least, "stopped", f"{len(periodic)} collections in {span} s, {slow} s of them spent in exports and callbacks, interval {iv} s")
    for a, b in zip(periodic, periodic[1:]):
        busy = sum(min(r[3], b) - max(r[2], a) for r in ex.log if r[2] < b and r[3] > a) / 1e9 + 31 * (a in box["slows"]) + box["lag"]
        case.check((b - a) / 1e9 <= iv + busy + 0.1, "late", f"collections {round((b - a) / 1e9, 2)} s apart, interval {iv} s, {busy} s busy")
    sent = 0
    for r in ex.log:
        v = r[4].get("c", 0)
        case.check(sent & v == 0, "twice", f"{v} after {sent}")
        sent |= v
    case.eq(sent, sum(box["total"]), "lost", "measurements exported until shutdown")
    if ex.log and ex.log[-1][2] >= box["end"]:
        case.observe("final_exports")


def outlasting(case):
    """An export that outlasts the timeout of shutdown: nothing is exported to the exporter afterwards."""
    from opentelemetry.sdk.metrics.export import PeriodicExportingMetricReader

    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=300_000, early_timer=0.0)
    box = {}

    def main():
        clock = itertools.count()
        ex = exporter_class()(case, [("slow", rng.choice([5.0, 20.0]))], clock)
        reader = PeriodicExportingMetricReader(ex, export_interval_millis=1000)
        prov = mm.provider([reader])
        c = prov.get_meter("m").create_counter("c")
        c.add(1)
        time.sleep(1.0 + rng.random())
        c.add(2)
        try:
            (reader if rng.random() < 0.5 else prov).shutdown(timeout_millis=rng.choice([1, 500, 2000]))
        except Exception:
            pass
        case.observe("outlasting_exports")
        time.sleep(100)
        box.update(ex=ex)

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
        return
    case.check(not s.thread_exceptions, "raised", f"{s.thread_exceptions}"[:800])
    case.sig(s.signature())
    if box:
        case.check(len(box["ex"].downs) == 1, "exporter-shutdowns", f"{len(box['ex'].downs)}")


WORKLOADS = [Workload("programs", programs, 1200, 40_000), Workload("calm", calm, 320, 8_000), Workload("outlasting", outlasting, 80, 2_000)]
