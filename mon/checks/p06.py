import threading
import time

from mon import batch, quiet, sched
from mon.core import Workload

PROPERTY = "P06"
VENV = "pb5"
SCHED = True
REQUIRED = ["spans_fanned_out", "logs_fanned_out", "processors_added_live", "flushes", "flush_false", "flush_true", "exporter_faults", "shutdowns"]
RULE = (
    "Random numbers of recording and simple processors on a real TracerProvider/LoggerProvider with sequential or concurrent fan-out, "
    "producers and live registrations interleaved by the schedule fuzzer; flush durations and results are scripted in virtual time; "
    "distinct = different context-switch sequence or flush script."
)
ASSUMPTIONS = [
    "processors themselves follow their documented contract (they do not raise and honour the timeout they are given)",
]


class Hist:
    def __init__(self):
        self.ev = []

    def add(self, *a):
        self.ev.append(a)
        return len(self.ev) - 1


def make(kind, concurrent, hist, rng, workers):
    """-> (provider, add(i, simple, fault, script), emit(name))"""
    if kind == "span":
        from opentelemetry.sdk.resources import Resource
        from opentelemetry.sdk.trace import ConcurrentMultiSpanProcessor, SpanProcessor, SynchronousMultiSpanProcessor, TracerProvider
        from opentelemetry.sdk.trace.export import SimpleSpanProcessor, SpanExporter, SpanExportResult
        from opentelemetry.sdk.trace.sampling import Decision, Sampler, SamplingResult

        class ByName(Sampler):
            def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
                if name.startswith("U"):
                    return SamplingResult(Decision.RECORD_ONLY)
                return SamplingResult(Decision.RECORD_AND_SAMPLE)

            def get_description(self):
                return "ByName"

        multi = ConcurrentMultiSpanProcessor(workers) if concurrent else SynchronousMultiSpanProcessor()
        prov = TracerProvider(resource=Resource({}), sampler=ByName(), active_span_processor=multi, shutdown_on_exit=False)

        class Rec(SpanProcessor):
            def __init__(self, i, script):
                self.i, self.script = i, script

            def on_start(self, span, parent_context=None):
                hist.add("start", self.i, span.name, parent_context)

            def on_end(self, span):
                hist.add("end", self.i, span.name, span.end_time is not None)

            def shutdown(self):
                hist.add("shutdown", self.i)

            def force_flush(self, timeout_millis=30000):
                return flush(hist, self.i, self.script, timeout_millis)

        class Exp(SpanExporter):
            def __init__(self, i, fault):
                self.i, self.fault = i, fault

            def export(self, spans):
                for s in spans:
                    hist.add("export", self.i, s.name, len(spans))
                if rng.random() < self.fault:
                    hist.add("fault")
                    raise rng.choice([RuntimeError, KeyError, ValueError])("exporter")
                return SpanExportResult.SUCCESS

            def shutdown(self):
                hist.add("shutdown", self.i)

        def add(i, simple, fault, script):
            prov.add_span_processor(SimpleSpanProcessor(Exp(i, fault)) if simple else Rec(i, script))

        tracer = prov.get_tracer("m")
        from opentelemetry.context import Context

        def emit(name):
            ctx = Context({"who": name}) if rng.random() < 0.7 else None
            hist.add("start_call", name, ctx)
            kw, end = batch.odd_span(rng)
            span = tracer.start_span(name, **{**kw, "context": ctx})
            hist.add("start_ret", name)
            hist.add("end_call", name)
            span.end(**end)
            hist.add("end_ret", name)

    else:
        from opentelemetry.sdk._logs import LoggerProvider, LogRecord, LogRecordProcessor
        from opentelemetry.sdk._logs._internal import ConcurrentMultiLogRecordProcessor, SynchronousMultiLogRecordProcessor
        from opentelemetry.sdk._logs.export import LogExporter, LogExportResult, SimpleLogRecordProcessor
        from opentelemetry.sdk.resources import Resource

        res = Resource({})
        multi = ConcurrentMultiLogRecordProcessor(workers) if concurrent else SynchronousMultiLogRecordProcessor()
        prov = LoggerProvider(resource=res, multi_log_record_processor=multi, shutdown_on_exit=False)

        class Rec(LogRecordProcessor):
            def __init__(self, i, script):
                self.i, self.script = i, script

            def emit(self, log_data):
                hist.add("end", self.i, log_data.log_record.body, True)

            def shutdown(self):
                hist.add("shutdown", self.i)

            def force_flush(self, timeout_millis=30000):
                return flush(hist, self.i, self.script, timeout_millis)

        class Exp(LogExporter):
            def __init__(self, i, fault):
                self.i, self.fault = i, fault

            def export(self, batch):
                for d in batch:
                    hist.add("export", self.i, d.log_record.body, len(batch))
                if rng.random() < self.fault:
                    hist.add("fault")
                    raise rng.choice([RuntimeError, KeyError, ValueError])("exporter")
                return LogExportResult.SUCCESS

            def shutdown(self):
                hist.add("shutdown", self.i)

        def add(i, simple, fault, script):
            prov.add_log_record_processor(SimpleLogRecordProcessor(Exp(i, fault)) if simple else Rec(i, script))

        logger = prov.get_logger("m")

        def emit(name):
            rec = LogRecord(body=name, resource=res, **batch.odd_log(rng))
            hist.add("end_call", name)
            logger.emit(rec)
            hist.add("end_ret", name)

    return prov, add, emit


def flush(hist, i, script, timeout_millis):
    dur, ok = script
    hist.add("flush_in", i, timeout_millis)
    if dur > timeout_millis:
        time.sleep(max(0, timeout_millis) / 1e3)
        hist.add("flush_out", i, False)
        return False
    time.sleep(dur / 1e3)
    hist.add("flush_out", i, ok)
    return ok


def fanout(case):
    rng = case.rng
    kind = rng.choice(["span", "log"])
    concurrent = rng.random() < 0.4
    n = rng.randrange(1, 5)
    live = rng.randrange(0, 3)
    simple = [rng.random() < 0.4 for _ in range(n + live)]
    fault = [rng.choice([0, 0, 0.5, 1]) for _ in range(n + live)]
    producers = rng.randrange(1, 4)
    items = rng.randrange(1, 5)
    hist = Hist()
    s = sched.Scheduler(rng.random(), max_steps=200_000)
    quiet.silence()

    def main():
        prov, add, emit = make(kind, concurrent, hist, rng, rng.randrange(1, 4))
        for i in range(n):
            hist.add("add_call", i)
            add(i, simple[i], fault[i], (0, True))
            hist.add("add_ret", i)

        def produce(p):
            for k in range(items):
                u = "U" if kind == "span" and rng.random() < 0.3 else "S"
                emit(f"{u}-{p}-{k}")

        def adder(i):
            time.sleep(0.0)
            hist.add("add_call", i)
            add(i, simple[i], fault[i], (0, True))
            hist.add("add_ret", i)

        ts = [threading.Thread(target=produce, args=(p,)) for p in range(producers)]
        ts += [threading.Thread(target=adder, args=(n + j,)) for j in range(live)]
        rng.shuffle(ts)
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        hist.add("main_shutdown")
        prov.shutdown()
        hist.add("main_shutdown_ret")

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("deadlock", str(exc), events=hist.ev[-60:])
    for name, exc, tb in s.thread_exceptions:
        case.fail("raised", f"{name}: {exc} reached the application", tb=tb)
    ctx = dict(kind=kind, concurrent=concurrent, simple=simple, fault=fault, events=hist.ev)
    added = {}
    calls = {}
    seen = {}
    for k, e in enumerate(hist.ev):
        if e[0] in ("add_call", "add_ret"):
            added.setdefault(e[1], {})[e[0]] = k
        elif e[0] in ("start_call", "start_ret", "end_call", "end_ret"):
            calls.setdefault(e[1], {})[e[0]] = k
            if e[0] == "start_call":
                calls[e[1]]["ctx"] = e[2]
        elif e[0] in ("start", "end", "export"):
            seen.setdefault((e[0], e[1], e[2]), []).append((k, e[3]))
        elif e[0] == "fault":
            case.observe("exporter_faults")
    total = n + live
    case.observe("processors_added_live", live)
    for name, c in calls.items():
        case.observe("spans_fanned_out" if kind == "span" else "logs_fanned_out")
        for what in ("start", "end"):
            if what == "start" and kind == "log":
                continue
            lo, hi = c[what + "_call"], c[what + "_ret"]
            order = []
            for i in range(total):
                k = "export" if simple[i] else what
                if simple[i] and what == "start":
                    continue
                got = seen.get((k, i, name), [])
                want_none = simple[i] and name.startswith("U")
                must = added[i]["add_ret"] < lo and not want_none
                may = added[i]["add_call"] < hi and not want_none
                case.check(len(got) <= 1, "fanout-duplicate", f"processor {i} saw {what} of {name} {len(got)} times", **ctx)
                case.check(got or not must, "fanout-missed", f"processor {i} never saw {what} of {name}", **ctx)
                case.check(not got or may, "fanout-unexpected", f"processor {i} saw {what} of {name} unexpectedly", **ctx)
                if got:
                    pos, extra = got[0]
                    case.check(lo < pos < hi, "fanout-late", f"processor {i} saw {what} of {name} outside the call", **ctx)
                    order.append((pos, i))
                    if k == "export":
                        case.check(extra == 1, "simple-batch", f"simple processor exported {extra} items at once", **ctx)
                    if k == "end":
                        case.check(extra, "not-ended", f"on_end saw an unfinished span {name}", **ctx)
                    if k == "start":
                        case.check(extra is c["ctx"], "parent-context", "on_start got another parent context", **ctx)
            if not concurrent:
                idx = [i for _, i in sorted(order)]
                # registration order, where it is known
                for a, b in zip(idx, idx[1:]):
                    case.check(
                        not (added[b]["add_ret"] < added[a]["add_call"]), "fanout-order", f"{what} of {name} reached {a} before {b}", **ctx
                    )
    down = [e[1] for e in hist.ev if e[0] == "shutdown"]
    case.observe("shutdowns", len(down))
    case.eq(sorted(down), list(range(total)), "shutdown-fanout", "processors shut down", **ctx)
    case.sig(kind, concurrent, s.signature(), len(hist.ev))
    case.sample({k: v for k, v in ctx.items() if k != "events"})


def flushing(case):
    rng = case.rng
    kind = rng.choice(["span", "log"])
    concurrent = rng.random() < 0.5
    n = rng.randrange(1, 5)
    timeout = rng.choice([50, 1000, 30000])
    scripts = [(rng.choice([0, 0, timeout // 10, timeout // 3, timeout * 3]), rng.random() < 0.85) for _ in range(n)]
    workers = rng.randrange(1, 4)
    hist = Hist()
    s = sched.Scheduler(rng.random(), early_timer=0.0, max_steps=200_000)
    quiet.silence()
    out = {}

    def main():
        prov, add, emit = make(kind, concurrent, hist, rng, workers)
        for i in range(n):
            add(i, False, 0, scripts[i])
        t0 = s.now
        out["res"] = prov.force_flush(timeout)
        out["took"] = (s.now - t0) / 1e6

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("deadlock", str(exc), events=hist.ev[-60:])
    ctx = dict(kind=kind, concurrent=concurrent, workers=workers, timeout=timeout, scripts=scripts, events=hist.ev, out=out)
    res = out["res"]
    case.check(isinstance(res, bool), "flush-type", f"force_flush returned {res!r}", **ctx)
    case.check(out["took"] <= timeout + 20, "flush-overrun", f"took {out['took']} ms of {timeout}", **ctx)
    case.observe("flushes")
    case.observe("flush_true" if res else "flush_false")
    ok = [i for i in range(n) if ("flush_out", i, True) in hist.ev]
    if res:
        case.check(len(ok) == n, "flush-true", f"returned True although only {ok} of {n} flushed", **ctx)
    cost = sum(d for d, _ in scripts)
    if all(o for _, o in scripts) and cost <= timeout * 0.95:
        case.check(res, "flush-false", "every processor flushes in time but the result is False", **ctx)
    for i in range(n):
        calls = [e for e in hist.ev if e[0] == "flush_in" and e[1] == i]
        case.check(len(calls) <= 1, "flush-twice", f"processor {i} flushed {len(calls)} times", **ctx)
        for e in calls:
            case.check(e[2] <= timeout, "flush-timeout-arg", f"processor {i} got timeout {e[2]} > {timeout}", **ctx)
    case.sig(kind, concurrent, workers, timeout, tuple(scripts))
    case.sample({k: v for k, v in ctx.items() if k != "events"})


WORKLOADS = [
    Workload("fanout", fanout, quick=3000, thorough=60000),
    Workload("flush", flushing, quick=1500, thorough=20000),
]
