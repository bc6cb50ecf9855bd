import itertools
import time

from mon import forked, quiet, sched
from mon import metrics as mm
from mon.core import Workload

PROPERTY = "P27"
VENV = "pb5"
SCHED = True
REQUIRED = [
    "flushes", "flush_errors", "flush_false", "shutdowns", "shutdown_errors", "concurrent_shutdowns", "second_shutdown_warnings", "reader_flushes", "reader_shutdowns", "failing_readers", "skipped_after_deadline",
    "meters_after_shutdown", "tracers_after_shutdown", "loggers_after_shutdown", "measurements_after_shutdown", "spans_after_shutdown", "logs_after_shutdown", "second_trace_shutdowns", "second_log_shutdowns", "exit_runs", "late_collections", "exporter_flushes", "exit_after_shutdown",
]
RULE = (
    "Providers with every number of readers or processors, members that raise, return False or are slow (virtual time), flushes and shutdowns from several threads under the schedule fuzzer, use afterwards, "
    "and interpreter-exit handlers run in forked children; distinct = program plus context switches."
)
ASSUMPTIONS = [
    "a reader fails by raising or by returning False from force_flush",
    "a reader whose turn comes after the provider's deadline may be skipped, if that is reported",
    "for traces and logs a processor that raises from shutdown is out of scope",
]


def reader_class():
    from opentelemetry.sdk.metrics.export import MetricReader

    class Reader(MetricReader):
        def __init__(self, case, name, flush, down, log, clock, timed):
            super().__init__()
            self.case, self.name, self.f, self.d, self.log, self.clock, self.timed = case, name, flush, down, log, clock, timed
            self.received = 0

        def _receive_metrics(self, metrics_data, timeout_millis=10_000, **kwargs):
            self.received += 1
            self.log.append(("receive", self.name, next(self.clock)))
            self.do(self.f)

        def do(self, what):
            if what[0] == "slow":
                time.sleep(what[1])
            elif what[0] == "raise":
                raise what[1](f"reader {self.name}")

        def force_flush(self, timeout_millis=10_000):
            self.timed.append(("flush", self.name, timeout_millis, time.time_ns()))
            self.log.append(("flush", self.name, next(self.clock)))
            self.case.observe("reader_flushes")
            super().force_flush(timeout_millis=timeout_millis)
            return self.f[0] != "false"

        def shutdown(self, timeout_millis=30_000, **kwargs):
            self.timed.append(("down", self.name, timeout_millis, time.time_ns()))
            self.log.append(("down", self.name, next(self.clock)))
            self.case.observe("reader_shutdowns")
            self.do(self.d)

    # the class name is what a report may mention
    return Reader


ERRORS = (ValueError, KeyError, OSError, RuntimeError, TypeError, TimeoutError)


def readers(case):
    """MeterProvider.force_flush and shutdown over any set of readers."""
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader

    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=400_000, early_timer=0.0)
    base = reader_class()
    log, timed, clock = [], [], itertools.count()

    def behave(flush):
        r = rng.random()
        if r < 0.25:
            return ("raise", rng.choice(ERRORS))
        if r < 0.4:
            return ("slow", rng.choice([0.5, 3, 20]))
        if r < 0.5 and flush:
            return ("false",)
        return ("ok",)

    rs = []
    for i in range(rng.choice([0, 1, 1, 2, 3, 4])):
        cls = type(f"R{i}eader", (base,), {})
        rs.append(cls(case, i, behave(True), behave(False), log, clock, timed))
    failing = [r for r in rs if "raise" in (r.f[0], r.d[0])]
    case.observe("failing_readers", len(failing))
    spare = [InMemoryMetricReader()] if rng.random() < 0.3 else []
    where = rng.randrange(len(rs) + 1)
    prov = mm.provider(rs[:where] + spare + rs[where:])
    meter = prov.get_meter("m")
    c = meter.create_counter("c")
    meter.create_observable_gauge("g", [lambda o: []])
    c.add(1)

    def one(kind, timeout):
        """One call; checks what was called and what was reported."""
        del log[:], timed[:]
        begin = time.time_ns()
        error = out = None
        try:
            out = prov.force_flush(timeout) if kind == "flush" else prov.shutdown(timeout)
        except Exception as exc:
            error = exc
        bad, elapsed = set(), begin
        done = [n for k, n, _ in log if k == kind]
        case.eq(len(done), len(set(done)), "repeated", f"{kind} calls {log}")
        for k, n, t, at in timed:
            case.check(0 < t <= timeout + 1e-6 and t <= timeout - (at - begin) / 1e6 + 1, "timeout-argument", f"{kind} of reader {n} got {t} ms, {(at - begin) / 1e6} ms after the call with {timeout} ms")
        for r in rs:
            what = r.f if kind == "flush" else r.d
            if r.name not in done:
                # only an exceeded deadline excuses that
                case.check(time.time_ns() - begin >= timeout * 1e6 * 0.999, "not-reached", f"{kind} never reached reader {r.name} within {timeout} ms: {log}")
                case.observe("skipped_after_deadline")
                bad.add(r)
            elif what[0] == "raise":
                bad.add(r)
        case.observe("flushes" if kind == "flush" else "shutdowns")
        if bad:
            case.check(error is not None, "hidden", f"{kind} reported {out!r} although readers {[r.name for r in bad]} failed")
            case.observe("flush_errors" if kind == "flush" else "shutdown_errors")
            for r in bad:
                case.check(type(r).__name__ in str(error), "not-named", f"{error!r} does not name {type(r).__name__}")
            for r in rs:
                if r not in bad and r.f[0] != "false" and not (spare and r.f[0] == "slow"):
                    case.check(type(r).__name__ not in str(error), "wrongly-named", f"{error!r} names {type(r).__name__}")
        elif kind == "flush" and any(r.f[0] == "false" for r in rs):
            case.check(error is not None or out is False, "hidden", f"force_flush returned {out!r} although a reader returned False")
            case.observe("flush_false")
        elif not (spare and error is not None and time.time_ns() - begin >= timeout * 1e6 * 0.999):
            case.check(error is None, "raised", f"{kind} raised {error!r} without a failure: {log}")
            if kind == "flush":
                case.check(out is True, "flush-value", f"{out!r}")
        if kind == "flush":
            got = [n for k, n, _ in log if k == "receive"]
            case.eq(sorted(got), sorted(done), "collected", "readers collected by the flush")

    def main():
        import threading

        for _ in range(rng.randrange(0, 4)):
            one("flush", rng.choice([10_000, 1000, 60_000, 700]))
            c.add(1)
        if rng.random() < 0.5:
            one("down", rng.choice([30_000, 1000, 100_000]))
        else:
            n = rng.choice([2, 3])
            del log[:], timed[:]
            outs = []

            def go():
                try:
                    prov.shutdown(1e7)
                    outs.append(None)
                except Exception as exc:
                    outs.append(exc)

            ts = [threading.Thread(target=go) for _ in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            case.observe("concurrent_shutdowns")
            case.eq(sorted(x for k, x, _ in log if k == "down"), [r.name for r in rs], "repeated", f"{log}")
            want = 1 if any(r.d[0] == "raise" for r in rs) else 0
            case.eq(sum(o is not None for o in outs), want, "hidden", f"concurrent shutdowns raised {outs}")
        # afterwards
        del log[:], timed[:]
        with quiet.capture() as recs:
            try:
                prov.shutdown()
            except Exception as exc:
                case.fail("second-shutdown-raised", f"{exc!r}")
        case.check(any(r.levelno >= 30 for r in recs), "no-warning", "the second shutdown logged no warning")
        case.observe("second_shutdown_warnings")
        case.eq([x for x in log if x[0] == "down"], [], "repeated", "the second shutdown reached a reader")
        m2 = None
        for args in (("x",), ("m",), ("", "1", "u"), ("y", None, None, {"a": 1})):
            m2 = prov.get_meter(*args)
            case.check(m2 is not None, "meter", "get_meter returned None after shutdown")
            case.observe("meters_after_shutdown")
            for mt in (m2, meter):
                k = f"late{rng.randrange(3)}"
                mt.create_counter(k + "a").add(1, {"a": 1})
                mt.create_up_down_counter(k + "b").add(-1)
                mt.create_histogram(k + "c").record(1)
                mt.create_gauge(k + "d").set(1)
                mt.create_observable_counter(k + "e", [lambda o: []])
                mt.create_observable_up_down_counter(k + "f", [lambda o: []])
                mt.create_observable_gauge(k + "g", [lambda o: []])
        c.add(1)
        case.observe("measurements_after_shutdown")
        case.eq([x for x in log if x[0] == "receive"], [], "exported", "a reader received metrics after shutdown")
        if spare:
            # whatever a pull reader may still be asked for, meters handed out after shutdown record nothing
            late = prov.get_meter("very-late")
            late.create_counter("verylate").add(1)
            late.create_observable_gauge("verylate2", [lambda o: [Observation(1)]])
            data = spare[0].get_metrics_data()
            names = [m.name for _, m in mm.streams(data)] if data else []
            case.check(not {"verylate", "verylate2"} & set(names), "recorded", f"a meter handed out after shutdown recorded: {names}")
            case.observe("late_collections")

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
        return
    case.check(not s.thread_exceptions, "raised", f"{s.thread_exceptions}"[:600])
    case.sig(s.signature(), [(r.f[0], r.d[0]) for r in rs])


def after(case):
    """All three providers with the SDK's own pipelines: shutdown from several threads, use during and afterwards."""
    import threading

    from opentelemetry.sdk._logs import LoggerProvider, LogRecord
    from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, InMemoryLogExporter, SimpleLogRecordProcessor
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader, MetricExporter, MetricExportResult, PeriodicExportingMetricReader
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import ConcurrentMultiSpanProcessor, TracerProvider
    from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor
    from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter

    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=600_000, early_max_s=0.5)

    def main():
        class Spans(InMemorySpanExporter):
            def export(self, spans):
                seen.extend(("span", x.name, bool(finished)) for x in spans)
                return super().export(spans)

        class Logs(InMemoryLogExporter):
            def export(self, batch):
                seen.extend(("log", x.log_record.body, bool(finished)) for x in batch)
                return super().export(batch)

        class Metrics(MetricExporter):
            def export(self, data, timeout_millis=10_000, **kw):
                seen.append(("metrics", [p.value for _, m in mm.streams(data) if m.name == "c" for p in m.data.data_points], bool(finished)))
                return MetricExportResult.SUCCESS

            def force_flush(self, timeout_millis=10_000):
                return True

            def shutdown(self, timeout_millis=30_000, **kw):
                pass

        seen, finished = [], []
        res = Resource({})
        tp = TracerProvider(resource=res, shutdown_on_exit=False)
        lp = LoggerProvider(resource=res, shutdown_on_exit=False)
        n = rng.choice([1, 2])
        sx, lx = [Spans() for _ in range(n)], [Logs() for _ in range(n)]
        batch = rng.random() < 0.7
        for x in sx:
            tp.add_span_processor((BatchSpanProcessor if batch else SimpleSpanProcessor)(x))
        for x in lx:
            lp.add_log_record_processor((BatchLogRecordProcessor if batch else SimpleLogRecordProcessor)(x))
        pull = InMemoryMetricReader()
        mp = mm.provider([PeriodicExportingMetricReader(Metrics(), export_interval_millis=rng.choice([100, 1000, 60_000])), pull])
        tr, lg, mt = tp.get_tracer("t"), lp.get_logger("l"), mp.get_meter("m")
        c = mt.create_counter("c")
        live = tr.start_span("live")
        tr.start_span("early").end()
        lg.emit(LogRecord(body="early", resource=res))
        c.add(1)

        def use(tag, n):
            for i in range(n):
                sp = tp.get_tracer("late").start_span(f"{tag}{i}")
                sp.set_attribute("a", 1)
                sp.add_event("e")
                sp.end()
                tr.start_span(f"{tag}{i}x").end()
                lp.get_logger("late", attributes=rng.choice([None, {"a": 1}])).emit(LogRecord(body=f"{tag}{i}", resource=res))
                lg.emit(LogRecord(body=f"{tag}{i}x", resource=res))
                mp.get_meter("late").create_counter("c2").add(1)
                mt.create_histogram("h").record(1)
                c.add(1)

        def down(first):
            for p in rng.sample([tp, lp, mp], 3):
                p.shutdown()

        ts = [threading.Thread(target=use, args=("u", rng.randrange(1, 4)))] + [threading.Thread(target=down, args=(i == 0,)) for i in range(rng.choice([1, 2]))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for x in sx:
            names = [y.name for y in x.get_finished_spans()]
            case.check("early" in names, "lost", f"the span ended before shutdown is missing: {names}")
        for x in lx:
            case.check("early" in [y.log_record.body for y in x.get_finished_logs()], "lost", "the record emitted before shutdown is missing")
        time.sleep(100)
        finished.append(1)
        before = len(seen)
        spans = [len(x.get_finished_spans()) for x in sx], [len(x.get_finished_logs()) for x in lx]
        use("z", 3)
        live.end()
        case.observe("spans_after_shutdown", 6)
        case.observe("logs_after_shutdown", 6)
        case.observe("tracers_after_shutdown", 3)
        case.observe("loggers_after_shutdown", 3)
        case.observe("meters_after_shutdown", 3)
        case.observe("measurements_after_shutdown", 3)
        for p, what in ((tp, "second_trace_shutdowns"), (lp, "second_log_shutdowns"), (mp, "second_shutdown_warnings")):
            with quiet.capture() as recs:
                try:
                    p.shutdown()
                except Exception as exc:
                    case.fail("second-shutdown-raised", f"{type(p).__name__}: {exc!r}")
            case.check(not any(r.levelno > 30 for r in recs), "second-shutdown-errors", f"{[r.getMessage() for r in recs]}")
            case.observe(what)
        for p in (tp, lp, mp):
            try:
                p.force_flush(1e6)
            except Exception as exc:
                case.fail("flush-raised", f"{type(p).__name__}.force_flush after shutdown: {exc!r}")
        time.sleep(200)
        case.eq((([len(x.get_finished_spans()) for x in sx], [len(x.get_finished_logs()) for x in lx])), spans, "exported", "items kept by the exporters after shutdown")
        if batch:
            case.eq(seen[before:], [], "exported", "items exported after shutdown")
        else:
            case.check(all(k != "metrics" for k, *_ in seen[before:]), "exported", "metrics exported after shutdown")

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
        return
    case.check(not s.thread_exceptions, "raised", f"{s.thread_exceptions}"[:900])
    case.sig(s.signature())


def exits(case):
    """shutdown_on_exit: what is pending when the interpreter exits is exported, once; nothing happens twice after an explicit shutdown."""
    rng = case.rng
    explicit = rng.random() < 0.4
    on_exit = rng.random() < 0.8
    n = rng.randrange(1, 5)

    seed = rng.random()

    def child():
        box = []
        s = sched.Scheduler(seed, max_steps=400_000, early_timer=0.0)
        s.run(lambda: box.append(body()))
        assert not s.thread_exceptions, s.thread_exceptions
        return box[0]

    def body():
        import atexit

        from opentelemetry.sdk._logs import LoggerProvider, LogRecord
        from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult
        from opentelemetry.sdk.metrics import MeterProvider
        from opentelemetry.sdk.metrics.export import MetricExporter, MetricExportResult, PeriodicExportingMetricReader
        from opentelemetry.sdk.resources import Resource
        from opentelemetry.sdk.trace import TracerProvider
        from opentelemetry.sdk.trace.export import BatchSpanProcessor, SpanExporter, SpanExportResult

        quiet.silence()
        seen, downs = [], []

        class S(SpanExporter):
            def export(self, spans):
                seen.extend("s" + x.name for x in spans)
                return SpanExportResult.SUCCESS

            def shutdown(self):
                downs.append("s")

        class L(LogExporter):
            def export(self, batch):
                seen.extend("l" + x.log_record.body for x in batch)
                return LogExportResult.SUCCESS

            def shutdown(self):
                downs.append("l")

        class M(MetricExporter):
            def export(self, data, timeout_millis=10_000, **kw):
                seen.extend(f"m{p.value}" for _, m in mm.streams(data) for p in m.data.data_points)
                return MetricExportResult.SUCCESS

            def force_flush(self, timeout_millis=10_000):
                return True

            def shutdown(self, timeout_millis=30_000, **kw):
                downs.append("m")

        res = Resource({})
        tp = TracerProvider(resource=res, shutdown_on_exit=on_exit)
        tp.add_span_processor(BatchSpanProcessor(S(), schedule_delay_millis=10**7))
        lp = LoggerProvider(resource=res, shutdown_on_exit=on_exit)
        lp.add_log_record_processor(BatchLogRecordProcessor(L(), schedule_delay_millis=10**7))
        mp = MeterProvider([PeriodicExportingMetricReader(M(), export_interval_millis=10**7)], resource=res, shutdown_on_exit=on_exit)
        for i in range(n):
            tp.get_tracer("t").start_span(str(i)).end()
            lp.get_logger("l").emit(LogRecord(body=str(i), resource=res))
        mp.get_meter("m").create_counter("c").add(n)
        if explicit:
            for p in (tp, lp, mp):
                p.shutdown()
        mid = list(seen), list(downs)
        with quiet.capture() as recs:
            atexit._run_exitfuncs()
        return mid, seen, downs, [r.getMessage() for r in recs]

    out = forked.call(child)
    case.check(out[0] == "ok", "raised", f"{out[1:]}")
    mid, seen, downs, logged = out[1]
    want = sorted([f"s{i}" for i in range(n)] + [f"l{i}" for i in range(n)] + [f"m{n}"])
    case.observe("exit_runs")
    if explicit:
        case.observe("exit_after_shutdown")
        case.eq(sorted(mid[0]), want, "exit", "exported by shutdown")
        case.eq(logged, [], "exit-warning", "logged at exit after an explicit shutdown")
    if explicit or on_exit:
        case.eq(sorted(seen), want, "exit", "exported until exit")
        case.eq(sorted(downs), ["l", "m", "s"], "exit-shutdowns", "exporter shutdowns")
    else:
        case.eq(seen, [], "exit", "exported at exit although shutdown_on_exit is off")
    case.sig(explicit, on_exit, n)


def periodic(case):
    """What a periodic reader's exporter says to force_flush, next to readers that are fine."""
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader, MetricExporter, MetricExportResult, PeriodicExportingMetricReader

    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=200_000, early_timer=0.0)
    how = [rng.choice([True, True, False, "raise"]) for _ in range(rng.randrange(1, 4))]
    bad_down = [rng.random() < 0.3 for _ in how]
    calls = []

    class Exporter(MetricExporter):
        def __init__(self, i):
            super().__init__()
            self.i = i

        def export(self, data, timeout_millis=10_000, **kw):
            calls.append(("export", self.i))
            return MetricExportResult.SUCCESS

        def force_flush(self, timeout_millis=10_000):
            calls.append(("flush", self.i))
            if how[self.i] == "raise":
                raise rng.choice(ERRORS)("flush")
            return how[self.i]

        def shutdown(self, timeout_millis=30_000, **kw):
            calls.append(("down", self.i))
            if bad_down[self.i]:
                raise rng.choice(ERRORS)("down")

    def main():
        readers = [PeriodicExportingMetricReader(Exporter(i), export_interval_millis=10**7) for i in range(len(how))]
        prov = mm.provider(readers + [InMemoryMetricReader()])
        prov.get_meter("m").create_counter("c").add(1)
        for _ in range(rng.randrange(1, 3)):
            del calls[:]
            error = out = None
            try:
                out = prov.force_flush()
            except Exception as exc:
                error = exc
            case.eq(sorted(calls), sorted([("export", i) for i in range(len(how))] + [("flush", i) for i in range(len(how))]), "not-reached", "exporter calls of a flush")
            case.observe("exporter_flushes")
            if "raise" in how:
                case.check(error is not None, "hidden", f"force_flush returned {out!r}: {how}")
            elif False in how:
                case.check(error is not None or out is False, "hidden", f"force_flush returned {out!r}: {how}")
            else:
                case.check(error is None and out is True, "raised", f"{error!r} {out!r}: {how}")
        del calls[:]
        error = None
        try:
            prov.shutdown()
        except Exception as exc:
            error = exc
        case.eq(sorted(calls), sorted([("export", i) for i in range(len(how))] + [("down", i) for i in range(len(how))]), "not-reached", "exporter calls of shutdown")
        case.check((error is not None) == any(bad_down), "hidden", f"shutdown: {error!r}, failing {bad_down}")
        time.sleep(10**6)
        case.eq(len(calls), 2 * len(how), "exported", f"calls after shutdown: {calls}")

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("stuck", f"{type(exc).__name__}: {exc}")
        return
    case.check(not s.thread_exceptions, "raised", f"{s.thread_exceptions}"[:600])
    case.sig(s.signature(), how, bad_down)


WORKLOADS = [Workload("periodic", periodic, 120, 4_000), Workload("readers", readers, 900, 40_000), Workload("after", after, 300, 10_000), Workload("exits", exits, 24, 400)]
