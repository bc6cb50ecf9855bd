import threading
import time

from mon import quiet, sched
from mon.core import Workload

PROPERTY = "P07"
VENV = "pb5"
SCHED = True
REQUIRED = ["export_span_simple", "export_span_batch", "export_log_simple", "export_log_batch", "export_metric", "raised_in_export", "worker_idle_probes", "context_restored_checks", "callback_probes", "nested_exports", "exporter_leaks", "ambient_suppression"]
RULE = (
    "Real pipelines (simple and batch processors for spans and logs, periodic metric reader) driven from threads with random current (also suppressed) "
    "contexts under the schedule fuzzer, exporters that raise, leak a context or cause exports themselves; the exporter and every idle wait of a worker sample the current context; distinct = "
    "context-switch sequence."
)
ASSUMPTIONS = [
    "the suppression flag is the context value instrumentations read (opentelemetry.context._SUPPRESS_INSTRUMENTATION_KEY)",
]


class Boom(BaseException):
    pass


def scenario(case):
    from opentelemetry import context as cx
    from opentelemetry._logs import SeverityNumber
    from opentelemetry.context import _SUPPRESS_INSTRUMENTATION_KEY as KEY
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk._logs import LoggerProvider, LogRecord
    from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult, SimpleLogRecordProcessor
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import MetricExporter, MetricExportResult, PeriodicExportingMetricReader
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import TracerProvider
    from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor, SpanExporter, SpanExportResult

    rng = case.rng
    quiet.silence()
    signal = rng.choice(["span", "log", "metric"])
    simple = rng.random() < 0.5
    fault = rng.choice([0, 0.3, 1])
    producers = rng.randrange(1, 4)
    items = rng.randrange(1, 5)
    delay = rng.choice([10, 200])
    flush = rng.random() < 0.5
    s = sched.Scheduler(rng.random(), max_steps=200_000, early_max_s=1.0)
    kind = signal if signal == "metric" else f"{signal}_{'simple' if simple else 'batch'}"
    nests = rng.random() < 0.2
    leaks = rng.choice([0, 0, 0, 0.3])
    bad = []
    in_export = set()
    expected = {}  # thread ident -> context the application attached there

    def export(result):
        case.observe("export_" + kind)
        cur = cx.get_current()
        me = threading.get_ident()
        if cur.get(KEY) is not True or cx.get_value(KEY) is not True:
            bad.append(("not-suppressed", f"{kind} exporter runs with suppress_instrumentation={cur.get(KEY)!r}"))
        rest = {k: v for k, v in cur.items() if k != KEY}
        want = {k: v for k, v in expected.get(me, {}).items() if k != KEY}
        if rest != want:
            bad.append(("context-lost", f"{kind} exporter sees context {rest}, expected {want} plus the suppression flag"))
        if nests and rng.random() < 0.5 and me not in in_export:
            # the exporter produces telemetry of its own, which is exported within its export
            in_export.add(me)
            case.observe("nested_exports")
            inner.emit(LogRecord(timestamp=1, trace_id=1, span_id=1, severity_number=SeverityNumber.INFO, body="inner", resource=Resource({})))
            inner_tracer.start_span("inner").end()
            if dict(cx.get_current()) != dict(cur):
                bad.append(("nested-leak", f"an export within the {kind} exporter left context {dict(cx.get_current())}, it was {dict(cur)}"))
        in_export.add(me)
        time.sleep(rng.choice([0, 0, 0.05]))
        in_export.discard(me)
        if rng.random() < leaks:
            case.observe("exporter_leaks")
            cx.attach(cx.set_value("leaked by the exporter", 1))
        if rng.random() < fault:
            case.observe("raised_in_export")
            # a BaseException (cancellation, Ctrl-C) only where it unwinds into the application's own thread
            if simple and signal != "metric" and rng.random() < 0.3:
                raise Boom()
            raise rng.choice([RuntimeError, ValueError, OSError])("x")
        return rng.choice([result.SUCCESS, result.FAILURE])

    class SE(SpanExporter):
        def export(self, spans):
            return export(SpanExportResult)

    class LE(LogExporter):
        def export(self, batch):
            return export(LogExportResult)

        def shutdown(self):
            pass

    class ME(MetricExporter):
        def export(self, metrics_data, timeout_millis=10, **kw):
            return export(MetricExportResult)

        def shutdown(self, timeout_millis=1, **kw):
            pass

        def force_flush(self, timeout_millis=1):
            return True

    def probe(vt, timeout, why):
        if timeout is None or vt.thread is None or "Otel" not in vt.name or vt.ident in in_export:
            return
        case.observe("worker_idle_probes")
        cur = dict(cx.get_current())
        if cur:
            bad.append(("worker-leak", f"worker {vt.name} waits with context {cur}"))

    s.block_hook = probe

    class Inner(SpanExporter):
        def export(self, batch):
            if cx.get_value(KEY) is not True:
                bad.append(("not-suppressed", f"an exporter within the {kind} exporter runs with suppress_instrumentation={cx.get_value(KEY)!r}"))
            if rng.random() < fault:
                raise OSError("inner")
            return SpanExportResult.SUCCESS

    inner_logs = LoggerProvider(resource=Resource({}), shutdown_on_exit=False)
    inner_logs.add_log_record_processor(SimpleLogRecordProcessor(Inner()))
    inner = inner_logs.get_logger("inner")
    inner_spans = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
    inner_spans.add_span_processor(SimpleSpanProcessor(Inner()))
    inner_tracer = inner_spans.get_tracer("inner")

    def main():
        res = Resource({})
        if signal == "span":
            prov = TracerProvider(resource=res, shutdown_on_exit=False)
            prov.add_span_processor(SimpleSpanProcessor(SE()) if simple else BatchSpanProcessor(SE(), 100, delay, rng.choice([1, 3, 50])))
            tracer = prov.get_tracer("m")

            def emit(i):
                tracer.start_span(f"{i}").end()
        elif signal == "log":
            prov = LoggerProvider(resource=res, shutdown_on_exit=False)
            prov.add_log_record_processor(
                SimpleLogRecordProcessor(LE()) if simple else BatchLogRecordProcessor(LE(), delay, rng.choice([1, 3, 50]), 30000, 100)
            )
            logger = prov.get_logger("m")

            def emit(i):
                logger.emit(LogRecord(timestamp=1, trace_id=1, span_id=1, severity_number=SeverityNumber.INFO, body=i, resource=res))
        else:
            reader = PeriodicExportingMetricReader(ME(), export_interval_millis=delay)
            prov = MeterProvider([reader], resource=res, shutdown_on_exit=False)
            meter = prov.get_meter("m")
            c = meter.create_counter("c")

            def cb(options):
                case.observe("callback_probes")
                if cx.get_value(KEY) and not expected.get(threading.get_ident(), {}).get(KEY):
                    bad.append(("worker-leak", "observable callback runs with instrumentation suppressed"))
                yield Observation(1)

            meter.create_observable_gauge("g", [cb])

            def emit(i):
                c.add(1)
                if rng.random() < 0.3:
                    time.sleep(delay / 1e3)
                if rng.random() < 0.3:
                    prov.force_flush()

        def produce(p):
            tokens = []
            for d in range(rng.randrange(0, 3)):
                tokens.append(cx.attach(cx.set_value(f"k{d}", (p, d))))
            ambient = rng.choice([None, None, None, True, False])
            if ambient is not None:
                case.observe("ambient_suppression")
                tokens.append(cx.attach(cx.set_value(KEY, ambient)))
            for i in range(items):
                before = cx.get_current()
                expected[threading.get_ident()] = dict(before)
                try:
                    emit(i)
                    if flush and i == 0:
                        prov.force_flush(30000)
                except Boom:
                    case.observe("base_exceptions")
                after = cx.get_current()
                case.observe("context_restored_checks")
                if not (dict(after) == dict(before)):
                    bad.append(("caller-leak", f"context after {kind} call is {dict(after)}, was {dict(before)}"))
                expected[threading.get_ident()] = {}

        ts = [threading.Thread(target=produce, args=(p,)) for p in range(producers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        time.sleep(delay / 1e3 * 3)
        before = dict(cx.get_current())
        expected[threading.get_ident()] = before
        prov.shutdown()
        if dict(cx.get_current()) != before:
            bad.append(("caller-leak", "shutdown leaked context"))

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("deadlock", str(exc))
    for name, exc, tb in s.thread_exceptions:
        case.fail("raised", f"{name}: {exc}", tb=tb)
    for mech, msg in bad[:1]:
        case.fail(mech, msg, kind=kind, fault=fault, all=bad[:10])
    case.sig(kind, s.signature())
    case.sample(dict(kind=kind, producers=producers, items=items, fault=fault, delay=delay))


WORKLOADS = [Workload("pipelines", scenario, quick=4000, thorough=80000)]
