import asyncio
import contextvars
import gc
import logging
import math
import sys
import threading
import time
import weakref

from mon import gen, quiet
from mon.core import Workload

PROPERTY = "P43"
VENV = "pb5"
REQUIRED = [
    "spans", "exceptions", "log_records", "std_records", "contexts", "metric_batches", "unsampled_spans", "abandoned_spans", "failing_exports", "raising_exports", "exemplar_spans", "span_providers", "log_providers", "meter_providers",
    "batch_components", "simple_components", "periodic_readers", "pull_readers", "callbacks", "exit_hooks", "real_exporters", "thread_spans", "task_spans", "steady_programs", "steady_operations", "parallel_processors", "collected_components", "baggage_values",
]
RULE = (
    "Random pipelines of all signals run in one process; weak references to every span, record, exception, context and batch must be dead after a flush, those to every provider, processor, reader, exporter, instrument and callback after shutdown. "
    "Steady programs repeat the same operations while the allocated memory blocks are counted in windows."
)
ASSUMPTIONS = [
    "CPython: a full garbage collection precedes every look; a violation of the steady programs needs growth in each of twelve successive windows of at least one block per two operations",
    "aggregations keep one state per distinct attribute set and providers one meter and logger per identity (no cardinality limit exists); proxies created before a provider is set are kept by design; components never shut down are out of scope; a pipeline may hold on to the last batch it exported",
]

LONG = 10**9


class Boom(Exception):
    pass


class Text(str):
    pass


class Obj:
    pass


class Metrics:
    made = []  # exporters whose batches are watched


def exporters():
    from opentelemetry.sdk._logs.export import LogExporter, LogExportResult
    from opentelemetry.sdk.metrics.export import MetricExporter, MetricExportResult
    from opentelemetry.sdk.trace.export import SpanExporter, SpanExportResult

    def mixin(results):
        class Mixin:
            mode = "ok"
            seen = None

            def outcome(self, batch):
                if self.seen is not None:
                    self.seen(batch)
                if self.mode == "raise":
                    raise Boom("export")
                return results.FAILURE if self.mode == "fail" else results.SUCCESS

            def shutdown(self, *a, **k):
                pass

            def force_flush(self, *a, **k):
                return True

        return Mixin

    class Spans(mixin(SpanExportResult), SpanExporter):
        def export(self, spans):
            return self.outcome(spans)

    class Logs(mixin(LogExportResult), LogExporter):
        def export(self, batch):
            return self.outcome(batch)

    class Metrics(mixin(MetricExportResult), MetricExporter):
        def export(self, metrics_data, timeout_millis=10_000, **kwargs):
            return self.outcome(metrics_data)

    return Spans, Logs, Metrics


def stub_session():
    import requests

    class Adapter(requests.adapters.BaseAdapter):
        def send(self, request, **kw):
            r = requests.Response()
            r.status_code, r._content, r.request, r.url = 200, b"", request, request.url
            return r

        def close(self):
            pass

    s = requests.Session()
    s.mount("http://", Adapter())
    s.mount("https://", Adapter())
    return s


class Watch:
    """Weak references with names."""

    def __init__(self, case):
        self.case, self.refs = case, []

    def add(self, what, obj):
        self.refs.append((what, weakref.ref(obj)))
        return obj

    def dead(self, when, mechanism):
        alive = []
        for _ in range(3):
            gc.collect()
            alive = [(w, r) for w, r in self.refs if r() is not None]
            if not alive:
                break
            time.sleep(0.05)
        if alive:
            # worker threads may still hold the last batch in a frame: give them all the time they could need
            for _ in range(60):
                time.sleep(0.05)
                gc.collect()
                alive = [(w, r) for w, r in self.refs if r() is not None]
                if not alive:
                    break
        if alive:
            what, ref = alive[0]
            kinds = sorted({type(x).__name__ for x in gc.get_referrers(ref())})[:6]
            self.case.fail(mechanism, f"{len(alive)} of {len(self.refs)} objects are still alive {when}: {sorted({w for w, _ in alive})}; {what} is referred to by {kinds}")
        for what, _ in self.refs:
            self.case.observe(what)
        n = len(self.refs)
        self.refs.clear()
        return n


# -- traces


def trace_world(case, parts, soe):
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import ConcurrentMultiSpanProcessor, TracerProvider
    from opentelemetry.sdk.trace.export import BatchSpanProcessor, ConsoleSpanExporter, SimpleSpanProcessor
    from opentelemetry.sdk.trace.sampling import ALWAYS_ON, ParentBased, TraceIdRatioBased

    rng = case.rng
    multi = None
    if rng.random() < 0.25:
        multi = ConcurrentMultiSpanProcessor(2)
        case.observe("parallel_processors")
    provider = TracerProvider(rng.choice([ALWAYS_ON, ALWAYS_ON, ParentBased(TraceIdRatioBased(0.5))]), Resource({"service.name": "s"}), shutdown_on_exit=soe, active_span_processor=multi)
    parts.add("span_providers", provider)
    kinds = []
    for _ in range(rng.choice([1, 2])):
        kind = rng.choice(["own", "own", "own", "otlp-http", "zipkin", "console"])
        if kind == "own":
            exporter = exporters()[0]()
            exporter.mode = rng.choice(["ok", "ok", "fail", "raise"])
            if exporter.mode != "ok":
                case.observe(exporter.mode.rstrip("e") + "ing_exports")
        elif kind == "otlp-http":
            from opentelemetry.exporter.otlp.proto.http.trace_exporter import OTLPSpanExporter

            exporter = OTLPSpanExporter(session=stub_session())
        elif kind == "zipkin":
            from opentelemetry.exporter.zipkin.json import ZipkinExporter

            exporter = ZipkinExporter(session=stub_session())
        else:
            class Null:
                def write(self, s):
                    pass

                def flush(self):
                    pass

            exporter = ConsoleSpanExporter(out=Null())
        if kind != "own":
            case.observe("real_exporters")
        kinds.append(kind)
        batch = rng.random() < 0.6
        if batch:
            processor = BatchSpanProcessor(exporter, max_queue_size=rng.choice([4, 2048]), max_export_batch_size=rng.choice([1, 4]), schedule_delay_millis=LONG)
            case.observe("batch_components")
        else:
            processor = SimpleSpanProcessor(exporter)
            case.observe("simple_components")
        provider.add_span_processor(processor)
        parts.add("collected_components", exporter)
        parts.add("collected_components", processor)
    return provider


def trace_ops(case, provider, watch, shape):
    from opentelemetry import baggage, context, trace

    rng = case.rng
    tracer = provider.get_tracer(rng.choice(["t", "u"]))

    def one():
        op = rng.choice(["plain", "nested", "error", "link", "abandon", "thread", "task", "unsampled", "baggage"])
        shape.append(op)
        if op == "plain":
            s = watch.add("spans", tracer.start_span("s", attributes={"k": Text("v"), "l": [1, 2]}))
            s.add_event("e", {"a": 1})
            s.end()
        elif op == "nested":
            with tracer.start_as_current_span("p") as p:
                watch.add("spans", p)
                with tracer.start_as_current_span("c") as c:
                    watch.add("spans", c)
                    watch.add("contexts", context.get_current())
        elif op == "error":
            try:
                with tracer.start_as_current_span("p") as p:
                    watch.add("spans", p)
                    raise watch.add("exceptions", Boom("x"))
            except Boom:
                pass
        elif op == "link":
            a = watch.add("spans", tracer.start_span("a"))
            b = watch.add("spans", tracer.start_span("b", links=[trace.Link(a.get_span_context(), {"x": 1})]))
            a.end()
            b.end()
        elif op == "abandon":
            s = tracer.start_span("never ended")
            watch.add("abandoned_spans", s)
        elif op == "thread":
            def run():
                with tracer.start_as_current_span("t") as s:
                    watch.add("thread_spans", s)

            t = threading.Thread(target=run)
            t.start()
            t.join()
        elif op == "task":
            async def main():
                async def sub():
                    with tracer.start_as_current_span("t") as s:
                        watch.add("task_spans", s)
                        await asyncio.sleep(0)

                await asyncio.gather(sub(), sub())

            asyncio.run(main())
        elif op == "unsampled":
            parent = trace.NonRecordingSpan(gen.span_context(rng, flags=0))
            s = watch.add("unsampled_spans", tracer.start_span("s", trace.set_span_in_context(parent)))
            s.end()
        else:
            value = watch.add("baggage_values", Obj())
            ctx = baggage.set_baggage("k", value)
            watch.add("contexts", ctx)
            token = context.attach(ctx)
            s = watch.add("spans", tracer.start_span("s"))
            s.end()
            context.detach(token)

    for _ in range(rng.choice([1, 4, 12])):
        one()


# -- logs


def log_world(case, parts, soe):
    from opentelemetry.sdk._logs import LoggerProvider
    from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, SimpleLogRecordProcessor
    from opentelemetry.sdk.resources import Resource

    rng = case.rng
    provider = parts.add("log_providers", LoggerProvider(Resource({}), shutdown_on_exit=soe))
    for _ in range(rng.choice([1, 2])):
        if rng.random() < 0.25:
            from opentelemetry.exporter.otlp.proto.http._log_exporter import OTLPLogExporter

            exporter = OTLPLogExporter(session=stub_session())
            case.observe("real_exporters")
        else:
            exporter = exporters()[1]()
            exporter.mode = rng.choice(["ok", "ok", "fail", "raise"])
            if exporter.mode != "ok":
                case.observe(exporter.mode.rstrip("e") + "ing_exports")
        if rng.random() < 0.6:
            processor = BatchLogRecordProcessor(exporter, max_queue_size=rng.choice([4, 2048]), max_export_batch_size=rng.choice([1, 4]), schedule_delay_millis=LONG)
            case.observe("batch_components")
        else:
            processor = SimpleLogRecordProcessor(exporter)
            case.observe("simple_components")
        provider.add_log_record_processor(processor)
        parts.add("collected_components", exporter)
        parts.add("collected_components", processor)
    return provider


def log_ops(case, provider, watch, parts, shape):
    from opentelemetry.sdk._logs import LoggingHandler, LogRecord

    rng = case.rng
    logger = provider.get_logger("l")
    std = logging.Logger("std")
    handler = parts.add("collected_components", LoggingHandler(logger_provider=provider))
    std.addHandler(handler)

    def keep(record):
        watch.add("std_records", record)
        return True

    std.addFilter(keep)

    def one():
        op = rng.choice(["emit", "std", "std-error", "std-object"])
        shape.append(op)
        if op == "emit":
            logger.emit(watch.add("log_records", LogRecord(timestamp=1, body={"k": [1, b"x"]}, attributes={"a": "b"})))
        elif op == "std":
            std.warning("m %s", watch.add("baggage_values", Obj()), extra={"x": 1})
        elif op == "std-error":
            try:
                raise watch.add("exceptions", Boom("x"))
            except Boom:
                std.exception("m")
        else:
            std.error(watch.add("exceptions", Boom("object")))

    for _ in range(rng.choice([1, 4, 12])):
        one()


# -- metrics


def metric_world(case, parts, soe, watch):
    from opentelemetry.sdk.metrics import AlwaysOnExemplarFilter, Counter, MeterProvider, TraceBasedExemplarFilter
    from opentelemetry.sdk.metrics.export import AggregationTemporality, InMemoryMetricReader, PeriodicExportingMetricReader
    from opentelemetry.sdk.metrics.view import ExponentialBucketHistogramAggregation, View
    from opentelemetry.sdk.resources import Resource

    rng = case.rng
    readers = []
    for _ in range(rng.choice([1, 2])):
        kind = rng.choice(["periodic", "periodic", "memory", "prometheus"])
        if kind == "periodic":
            if rng.random() < 0.25:
                from opentelemetry.exporter.otlp.proto.http.metric_exporter import OTLPMetricExporter

                exporter = OTLPMetricExporter(session=stub_session())
                case.observe("real_exporters")
            else:
                exporter = exporters()[2](preferred_temporality=rng.choice([None, {Counter: AggregationTemporality.DELTA}]))
                exporter.mode = rng.choice(["ok", "ok", "fail", "raise"])
                refs = watch.refs
                Metrics.made.append(exporter)
                exporter.seen = lambda data: refs.append(("metric_batches", weakref.ref(data)))
            parts.add("collected_components", exporter)
            reader = PeriodicExportingMetricReader(exporter, export_interval_millis=rng.choice([math.inf, LONG]))
            case.observe("periodic_readers")
        elif kind == "memory":
            reader = InMemoryMetricReader()
            case.observe("pull_readers")
        else:
            from opentelemetry.exporter.prometheus import PrometheusMetricReader

            reader = PrometheusMetricReader()
            case.observe("pull_readers")
            case.observe("real_exporters")
        readers.append(parts.add("collected_components", reader))
    provider = MeterProvider(
        readers, Resource({}), exemplar_filter=rng.choice([AlwaysOnExemplarFilter(), TraceBasedExemplarFilter()]), shutdown_on_exit=soe,
        views=[View(instrument_name="e", aggregation=ExponentialBucketHistogramAggregation())] if rng.random() < 0.5 else [],
    )
    parts.add("meter_providers", provider)
    return provider


class Callback:
    def __init__(self, meter):
        self.meter = meter

    def __call__(self, options):
        from opentelemetry.metrics import Observation

        return [Observation(1, {"a": 1})]


def metric_ops(case, provider, watch, parts, shape, tracer):
    rng = case.rng
    meter = parts.add("collected_components", provider.get_meter(rng.choice(["m", "n"])))
    made = [meter.create_counter("c").add, meter.create_up_down_counter("u").add, meter.create_histogram("h").record, meter.create_histogram("e").record, meter.create_gauge("g").set]
    for m in made:
        parts.add("collected_components", m.__self__)
    for make in (meter.create_observable_counter, meter.create_observable_gauge):
        cb = parts.add("callbacks", Callback(meter))
        parts.add("collected_components", make(make.__name__[7:], [cb]))

    def one():
        with tracer.start_as_current_span("s") as s:
            watch.add("exemplar_spans", s)
            value = watch.add("baggage_values", Text("v"))
            rng.choice(made)(rng.choice([1, 2.5]), {"k": rng.randrange(2)})
            del value

    for _ in range(rng.choice([1, 4, 12])):
        one()
        if rng.random() < 0.2:
            provider.force_flush()
            shape.append("collect")


def quietly(fn, *args):
    """Readers raise when an exporter fails; only what stays alive matters here."""
    try:
        fn(*args)
    except Exception:  # noqa: B902
        pass


def filler(signal, provider):
    from opentelemetry.sdk._logs import LogRecord

    if signal == "trace":
        for _ in range(20):
            provider.get_tracer("filler").start_span("filler").end()
    elif signal == "logs":
        for _ in range(20):
            provider.get_logger("filler").emit(LogRecord(timestamp=1, body="filler"))
    else:
        for m in Metrics.made:
            m.seen = None
        Metrics.made.clear()
        provider.get_meter("m").create_counter("c").add(1, {"k": 0})


def release(case):
    rng = case.rng
    quiet.silence()
    gc.collect()
    before = set(threading.enumerate())
    parts, watch, shape = Watch(case), Watch(case), []
    signals = rng.sample(["trace", "logs", "metrics"], rng.choice([1, 1, 2, 3]))
    soe = rng.random() < 0.5
    case.observe("exit_hooks", soe)

    def live():
        from opentelemetry.sdk.trace import TracerProvider

        providers = []
        for sig in signals:
            if sig == "trace":
                providers.append(trace_world(case, parts, soe))
                trace_ops(case, providers[-1], watch, shape)
            elif sig == "logs":
                providers.append(log_world(case, parts, soe))
                log_ops(case, providers[-1], watch, parts, shape)
            else:
                providers.append(metric_world(case, parts, soe, watch))
                tracer = TracerProvider(shutdown_on_exit=False).get_tracer("t")
                metric_ops(case, providers[-1], watch, parts, shape, tracer)
                del tracer
        for p in providers:
            quietly(p.force_flush)
        # a pipeline may hold on to its last batch: it gets another one
        for sig, p in zip(signals, providers):
            filler(sig, p)
            quietly(p.force_flush)
        return providers

    def run():
        # in a context of its own: what leaks into it is not the SDK's doing
        providers = contextvars.copy_context().run(live)
        watch.dead("after they were flushed", "kept-telemetry")
        for p in providers:
            quietly(p.shutdown)

    run()
    parts.dead("after shutdown", "kept-components")
    watch.dead("after shutdown", "kept-telemetry")
    for _ in range(400):
        left = [t for t in threading.enumerate() if t not in before]
        if not left:
            break
        time.sleep(0.05)
        gc.collect()
    case.check(not left, "threads", lambda: f"threads left after shutdown: {[t.name for t in left]}")
    case.sig(tuple(sorted(signals)), soe, tuple(shape))


# -- steady programs


def steady_ops(rng):
    """name -> factory returning (operation, settle, teardown)."""
    from opentelemetry import baggage, context, propagate, trace
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk._events import EventLoggerProvider
    from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecord
    from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, SimpleLogRecordProcessor
    from opentelemetry.sdk.metrics import AlwaysOnExemplarFilter, Counter, Histogram, MeterProvider
    from opentelemetry.sdk.metrics.export import AggregationTemporality, InMemoryMetricReader, PeriodicExportingMetricReader
    from opentelemetry.sdk.metrics.view import ExponentialBucketHistogramAggregation, View
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import TracerProvider
    from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor
    from opentelemetry.sdk.trace.sampling import ALWAYS_OFF, ParentBased, TraceIdRatioBased

    Spans, Logs, Metrics = exporters()
    nothing = lambda: None  # noqa: E731

    def spans(sampler=None, mode="ok", batch=True, queue=2048):
        def make():
            tp = TracerProvider(sampler, Resource({}), shutdown_on_exit=False)
            e = Spans()
            e.mode = mode
            tp.add_span_processor(BatchSpanProcessor(e, queue, schedule_delay_millis=LONG, max_export_batch_size=min(queue, 8)) if batch else SimpleSpanProcessor(e))
            t = tp.get_tracer("t")
            remote = trace.set_span_in_context(trace.NonRecordingSpan(gen.span_context(rng)))

            def op():
                with t.start_as_current_span("p", remote, attributes={"a": 1, "l": ["x"]}) as p:
                    p.add_event("e", {"k": "v"})
                    try:
                        with t.start_as_current_span("c", links=[trace.Link(p.get_span_context(), {"a": 1})]):
                            raise Boom("x")
                    except Boom:
                        pass

            return op, tp.force_flush, tp.shutdown

        return make

    def tracers():
        tp = TracerProvider(resource=Resource({}), shutdown_on_exit=False)

        def op():
            tp.get_tracer("t", "1", "s", {"a": "b"}).start_span("x").end()
            tp.get_tracer(f"t{rng.random()}").start_span("x").end()

        return op, nothing, tp.shutdown

    def noop():
        t = trace.NoOpTracerProvider().get_tracer("x")

        def op():
            with t.start_as_current_span("x") as s:
                s.set_attribute("a", 1)

        return op, nothing, nothing

    def contexts():
        carriers = []
        for _ in range(20):
            c = {}
            ctx = baggage.set_baggage("k", gen.string(rng), trace.set_span_in_context(trace.NonRecordingSpan(gen.span_context(rng))))
            propagate.inject(c, ctx)
            carriers.append(c)
        i = [0]

        def op():
            i[0] += 1
            ctx = propagate.extract(carriers[i[0] % 20])
            token = context.attach(baggage.set_baggage("z", "v", ctx))
            propagate.inject({})
            context.detach(context.attach(context.set_value(context.create_key("mon"), Obj())))
            context.detach(token)

        return op, nothing, nothing

    def propagators():
        from opentelemetry.propagators.b3 import B3MultiFormat, B3SingleFormat
        from opentelemetry.propagators.jaeger import JaegerPropagator

        ctxs = [trace.set_span_in_context(trace.NonRecordingSpan(gen.span_context(rng))) for _ in range(10)]
        i = [0]

        def op():
            i[0] += 1
            for p in (B3MultiFormat(), B3SingleFormat(), JaegerPropagator()):
                c = {}
                p.inject(c, ctxs[i[0] % 10])
                p.extract(c)

        return op, nothing, nothing

    def metrics(delta=False, exemplars=False, collect_each=False):
        def make():
            pref = {Counter: AggregationTemporality.DELTA, Histogram: AggregationTemporality.DELTA} if delta else None
            e = Metrics(preferred_temporality=pref)
            r, r2 = PeriodicExportingMetricReader(e, export_interval_millis=math.inf), InMemoryMetricReader(pref)
            mp = MeterProvider([r, r2], Resource({}), exemplar_filter=AlwaysOnExemplarFilter() if exemplars else None, shutdown_on_exit=False, views=[View(instrument_name="e", aggregation=ExponentialBucketHistogramAggregation(max_size=20))])
            m = mp.get_meter("m")
            c, u, h, x, g = m.create_counter("c"), m.create_up_down_counter("u"), m.create_histogram("h"), m.create_histogram("e"), m.create_gauge("g")
            m.create_observable_counter("o", [lambda o: [Observation(i, {"k": i}) for i in range(3)]])
            i = [0]

            def op():
                i[0] += 1
                a = {"k": i[0] % 3, "l": [1, 2]}
                c.add(1, a), u.add(-1, a), h.record(i[0] % 50, a), x.record(1 + i[0] % 50, a), g.set(i[0] % 9, a)  # noqa: B018
                if collect_each:
                    mp.force_flush()
                    r2.get_metrics_data()

            def settle():
                mp.force_flush()
                r2.get_metrics_data()

            return op, settle, mp.shutdown

        return make

    def instruments():
        r = InMemoryMetricReader()
        mp = MeterProvider([r], Resource({}), shutdown_on_exit=False)

        def op():
            m = mp.get_meter("m", "1", "s", {"a": "b"})
            m.create_counter("c", "u", "d").add(1)
            m.create_histogram("h").record(1)
            m.create_observable_gauge("g")

        return op, r.get_metrics_data, mp.shutdown

    def logs(batch=True, mode="ok"):
        def make():
            lp = LoggerProvider(Resource({}), shutdown_on_exit=False)
            e = Logs()
            e.mode = mode
            lp.add_log_record_processor(BatchLogRecordProcessor(e, schedule_delay_millis=LONG, max_export_batch_size=8) if batch else SimpleLogRecordProcessor(e))
            std = logging.Logger("x")
            std.addHandler(LoggingHandler(logger_provider=lp))
            events = EventLoggerProvider(lp)
            from opentelemetry._events import Event

            def op():
                lp.get_logger("l", "1").emit(LogRecord(timestamp=1, body="b", attributes={"a": 1}, resource=Resource({})))
                std.warning("m %s", "x", extra={"k": 1})
                try:
                    raise Boom("x")
                except Boom:
                    std.exception("m")
                events.get_event_logger("e").emit(Event("n", body={"a": 1}))

            return op, lp.force_flush, lp.shutdown

        return make

    def encoders():
        from opentelemetry.exporter.otlp.proto.http._log_exporter import OTLPLogExporter
        from opentelemetry.exporter.otlp.proto.http.metric_exporter import OTLPMetricExporter
        from opentelemetry.exporter.otlp.proto.http.trace_exporter import OTLPSpanExporter

        tp = TracerProvider(resource=Resource({"a": 1}), shutdown_on_exit=False)
        tp.add_span_processor(SimpleSpanProcessor(OTLPSpanExporter(session=stub_session())))
        lp = LoggerProvider(Resource({"a": 1}), shutdown_on_exit=False)
        lp.add_log_record_processor(SimpleLogRecordProcessor(OTLPLogExporter(session=stub_session())))
        mp = MeterProvider([PeriodicExportingMetricReader(OTLPMetricExporter(session=stub_session()), export_interval_millis=math.inf)], Resource({}), shutdown_on_exit=False)
        c = mp.get_meter("m").create_counter("c")
        t = tp.get_tracer("t")

        def op():
            t.start_span("s", attributes={"a": [1]}).end()
            lp.get_logger("l").emit(LogRecord(timestamp=1, body="b", resource=Resource({})))
            c.add(1, {"a": 1})
            mp.force_flush()

        def down():
            tp.shutdown(), lp.shutdown(), mp.shutdown()  # noqa: B018

        return op, nothing, down

    def prometheus():
        from prometheus_client import generate_latest

        from opentelemetry.exporter.prometheus import PrometheusMetricReader

        r = PrometheusMetricReader()
        mp = MeterProvider([r], Resource({"a": 1}), shutdown_on_exit=False)
        c, h = mp.get_meter("m").create_counter("c"), mp.get_meter("m").create_histogram("h")

        def op():
            c.add(1, {"a": "b"})
            h.record(3, {"a": "b"})
            generate_latest()

        return op, nothing, mp.shutdown

    def shim():
        import opentracing

        from opentelemetry.shim.opentracing_shim import create_tracer

        tp = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
        t = create_tracer(tp)

        def op():
            with t.start_active_span("a", tags={"k": 1}) as scope:
                scope.span.set_baggage_item("b", "c")
                scope.span.log_kv({"x": 1})
                c = {}
                t.inject(scope.span.context, opentracing.Format.TEXT_MAP, c)
                t.extract(opentracing.Format.TEXT_MAP, c)
                t.start_span("b", child_of=scope.span).finish()

        return op, nothing, tp.shutdown

    def misc():
        from opentelemetry.sdk.error_handler import GlobalErrorHandler
        from opentelemetry.trace import TraceState

        def op():
            with GlobalErrorHandler():
                raise Boom("x")
            Resource({"a": 1}).merge(Resource({"b": 2}, "s"))
            TraceState([("a", "b")]).add("c", "d").delete("a").to_header()

        return op, nothing, nothing

    def threads():
        tp = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
        t = tp.get_tracer("t")

        def op():
            def run():
                with t.start_as_current_span("x"):
                    context.attach(context.set_value("k", Obj()))

            th = threading.Thread(target=run)
            th.start()
            th.join()

        return op, nothing, tp.shutdown

    return {
        "spans": spans(), "spans-simple": spans(batch=False), "spans-ratio": spans(ParentBased(TraceIdRatioBased(0.5))), "spans-off": spans(ALWAYS_OFF), "spans-fail": spans(mode="fail"), "spans-raise": spans(mode="raise"), "spans-raise-simple": spans(mode="raise", batch=False),
        "spans-overflow": spans(queue=8), "tracers": tracers, "noop": noop, "contexts": contexts, "propagators": propagators, "metrics": metrics(), "metrics-delta": metrics(True), "metrics-exemplars": metrics(True, True), "metrics-collect": metrics(False, True, True),
        "metrics-collect-delta": metrics(True, False, True), "instruments": instruments, "logs": logs(), "logs-simple": logs(False), "logs-raise": logs(True, "raise"), "encoders": encoders, "prometheus": prometheus, "shim": shim, "misc": misc, "threads": threads,
    }


SLOW = {"encoders": 60, "prometheus": 60, "metrics-collect": 60, "metrics-collect-delta": 60, "misc": 60, "threads": 80}


def steady(case):
    quiet.silence()
    table = steady_ops(case.rng)
    names = sorted(table)
    name = names[case.index % len(names)]
    op, settle, teardown = table[name]()
    n = SLOW.get(name, 120)
    try:
        def window():
            for _ in range(n):
                op()
            settle()
            gc.collect()
            return sys.getallocatedblocks()

        window()
        last, grown = window(), []
        for _ in range(12):
            now = window()
            grown.append(now - last)
            last = now
            if grown[-1] < n // 2:
                break
        else:
            case.fail("growth", f"{name}: memory grows with every operation: {grown} blocks in windows of {n} operations")
        case.observe("steady_operations", n * (2 + len(grown)))
    finally:
        teardown()
    case.observe("steady_programs")
    case.sig(name, case.index // len(names))


WORKLOADS = [
    Workload("release", release, 200, 4000, 25),
    Workload("steady", steady, 52, 520, 2),
]
