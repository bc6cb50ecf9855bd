import logging
import os
import shutil
import sys
import tempfile
import time
import types

from mon import forked, gen, quiet, sched
from mon.checks import p09
from mon.checks.p31 import environment
from mon.core import Workload

PROPERTY = "P38"
VENV = "pb5"
SCHED = True
REQUIRED = [
    "batch_configs", "span_processors", "log_processors", "delays_observed", "batch_sizes_observed", "flush_timeouts", "queue_sizes_observed", "batch_defaults", "batch_arguments", "batch_env", "batch_unparsable", "batch_rejected",
    "readers", "ticks", "reader_defaults", "reader_unparsable", "reader_rejected", "reader_arguments", "reader_never", "export_timeouts",
    "span_limits", "log_limits", "limits_rejected", "limits_argument_over_bad_env", "implicit_log_limits",
    "exemplar_filters", "exemplar_rejected", "configurations", "configured_spans", "configured_metrics", "configured_logs", "configured_delays", "configured_events", "configuration_rejected", "argument_exporters", "env_exporters", "no_exporters", "otlp_protocols",
    "protocol_rejected", "ids_from_env", "ids_argument", "ids_rejected", "samplers_from_env", "samplers_argument", "sampler_fallbacks", "custom_samplers", "handlers_installed", "handlers_absent", "configured_resources", "disabled_configurations",
    "propagators", "propagators_rejected", "propagators_default", "disabled_sdk", "enabled_sdk", "disabled_spans", "disabled_measurements", "disabled_logs", "parents_kept", "otlp_configs", "otlp_unparsable",
]
RULE = (
    "Every setting is given through generated environments (valid, padded, unparsable, out of range) and constructor arguments, and its effect observed where it matters: export times, batch and queue sizes in virtual time, kept attributes, "
    "which exporter got what, ids, sampling decisions, injected headers, or a rejection naming the problem; the configurator and import-time settings run in forked processes; distinct = environment and arguments."
)
ASSUMPTIONS = [
    "an unparsable value may fall back to the default or be rejected with a ValueError/RuntimeError; a parsable one out of range must be rejected (or, for samplers, replaced by the default)",
    "export_timeout of the batch processors only bounds a force_flush without timeout in this version",
    "a global attribute limit that is given but empty or UNSET leaves the model-specific defaults (as the existing tests have it)",
]
BAD = ["abc", "", "five", "5 s", "--3", "0x10", "none", "1,5"]


def num(rng, values, bad=0.2, unset=0.3, out=0.1):
    """(text or None, what it means: ('unset',), ('ok', n), ('bad',))"""
    r = rng.random()
    if r < unset:
        return None, ("unset",)
    if r < unset + bad:
        return rng.choice(BAD), ("bad",)
    n = rng.choice([0, -1, -7]) if r < unset + bad + out else rng.choice(values)
    return rng.choice(["{}", "{}", " {} ", "0{}" if n > 0 else "{}", "{}\n"]).format(n), ("ok", n)


def effective(arg, meaning, default):
    if arg is not None:
        return arg
    return meaning[1] if meaning[0] == "ok" else default


# --- batching processors ---------------------------------------------------------------------------------------------


def batch(case):
    rng = case.rng
    logs = rng.random() < 0.5
    prefix = "OTEL_BLRP_" if logs else "OTEL_BSP_"
    spec = {
        "max_queue_size": ("MAX_QUEUE_SIZE", [20, 21, 33, 50, 600], 2048),
        "schedule_delay_millis": ("SCHEDULE_DELAY", [20, 300, 1000, 12000, 90000], 5000),
        "max_export_batch_size": ("MAX_EXPORT_BATCH_SIZE", [2, 3, 5, 9, 16, 20], 512),
        "export_timeout_millis": ("EXPORT_TIMEOUT", [10, 40000], 30000),
    }
    env, args, want, unparsable = {}, {}, {}, False
    for k, (name, values, default) in spec.items():
        text, meaning = num(rng, values, bad=0.12, unset=0.15 if "size" in k else 0.3, out=0.03)
        if text is not None:
            env[prefix + name] = text
        arg = None
        if rng.random() < 0.3:
            arg = rng.choice(values) if rng.random() < 0.93 else rng.choice([0, -1])
        if arg is not None:
            args[k] = arg
            case.observe("batch_arguments")
        elif meaning[0] == "bad":
            case.observe("batch_unparsable")
            unparsable = True
        else:
            case.observe("batch_env" if meaning[0] == "ok" else "batch_defaults")
        want[k] = effective(arg, meaning, default)
    # settings of the other signal and other families must not leak in
    for k, (name, values, default) in spec.items():
        if rng.random() < 0.3:
            env[("OTEL_BSP_" if logs else "OTEL_BLRP_") + name] = "7"
    patient = rng.random() < 0.6
    Q, D, B = want["max_queue_size"], want["schedule_delay_millis"], want["max_export_batch_size"]
    reject = Q <= 0 or D <= 0 or B <= 0 or B > Q
    context = f"{'log' if logs else 'span'} processor with {env!r} and {args!r}"
    case.observe("batch_configs")
    case.observe("log_processors" if logs else "span_processors")
    out = {}

    def main():
        import threading

        from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult
        from opentelemetry.sdk.trace.export import BatchSpanProcessor, SpanExporter, SpanExportResult

        gate = threading.Event()
        exports = []
        first = threading.Event()

        class Mixin:
            def export(self, items):
                exports.append((s.now, len(items)))
                first.set()
                if len(exports) == 1:
                    gate.wait()
                return LogExportResult.SUCCESS if logs else SpanExportResult.SUCCESS

            def shutdown(self):
                pass

            def force_flush(self, timeout_millis=None):
                return True

        class L(Mixin, LogExporter):
            pass

        class S(Mixin, SpanExporter):
            pass

        with environment(env):
            try:
                t0 = s.now
                p = BatchLogRecordProcessor(L(), **args) if logs else BatchSpanProcessor(S(), **args)
            except Exception as exc:  # noqa: BLE001
                out["rejected"] = exc
                return
            out["t"] = (t0, s.now)
        item = sample(logs)
        send = p.emit if logs else p.on_end
        send(item)
        out["waited"] = first.wait(10**6)
        if patient:
            t = s.now
            out["flush"] = (p.force_flush(), (s.now - t) / 1e6)
        sent = Q + 1 + rng.randrange(1, 4)
        for _ in range(sent):
            send(item)
        gate.set()
        p.shutdown()
        out["exports"] = exports
        out["sent"] = sent

    s = sched.Scheduler(rng.random(), strategy="rare", early_timer=0.0, max_steps=3_000_000)
    with quiet.capture():
        s.run(main)
    case.check(not s.thread_exceptions, "thread-exception", lambda: f"{context}: {s.thread_exceptions[:1]!r}")
    exc = out.get("rejected")
    if reject:
        case.check(isinstance(exc, ValueError) and str(exc), "not-rejected", lambda: f"{context} was accepted ({exc!r}) although queue {Q}, delay {D}, batch {B} is impossible")
        case.observe("batch_rejected")
    elif exc is not None:
        case.check(unparsable and isinstance(exc, ValueError), "rejected", lambda: f"{context} was rejected: {exc!r}")
        case.observe("batch_rejected")
    else:
        exports = out["exports"]
        case.check(out["waited"] and exports, "never-exported", lambda: f"{context}: one item was never exported")
        first = (exports[0][0] - out["t"][0]) / 1e6
        if B > 1:
            case.check(0.9 * D <= first <= 1.1 * D + 20, "delay", lambda: f"{context}: a lone item was exported after {first} ms, want about {D}")
            case.observe("delays_observed")
        else:
            case.check(first <= 20, "delay", lambda: f"{context}: a full batch waited {first} ms")
        if "flush" in out:
            want_t = want["export_timeout_millis"]
            got, took = out["flush"]
            case.check(got is False and 0.95 * want_t - 1 <= took <= 1.05 * want_t + 20, "flush-timeout", lambda: f"{context}: a flush without timeout of a stuck exporter gave {got} after {took} ms, want {want_t}")
            case.observe("flush_timeouts")
        sizes = [n for _, n in exports[1:]]
        case.check(sum(sizes) == min(Q, out["sent"]), "queue-size", lambda: f"{context}: of {out['sent']} items sent while exporting {sum(sizes)} were kept, want {Q}")
        case.observe("queue_sizes_observed")
        wanted = [B] * (Q // B) + ([Q % B] if Q % B else [])
        case.check(sizes == wanted, "batch-size", lambda: f"{context}: exported batches of {sizes}, want {wanted}")
        case.observe("batch_sizes_observed")
    case.sig(logs, sorted(env.items()), sorted(args.items()))


SAMPLE = {}


def sample(logs):
    if logs not in SAMPLE:
        from opentelemetry.sdk._logs import LogData, LogRecord
        from opentelemetry.sdk.resources import Resource
        from opentelemetry.sdk.trace import TracerProvider
        from opentelemetry.sdk.trace.sampling import ALWAYS_ON
        from opentelemetry.sdk.util.instrumentation import InstrumentationScope

        if logs:
            SAMPLE[logs] = LogData(LogRecord(timestamp=1, body="x", resource=Resource({})), InstrumentationScope("s"))
        else:
            span = TracerProvider(sampler=ALWAYS_ON, resource=Resource({}), shutdown_on_exit=False).get_tracer("s").start_span("s")
            span.end()
            SAMPLE[logs] = span
    return SAMPLE[logs]


# --- periodic reader --------------------------------------------------------------------------------------------------


def reader(case):
    rng = case.rng
    spec = {"export_interval_millis": ("OTEL_METRIC_EXPORT_INTERVAL", [100, 250.5, 1500, 20000, 90000], 60000), "export_timeout_millis": ("OTEL_METRIC_EXPORT_TIMEOUT", [55, 1234, 99999], 30000)}
    env, args, want, unparsable = {}, {}, {}, {}
    for k, (name, values, default) in spec.items():
        text, meaning = num(rng, values, bad=0.2, unset=0.25, out=0.1 if "interval" in k else 0)
        if text is not None:
            if meaning[0] == "ok" and rng.random() < 0.08 and "interval" in k:
                text, meaning = rng.choice([("inf", ("ok", float("inf"))), ("nan", ("bad",)), ("NaN", ("bad",))])
            env[name] = text
        arg = rng.choice(values) if rng.random() < 0.3 else None
        if arg is None and rng.random() < 0.08 and "interval" in k:
            arg = rng.choice([0, -5, float("inf")])
        if arg is not None:
            args[k] = arg
            case.observe("reader_arguments")
        elif meaning[0] == "bad":
            case.observe("reader_unparsable")
            unparsable[k] = True
        elif meaning[0] == "unset":
            case.observe("reader_defaults")
        want[k] = effective(arg, meaning, default)
    interval, timeout = want["export_interval_millis"], want["export_timeout_millis"]
    context = f"reader with {env!r} and {args!r}"
    out = {}
    case.observe("readers")

    def main():
        from opentelemetry.sdk.metrics import MeterProvider
        from opentelemetry.sdk.metrics.export import MetricExporter, MetricExportResult, PeriodicExportingMetricReader
        from opentelemetry.sdk.resources import Resource

        seen = []

        class X(MetricExporter):
            def export(self, metrics_data, timeout_millis=10_000, **kw):
                seen.append((s.now, timeout_millis))
                return MetricExportResult.SUCCESS

            def shutdown(self, timeout_millis=30_000, **kw):
                pass

            def force_flush(self, timeout_millis=10_000):
                return True

        with environment(env):
            t0 = s.now
            try:
                r = PeriodicExportingMetricReader(X(), **args)
            except Exception as exc:  # noqa: BLE001
                out["rejected"] = exc
                return
        mp = MeterProvider([r], resource=Resource({}), shutdown_on_exit=False)
        mp.get_meter("m").create_counter("c").add(1)
        time.sleep((interval if interval < float("inf") else 10**7) * 3.5 / 1e3)
        out["seen"] = [((t - t0) / 1e6, x) for t, x in seen]
        mp.shutdown()

    s = sched.Scheduler(rng.random(), strategy="rare", early_timer=0.0)
    with quiet.capture():
        s.run(main)
    case.check(not s.thread_exceptions, "thread-exception", lambda: f"{context}: {s.thread_exceptions[:1]!r}")
    exc = out.get("rejected")
    if interval <= 0:
        case.check(isinstance(exc, ValueError) and str(exc), "not-rejected", lambda: f"{context} was accepted")
        case.observe("reader_rejected")
    elif exc is not None:
        case.check(unparsable and isinstance(exc, ValueError), "rejected", lambda: f"{context} was rejected: {exc!r}")
        case.observe("reader_rejected")
    elif interval == float("inf"):
        case.check(not out["seen"], "interval", lambda: f"{context} exported periodically")
        case.observe("reader_never")
    else:
        times = [t for t, _ in out["seen"]]
        good = len(times) == 3 and all(abs(t - interval * (i + 1)) <= 0.05 * interval + 20 for i, t in enumerate(times))
        case.check(good, "interval", lambda: f"{context}: exported at {times} ms in 3.5 intervals, want every {interval}")
        case.observe("ticks", len(times))
        for _, x in out["seen"]:
            case.check(abs(x - timeout) < 1, "timeout", lambda: f"{context}: the exporter got a timeout of {x} ms, want {timeout}")
            case.observe("export_timeouts")
    case.sig(sorted(env.items()), sorted(map(repr, args.items())))


# --- limits -----------------------------------------------------------------------------------------------------------


def limits(case):
    """Broken limits are rejected, by name; arguments win; the limits of log records apply to them by default. (The effects of valid limits: P09.)"""
    from opentelemetry.sdk._logs import LogLimits, LogRecord
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import SpanLimits

    rng = case.rng
    with quiet.capture():
        logs = rng.random() < 0.4
        names = ["max_attributes", "max_attribute_length"] if logs else list(p09.ENV)
        env, args, bad = {}, {}, set()
        for k in p09.ENV:
            r = rng.random()
            if r < 0.12:
                env[p09.ENV[k]] = rng.choice(["abc", "-1", "-5", "1.5", "5 s", "none", "--3", "inf"])
                bad.add(k)
            elif r < 0.5:
                env[p09.ENV[k]] = rng.choice(["{}", " {} ", "{}\t"]).format(rng.choice([0, 1, 2, 5, 130]))
            if rng.random() < 0.3:
                args[k] = rng.choice([0, 1, 3, 7, 200])
        args = {k: v for k, v in args.items() if k in names}
        wrong = [k for k in names if k in bad and k not in args]
        case.observe("limits_argument_over_bad_env", sum(1 for k in names if k in bad and k in args))
        context = f"{'LogLimits' if logs else 'SpanLimits'} with {env!r} and {args!r}"
        cls = LogLimits if logs else SpanLimits
        got = exc = None
        with environment(env):
            try:
                got = cls(**args)
            except Exception as e:  # noqa: BLE001
                exc = e
            rec = None
            if logs and not args and exc is None:
                rec = LogRecord(attributes={f"k{i}": "v" * 9 for i in range(140)}, resource=Resource({}))
        if wrong:
            case.check(isinstance(exc, ValueError) and any(p09.ENV[k] in str(exc) for k in wrong), "not-rejected", lambda: f"{context}: {exc!r}, want a ValueError naming one of {[p09.ENV[k] for k in wrong]}")
            case.observe("limits_rejected")
        else:
            case.check(exc is None, "rejected", lambda: f"{context} raised {exc!r}")
            want = p09.effective(args, {v: env[v] for k, v in p09.ENV.items() if v in env and k in names and k not in bad})
            keys = names if logs else [k for k in names if k != "max_attributes"]
            if logs:
                want["max_attributes"] = args.get("max_attributes", int(env[p09.ENV["max_attributes"]]) if p09.ENV["max_attributes"] in env and "max_attributes" not in args else 128)
            for k in keys:
                case.check(getattr(got, k) == want[k], "limit", lambda: f"{context}: {k} is {getattr(got, k)}, want {want[k]}")
            case.observe("log_limits" if logs else "span_limits")
            if rec is not None:
                case.check(len(rec.attributes) == min(140, want["max_attributes"]), "log-limits-ignored", lambda: f"{context}: a log record kept {len(rec.attributes)} attributes, want {want['max_attributes']}")
                n = want["max_attribute_length"]
                case.check(all(v == ("v" * 9)[:n] for v in rec.attributes.values()), "log-limits-ignored", lambda: f"{context}: a log record has values {set(rec.attributes.values())}, limit {n}")
                case.observe("implicit_log_limits")
        case.sig(logs, sorted(env.items()), sorted(args.items()))


# --- exemplar filter --------------------------------------------------------------------------------------------------


def exemplars(case):
    from opentelemetry import trace
    from opentelemetry.sdk.metrics import AlwaysOffExemplarFilter, AlwaysOnExemplarFilter, MeterProvider, TraceBasedExemplarFilter
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader
    from opentelemetry.sdk.resources import Resource

    rng = case.rng
    with quiet.capture():
        text = rng.choice([None, "always_on", "always_off", "trace_based", "sometimes", "", "ALWAYS", "true"])
        arg = rng.choice([None, None, AlwaysOnExemplarFilter(), AlwaysOffExemplarFilter(), TraceBasedExemplarFilter()])
        env = {} if text is None else {"OTEL_METRICS_EXEMPLAR_FILTER": text}
        r = InMemoryMetricReader()
        exc = None
        with environment(env):
            try:
                mp = MeterProvider([r], resource=Resource({}), exemplar_filter=arg, shutdown_on_exit=False)
            except Exception as e:  # noqa: BLE001
                exc = e
        known = text in (None, "always_on", "always_off", "trace_based")
        context = f"MeterProvider with {env!r} and exemplar_filter={type(arg).__name__}"
        if exc is not None:
            case.check(arg is None and not known and isinstance(exc, ValueError) and text in str(exc), "rejected", lambda: f"{context} raised {exc!r}")
            case.observe("exemplar_rejected")
        else:
            mode = {AlwaysOnExemplarFilter: "always_on", AlwaysOffExemplarFilter: "always_off", TraceBasedExemplarFilter: "trace_based"}.get(type(arg)) or (text if known and text else "trace_based")
            sampled = rng.random() < 0.5
            ctx = trace.set_span_in_context(trace.NonRecordingSpan(trace.SpanContext(1, 2, False, trace.TraceFlags(1 if sampled else 0))))
            h = mp.get_meter("m").create_histogram("h")
            h.record(3, context=ctx)
            pts = r.get_metrics_data().resource_metrics[0].scope_metrics[0].metrics[0].data.data_points
            want = 1 if mode == "always_on" or (mode == "trace_based" and sampled) else 0
            case.check(len(pts[0].exemplars) == want, "exemplar-filter", lambda: f"{context}: {len(pts[0].exemplars)} exemplars of a measurement in a {'sampled' if sampled else 'not sampled'} context, want {want}")
            case.observe("exemplar_filters")
            mp.shutdown()
        case.sig(text, type(arg).__name__)


# --- the configurator -------------------------------------------------------------------------------------------------

SINK = []
DIST = {}
TIMES = {}


def NOW():
    return 0


GROUPS = {"traces": "opentelemetry_traces_exporter", "metrics": "opentelemetry_metrics_exporter", "logs": "opentelemetry_logs_exporter"}


def distribution():
    if DIST:
        return
    import atexit

    root = tempfile.mkdtemp(prefix="mon-p38-")
    atexit.register(shutil.rmtree, root, True)
    info = os.path.join(root, "monsdk-1.0.dist-info")
    os.mkdir(info)
    with open(os.path.join(info, "METADATA"), "w") as f:
        f.write("Metadata-Version: 2.1\nName: monsdk\nVersion: 1.0\n")
    with open(os.path.join(info, "entry_points.txt"), "w") as f:
        for sig, group in GROUPS.items():
            f.write(f"[{group}]\n")
            for n in ("monx", "mony", "monz", "monnone", "otlp_proto_grpc", "otlp_proto_http", "notanexporter") + (("monreader",) if sig == "metrics" else ()):
                f.write(f"{n} = mon_p38_parts:{sig}_{n}\n")
        f.write("[opentelemetry_id_generator]\nmonids = mon_p38_parts:MonIds\nnotids = mon_p38_parts:traces_notanexporter\n")
        f.write("[opentelemetry_traces_sampler]\nmonsampler = mon_p38_parts:sampler\nnotasampler = mon_p38_parts:nosampler\nraisingsampler = mon_p38_parts:raisingsampler\n")
        f.write("[opentelemetry_propagator]\nmonbroken = mon_p38_parts:raisingsampler\nmonown = mon_p38_parts:MonPropagator\n")
    sys.modules["mon_p38_parts"] = parts()
    sys.path.insert(0, root)
    DIST["root"] = root


def parts():
    from opentelemetry.context import get_current
    from opentelemetry.propagators.textmap import TextMapPropagator, default_setter
    from opentelemetry.sdk._logs.export import LogExporter, LogExportResult
    from opentelemetry.sdk.metrics.export import MetricExporter, MetricExportResult, MetricReader
    from opentelemetry.sdk.trace.export import SpanExporter, SpanExportResult
    from opentelemetry.sdk.trace.id_generator import IdGenerator
    from opentelemetry.sdk.trace.sampling import Decision, Sampler, SamplingResult

    m = types.ModuleType("mon_p38_parts")

    def spans(name):
        class X(SpanExporter):
            def export(self, spans):
                TIMES.setdefault("span", []).append((NOW(), len(spans)))
                SINK.extend(("span", name, s.name, s.get_span_context().trace_id, dict(s.resource.attributes)) for s in spans)
                return SpanExportResult.SUCCESS

            def shutdown(self):
                pass

            def force_flush(self, timeout_millis=30000):
                return True

        return X

    def points(name, data):
        for rm in data.resource_metrics:
            for sm in rm.scope_metrics:
                for metric in sm.metrics:
                    SINK.append(("metric", name, metric.name, metric.data.data_points[0].value, dict(rm.resource.attributes)))

    def metrics(name):
        class X(MetricExporter):
            def export(self, metrics_data, timeout_millis=10_000, **kw):
                TIMES.setdefault("metric", []).append((NOW(), 1))
                points(name, metrics_data)
                return MetricExportResult.SUCCESS

            def shutdown(self, timeout_millis=30_000, **kw):
                pass

            def force_flush(self, timeout_millis=10_000):
                return True

        return X

    def logs(name):
        class X(LogExporter):
            def export(self, batch):
                TIMES.setdefault("log", []).append((NOW(), len(batch)))
                SINK.extend(("log", name, d.log_record.body, (d.log_record.attributes or {}).get("event.name"), dict(d.log_record.resource.attributes)) for d in batch)
                return LogExportResult.SUCCESS

            def shutdown(self):
                pass

        return X

    class Reader(MetricReader):
        def _receive_metrics(self, metrics_data, timeout_millis=10_000, **kw):
            points("monreader", metrics_data)

        def shutdown(self, timeout_millis=30_000, **kw):
            pass

    for n in ("monx", "mony", "monz", "monnone", "otlp_proto_grpc", "otlp_proto_http"):
        setattr(m, f"traces_{n}", spans(n))
        setattr(m, f"metrics_{n}", metrics(n))
        setattr(m, f"logs_{n}", logs(n))
    m.metrics_monreader = Reader
    m.traces_notanexporter = type("NotATraceExporter", (), {})
    m.metrics_notanexporter = type("NotAMetricExporter", (), {})
    m.logs_notanexporter = type("NotALogExporter", (), {})

    class MonIds(IdGenerator):
        n = 0

        def generate_span_id(self):
            MonIds.n += 1
            return 10**6 + MonIds.n

        def generate_trace_id(self):
            MonIds.n += 1
            return 10**9 + MonIds.n

    class Custom(Sampler):
        def __init__(self, arg):
            self.arg = arg

        def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
            return SamplingResult(Decision.RECORD_AND_SAMPLE if name.endswith(str(self.arg)) else Decision.DROP)

        def get_description(self):
            return "Custom"

    def raisingsampler(*a):
        raise ValueError("cannot be built")

    class MonPropagator(TextMapPropagator):
        def extract(self, carrier, context=None, getter=None):
            return context or get_current()

        def inject(self, carrier, context=None, setter=default_setter):
            setter.set(carrier, "x-mon", "1")

        @property
        def fields(self):
            return {"x-mon"}

    m.MonIds, m.Custom, m.sampler, m.nosampler, m.raisingsampler, m.MonPropagator = MonIds, Custom, Custom, lambda arg: "no sampler", raisingsampler, MonPropagator
    return m


def pick_names(rng, sig):
    """(env text or None, its names in order or the reason it must be rejected)"""
    r = rng.random()
    if r < 0.15:
        return None, []
    if r < 0.3:
        return rng.choice(["", "none", " none ", "NONE", "None"]), []
    pool = ["monx", "mony", "monz", "monnone", "otlp", "otlp_proto_grpc", "otlp_proto_http"] + (["monreader"] if sig == "metrics" else [])
    names = rng.sample(pool, rng.randrange(1, 4))
    if rng.random() < 0.08:
        names[rng.randrange(len(names))] = rng.choice(["nosuchexporter", "notanexporter", "none"])
    if names == ["none"]:
        return "none", []
    return ",".join(rng.choice(["{}", "{}", " {}", "{} "]).format(n) for n in names), names


def configure(case):
    rng = case.rng
    quiet.silence()
    distribution()
    env, kw = {}, {}
    sinks, reject = {}, []
    for sig in GROUPS:
        text, names = pick_names(rng, sig)
        if text is not None:
            env[f"OTEL_{sig.upper()}_EXPORTER"] = text
        general = rng.choice([None] * 3 + ["grpc", "http/protobuf", " grpc ", "http/json"])
        specific = rng.choice([None] * 3 + ["grpc", "http/protobuf", "http/json", ""])
        if "OTEL_EXPORTER_OTLP_PROTOCOL" in env:
            general = env["OTEL_EXPORTER_OTLP_PROTOCOL"]
        elif general is not None:
            if sinks:  # earlier signals were modelled without it
                general = None
            else:
                env["OTEL_EXPORTER_OTLP_PROTOCOL"] = general
        if specific is not None:
            env[f"OTEL_EXPORTER_OTLP_{sig.upper()}_PROTOCOL"] = specific
        out = []
        for n in names:
            if n == "otlp":
                protocol = (specific or general or "grpc").strip()
                if protocol not in ("grpc", "http/protobuf"):
                    reject.append(("protocol_rejected", protocol))
                    continue
                n = {"grpc": "otlp_proto_grpc", "http/protobuf": "otlp_proto_http"}[protocol]
                case.observe("otlp_protocols")
            if n in ("nosuchexporter", "notanexporter", "none"):
                reject.append(("configuration_rejected", n))
            out.append(n)
        if rng.random() < 0.25:
            extra = rng.sample(["monx", "mony", "monz"], rng.randrange(0, 3))
            kw[{"traces": "trace", "metrics": "metric", "logs": "log"}[sig] + "_exporter_names"] = list(extra)
            out += extra
            case.observe("argument_exporters", len(extra))
        sinks[sig] = set(out)
        case.observe("env_exporters" if names else "no_exporters")
    # ids
    ids = rng.choice([None, None, "random", "monids", " monids ", "nosuchids", "notids"])
    if rng.random() < 0.5 and ids in ("nosuchids", "notids"):
        ids = "monids"
    if ids is not None:
        env["OTEL_PYTHON_ID_GENERATOR"] = ids
    own_ids = rng.random() < 0.3
    if ids in ("nosuchids", "notids") and not own_ids:
        reject.append(("ids_rejected", ids))
    # sampler
    name = rng.choice([None, "always_on", "always_off", "traceidratio", "parentbased_always_off", "parentbased_traceidratio", "monsampler", "notasampler", "raisingsampler", "nosuchsampler", "ALWAYS_OFF", "", " monsampler ", "always_off "])
    arg = rng.choice([None, "0.5", "0.1", "1", "0", "2", "abc", "7"])
    if name is not None:
        env["OTEL_TRACES_SAMPLER"] = name
    if arg is not None:
        env["OTEL_TRACES_SAMPLER_ARG"] = arg
    own_sampler = rng.random() < 0.2
    # resource
    attributes = {"from.code": "c", "both": "code"} if rng.random() < 0.6 else None
    env["OTEL_RESOURCE_ATTRIBUTES"] = "from.env=e,both=env"
    if rng.random() < 0.5:
        env["OTEL_SERVICE_NAME"] = "svc"
    version = rng.choice([None, "1.2"])
    if attributes is not None:
        kw["resource_attributes"] = attributes
    if version:
        kw["auto_instrumentation_version"] = version
    # logging handler
    handler_env = rng.choice([None, "true", " TRUE ", "false", "yes", ""])
    if handler_env is not None:
        env["OTEL_PYTHON_LOGGING_AUTO_INSTRUMENTATION_ENABLED"] = handler_env
    handler_arg = rng.choice([None, None, True, False])
    if handler_arg is not None:
        kw["setup_logging_handler"] = handler_arg
    handler = handler_arg if handler_arg is not None else (handler_env or "").strip().lower() == "true"
    disabled = rng.choice([None] * 6 + ["true", "False", " True"])
    if disabled is not None:
        env["OTEL_SDK_DISABLED"] = disabled
    off = (disabled or "").strip().lower() == "true"
    # schedules
    delays = {}
    if rng.random() < 0.4:
        for kind, var in (("span", "OTEL_BSP_SCHEDULE_DELAY"), ("log", "OTEL_BLRP_SCHEDULE_DELAY"), ("metric", "OTEL_METRIC_EXPORT_INTERVAL")):
            delays[kind] = {"span": 5000, "log": 5000, "metric": 60000}[kind]
            if rng.random() < 0.7:
                delays[kind] = rng.choice([200, 1000, 7000, 90000])
                env[var] = str(delays[kind])
    seed = rng.random()

    def child():
        import threading

        from opentelemetry import metrics, trace
        from opentelemetry._events import Event, get_event_logger
        from opentelemetry._logs import SeverityNumber, get_logger_provider
        from opentelemetry.sdk._configuration import _OTelSDKConfigurator
        from opentelemetry.sdk._logs import LogRecord
        from opentelemetry.sdk.trace.sampling import ALWAYS_OFF

        out = {"spans": []}
        m = sys.modules["mon_p38_parts"]

        def main():
            k = dict(kw)
            if own_ids:

                class Own(m.MonIds):
                    def generate_trace_id(self):
                        return 5 * 10**9 + super().generate_trace_id()

                k["id_generator"] = Own()
            if own_sampler:
                k["sampler"] = ALWAYS_OFF
            global NOW
            NOW = lambda: s.now / 1e6  # noqa: E731
            started = NOW()
            try:
                _OTelSDKConfigurator().configure(**k)
            except Exception as exc:  # noqa: BLE001
                out["rejected"] = (type(exc).__name__, str(exc))
                return
            tracer = trace.get_tracer("t")
            for i, parent in enumerate([None, None, None, None, None, None, True, False]):
                ctx = None
                if parent is not None:
                    ctx = trace.set_span_in_context(trace.NonRecordingSpan(trace.SpanContext(77 + i, 5, True, trace.TraceFlags(int(parent)))))
                for suffix in ("7", "x"):
                    sp = tracer.start_span(f"s{i}{suffix}", context=ctx)
                    c = sp.get_span_context()
                    out["spans"].append((f"s{i}{suffix}", parent, c.trace_id, bool(c.trace_flags.sampled), sp.is_recording()))
                    sp.end()
            metrics.get_meter("m").create_counter("count").add(3)
            logger = get_logger_provider().get_logger("l")
            logger.emit(LogRecord(timestamp=1, body="direct", severity_number=SeverityNumber.INFO, resource=getattr(logger, "resource", None)))
            get_event_logger("e").emit(Event("my.event", body="evt"))
            logging.getLogger("someone").error("through logging")
            logging.getLogger("someone").setLevel(1)
            logging.getLogger("someone").log(7, "detail")
            if delays:
                threading.Event().wait(100)  # of the scheduler's time: past every delay
            out["times"] = {k: v[0][0] - started for k, v in TIMES.items()}
            for p in (trace.get_tracer_provider(), metrics.get_meter_provider(), get_logger_provider()):
                p.force_flush()
            out["sink"] = list(SINK)
            for p in (trace.get_tracer_provider(), metrics.get_meter_provider(), get_logger_provider()):
                p.shutdown()

        with environment(env):
            s = sched.Scheduler(seed, strategy="rare", early_timer=0.0, max_steps=2_000_000)
            s.run(main)
        out["threads"] = [repr(x) for x in s.thread_exceptions]
        return out

    res = forked.call(child)
    context = f"environment {env!r}, arguments {kw!r}, own ids {own_ids}, own sampler {own_sampler}"
    if res[0] != "ok":
        case.fail("configurator-failed", f"{context}: {res[1]}: {res[2]}", tb=res[3])
    out = res[1]
    case.observe("configurations")
    case.sig(sorted(env.items()), repr(sorted(kw.items())), own_ids, own_sampler)
    case.check(not out.get("threads"), "thread-exception", lambda: f"{context}: {out['threads']}")
    if "rejected" in out:
        kind, msg = out["rejected"]
        case.check(bool(reject), "rejected", lambda: f"{context} was rejected: {kind}: {msg}")
        case.check(any(what.strip() in msg for _, what in reject), "unclear-rejection", lambda: f"{context} was rejected with {kind}: {msg!r}, which names none of {reject}")
        for k, _ in reject:
            case.observe(k)
        return
    case.check(not reject, "not-rejected", lambda: f"{context} was accepted in spite of {reject}")
    sink = out["sink"]
    if off:
        case.check(not sink, "disabled-recorded", lambda: f"{context}: disabled, but exported {sink[:3]}")
        case.check(not any(s[4] for s in out["spans"]), "disabled-recorded", lambda: f"{context}: disabled, but spans record")
        case.observe("disabled_configurations")
        return
    # sampling and ids
    if own_sampler:
        mode, rate = "always_off", None
        case.observe("samplers_argument")
    else:
        case.observe("samplers_from_env")
        mode = (name or "").lower().strip()
        try:
            rate = float(arg) if arg is not None else 1.0
        except ValueError:
            rate = 1.0
        if not 0 <= rate <= 1:
            rate = 1.0
        if mode == "monsampler":
            case.observe("custom_samplers")
        elif mode not in ("always_on", "always_off", "traceidratio", "parentbased_always_off", "parentbased_traceidratio"):
            mode = "parentbased_always_on"
            case.observe("sampler_fallbacks")
    kept = []
    for sname, parent, trace_id, sampled, recording in out["spans"]:
        if mode == "monsampler":
            want = sname.endswith(str(arg))
        elif mode.startswith("parentbased_") and parent is not None:
            want = parent
        elif mode.endswith("ratio"):
            want = (trace_id & (2**64 - 1)) < round(rate * 2**64)
        else:
            want = mode.endswith("on")
        case.check(sampled == want and recording == want, "sampler", lambda: f"{context}: span {sname} (trace {trace_id:#x}, parent {parent}) was sampled: {sampled}, want {want} by {mode} {rate}")
        if sampled:
            kept.append((sname, trace_id))
        if parent is None:
            ours = 10**9 < trace_id < 2 * 10**9
            own = 6 * 10**9 < trace_id < 7 * 10**9
            wanted = (False, True) if own_ids else ((ids or "").strip() == "monids", False)
            case.check((ours, own) == wanted, "id-generator", lambda: f"{context}: trace id {trace_id} of the wrong generator")
    case.observe("ids_argument" if own_ids else "ids_from_env")
    # exporters
    resource = {"from.env": "e", "both": "code" if attributes else "env", "telemetry.sdk.language": "python"}
    if attributes:
        resource["from.code"] = "c"
    if version:
        resource["telemetry.auto.version"] = version
    resource["service.name"] = env.get("OTEL_SERVICE_NAME", "unknown_service")

    def res_ok(r, what):
        case.check(all(r.get(k) == v for k, v in resource.items()) and ("from.code" in r) == bool(attributes) and ("telemetry.auto.version" in r) == bool(version), "resource", lambda: f"{context}: the resource of a {what} is {r}, want {resource}")
        case.observe("configured_resources")

    for kind, _, _, _, r in sink:
        res_ok(r, kind)
    spans = sorted((x, n, t) for k, x, n, t, _ in sink if k == "span")
    want = sorted((x, n, t) for x in sinks["traces"] for n, t in kept)
    case.check(spans == want, "span-exporters", lambda: f"{context}: spans exported {spans[:6]}…, want {want[:6]}…")
    case.observe("configured_spans", len(spans))
    got = sorted({(x, n, v) for k, x, n, v, _ in sink if k == "metric"})
    want = sorted((x, "count", 3) for x in sinks["metrics"])
    case.check(got == want, "metric-exporters", lambda: f"{context}: metrics exported {got}, want {want}")
    case.observe("configured_metrics", len(got))
    got = sorted((x, str(b), e or "") for k, x, b, e, _ in sink if k == "log" and b in ("direct", "evt", "through logging", "detail"))
    want = sorted((x, b, e) for x in sinks["logs"] for b, e in [("direct", ""), ("evt", "my.event")] + ([("through logging", ""), ("detail", "")] if handler else []))
    case.check(got == want, "log-exporters", lambda: f"{context}: logs exported {got}, want {want}")
    case.observe("configured_logs", len(got))
    case.observe("configured_events", sum(1 for g in got if g[2]))
    for kind, d in delays.items():
        if kind in out["times"]:
            first = out["times"][kind]
            case.check(0.9 * d <= first <= 1.1 * d + 50, "configured-delay", lambda: f"{context}: the first {kind} was exported after {first} ms, want about {d}")
            case.observe("configured_delays")
    case.observe("handlers_installed" if handler else "handlers_absent")


# --- propagators ------------------------------------------------------------------------------------------------------

HEADERS = {
    "tracecontext": {"traceparent", "tracestate"},
    "baggage": {"baggage"},
    "b3": {"b3"},
    "b3multi": {"x-b3-traceid", "x-b3-spanid", "x-b3-sampled"},
    "jaeger": {"uber-trace-id", "uberctx-k"},
    "monown": {"x-mon"},
}


def propagators(case):
    rng = case.rng
    quiet.silence()
    distribution()
    import opentelemetry.propagate  # noqa: F401
    from opentelemetry.baggage import set_baggage
    from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags, TraceState, set_span_in_context

    names = rng.sample(sorted(HEADERS), rng.randrange(1, 4))
    bad = rng.random() < 0.25
    if bad:
        names.insert(rng.randrange(len(names) + 1), rng.choice(["nosuchpropagator", "monbroken", "", "traceparent"]))
    text = ",".join(rng.choice(["{}", "{}", " {}", "{} "]).format(n) for n in names)
    env = {"OTEL_PROPAGATORS": text}
    if rng.random() < 0.1:
        env, names, bad = {}, ["tracecontext", "baggage"], False
        case.observe("propagators_default")

    def child():
        with environment(env):
            del sys.modules["opentelemetry.propagate"]
            try:
                import opentelemetry.propagate as p
            except Exception as exc:  # noqa: BLE001
                return "rejected", type(exc).__name__, str(exc)
            ctx = set_span_in_context(NonRecordingSpan(SpanContext(1, 2, False, TraceFlags(1), TraceState([("a", "b")]))), {})
            carrier = {}
            p.inject(carrier, set_baggage("k", "v", ctx))
            return "ok", sorted(k.lower() for k in carrier), sorted(f.lower() for f in p.get_global_textmap().fields)

    res = forked.call(child)
    case.check(res[0] == "ok", "child-failed", lambda: f"{env!r}: {res!r}")
    res = res[1]
    if bad:
        case.check(res[0] == "rejected", "not-rejected", lambda: f"{env!r} was accepted: {res!r}")
        case.check(res[2], "unclear-rejection", lambda: f"{env!r}: {res!r}")
        case.observe("propagators_rejected")
    else:
        case.check(res[0] == "ok", "rejected", lambda: f"{env!r} was rejected: {res!r}")
        want = set().union(*(HEADERS[n] for n in names))
        case.check(set(res[1]) == want, "propagators", lambda: f"{env!r} injects {res[1]}, want {sorted(want)}")
        case.observe("propagators")
    case.sig(text if env else "default")


# --- disabling --------------------------------------------------------------------------------------------------------


def disabled(case):
    from opentelemetry import context as ctxapi
    from opentelemetry import trace
    from opentelemetry._events import Event
    from opentelemetry._logs import SeverityNumber
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk._events import EventLoggerProvider
    from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecord
    from opentelemetry.sdk._logs.export import InMemoryLogExporter, SimpleLogRecordProcessor
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import TracerProvider
    from opentelemetry.sdk.trace.export import SimpleSpanProcessor
    from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
    from opentelemetry.sdk.trace.sampling import ALWAYS_ON

    rng = case.rng
    with quiet.capture():
        text = rng.choice(["true", "True", "TRUE", " true", "true ", "tRue\n", None, "", "false", "False", "1", "yes", "0", "truee", "on"])
        off = (text or "").strip().lower() == "true"
        env = {} if text is None else {"OTEL_SDK_DISABLED": text}
        sx, lx, r = InMemorySpanExporter(), InMemoryLogExporter(), InMemoryMetricReader()
        with environment(env):
            tp = TracerProvider(sampler=ALWAYS_ON, resource=Resource({}), shutdown_on_exit=False)
            mp = MeterProvider([r], resource=Resource({}), shutdown_on_exit=False)
            lp = LoggerProvider(resource=Resource({}), shutdown_on_exit=False)
        tp.add_span_processor(SimpleSpanProcessor(sx))
        lp.add_log_record_processor(SimpleLogRecordProcessor(lx))
        ep = EventLoggerProvider(lp)
        calls = []

        def callback(options):
            calls.append(1)
            return [Observation(4)]

        a = gen.attributes(rng, 2)
        tracer = tp.get_tracer("t", "1", "http://s", a) if rng.random() < 0.5 else tp.get_tracer("t")
        meter = mp.get_meter("m", "1", "http://s", a) if rng.random() < 0.5 else mp.get_meter("m")
        logger = lp.get_logger("l", "1", "http://s", a) if rng.random() < 0.5 else lp.get_logger("l")
        events = ep.get_event_logger("e")
        std = logging.Logger("disabled-check")
        std.addHandler(LoggingHandler(logger_provider=lp))
        expect = {"spans": 0, "logs": 0, "metrics": {}}
        parent = gen.span_context(rng) if rng.random() < 0.6 else None
        token = ctxapi.attach(trace.set_span_in_context(trace.NonRecordingSpan(parent), {}) if parent else {})
        context = f"OTEL_SDK_DISABLED={text!r}"
        try:
            for _ in range(rng.randrange(1, 12)):
                op = rng.randrange(8)
                if op == 0:
                    with tracer.start_as_current_span("s", attributes=a) as span:
                        span.set_attribute("k", 1)
                        span.add_event("e", a)
                        span.record_exception(ValueError("x"))
                        span.set_status(trace.StatusCode.ERROR)
                        span.update_name("n")
                        case.check(span.is_recording() is not off, "recording", lambda: f"{context}: is_recording() is {span.is_recording()}")
                        if off:
                            c = trace.get_current_span().get_span_context()
                            if parent is not None and parent.is_valid:
                                case.check(c == parent, "parent-lost", lambda: f"{context}: the current context is {c}, not its parent {parent}")
                                case.observe("parents_kept")
                            else:
                                case.check(not c.is_valid, "valid-context", lambda: f"{context}: {c}")
                            case.observe("disabled_spans")
                    expect["spans"] += 1
                elif op == 1:
                    span = tracer.start_span("s2", links=[trace.Link(gen.span_context(rng), a)])
                    span.end()
                    expect["spans"] += 1
                elif op in (2, 3, 4):
                    kind = rng.choice(["counter", "up_down_counter", "histogram", "gauge"])
                    inst = getattr(meter, "create_" + kind)(kind, "u", "d")
                    {"counter": lambda: inst.add(1, a), "up_down_counter": lambda: inst.add(-1, a), "histogram": lambda: inst.record(2), "gauge": lambda: inst.set(5, a)}[kind]()
                    expect["metrics"][kind] = True
                    if off:
                        case.observe("disabled_measurements")
                elif op == 5:
                    kind = rng.choice(["observable_counter", "observable_gauge", "observable_up_down_counter"])
                    getattr(meter, "create_" + kind)(kind, [callback])
                    expect["metrics"][kind] = True
                elif op == 6:
                    logger.emit(LogRecord(timestamp=1, body="b", severity_number=SeverityNumber.WARN, resource=Resource({})))
                    events.emit(Event("ev", body="x"))
                    expect["logs"] += 2
                else:
                    std.error("plain %s", "message")
                    expect["logs"] += 1
                    if off:
                        case.observe("disabled_logs")
            data = r.get_metrics_data()
            names = {m.name for rm in data.resource_metrics for sm in rm.scope_metrics for m in sm.metrics} if data else set()
            for p in (tp, mp, lp):
                p.force_flush()
        except Exception as exc:  # noqa: BLE001
            if type(exc).__module__.startswith("mon"):
                raise
            case.fail("raised", f"{context}: an API call raised {exc!r}")
        finally:
            ctxapi.detach(token)
        got = {"spans": len(sx.get_finished_spans()), "logs": len(lx.get_finished_logs()), "metrics": names}
        if off:
            case.check(not got["spans"] and not got["logs"] and not names and not calls, "disabled-recorded", lambda: f"{context}: recorded {got}, {len(calls)} callbacks")
            case.observe("disabled_sdk")
        else:
            want = {"spans": expect["spans"], "logs": expect["logs"], "metrics": set(expect["metrics"])}
            case.check(got == want, "enabled-lost", lambda: f"{context}: recorded {got}, want {want}")
            case.observe("enabled_sdk")
        for p in (tp, mp, lp):
            p.shutdown()
        case.sig(text, repr(got))


# --- OTLP settings that do not parse ------------------------------------------------------------------------------------


def otlp(case):
    from mon.checks import p31

    rng = case.rng
    with quiet.capture():
        signal = rng.choice(p31.SIGNALS)
        env, args = {}, {}
        timeout, comp, bad = 10, None, []
        for scope in ("", signal + "_"):
            if rng.random() < 0.6:
                text, meaning = (rng.choice(["3", " 4 ", "25"]), None)
                if rng.random() < 0.35:
                    text, meaning = rng.choice(["abc", "10s", "five"]), "bad"
                env[f"OTEL_EXPORTER_OTLP_{scope}TIMEOUT"] = text
                timeout = "bad" if meaning else int(text)
            if rng.random() < 0.6:
                text = rng.choice(["gzip", "deflate", "none", "GZIP", " gzip "] + ["zip", "brotli"] * 1)
                env[f"OTEL_EXPORTER_OTLP_{scope}COMPRESSION"] = text
                comp = {"gzip": "gzip", "deflate": "deflate", "none": None}.get(text.strip().lower(), "bad")
        if rng.random() < 0.3:
            args["timeout"] = timeout = 17
        if rng.random() < 0.3:
            from opentelemetry.exporter.otlp.proto.http import Compression

            args["compression"], comp = Compression.Deflate, "deflate"
        bad = [x for x in (timeout, comp) if x == "bad"]
        wire = p31.Wire()
        wire.install()
        exc = None
        with environment(env):
            try:
                ex = p31.exporter_class(signal)(endpoint="http://collector:4318/x", **args)
            except Exception as e:  # noqa: BLE001
                exc = e
        context = f"{signal} over HTTP with {env!r} and {args!r}"
        try:
            if exc is not None:
                case.check(bool(bad) and isinstance(exc, ValueError) and str(exc), "rejected", lambda: f"{context} raised {exc!r}")
                case.observe("otlp_unparsable")
            else:
                b, sent, n = p31.make_batch(rng, signal, "0", empty=False)
                ex.export(b)
                case.check(len(wire.log) == 1, "not-sent", lambda: f"{context}: {len(wire.log)} requests")
                rec = wire.log[0]
                got = rec["kw"].get("timeout")
                case.check(got == (10 if timeout == "bad" else timeout), "timeout", lambda: f"{context}: timeout {got}, want {timeout}")
                case.check(rec["encoding"] == (None if comp == "bad" else comp), "compression", lambda: f"{context}: encoding {rec['encoding']}, want {comp}")
                case.observe("otlp_configs")
        finally:
            wire.remove()
        case.sig(signal, sorted(env.items()), sorted(args))


# the forked ones first: a batching processor that was ever made is started again in every fork
WORKLOADS = [
    Workload("configure", configure, 900, 15000),
    Workload("propagators", propagators, 300, 4000),
    Workload("limits", limits, 4000, 40000),
    Workload("exemplars", exemplars, 400, 4000),
    Workload("disabled", disabled, 2500, 20000),
    Workload("otlp", otlp, 800, 8000),
    Workload("reader", reader, 1500, 15000),
    Workload("batch", batch, 1500, 12000),
]
