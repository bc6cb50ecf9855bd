import base64
import collections
import copy
import datetime
import json
import logging
import math
import os
import re
import sys
import threading
import time
import types
import warnings

from mon import gen, otlp, quiet
from mon.core import Workload

PROPERTY = "P41"
VENV = "pb5"
REQUIRED = [
    "spans_printed", "span_events", "span_links", "children", "statuses", "epoch_times", "unended_spans", "bare_spans", "logs_printed", "bytes_bodies", "nested_bodies", "missing_timestamps", "missing_ids",
    "log_limits", "handler_records", "metrics_printed", "sums", "gauges", "histograms", "exponential_histograms", "exemplars", "built_points", "not_finite", "custom_formatters", "default_out", "batch_processors", "concurrent_documents", "memory_spans", "memory_logs",
    "cleared", "refused", "snapshots", "concurrent_exports", "concurrent_collections", "empty_collections", "time_zones",
]
RULE = (
    "Random spans, log records and measurements go through the SDK into console exporters whose output is parsed again and compared field by field with what processors saw; finished and hand-built data are printed directly as well. "
    "In-memory exporters and readers are driven by random histories and by several threads and compared with a list."
)
ASSUMPTIONS = [
    "times lie between 1970 and 2262 and are exact to two microseconds (floating point); float values that are not finite are written as Python's json module writes them",
    "instrumentation scopes of spans and log records, and link counts dropped by limits, are not part of the printed form; bytes print as base64 (as in later upstream releases)",
    "bodies are any AnyValue with string keys and without lone surrogates",
]

LONG = 10**9


class Out:
    """A buffered file: only flushed text is visible."""

    def __init__(self, slow=False):
        self.pending, self.text, self.slow = [], "", slow

    def write(self, s):
        if self.slow:
            time.sleep(0)
        self.pending.append(s)
        if self.slow:
            time.sleep(0)
        return len(s)

    def flush(self):
        while self.pending:
            self.text += self.pending.pop(0)


def documents(case, text):
    """The JSON documents of a stream, strictly one after the other."""
    dec, out, i = json.JSONDecoder(), [], 0
    while True:
        while i < len(text) and text[i].isspace():
            i += 1
        if i >= len(text):
            return out
        try:
            doc, j = dec.raw_decode(text, i)
        except ValueError as e:
            case.fail("unparsable", f"printed text is not JSON at {i}: {e}: {text[max(0, i - 50):i + 120]!r}")
        case.check(isinstance(doc, dict), "unparsable", lambda: f"a printed document is a {type(doc).__name__}")
        out.append(doc)
        i = j


def js(v):
    """What a value should read back as."""
    if isinstance(v, (bool, str)) or v is None:
        return str(v) if isinstance(v, str) else v
    if isinstance(v, bytes):
        return base64.b64encode(v).decode()
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return float(v)
    if isinstance(v, collections.abc.Mapping):
        return {str(k): js(x) for k, x in v.items()}
    return [js(x) for x in v]


def alike(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(alike(a[k], b[k]) for k in b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return type(a) is type(b) and a == b


def same(case, got, want, what):
    want = js(want)
    case.check(alike(got, want), what, lambda: f"printed {what} is {got!r:.400} instead of {want!r:.400}")


STAMP = re.compile(r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)\.(\d{6})Z$")


def same_time(case, got, ns, what):
    if ns is None:
        case.check(got is None, what, lambda: f"printed {what} is {got!r} though there is none")
        return
    m = isinstance(got, str) and STAMP.match(got)
    case.check(bool(m), what, lambda: f"printed {what} is {got!r} instead of the time of {ns} ns")
    d = datetime.datetime(*map(int, m.groups()), tzinfo=datetime.timezone.utc) - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
    us = (d.days * 86400 + d.seconds) * 10**6 + d.microseconds
    case.check(abs(us * 1000 - ns) <= 2000, what, lambda: f"printed {what} {got} is {us * 1000 - ns} ns off {ns}")


def same_context(case, got, ctx, what):
    if ctx is None:
        case.check(got is None, what, lambda: f"printed {what} is {got!r} though there is none")
        return
    case.check(isinstance(got, dict), what, lambda: f"printed {what} is {got!r}")
    same(case, got.get("trace_id"), f"0x{ctx.trace_id:032x}", what + " trace_id")
    same(case, got.get("span_id"), f"0x{ctx.span_id:016x}", what + " span_id")
    state, at = got.get("trace_state"), 0
    for k, v in ctx.trace_state.items():
        for part in (k, v):
            at = state.find(part, at) if isinstance(state, str) else -1
            case.check(at >= 0, what + " trace_state", lambda: f"printed trace state {state!r} lacks {k}={v}")
            at += len(part)


def same_resource(case, got, resource):
    case.check(isinstance(got, dict), "resource", lambda: f"printed resource is {got!r}")
    same(case, got.get("attributes"), resource["attributes"], "resource attributes")
    same(case, got.get("schema_url"), resource["schema_url"], "resource schema_url")


def same_attributes(case, got, attrs, what):
    if not attrs:
        case.check(got is None or got == {}, what, lambda: f"printed {what} are {got!r} though there are none")
    else:
        same(case, got, attrs, what)


def wanted_resource(resource):
    return {"attributes": dict(resource.attributes), "schema_url": resource.schema_url}


# -- spans


def span_facts(span):
    """A deep copy of everything a finished span holds (through its public attributes)."""
    return {
        "name": span.name,
        "context": span.context,
        "parent": span.parent,
        "kind": span.kind.name,
        "start": span.start_time,
        "end": span.end_time,
        "status": (span.status.status_code.name, span.status.description),
        "attributes": copy.deepcopy(dict(span.attributes or {})),
        "events": [(e.name, e.timestamp, copy.deepcopy(dict(e.attributes or {}))) for e in span.events],
        "links": [(ln.context, copy.deepcopy(dict(ln.attributes or {}))) for ln in span.links],
        "resource": copy.deepcopy(wanted_resource(span.resource)),
    }


def check_span(case, doc, facts):
    same(case, doc.get("name"), facts["name"], "name")
    same_context(case, doc.get("context"), facts["context"], "context")
    if facts["parent"] is None:
        case.check(doc.get("parent_id") is None, "parent", lambda: f"a root span has the parent {doc.get('parent_id')!r}")
    else:
        same(case, doc.get("parent_id"), f"0x{facts['parent'].span_id:016x}", "parent")
    case.check(str(doc.get("kind")).split(".")[-1] == facts["kind"], "kind", lambda: f"printed kind is {doc.get('kind')!r} instead of {facts['kind']}")
    same_time(case, doc.get("start_time"), facts["start"], "start_time")
    same_time(case, doc.get("end_time"), facts["end"], "end_time")
    code, description = facts["status"]
    status = doc.get("status") or {}
    same(case, status.get("status_code"), code, "status")
    same(case, status.get("description") or "", description or "", "status description")
    same_attributes(case, doc.get("attributes"), facts["attributes"], "attributes")
    case.eq(len(doc.get("events") or ()), len(facts["events"]), "events", "number of printed events")
    for got, (name, ts, attrs) in zip(doc.get("events") or (), facts["events"]):
        same(case, got.get("name"), name, "event name")
        same_time(case, got.get("timestamp"), ts, "event time")
        same_attributes(case, got.get("attributes"), attrs, "event attributes")
        case.observe("span_events")
    case.eq(len(doc.get("links") or ()), len(facts["links"]), "links", "number of printed links")
    for got, (ctx, attrs) in zip(doc.get("links") or (), facts["links"]):
        same_context(case, got.get("context"), ctx, "link context")
        same_attributes(case, got.get("attributes"), attrs, "link attributes")
        case.observe("span_links")
    same_resource(case, doc.get("resource"), facts["resource"])
    case.observe("spans_printed")


def stamp(rng):
    return rng.choice([0, 1, 999, 1000, 10**9, 1700000000123456789, 2**63 - 1, rng.randrange(2**61), rng.randrange(2**62), 1600000000 * 10**9 + rng.randrange(10**9), 999999999, 1499999999999999999])


def make_spans(case, tracer, n):
    """Runs a random program of spans; returns how many were recorded."""
    from opentelemetry import trace
    from opentelemetry.context import Context

    rng = case.rng
    made = []
    for _ in range(n):
        parent = rng.choice([None, None, gen.span_context(rng)] + [s.get_span_context() for s in made[-2:]])
        ctx = Context() if parent is None else trace.set_span_in_context(trace.NonRecordingSpan(parent), Context())
        links = [trace.Link(gen.span_context(rng), rng.choice([None, gen.attributes(rng)])) for _ in range(rng.randrange(3))]
        start = stamp(rng)
        span = tracer.start_span(
            gen.string(rng), ctx, rng.choice(list(trace.SpanKind)), gen.attributes(rng), links, start_time=start, record_exception=True
        )
        for _ in range(rng.randrange(3)):
            span.add_event(gen.string(rng), rng.choice([None, gen.attributes(rng)]), rng.choice([None, stamp(rng)]))
        if rng.random() < 0.2:
            span.record_exception(ValueError(gen.string(rng)))
        if rng.random() < 0.4:
            span.set_attribute(gen.key(rng), gen.value(rng))
        if rng.random() < 0.2:
            span.set_attribute("raw", b"text")
        if rng.random() < 0.5:
            code = rng.choice(list(trace.StatusCode))
            span.set_status(trace.Status(code, rng.choice([None, gen.string(rng)]) if code is trace.StatusCode.ERROR else None))
            case.observe("statuses")
        if parent is not None and parent.is_valid:
            case.observe("children")
        if start == 0:
            case.observe("epoch_times")
        made.append(span)
        if rng.random() < 0.15:
            case.observe("unended_spans")
            facts = span_facts(span)
            check_span(case, json.loads(span.to_json(rng.choice([None, 0, 2, 4]))), facts)
        span.end(rng.choice([None, stamp(rng), 0]))
    return made


def span_exporters(case, out, rng):
    """Console exporter and what one line per span looks like, or None for JSON."""
    from opentelemetry.sdk.trace.export import ConsoleSpanExporter

    if rng.random() < 0.2:
        case.observe("custom_formatters")
        return ConsoleSpanExporter(out=out, formatter=lambda s: f"<{s.name!r} {s.context.span_id}>\n"), True
    if rng.random() < 0.2:
        case.observe("default_out")
        return ConsoleSpanExporter("service", out), False
    return ConsoleSpanExporter(out=out), False


def zoned(fn):
    """Runs a case in some local time zone: printed times are UTC all the same."""

    def run(case):
        zone = case.rng.choice(["UTC0", "AAA5", "BBB-9:30"])
        old = os.environ.get("TZ")
        os.environ["TZ"] = zone
        time.tzset()
        case.observe("time_zones", zone != "UTC0")
        try:
            return fn(case)
        finally:
            os.environ.pop("TZ")
            if old is not None:
                os.environ["TZ"] = old
            time.tzset()

    return run


@zoned
def spans(case):
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import ReadableSpan, SpanLimits, SpanProcessor, TracerProvider
    from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor, SpanExportResult
    from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
    from opentelemetry.sdk.trace.sampling import ALWAYS_ON

    rng = case.rng
    quiet.silence()
    out, seen, ended = Out(), [], []

    class Seen(SpanProcessor):
        def on_end(self, span):
            ended.append(span)
            seen.append(span_facts(span))

        def force_flush(self, timeout_millis=30000):
            return True

    provider = TracerProvider(ALWAYS_ON, rng.choice(otlp.resources(rng, gen)), shutdown_on_exit=False, span_limits=SpanLimits(max_events=rng.choice([None, 1]), max_links=rng.choice([None, 1]), max_span_attributes=rng.choice([None, 2])))
    exporter, custom = span_exporters(case, out, rng)
    memory = InMemorySpanExporter()
    batch = rng.random() < 0.3
    provider.add_span_processor(Seen())
    for e in (exporter, memory):
        provider.add_span_processor(BatchSpanProcessor(e, schedule_delay_millis=LONG, max_export_batch_size=rng.choice([1, 3, 512])) if batch else SimpleSpanProcessor(e))
    tracer = provider.get_tracer("t")
    make_spans(case, tracer, rng.choice([1, 3, 6]))
    if batch:
        case.observe("batch_processors")
        case.check(provider.force_flush() is not False, "flush", "force_flush of the console exporter failed")
    case.eq([id(s) for s in memory.get_finished_spans()], [id(s) for s in ended], "memory", "the in-memory exporter does not hold the ended spans in order")
    if custom:
        case.eq(out.text, "".join(f"<{f['name']!r} {f['context'].span_id}>\n" for f in seen), "formatter", "text written with a custom formatter")
    else:
        docs = documents(case, out.text)
        case.eq(len(docs), len(seen), "documents", "number of printed spans")
        for doc, facts in zip(docs, seen):
            check_span(case, doc, facts)
        text = out.text
        case.check(exporter.export([]) is SpanExportResult.SUCCESS and out.text == text, "documents", "an empty batch printed something")
        # again, all in one batch, and not changed by it
        case.check(exporter.export(ended) is SpanExportResult.SUCCESS, "result", "console export did not succeed")
        case.check(not out.pending, "flush", "text was not flushed when export returned")
        case.eq(out.text, text * 2, "documents", "printing the same spans again")
    for span, facts in zip(ended, seen):
        indent = rng.choice([None, 0, 1, 4])
        check_span(case, json.loads(span.to_json(indent=indent)), facts)
        case.check(span_facts(span) == facts or repr(span_facts(span)) == repr(facts), "modified", "printing a span changed it")
    # spans built by hand
    for _ in range(2):
        from opentelemetry import trace
        from opentelemetry.sdk.trace import Event

        kwargs = dict(
            context=rng.choice([None, gen.span_context(rng)]), parent=rng.choice([None, gen.span_context(rng)]), resource=rng.choice([Resource({}), Resource({"a": ("x", "y")}, "http://s")]),
            attributes=rng.choice([None, {}, gen.attributes(rng), types.MappingProxyType(gen.attributes(rng))]), kind=rng.choice(list(trace.SpanKind)),
            start_time=rng.choice([None, stamp(rng)]), end_time=rng.choice([None, stamp(rng)]),
            events=rng.choice([(), [Event("e", rng.choice([None, gen.attributes(rng)]), stamp(rng))]]), links=rng.choice([(), [trace.Link(gen.span_context(rng), rng.choice([None, {"a": 1}]))]]),
        )
        for k in [k for k in kwargs if rng.random() < 0.2]:
            del kwargs[k]
        span = ReadableSpan(gen.string(rng), **kwargs)
        facts = span_facts(span)
        case.observe("bare_spans")
        check_span(case, json.loads(span.to_json(indent=rng.choice([None, 4]))), facts)
    case.sig(len(seen), custom, batch, tuple(len(f["events"]) for f in seen))
    provider.shutdown()


# -- log records


def body(rng, depth=0):
    r = rng.random()
    if r < 0.45 or depth > 3:
        return rng.choice([None, True, gen.integer(rng), gen.floating(rng), gen.string(rng), b"", b"\x00\xff", bytes(rng.randrange(256) for _ in range(rng.randrange(9)))])
    if r < 0.7:
        return rng.choice([list, tuple])(body(rng, depth + 1) for _ in range(rng.randrange(4)))
    m = {gen.string(rng): body(rng, depth + 1) for _ in range(rng.randrange(4))}
    return types.MappingProxyType(m) if rng.random() < 0.2 else m


def has_bytes(v):
    if isinstance(v, bytes):
        return True
    if isinstance(v, collections.abc.Mapping):
        return any(map(has_bytes, v.values()))
    return not isinstance(v, str) and isinstance(v, collections.abc.Sequence) and any(map(has_bytes, v))


def freeze(v):
    """A deep copy of a body."""
    if isinstance(v, collections.abc.Mapping):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(map(freeze, v))
    return v


def log_facts(rec):
    return {
        "body": freeze(rec.body),
        "severity_number": None if rec.severity_number is None else rec.severity_number.value,
        "severity_text": rec.severity_text,
        "attributes": copy.deepcopy(dict(rec.attributes or {})),
        "dropped": rec.dropped_attributes,
        "timestamp": rec.timestamp,
        "observed": rec.observed_timestamp,
        "trace_id": rec.trace_id,
        "span_id": rec.span_id,
        "flags": rec.trace_flags,
        "resource": copy.deepcopy(wanted_resource(rec.resource)),
    }


def check_log(case, doc, f):
    same(case, doc.get("body"), f["body"], "body")
    same(case, doc.get("severity_number"), f["severity_number"], "severity_number")
    same(case, doc.get("severity_text"), f["severity_text"], "severity_text")
    same_attributes(case, doc.get("attributes"), f["attributes"], "attributes")
    same(case, doc.get("dropped_attributes"), f["dropped"], "dropped_attributes")
    same_time(case, doc.get("timestamp"), f["timestamp"], "timestamp")
    same_time(case, doc.get("observed_timestamp"), f["observed"], "observed_timestamp")
    for k, width in (("trace_id", 32), ("span_id", 16)):
        if f[k] is None:
            case.check(not doc.get(k), k, lambda: f"printed {k} is {doc.get(k)!r} though there is none")
        else:
            same(case, doc.get(k), f"0x{f[k]:0{width}x}", k)
    same(case, doc.get("trace_flags"), f["flags"], "trace_flags")
    same_resource(case, doc.get("resource"), f["resource"])
    case.observe("logs_printed")


@zoned
def logs(case):
    from opentelemetry._logs import SeverityNumber
    from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogLimits, LogRecord, LogRecordProcessor
    from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, ConsoleLogExporter, InMemoryLogExporter, LogExportResult, SimpleLogRecordProcessor
    from opentelemetry.trace import TraceFlags

    rng = case.rng
    quiet.silence()
    out, seen, held = Out(), [], []

    class Seen(LogRecordProcessor):
        def emit(self, log_data):
            held.append(log_data)
            seen.append(log_facts(log_data.log_record))

        def shutdown(self):
            pass

        def force_flush(self, timeout_millis=30000):
            return True

    custom = rng.random() < 0.2
    if custom:
        case.observe("custom_formatters")
    exporter = ConsoleLogExporter(out, lambda r: f"<{r.severity_text!r}>\n") if custom else ConsoleLogExporter(out=out)
    memory = InMemoryLogExporter()
    resource = rng.choice(otlp.resources(rng, gen))
    provider = LoggerProvider(resource, shutdown_on_exit=False)
    batch = rng.random() < 0.3
    provider.add_log_record_processor(Seen())
    for e in (exporter, memory):
        provider.add_log_record_processor(BatchLogRecordProcessor(e, schedule_delay_millis=LONG) if batch else SimpleLogRecordProcessor(e))
    logger = provider.get_logger("l")
    handler = LoggingHandler(logger_provider=provider)
    std = logging.Logger("app")
    std.addHandler(handler)
    for _ in range(rng.choice([1, 3, 8])):
        if rng.random() < 0.25:
            case.observe("handler_records")
            if rng.random() < 0.5:
                std.warning("m %s", gen.string(rng), extra={"x": gen.value(rng)})
            else:
                std.error(rng.choice([{"a": [1, None]}, ValueError("x"), 5, b"\xff", ["a", b"\x01"]]))
            continue
        b = body(rng)
        if has_bytes(b):
            case.observe("bytes_bodies")
        if isinstance(b, (dict, list, tuple, types.MappingProxyType)):
            case.observe("nested_bodies")
        ctx = gen.span_context(rng)
        kwargs = dict(
            timestamp=rng.choice([None, stamp(rng)]), observed_timestamp=rng.choice([None, stamp(rng)]), trace_id=rng.choice([None, 0, ctx.trace_id]), span_id=rng.choice([None, 0, ctx.span_id]),
            trace_flags=rng.choice([None, TraceFlags(0), TraceFlags(1)]), severity_text=rng.choice([None, "INFO", gen.string(rng)]), severity_number=rng.choice([None, *SeverityNumber]), body=b,
            resource=rng.choice([resource, resource, None]), attributes=rng.choice([None, {}, gen.attributes(rng)]),
        )
        if kwargs["timestamp"] is None:
            case.observe("missing_timestamps")
        if kwargs["trace_id"] is None or kwargs["span_id"] is None:
            case.observe("missing_ids")
        if rng.random() < 0.3:
            kwargs["limits"] = LogLimits(max_attributes=rng.choice([1, 2]), max_attribute_length=rng.choice([None, 3]))
            case.observe("log_limits")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rec = LogRecord(**kwargs)
        f = log_facts(rec)
        given = {k: kwargs[k] for k in ("timestamp", "trace_id", "span_id", "severity_text", "body")}
        case.check(all(getattr(rec, k) is v for k, v in given.items()), "record", "a log record does not hold what it was built with")
        logger.emit(rec)
        check_log(case, json.loads(rec.to_json(indent=rng.choice([None, 0, 2]))), f)
        case.check(repr(log_facts(rec)) == repr(f) and rec.body is b, "modified", "printing a log record changed it")
    if batch:
        case.observe("batch_processors")
        case.check(provider.force_flush() is not False, "flush", "force_flush of the console exporter failed")
    case.eq([id(d) for d in memory.get_finished_logs()], [id(d) for d in held], "memory", "the in-memory exporter does not hold the emitted records in order")
    case.check(not out.pending, "flush", "text was not flushed when export returned")
    if custom:
        case.eq(out.text, "".join(f"<{f['severity_text']!r}>\n" for f in seen), "formatter", "text written with a custom formatter")
    else:
        docs = documents(case, out.text)
        case.eq(len(docs), len(seen), "documents", "number of printed log records")
        for doc, f in zip(docs, seen):
            check_log(case, doc, f)
        text = out.text
        case.check(exporter.export(held) is LogExportResult.SUCCESS, "result", "console export did not succeed")
        case.check(not out.pending, "flush", "text was not flushed when export returned")
        case.eq(out.text, text * 2, "documents", "printing the same records again")
    case.sig(len(seen), custom, batch)
    provider.shutdown()


# -- metrics


def expected_point(p):
    from opentelemetry.sdk.metrics.export import ExponentialHistogramDataPoint, HistogramDataPoint

    out = {
        "attributes": dict(p.attributes or {}),
        "start_time_unix_nano": p.start_time_unix_nano,
        "time_unix_nano": p.time_unix_nano,
        "exemplars": [
            {"filtered_attributes": dict(e.filtered_attributes or {}), "value": e.value, "time_unix_nano": e.time_unix_nano, "span_id": e.span_id, "trace_id": e.trace_id} for e in p.exemplars
        ],
    }
    fields = ["value"]
    if isinstance(p, HistogramDataPoint):
        fields = ["count", "sum", "bucket_counts", "explicit_bounds", "min", "max"]
    if isinstance(p, ExponentialHistogramDataPoint):
        fields = ["count", "sum", "scale", "zero_count", "flags", "min", "max"]
        for side in ("positive", "negative"):
            b = getattr(p, side)
            out[side] = {"offset": b.offset, "bucket_counts": list(b.bucket_counts)}
    for f in fields:
        out[f] = getattr(p, f)
    return js(out)


def expected_metrics(case, data):
    from opentelemetry.sdk.metrics.export import ExponentialHistogram, Gauge, Histogram, Sum

    def one(m):
        d = {"data_points": [expected_point(p) for p in m.data.data_points]}
        if not isinstance(m.data, Gauge):
            d["aggregation_temporality"] = int(m.data.aggregation_temporality)
        if isinstance(m.data, Sum):
            d["is_monotonic"] = m.data.is_monotonic
        case.observe({Sum: "sums", Gauge: "gauges", Histogram: "histograms", ExponentialHistogram: "exponential_histograms"}[type(m.data)])
        case.observe("exemplars", sum(len(p.exemplars) for p in m.data.data_points))
        return {"name": m.name, "description": m.description or "", "unit": m.unit or "", "data": d}

    return {
        "resource_metrics": [
            {
                "resource": js(wanted_resource(rm.resource)),
                "scope_metrics": [
                    {
                        "scope": {"name": sm.scope.name, "version": sm.scope.version, "schema_url": sm.scope.schema_url, "attributes": js(dict(sm.scope.attributes or {})) or None},
                        "metrics": [one(m) for m in sm.metrics],
                        "schema_url": sm.schema_url,
                    }
                    for sm in rm.scope_metrics
                ],
                "schema_url": rm.schema_url,
            }
            for rm in data.resource_metrics
        ]
    }


def check_metrics(case, doc, want):
    def walk(got, want, path):
        if isinstance(want, dict):
            if not want and got is None and path.endswith("attributes"):
                return
            case.check(isinstance(got, dict), "metrics", lambda: f"printed {path} is {got!r:.200} instead of {want!r:.200}")
            if path.endswith("scope") and not got.get("attributes"):
                got = {**got, "attributes": None}
            case.check(set(want) <= set(got), "metrics", lambda: f"printed {path} lacks {sorted(set(want) - set(got))}")
            for k in want:
                walk(got[k], want[k], f"{path}.{k}" if not path.endswith("attributes") else path + "[]")
            if path.endswith("attributes") or path.endswith("[]"):
                case.check(set(want) == set(got), "metrics", lambda: f"printed {path} also has {sorted(set(got) - set(want))}")
        elif isinstance(want, list):
            case.check(isinstance(got, list) and len(got) == len(want), "metrics", lambda: f"printed {path} is {got!r:.300} instead of {want!r:.300}")
            for g, w in zip(got, want):
                walk(g, w, path)
        else:
            if isinstance(want, str) and not want and got is None:  # no description, unit, version or schema URL
                return
            case.check(alike(got, want), "metrics", lambda: f"printed {path} is {got!r:.200} instead of {want!r:.200}")

    walk(doc, want, "")
    case.observe("metrics_printed", len(want["resource_metrics"]))


def build_metrics(case):
    """MetricsData built by hand with values an SDK run rarely gives."""
    from opentelemetry.sdk.metrics import Exemplar
    from opentelemetry.sdk.metrics.export import (
        AggregationTemporality, ExponentialHistogram, ExponentialHistogramDataPoint, Gauge, Histogram, HistogramDataPoint, Metric, MetricsData, NumberDataPoint, ResourceMetrics, ScopeMetrics, Sum,
    )
    from opentelemetry.sdk.metrics._internal.point import Buckets
    from opentelemetry.sdk.util.instrumentation import InstrumentationScope

    rng = case.rng
    case.observe("built_points")

    def number():
        v = rng.choice([gen.integer(rng), gen.floating(rng), math.nan, math.inf, 2**70])
        if isinstance(v, float) and not math.isfinite(v):
            case.observe("not_finite")
        return v

    def exemplars():
        return [Exemplar(gen.attributes(rng), number(), stamp(rng), rng.choice([None, 1, 2**64 - 1]), rng.choice([None, 1, 2**128 - 1])) for _ in range(rng.choice([0, 0, 1, 2]))]

    def counts(n):
        return rng.choice([list, tuple])(rng.randrange(2 ** rng.randrange(1, 64)) for _ in range(n))

    def points(kind):
        out = []
        for _ in range(rng.randrange(4)):
            base = dict(attributes=rng.choice([{}, gen.attributes(rng)]), start_time_unix_nano=rng.choice([None, stamp(rng)]), time_unix_nano=stamp(rng), exemplars=exemplars())
            if kind in (Sum, Gauge):
                out.append(NumberDataPoint(value=number(), **base))
            elif kind is Histogram:
                n = rng.randrange(5)
                out.append(HistogramDataPoint(count=rng.randrange(2**40), sum=number(), bucket_counts=counts(n + 1), explicit_bounds=sorted(rng.uniform(-5, 5) for _ in range(n)), min=number(), max=number(), **base))
            else:
                out.append(ExponentialHistogramDataPoint(
                    count=rng.randrange(2**40), sum=number(), scale=rng.randrange(-10, 21), zero_count=rng.randrange(9), positive=Buckets(rng.randrange(-99, 99), counts(rng.randrange(4))),
                    negative=Buckets(rng.randrange(-99, 99), counts(rng.randrange(4))), flags=rng.randrange(2), min=number(), max=number(), **base))
        return out

    def metric():
        kind = rng.choice([Sum, Gauge, Histogram, ExponentialHistogram])
        args = [points(kind)]
        if kind is not Gauge:
            args.append(rng.choice(list(AggregationTemporality)))
        if kind is Sum:
            args.append(rng.random() < 0.5)
        return Metric(gen.string(rng), rng.choice([None, "", gen.string(rng)]), rng.choice([None, "", "ms"]), kind(*args))

    def scope():
        name, version, url, attrs = rng.choice(otlp.scopes(rng))
        return ScopeMetrics(InstrumentationScope(name, version, url, attrs), [metric() for _ in range(rng.randrange(4))], url or "")

    return MetricsData([ResourceMetrics(r, [scope() for _ in range(rng.randrange(3))], r.schema_url) for r in otlp.resources(rng, gen, rng.randrange(3) + 1)])


def pieces(data):
    yield data
    for rm in data.resource_metrics:
        yield rm
        yield rm.resource
        for sm in rm.scope_metrics:
            yield sm
            yield sm.scope
            for m in sm.metrics:
                yield m
                yield m.data
                yield from m.data.data_points


def metrics(case):
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk.metrics import AlwaysOnExemplarFilter, MeterProvider
    from opentelemetry.sdk.metrics.export import AggregationTemporality, ConsoleMetricExporter, InMemoryMetricReader, MetricExportResult, PeriodicExportingMetricReader
    from opentelemetry.sdk.metrics.view import ExponentialBucketHistogramAggregation, View
    from opentelemetry.sdk.trace import TracerProvider

    rng = case.rng
    quiet.silence()
    out, seen = Out(), []
    custom = rng.random() < 0.15

    class Console(ConsoleMetricExporter):
        def export(self, metrics_data, timeout_millis=10_000, **kw):
            want = expected_metrics(case, metrics_data)
            seen.append((metrics_data, want, copy.deepcopy(want)))
            return super().export(metrics_data, timeout_millis=timeout_millis, **kw)

    kwargs = {}
    if custom:
        case.observe("custom_formatters")
        kwargs["formatter"] = lambda d: f"<{len(d.resource_metrics)}>\n"
    if rng.random() < 0.4:
        from opentelemetry.sdk.metrics import Counter, Histogram

        kwargs["preferred_temporality"] = {Counter: AggregationTemporality.DELTA, Histogram: AggregationTemporality.DELTA}
    exporter = Console(out=out, **kwargs)
    reader = PeriodicExportingMetricReader(exporter, export_interval_millis=math.inf)
    memory = InMemoryMetricReader()
    provider = MeterProvider(
        [reader, memory], rng.choice(otlp.resources(rng, gen)), exemplar_filter=AlwaysOnExemplarFilter() if rng.random() < 0.7 else None, shutdown_on_exit=False,
        views=[View(instrument_name="e*", aggregation=ExponentialBucketHistogramAggregation()), View(instrument_name="c*", attribute_keys={"k", "key"})],
    )
    try:
        values = {}
        tracer = TracerProvider(shutdown_on_exit=False).get_tracer("t")
        meters = [provider.get_meter(*s) for s in otlp.scopes(rng, 2)]
        tools = []
        for i, m in enumerate(meters):
            tools += [m.create_counter("c", rng.choice(["", "s"]), rng.choice(["", gen.string(rng)])).add, m.create_up_down_counter("u").add, m.create_histogram("h").record, m.create_histogram("e").record, m.create_gauge("g").set]
            m.create_observable_gauge("og", [lambda o, i=i: [Observation(v, dict(a)) for v, a in values.get(i, ())]])
        rounds = rng.choice([1, 2, 3])
        for _ in range(rounds):
            for _ in range(rng.randrange(8)):
                attrs = rng.choice([None, {}, gen.attributes(rng), types.MappingProxyType(gen.attributes(rng))])
                tool = rng.choice(tools)
                value = rng.choice([rng.randrange(1000), rng.uniform(0, 1e6), 0])
                with tracer.start_as_current_span("s"):
                    tool(value, attrs)
            values[0] = [(rng.choice([rng.randrange(9), 0.5]), {"k": rng.randrange(3)}) for _ in range(rng.randrange(3))]
            case.check(provider.force_flush() is not False, "flush", "force_flush of the console exporter failed")
            case.check(not out.pending, "flush", "text was not flushed when export returned")
        data = memory.get_metrics_data()
        if data is not None:
            for piece in pieces(data):
                before = repr(piece)
                text = piece.to_json(indent=rng.choice([None, 0, 4]))
                case.check(isinstance(json.loads(text), dict), "metrics", "not a JSON object")
                case.check(repr(piece) == before, "modified", "printing metrics changed them")
            check_metrics(case, json.loads(data.to_json()), expected_metrics(case, data))
        if custom:
            case.eq(out.text, "".join(f"<{len(d.resource_metrics)}>\n" for d, _, _ in seen), "formatter", "text written with a custom formatter")
        else:
            docs = documents(case, out.text)
            case.eq(len(docs), len(seen), "documents", "number of printed collections")
            for doc, (d, want, _) in zip(docs, seen):
                check_metrics(case, doc, want)
                case.check(alike(expected_metrics(case, d), want), "modified", "printing metrics changed them")
            built = build_metrics(case)
            want, before, at = expected_metrics(case, built), repr(built), len(out.text)
            case.check(exporter.export(built) is MetricExportResult.SUCCESS, "result", "console export did not succeed")
            case.check(not out.pending, "flush", "text was not flushed when export returned")
            docs = documents(case, out.text[at:])
            case.eq(len(docs), 1, "documents", "number of documents for one collection")
            check_metrics(case, docs[0], want)
            case.check(repr(built) == before, "modified", "printing metrics changed them")
            for piece in pieces(built):
                case.check(isinstance(json.loads(piece.to_json(indent=None)), dict), "metrics", "not a JSON object")
        case.sig(rounds, custom, len(seen))
    finally:
        provider.shutdown()


# -- several threads print to one file


def concurrent(case):
    from opentelemetry.sdk._logs import LoggerProvider, LogRecord
    from opentelemetry.sdk._logs.export import ConsoleLogExporter, SimpleLogRecordProcessor
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import TracerProvider
    from opentelemetry.sdk.trace.export import ConsoleSpanExporter, SimpleSpanProcessor

    rng = case.rng
    quiet.silence()
    out = Out(slow=True)
    out.flush = lambda: None
    kind = rng.choice(["span", "log"])
    n, per = rng.choice([2, 4]), rng.choice([3, 10])
    if kind == "span":
        provider = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
        provider.add_span_processor(SimpleSpanProcessor(ConsoleSpanExporter(out=out)))
        tracer = provider.get_tracer("t")
        emit = lambda name: tracer.start_span(name, attributes={"n": name}).end()  # noqa: E731
    else:
        provider = LoggerProvider(Resource({}), shutdown_on_exit=False)
        provider.add_log_record_processor(SimpleLogRecordProcessor(ConsoleLogExporter(out=out)))
        logger = provider.get_logger("l")
        emit = lambda name: logger.emit(LogRecord(timestamp=1, body=name, resource=Resource({}), attributes={"n": name}))  # noqa: E731
    run_threads([lambda t=t: [emit(f"{t}-{i}") for i in range(per)] for t in range(n)])
    docs = documents(case, "".join(out.pending))
    names = [d["name" if kind == "span" else "body"] for d in docs]
    case.eq(sorted(names), sorted(f"{t}-{i}" for t in range(n) for i in range(per)), "concurrent", "documents printed by several threads")
    for t in range(n):
        mine = [x for x in names if x.startswith(f"{t}-")]
        case.eq(mine, [f"{t}-{i}" for i in range(per)], "concurrent", "order of the documents of one thread")
    for d in docs:
        case.eq(d["attributes"], {"n": d["name" if kind == "span" else "body"]}, "concurrent", "attributes printed by several threads")
    case.observe("concurrent_documents", len(docs))
    case.sig(kind, tuple(x.split("-")[0] for x in names))


def run_threads(fns):
    errors = []
    gate = threading.Barrier(len(fns))

    def go(fn):
        try:
            gate.wait()
            fn()
        except BaseException as e:  # noqa: B902
            errors.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=go, args=(fn,)) for fn in fns]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]


# -- in-memory exporters


class Item:
    pass


def memory(case):
    from opentelemetry.sdk._logs.export import InMemoryLogExporter, LogExportResult
    from opentelemetry.sdk.trace.export import SpanExportResult
    from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter

    rng = case.rng
    kind = rng.choice(["spans", "logs"])
    exporter = InMemorySpanExporter() if kind == "spans" else InMemoryLogExporter()
    other = type(exporter)()
    get = lambda e: (e.get_finished_spans if kind == "spans" else e.get_finished_logs)()  # noqa: E731
    results = SpanExportResult if kind == "spans" else LogExportResult
    model, snapshots, stopped, ops = [], [], False, []
    for _ in range(rng.randrange(3, 25)):
        op = rng.choices(["export", "get", "clear", "flush", "shutdown", "reuse"], [8, 4, 2, 1, 0.5, 2])[0]
        ops.append(op)
        if op in ("export", "reuse"):
            batch = rng.choice([list, tuple])(rng.choice(model) if model and rng.random() < 0.1 else Item() for _ in range(rng.randrange(4)))
            got = exporter.export(batch)
            case.check(got is (results.FAILURE if stopped else results.SUCCESS), "result", lambda: f"export returned {got} {'after' if stopped else 'before'} shutdown")
            if not stopped:
                model += batch
            else:
                case.observe("refused")
            if op == "reuse" and isinstance(batch, list):
                batch.clear()  # the caller's list
            case.observe("memory_" + kind)
        elif op == "get":
            snap = get(exporter)
            case.eq([id(x) for x in snap], [id(x) for x in model], "memory", "what the in-memory exporter holds")
            snapshots.append((snap, list(model)))
            case.observe("snapshots")
        elif op == "clear":
            exporter.clear()
            model.clear()
            case.observe("cleared")
        elif op == "flush" and hasattr(exporter, "force_flush"):
            case.check(exporter.force_flush() is not False, "result", "force_flush failed")
        elif op == "shutdown":
            exporter.shutdown()
            stopped = True
    case.eq([id(x) for x in get(exporter)], [id(x) for x in model], "memory", "what the in-memory exporter holds")
    for snap, want in snapshots:
        case.eq([id(x) for x in snap], [id(x) for x in want], "memory", "a snapshot taken earlier changed")
    case.eq(len(get(other)), 0, "memory", "exporters share what they hold")
    case.sig(kind, tuple(ops))


def memory_threads(case):
    from opentelemetry.sdk._logs.export import InMemoryLogExporter
    from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter

    rng = case.rng
    kind = rng.choice(["spans", "logs"])
    exporter = InMemorySpanExporter() if kind == "spans" else InMemoryLogExporter()
    get = exporter.get_finished_spans if kind == "spans" else exporter.get_finished_logs
    n, per = rng.choice([2, 3]), 20
    taken = []

    class Batch(list):
        def __iter__(self):  # let others run in the middle of the batch
            for x in list.__iter__(self):
                yield x
                time.sleep(0)

    def write(t):
        for i in range(per):
            exporter.export(Batch((t, i, j) for j in range(1 + i % 3)))

    def read():
        for _ in range(10):
            taken.append(get())
            time.sleep(0)

    run_threads([lambda t=t: write(t) for t in range(n)] + [read])
    final = get()
    want = sorted((t, i, j) for t in range(n) for i in range(per) for j in range(1 + i % 3))
    case.eq(sorted(final), want, "memory", "items held after concurrent exports")
    for t in range(n):
        mine = [x for x in final if x[0] == t]
        case.eq(mine, sorted(mine), "memory", "order of one thread's items")
    for snap in taken:
        case.eq(list(snap), list(final[: len(snap)]), "memory", "a concurrent snapshot is no prefix of the final content")
    case.observe("concurrent_exports", n * per)
    case.observe("snapshots", len(taken))
    case.sig(kind, tuple(x[0] for x in final))


def reader(case):
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk.metrics import Counter, MeterProvider
    from opentelemetry.sdk.metrics.export import AggregationTemporality, InMemoryMetricReader
    from opentelemetry.sdk.resources import Resource

    rng = case.rng
    quiet.silence()
    delta = AggregationTemporality.DELTA

    class Slow(InMemoryMetricReader):
        def _receive_metrics(self, *a, **k):
            super()._receive_metrics(*a, **k)
            time.sleep(0.0005)

        def collect(self, *a, **k):
            super().collect(*a, **k)
            time.sleep(0.0005)

    threads = rng.random() < 0.5
    r = (Slow if threads else InMemoryMetricReader)({Counter: delta})
    cumulative = InMemoryMetricReader()
    provider = MeterProvider([r, cumulative], Resource({}), shutdown_on_exit=False)
    calls = []
    meter = provider.get_meter("m")
    counter = meter.create_counter("c")
    try:
        def value(data, name="c"):
            if data is None:
                return 0
            return sum(p.value for rm in data.resource_metrics for sm in rm.scope_metrics for m in sm.metrics if m.name == name for p in m.data.data_points)

        case.check(r.get_metrics_data() is None, "reader", "something collected though nothing was recorded")
        case.observe("empty_collections")
        total, got = 0, []
        if threads:
            n = rng.choice([2, 3])
            per = 15

            def get():
                for _ in range(4):
                    got.append(value(r.get_metrics_data()))

            run_threads([lambda: [counter.add(1) for _ in range(per)] for _ in range(n)] + [get] * n)
            total = n * per
            got.append(value(r.get_metrics_data()))
            case.observe("concurrent_collections", 4 * n)
            case.eq(sum(got), total, "reader", "sum over all delta collections taken concurrently")
        else:
            meter.create_observable_gauge("g", [lambda o: [calls.append(1), Observation(len(calls))][1:]])
            for _ in range(rng.randrange(1, 6)):
                k = rng.randrange(4)
                for _ in range(k):
                    counter.add(1)
                total += k
                before = len(calls)
                data = r.get_metrics_data()
                case.eq(value(data), k, "reader", "delta collection")
                case.eq((len(calls), value(data, "g")), (before + 1, before + 1), "reader", "collections made for one get_metrics_data")
                case.check(r.get_metrics_data() is not data, "reader", "the same collection was handed out twice")
                case.check(value(data) == k, "reader", "a collection changed afterwards")
        case.eq(value(cumulative.get_metrics_data()), total, "reader", "cumulative collection")
        case.eq(value(cumulative.get_metrics_data()), total, "reader", "cumulative collection")
        case.sig(threads, tuple(got))
    finally:
        provider.shutdown()
    n = len(calls)
    cumulative.get_metrics_data()
    r.get_metrics_data()
    case.observe("reader_histories")
    case.check(len(calls) <= n + 2, "reader", "collections after shutdown")


WORKLOADS = [
    Workload("spans", spans, 250, 5000, 50),
    Workload("logs", logs, 400, 8000, 100),
    Workload("metrics", metrics, 150, 3000, 30),
    Workload("concurrent", concurrent, 40, 800, 10),
    Workload("memory", memory, 400, 8000, 200),
    Workload("memory-threads", memory_threads, 40, 600, 10),
    Workload("reader", reader, 60, 1000, 10),
]
