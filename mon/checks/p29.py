from collections import Counter

from mon import gen, otlp, quiet
from mon.core import Workload

PROPERTY = "P29"
VENV = "pb5"
REQUIRED = [
    "batches", "records", "empty_batches", "resource_groups", "scope_groups", "absent_fields", "minimal_records", "unencodable_attributes", "unencodable_bodies", "body_none", "body_scalar", "body_bytes", "body_list", "body_map", "nested_nulls",
    "dropped_counts", "severities", "handler_records", "handler_objects", "large_batches", "resource_schema_urls", "scope_schema_urls", "scope_attributes", "event_records",
]
RULE = (
    "Batches of log records emitted through the real loggers, the logging handler and the event logger (any body, any subset of fields) are encoded, serialized, parsed back and compared field by field as a multiset "
    "under their resource and scope; distinct = shapes of batches."
)
ASSUMPTIONS = [
    "a body or attribute holding a value OTLP cannot carry (objects, integers beyond 64 bits, invalid unicode) is only required not to harm anything else",
    "an absent or zero id, flag, severity or time is the same on the wire",
    "a None body, and None inside lists and maps of a body, decode to an empty value; a None inside an attribute's sequence counts as unencodable",
]


def expect(case, rec):
    attrs, bad = otlp.attributes(rec.attributes)
    case.observe("unencodable_attributes", bad)
    if rec.dropped_attributes:
        case.observe("dropped_counts")
    absent = sum(x is None for x in (rec.timestamp, rec.observed_timestamp, rec.trace_id, rec.span_id, rec.trace_flags, rec.severity_text, rec.severity_number))
    case.observe("absent_fields", absent)
    if rec.severity_number is not None:
        case.observe("severities")
    b = rec.body
    ok = otlp.encodable(b, nulls=True)
    if not ok:
        case.observe("unencodable_bodies")
    elif b is None:
        case.observe("body_none")
    else:
        case.observe("body_bytes" if isinstance(b, bytes) else "body_map" if isinstance(b, dict) else "body_list" if isinstance(b, (list, tuple)) else "body_scalar")
        if "None" in repr(b):
            case.observe("nested_nulls")
    return (
        ("attributes", attrs),
        ("dropped", rec.dropped_attributes),
        ("time", rec.timestamp or 0),
        ("observed", rec.observed_timestamp or 0),
        ("trace_id", rec.trace_id or 0),
        ("span_id", rec.span_id or 0),
        ("flags", int(rec.trace_flags or 0)),
        ("severity_text", rec.severity_text or ""),
        ("severity_number", rec.severity_number.value if rec.severity_number is not None else 0),
        ("body", otlp.canon(b) if ok else "any"),
    )


def got(r):
    i = lambda b: int.from_bytes(b, "big")  # noqa: E731
    assert len(r.trace_id) in (0, 16) and len(r.span_id) in (0, 8), "id lengths"
    return (
        ("attributes", otlp.decode_attributes(r.attributes)),
        ("dropped", r.dropped_attributes_count),
        ("time", r.time_unix_nano),
        ("observed", r.observed_time_unix_nano),
        ("trace_id", i(r.trace_id)),
        ("span_id", i(r.span_id)),
        ("flags", r.flags),
        ("severity_text", r.severity_text),
        ("severity_number", int(r.severity_number)),
        ("body", otlp.decode(r.body)),
    )


def scope_key(sc):
    if sc is None:
        return ("", "", (), "")
    return (sc.name or "", sc.version or "", otlp.attributes(sc.attributes)[0], sc.schema_url or "")


def resource_key(r):
    return (otlp.attributes(r.attributes)[0], r.schema_url or "")


def compare(case, batch):
    from opentelemetry.exporter.otlp.proto.common._log_encoder import encode_logs
    from opentelemetry.proto.collector.logs.v1.logs_service_pb2 import ExportLogsServiceRequest

    msg = ExportLogsServiceRequest.FromString(encode_logs(batch).SerializeToString())
    want, tags = Counter(), {}
    for d in batch:
        e = expect(case, d.log_record)
        k = (resource_key(d.log_record.resource), scope_key(d.instrumentation_scope), e)
        want[k] += 1
        tags[d.log_record.attributes["tag"]] = k
    have, groups = Counter(), Counter()
    for rl in msg.resource_logs:
        rk = (otlp.decode_attributes(rl.resource.attributes), rl.schema_url)
        case.observe("resource_groups")
        if rl.schema_url:
            case.observe("resource_schema_urls")
        for sl in rl.scope_logs:
            sk = (sl.scope.name, sl.scope.version, otlp.decode_attributes(sl.scope.attributes), sl.schema_url)
            groups[rk, sk] += 1
            case.observe("scope_groups")
            if sl.schema_url:
                case.observe("scope_schema_urls")
            if sl.scope.attributes:
                case.observe("scope_attributes")
            case.check(len(sl.log_records) > 0, "empty-group", "an empty scope group")
            for r in sl.log_records:
                g = got(r)
                tag = dict(g[0][1]).get("tag")
                w = tags.get(tag[1]) if tag else None
                if w is None:
                    case.fail("unknown-record", f"{g}")
                if w[2][-1][1] == "any":
                    g = g[:-1] + (("body", "any"),)
                k = (rk, sk, g)
                have[k] += 1
                if k not in want:
                    case.eq(rk, w[0], "resource", f"resource of record {tag}")
                    case.eq(sk, w[1], "scope", f"scope of record {tag}")
                    for (f, a), (_, b) in zip(g, w[2]):
                        case.eq(a, b, "field-" + f, f"{f} of record {tag}")
    case.check(have == want, "not-once", f"decoded {sum(have.values())} records, missing {list(want - have)[:1]}, surplus {list(have - want)[:1]}")
    n = len(set((d.log_record.resource, d.instrumentation_scope) for d in batch))
    case.check(sum(groups.values()) == n and len(msg.resource_logs) == len(set(d.log_record.resource for d in batch)), "not-grouped", f"{len(msg.resource_logs)} resource and {sum(groups.values())} scope groups for {n} scopes")
    case.observe("batches")
    case.observe("records", len(batch))
    if not batch:
        case.observe("empty_batches")
    if len(batch) > 200:
        case.observe("large_batches")


class Odd:
    def __str__(self):
        return "odd"


def body(rng, depth=0):
    r = rng.random()
    if depth < 3 and r < 0.2:
        return [body(rng, depth + 1) for _ in range(rng.randrange(0, 4))]
    if depth < 3 and r < 0.25:
        return tuple(body(rng, depth + 1) for _ in range(rng.randrange(0, 3)))
    if depth < 3 and r < 0.45:
        return {(gen.string(rng) if rng.random() < 0.85 else rng.choice([1, -7, 2.5, ('k', 1)])): body(rng, depth + 1) for _ in range(rng.randrange(0, 4))}
    if r < 0.55:
        return None
    if r < 0.65:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(0, 6)))
    if r < 0.67:
        return rng.choice([2**64, -(2**80), "\udc80", Odd(), ValueError("v"), {1, 2}, 1j])
    return gen.scalar(rng)


def attrs(rng, tag):
    a = {"tag": tag, **gen.attributes(rng, 3)}
    if rng.random() < 0.1:
        a["odd"] = rng.choice([2**63, [1, 2**64], ["a", None], "\ud800"])
    a["tag"] = tag
    return a


def records(case):
    import warnings

    from opentelemetry._events import Event
    from opentelemetry.sdk._events import EventLoggerProvider
    from opentelemetry._logs import SeverityNumber
    from opentelemetry.sdk._logs import LoggerProvider, LogLimits, LogRecord, LogRecordProcessor
    from opentelemetry.trace import TraceFlags

    rng = case.rng
    quiet.silence()
    warnings.simplefilter("ignore")
    batch = []

    class Keep(LogRecordProcessor):
        def emit(self, log_data):
            batch.append(log_data)

        on_emit = emit

        def shutdown(self):
            pass

        def force_flush(self, timeout_millis=30000):
            return True

    loggers, events = [], []
    for r in otlp.resources(rng, gen, rng.choice([1, 2, 3])):
        p = LoggerProvider(resource=r, shutdown_on_exit=False)
        p.add_log_record_processor(Keep())
        for s in otlp.scopes(rng, rng.choice([1, 2])):
            loggers.append((p.get_logger(*s), r))
            events.append(EventLoggerProvider(p).get_event_logger(*s))
    n = rng.choice([0, 1, 2, 5, 12])
    if rng.random() < 0.01:
        n = 300
    for i in range(n):
        lg, r = rng.choice(loggers)
        if rng.random() < 0.1:
            rng.choice(events).emit(Event(name="e", timestamp=rng.choice([None, 5]), body=body(rng), severity_number=rng.choice([None, SeverityNumber.WARN]), attributes=attrs(rng, i)))
            case.observe("event_records")
            continue
        f = {
            "timestamp": rng.choice([None, 0, 1, 10**18, 2**64 - 1]),
            "observed_timestamp": rng.choice([None, 1, 10**18, 2**64 - 1]),
            "trace_id": rng.choice([None, 0, 1, 2**128 - 1, rng.randrange(1, 2**128)]),
            "span_id": rng.choice([None, 0, 1, 2**64 - 1, rng.randrange(1, 2**64)]),
            "trace_flags": rng.choice([None, TraceFlags(0), TraceFlags(1), TraceFlags(255)]),
            "severity_text": rng.choice([None, "", "WARN", "ünï"]),
            "severity_number": rng.choice([None] + list(SeverityNumber)),
            "body": body(rng),
        }
        keep = rng.random()
        f = {k: v for k, v in f.items() if rng.random() < keep}
        if not f:
            case.observe("minimal_records")
        if rng.random() < 0.15:
            f["limits"] = LogLimits(max_attributes=rng.choice([1, 2]), max_attribute_length=rng.choice([None, 4]))
            a = attrs(rng, i)
            a.pop("tag")
            a["tag"] = i  # last: survives the limit
        else:
            a = attrs(rng, i)
        lg.emit(LogRecord(resource=r, attributes=a, **f))
    rng.shuffle(batch)
    case.sig(len(batch), len(loggers), [type(d.log_record.body).__name__ for d in batch])
    compare(case, batch)


def handler(case):
    """Whatever the application logs through the standard logging module, next to harmless records."""
    import logging
    import warnings

    from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecordProcessor

    rng = case.rng
    quiet.silence()
    warnings.simplefilter("ignore")
    batch = []

    class Keep(LogRecordProcessor):
        def emit(self, log_data):
            batch.append(log_data)

        on_emit = emit

        def shutdown(self):
            pass

        def force_flush(self, timeout_millis=30000):
            return True

    p = LoggerProvider(resource=otlp.resources(rng, gen, 1)[0], shutdown_on_exit=False)
    p.add_log_record_processor(Keep())
    lg = logging.Logger(rng.choice(["app", "app.sub"]))
    lg.addHandler(LoggingHandler(logger_provider=p))
    n = rng.randrange(1, 6)
    for i in range(n):
        extra = {"tag": i, **{"x" + k: v for k, v in gen.attributes(rng, 2).items()}}
        msg = rng.choice([gen.string(rng), 5, 2.5, None, True, ["a", None, {"b": 1}], {"k": [1]}, ValueError("boom"), Odd(), {1, 2}, {"k": Odd()}, b"bytes", KeyError, 1j, object(), 2**70])
        if isinstance(msg, (Odd, ValueError, set, complex, type)) or type(msg) is object:
            case.observe("handler_objects")
        lg.log(rng.choice([10, 20, 30, 40, 50, 35]), msg, extra=extra)
        case.observe("handler_records")
    case.eq(len(batch), n, "handler-lost", "records emitted by the handler")
    case.sig([type(d.log_record.body).__name__ for d in batch])
    compare(case, batch)


WORKLOADS = [Workload("records", records, 3000, 120_000), Workload("handler", handler, 800, 20_000)]
