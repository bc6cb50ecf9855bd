from collections import Counter

from mon import gen, otlp, quiet
from mon.core import Workload

PROPERTY = "P28"
VENV = "pb5"
REQUIRED = [
    "batches", "spans", "empty_batches", "resource_groups", "scope_groups", "remote_parents", "local_parents", "roots", "events", "links", "link_states", "trace_states", "dropped_counts", "unencodable_attributes", "errors", "oks",
    "kind_INTERNAL", "kind_SERVER", "kind_CLIENT", "kind_PRODUCER", "kind_CONSUMER", "sequences", "extreme_times", "invalid_links", "limited_spans", "large_batches", "resource_schema_urls", "scope_schema_urls", "scope_attributes", "bare_spans",
]
RULE = (
    "Batches of spans made by the real SDK (any attributes, events, links, limits, resources, scopes, parents, times) and bare ReadableSpans are encoded, serialized, parsed back and compared with the spans as a multiset, "
    "field by field, under their resource and scope; distinct = shapes of batches."
)
ASSUMPTIONS = [
    "None inside a sequence, integers beyond 64 bits and strings that are not valid unicode count as unencodable in attributes (the existing tests demand the first); names are valid unicode",
    "scopes that compare equal count as one scope",
    "the W3C trace flags are not part of the encoded flags (the existing tests demand that)",
]

KINDS = {"INTERNAL": 1, "SERVER": 2, "CLIENT": 3, "PRODUCER": 4, "CONSUMER": 5}  # from the OTLP specification


def state(ts):
    return tuple(ts.items()) if ts else ()


def parse_state(s):
    return tuple(tuple(m.split("=", 1)) for m in s.split(",")) if s else ()


def expect(case, sp):
    """What the OTLP specification says a span looks like."""
    c = sp.get_span_context()
    attrs, bad = otlp.attributes(sp.attributes)
    events = []
    for e in sp.events:
        a, b = otlp.attributes(e.attributes)
        bad += b
        events.append((e.name, e.timestamp, a, e.dropped_attributes))
        case.observe("events")
    links = []
    for ln in sp.links:
        a, b = otlp.attributes(ln.attributes)
        bad += b
        x = ln.context
        links.append((x.trace_id, x.span_id, state(x.trace_state), a, ln.dropped_attributes, 0x300 if x.is_remote else 0x100))
        case.observe("links")
        if not x.is_valid:
            case.observe("invalid_links")
        if x.trace_state:
            case.observe("link_states")
    case.observe("unencodable_attributes", bad)
    p = sp.parent
    case.observe("roots" if not p else "remote_parents" if p.is_remote else "local_parents")
    if c.trace_state:
        case.observe("trace_states")
    if sp.dropped_attributes or sp.dropped_events or sp.dropped_links:
        case.observe("dropped_counts")
    case.observe("kind_" + sp.kind.name)
    if sp.status.status_code.name in ("ERROR", "OK"):
        case.observe(sp.status.status_code.name.lower() + "s")
    return (
        ("trace_id", c.trace_id),
        ("span_id", c.span_id),
        ("trace_state", state(c.trace_state)),
        ("parent", p.span_id if p else 0),
        ("name", sp.name),
        ("kind", KINDS[sp.kind.name]),
        ("start", sp.start_time),
        ("end", sp.end_time),
        ("attributes", attrs),
        ("events", tuple(events)),
        ("links", tuple(links)),
        ("dropped", (sp.dropped_attributes, sp.dropped_events, sp.dropped_links)),
        ("status", ({"UNSET": 0, "OK": 1, "ERROR": 2}[sp.status.status_code.name], sp.status.description or "")),
        ("flags", 0x300 if p and p.is_remote else 0x100),
    )


def got(s):
    i = lambda b: int.from_bytes(b, "big")  # noqa: E731
    assert len(s.trace_id) == 16 and len(s.span_id) == 8 and len(s.parent_span_id) in (0, 8), "id lengths"
    return (
        ("trace_id", i(s.trace_id)),
        ("span_id", i(s.span_id)),
        ("trace_state", parse_state(s.trace_state)),
        ("parent", i(s.parent_span_id)),
        ("name", s.name),
        ("kind", int(s.kind)),
        ("start", s.start_time_unix_nano),
        ("end", s.end_time_unix_nano),
        ("attributes", otlp.decode_attributes(s.attributes)),
        ("events", tuple((e.name, e.time_unix_nano, otlp.decode_attributes(e.attributes), e.dropped_attributes_count) for e in s.events)),
        ("links", tuple((i(x.trace_id), i(x.span_id), parse_state(x.trace_state), otlp.decode_attributes(x.attributes), x.dropped_attributes_count, x.flags) for x in s.links)),
        ("dropped", (s.dropped_attributes_count, s.dropped_events_count, s.dropped_links_count)),
        ("status", (int(s.status.code), s.status.message)),
        ("flags", s.flags),
    )


def scope_key(sc):
    if sc is None:
        return ("", "", (), "")
    return (sc.name or "", sc.version or "", otlp.attributes(sc.attributes)[0], sc.schema_url or "")


def resource_key(r):
    return (otlp.attributes(r.attributes)[0], r.schema_url or "")


def compare(case, spans, encode, request):
    wire = encode(spans).SerializeToString()
    msg = request.FromString(wire)
    want, have = Counter(), Counter()
    by_id = {}
    for sp in spans:
        e = expect(case, sp)
        k = (resource_key(sp.resource), scope_key(sp.instrumentation_scope), e)
        want[k] += 1
        by_id[e[0][1], e[1][1]] = k
    groups = Counter()
    for rs in msg.resource_spans:
        rk = (otlp.decode_attributes(rs.resource.attributes), rs.schema_url)
        case.observe("resource_groups")
        if rs.schema_url:
            case.observe("resource_schema_urls")
        for ss in rs.scope_spans:
            sk = (ss.scope.name, ss.scope.version, otlp.decode_attributes(ss.scope.attributes), ss.schema_url)
            groups[rk, sk] += 1
            case.observe("scope_groups")
            if ss.schema_url:
                case.observe("scope_schema_urls")
            if ss.scope.attributes:
                case.observe("scope_attributes")
            case.check(len(ss.spans) > 0, "empty-group", "an empty scope group")
            for s in ss.spans:
                k = (rk, sk, got(s))
                have[k] += 1
                if k not in want:
                    w = by_id.get((k[2][0][1], k[2][1][1]))
                    if w is None:
                        case.fail("unknown-span", f"{k[2]}")
                    case.eq(k[0], w[0], "resource", f"resource of span {k[2][4][1]!r}")
                    case.eq(k[1], w[1], "scope", f"scope of span {k[2][4][1]!r}")
                    for (f, a), (_, b) in zip(k[2], w[2]):
                        case.eq(a, b, "field-" + f, f"{f} of span {k[2][4][1]!r}")
    case.check(have == want, "not-once", f"decoded {sum(have.values())} spans, missing {list((want - have))[:1]}, surplus {list((have - want))[:1]}")
    n = len(set((s.resource, s.instrumentation_scope) for s in spans))
    case.check(sum(groups.values()) == n and len(msg.resource_spans) == len(set(s.resource for s in spans)), "not-grouped", f"{len(msg.resource_spans)} resource and {sum(groups.values())} scope groups for {n} scopes")
    case.observe("batches")
    case.observe("spans", len(spans))
    if not spans:
        case.observe("empty_batches")
    if len(spans) > 200:
        case.observe("large_batches")


def attrs(rng, n=4):
    a = gen.attributes(rng, n)
    r = rng.random()
    if r < 0.12:
        a[rng.choice(["huge", "k"])] = rng.choice([2**63, -(2**63) - 1, 2**200, [1, 2**64], ["a", None], "\ud800", ["ok", "\udfff"]])
    return a


def context(rng):
    from opentelemetry.trace import SpanContext, TraceFlags, TraceState

    ts = TraceState([(f"k{i}", rng.choice(["v", "a=b", "x:1", "0", " lead", "in side", "~" * 256])) for i in range(rng.choice([0, 1, 2, 3, 32]))]) if rng.random() < 0.5 else None
    if rng.random() < 0.08:
        # an invalid context (a link to one is kept when it says something else)
        return SpanContext(*rng.choice([(0, 0), (7, 0), (0, 5)]), rng.random() < 0.5, TraceFlags(0), ts)
    big = rng.random() < 0.1
    return SpanContext(2**128 - 1 if big else rng.randrange(1, 2**128), 2**64 - 1 if big else rng.choice([1, rng.randrange(1, 2**64)]), rng.random() < 0.5, TraceFlags(rng.choice([0, 1])), ts)


def sdk_spans(case):
    """Spans that went through the SDK."""
    from opentelemetry import trace as api
    from opentelemetry.exporter.otlp.proto.common.trace_encoder import encode_spans
    from opentelemetry.proto.collector.trace.v1.trace_service_pb2 import ExportTraceServiceRequest
    from opentelemetry.sdk.trace import SpanLimits, SpanProcessor, TracerProvider
    from opentelemetry.trace import Link, SpanKind, Status, StatusCode

    rng = case.rng
    quiet.silence()
    done = []

    class Keep(SpanProcessor):
        def on_end(self, span):
            done.append(span)

        def force_flush(self, timeout_millis=30000):
            return True

    limited = rng.random() < 0.3
    limits = SpanLimits(max_attributes=2, max_events=2, max_links=1, max_event_attributes=1, max_link_attributes=1, max_attribute_length=rng.choice([None, 3])) if limited else SpanLimits()
    tracers = []
    for r in otlp.resources(rng, gen, rng.choice([1, 2, 3])):
        p = TracerProvider(resource=r, shutdown_on_exit=False, span_limits=limits)
        p.add_span_processor(Keep())
        tracers += [p.get_tracer(*s) for s in otlp.scopes(rng, rng.choice([1, 2]), True)]
    n = rng.choice([0, 1, 2, 5, 12])
    if rng.random() < 0.01:
        n = 300
    for i in range(n):
        t = rng.choice(tracers)
        r = rng.random()
        ctx = None
        if r < 0.3:
            ctx = api.set_span_in_context(api.NonRecordingSpan(context(rng)))
        elif r < 0.6 and done:
            ctx = api.set_span_in_context(api.NonRecordingSpan(rng.choice(done).get_span_context()))
        t0 = rng.choice([0, 1, 10**18, rng.randrange(0, 2**62), 2**63 - 2])
        if t0 in (0, 2**63 - 2):
            case.observe("extreme_times")
        links = [Link(context(rng), attrs(rng, 2)) for _ in range(rng.choice([0, 0, 1, 3]))]
        sp = t.start_span(gen.string(rng), ctx, SpanKind[rng.choice(list(KINDS))], attrs(rng), links, start_time=t0)
        if not sp.is_recording():
            continue
        for _ in range(rng.choice([0, 0, 1, 4])):
            sp.add_event(gen.string(rng), attrs(rng, 2), timestamp=rng.choice([0, t0, 5, 2**64 - 1]))
        if rng.random() < 0.2:
            sp.add_link(context(rng), attrs(rng, 2))
        if rng.random() < 0.2:
            sp.record_exception(ValueError(gen.string(rng)), attrs(rng, 1))
        for k, v in attrs(rng).items():
            sp.set_attribute(k, v)
            if isinstance(v, (list, tuple)):
                case.observe("sequences")
        r = rng.random()
        if r < 0.2:
            sp.set_status(Status(StatusCode.ERROR, rng.choice([None, "", gen.string(rng)])))
        elif r < 0.4:
            sp.set_status(StatusCode.OK)
        sp.end(t0 + rng.choice([0, 1]))
    if limited:
        case.observe("limited_spans", len(done))
    rng.shuffle(done)
    case.sig(len(done), limited, len(tracers), sum(len(d.events) for d in done), sum(len(d.links) for d in done))
    compare(case, done, encode_spans, ExportTraceServiceRequest)


def bare(case):
    """ReadableSpans put together by hand, as other exporters' users and bridges do."""
    from opentelemetry.exporter.otlp.proto.common.trace_encoder import encode_spans
    from opentelemetry.proto.collector.trace.v1.trace_service_pb2 import ExportTraceServiceRequest
    from opentelemetry.sdk.trace import Event, ReadableSpan
    from opentelemetry.sdk.util.instrumentation import InstrumentationScope
    from opentelemetry.trace import Link, SpanKind, Status, StatusCode

    rng = case.rng
    quiet.silence()
    rs = otlp.resources(rng, gen, 2)
    sc = [InstrumentationScope(*s) for s in otlp.scopes(rng, 2, True)] + [None]
    spans = []
    for i in range(rng.randrange(0, 8)):
        t0 = rng.randrange(0, 2**62)
        spans.append(
            ReadableSpan(
                name=gen.string(rng),
                context=context(rng),
                parent=rng.choice([None, context(rng)]),
                resource=rng.choice(rs),
                attributes=rng.choice([None, {}, attrs(rng), {"raw": rng.choice([b"", b"a", b"\xff\x00"]), "map": {"k": [1, {"x": b"y"}], "": 1.5}}]),
                events=[Event(gen.string(rng), rng.choice([None, attrs(rng, 2)]), rng.randrange(0, 2**63)) for _ in range(rng.choice([0, 1, 2]))],
                links=[Link(context(rng), rng.choice([None, attrs(rng, 2)])) for _ in range(rng.choice([0, 1, 2]))],
                kind=SpanKind[rng.choice(list(KINDS))],
                instrumentation_scope=rng.choice(sc),
                status=rng.choice([Status(StatusCode.UNSET), Status(StatusCode.ERROR, "d"), Status(StatusCode.OK)]),
                start_time=t0,
                end_time=t0 + rng.randrange(0, 10**9),
            )
        )
        case.observe("bare_spans")
    case.sig(len(spans), [len(s.events) for s in spans], [len(s.links) for s in spans])
    compare(case, spans, encode_spans, ExportTraceServiceRequest)


WORKLOADS = [Workload("sdk_spans", sdk_spans, 2500, 100_000), Workload("bare", bare, 1200, 40_000)]
