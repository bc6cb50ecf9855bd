import ipaddress
import json
import math
import struct
from collections import Counter

from mon import gen, otlp, quiet
from mon.checks.p31 import Wire, environment
from mon.core import Workload

PROPERTY = "P34"
VENV = "pb3"
REQUIRED = [
    "batches", "spans", "format_json_v1", "format_json_v2", "format_proto", "empty_batches", "parents", "roots", "sampled", "not_sampled", "annotations", "annotation_strings_cut",
    "tags", "tags_cut", "sequence_tags", "sequence_tags_cut", "unlimited_tags", "default_limit", "dropped_counts", "ok_statuses", "error_statuses", "resource_tags", "scope_tags", "ipv4s",
    "ipv6s", "ports", "service_names", "service_name_defaults", "success_answers", "failure_answers", "broken_connections", "after_shutdown", "through_processor", "repeated_exports",
    "kind_INTERNAL", "kind_SERVER", "kind_CLIENT", "kind_PRODUCER", "kind_CONSUMER", "backward_spans", "configured_endpoints", "configured_timeouts", "own_sessions", "bare_spans", "rounded_times",
]
RULE = (
    "Batches of spans made by the real SDK and bare ReadableSpans are exported by the real Zipkin exporters with a recorded network (requests' HTTPAdapter.send); the posted bodies are decoded "
    "by parsers of the check (JSON v1, JSON v2, protobuf wire format) and compared field by field with the spans; distinct = shapes of batches and configurations."
)
ASSUMPTIONS = [
    "times are not negative; strings are valid unicode in protobuf; the service name is a string; all spans of one exporter come from one provider",
    "where a span and its resource share an attribute key, either value may be the tag; tags that are no attributes may or may not be truncated",
    "a span that ends before it starts has no defined duration, it only must not get lost",
]

V2_KINDS = {"INTERNAL": None, "SERVER": "SERVER", "CLIENT": "CLIENT", "PRODUCER": "PRODUCER", "CONSUMER": "CONSUMER"}
PB_KINDS = {0: "INTERNAL", 1: "CLIENT", 2: "SERVER", 3: "PRODUCER", 4: "CONSUMER"}  # zipkin.proto


class Bad(Exception):
    pass


# ---- protobuf wire format


def varint(data, i):
    r = shift = 0
    while True:
        b = data[i]
        r |= (b & 0x7F) << shift
        i += 1
        shift += 7
        if not b & 0x80:
            return r, i


def fields(data):
    out, i = {}, 0
    while i < len(data):
        tag, i = varint(data, i)
        f, w = tag >> 3, tag & 7
        if w == 0:
            v, i = varint(data, i)
        elif w == 1:
            v, i = struct.unpack("<Q", data[i : i + 8])[0], i + 8
        elif w == 2:
            n, i = varint(data, i)
            v, i = data[i : i + n], i + n
            if len(v) != n:
                raise Bad("cut message")
        elif w == 5:
            v, i = struct.unpack("<I", data[i : i + 4])[0], i + 4
        else:
            raise Bad(f"wire type {w}")
        out.setdefault(f, []).append(v)
    return out


def one(f, n, default):
    v = f.get(n, [default])
    if len(v) != 1:
        raise Bad(f"field {n} repeated")
    return v[0]


def endpoint_pb(data):
    f = fields(data)
    ep = {"serviceName": one(f, 1, b"").decode()}
    if 2 in f:
        ep["ipv4"] = str(ipaddress.IPv4Address(one(f, 2, b"")))
    if 3 in f:
        ep["ipv6"] = str(ipaddress.IPv6Address(one(f, 3, b"")))
    if 4 in f:
        ep["port"] = one(f, 4, 0)
    return ep


def decode_pb(data):
    top = fields(data)
    if set(top) - {1}:
        raise Bad("unknown fields")
    out = []
    for raw in top.get(1, []):
        f = fields(raw)
        tags = {}
        for t in f.get(11, []):
            kv = fields(t)
            k = one(kv, 1, b"").decode()
            if k in tags:
                raise Bad(f"tag {k} twice")
            tags[k] = one(kv, 2, b"").decode()
        notes = []
        for a in f.get(10, []):
            g = fields(a)
            notes.append((one(g, 1, 0), one(g, 2, b"").decode()))
        pid = one(f, 2, b"")
        if len(one(f, 1, b"")) != 16 or len(one(f, 3, b"")) != 8 or len(pid) not in (0, 8):
            raise Bad("id length")
        out.append(
            {
                "trace": int.from_bytes(one(f, 1, b""), "big"),
                "id": int.from_bytes(one(f, 3, b""), "big"),
                "parent": int.from_bytes(pid, "big") if 2 in f else None,
                "kind": PB_KINDS[one(f, 4, 0)],
                "name": one(f, 5, b"").decode(),
                "timestamp": one(f, 6, 0),
                "duration": one(f, 7, 0),
                "endpoint": endpoint_pb(one(f, 8, b"")),
                "annotations": notes,
                "tags": tags,
                "debug": bool(one(f, 12, 0)),
            }
        )
    return out


# ---- JSON


def pairs(kv):
    if len({k for k, _ in kv}) != len(kv):
        raise Bad(f"key twice in {kv}")
    return dict(kv)


def hexid(s, n):
    if not isinstance(s, str) or len(s) != n or set(s) - set("0123456789abcdef"):
        raise Bad(f"id {s!r}")
    return int(s, 16)


def decode_json(version, data):
    out = []
    for s in json.loads(data.decode("utf-8"), object_pairs_hook=pairs):
        d = {
            "trace": hexid(s["traceId"], 32),
            "id": hexid(s["id"], 16),
            "parent": hexid(s["parentId"], 16) if s.get("parentId") is not None else None,
            "name": s["name"],
            "timestamp": s["timestamp"],
            "duration": s["duration"],
            "debug": s.get("debug", False),
        }
        notes = s.get("annotations") or []
        d["annotations"] = [(a["timestamp"], a["value"]) for a in notes]
        if version == 1:
            eps = [a["endpoint"] for a in notes]
            tags = {}
            for b in s.get("binaryAnnotations") or []:
                if b["key"] in tags:
                    raise Bad(f"tag {b['key']} twice")
                tags[b["key"]] = b["value"]
                eps.append(b["endpoint"])
            if any(e != eps[0] for e in eps):
                raise Bad(f"endpoints differ: {eps}")
            d["endpoint"] = eps[0] if eps else None
            d["tags"] = tags
        else:
            d["endpoint"] = s["localEndpoint"]
            d["tags"] = s.get("tags") or {}
            d["kind"] = s.get("kind") or "INTERNAL"
        for k, t in (("name", str), ("timestamp", int), ("duration", int), ("debug", bool)):
            if type(d[k]) is not t:
                raise Bad(f"{k} is {d[k]!r}")
        if any(type(v) is not str for v in d["tags"].values()):
            raise Bad(f"tag values are not strings: {d['tags']}")
        out.append(d)
    return out


# ---- what Zipkin should receive


def plain(v):
    return ("true" if v else "false") if isinstance(v, bool) else str(v)


def micros(ns):
    return (ns + 500) // 1000


def tag(case, v, limit):
    """-> the tag's value, None when no tag is expected."""
    limited = limit is not None and limit > 0
    if isinstance(v, (bool, int, float, str)):
        s = plain(v)
        if limited and len(s) > limit:
            case.observe("tags_cut")
            s = s[:limit]
        return s
    if limit == 1:
        return None
    elements = []
    for x in v:
        nxt = elements + [None if x is None else plain(x)]
        if limited and len(json.dumps(nxt, separators=(",", ":"))) > limit:
            case.observe("sequence_tags_cut")
            break
        elements = nxt
    case.observe("sequence_tags")
    return json.dumps(elements, separators=(",", ":"))


def same(a, b):
    """JSON values, NaN included."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def compare(case, fmt, sp, d, limit, endpoint):
    where = f"span {sp.name!r}"
    c = sp.get_span_context()
    case.eq((d["trace"], d["id"]), (c.trace_id, c.span_id), "ids", where)
    case.eq(d["parent"], sp.parent.span_id if sp.parent is not None else None, "parent", where)
    case.observe("parents" if sp.parent is not None else "roots")
    case.eq(d["name"], sp.name, "name", where)
    case.eq(d["timestamp"], micros(sp.start_time), "timestamp", where)
    if sp.start_time % 1000 >= 500:
        case.observe("rounded_times")
    if sp.end_time >= sp.start_time:
        case.eq(d["duration"], micros(sp.end_time - sp.start_time), "duration", where)
    else:
        case.observe("backward_spans")
    if fmt != "json_v1":
        case.eq(d["kind"], sp.kind.name, "kind", where)
        case.observe("kind_" + sp.kind.name)
    sampled = bool(c.trace_flags & 1)
    case.eq(d["debug"], sampled, "sampled-flag", where)
    case.observe("sampled" if sampled else "not_sampled")
    if d["endpoint"] is not None:
        case.eq(d["endpoint"], endpoint, "endpoint", where)
    # annotations
    case.eq(len(d["annotations"]), len(sp.events), "annotations", where)
    for (ts, value), e in zip(d["annotations"], sp.events):
        case.eq(ts, micros(e.timestamp), "annotation-time", where)
        attrs = {}
        for k, v in (e.attributes or {}).items():
            if isinstance(v, str) and limit is not None and 0 < limit < len(v):
                v = v[:limit]
                case.observe("annotation_strings_cut")
            attrs[k] = v
        got = json.loads(value)
        case.check(same(got, {e.name: attrs}), "annotation-value", f"{where}: annotation {got} for event {e.name!r} {attrs}")
        case.observe("annotations")
    # tags
    tags = dict(d["tags"])
    keys = set(sp.attributes or ()) | set(sp.resource.attributes)
    for k in keys:
        want = [tag(case, m[k], limit) for m in (sp.attributes or {}, sp.resource.attributes) if k in m]
        got = tags.pop(k, None)
        case.check(got in want, "tag", f"{where}: tag {k!r} is {got!r} want {want[0]!r} (limit {limit})")
        case.observe("tags")
        if k in sp.resource.attributes:
            case.observe("resource_tags")
        if not limit or limit < 0:
            case.observe("unlimited_tags")
    want = {}
    sc = sp.instrumentation_scope
    if sc is not None:
        for p in ("otel.library.", "otel.scope."):
            want[p + "name"], want[p + "version"] = sc.name, sc.version
        case.observe("scope_tags")
    status = sp.status.status_code.name
    if status != "UNSET":
        want["otel.status_code"] = status
        case.observe(status.lower() + "_statuses")
    if status == "ERROR":
        want["error"] = sp.status.description or ""
    for what in ("attributes", "events", "links"):
        n = getattr(sp, "dropped_" + what)
        if n:
            want[f"otel.dropped_{what}_count"] = str(n)
            case.observe("dropped_counts")
    for k, v in want.items():
        got = tags.pop(k, None)
        ok = got == v or (limit and limit > 0 and got == v[:limit])
        case.check(ok, "status-scope-tag", f"{where}: tag {k!r} is {got!r} want {v!r}")
    case.check(not tags, "surplus-tags", f"{where}: unexpected tags {tags}")


RESERVED = ("otel.", "error", "service.name")


def attrs(rng, n=4):
    a = gen.attributes(rng, n)
    if rng.random() < 0.3:
        a["long"] = rng.choice(["x" * 300, "é😀" * 90, ["abc"] * 60, ['q"', "é", "\\"] * 30, [1.5, None, 2.5] * 20, "ab", [True] * 4])
    if rng.random() < 0.1:
        a["r"] = "collides with the resource"
    return {k: v for k, v in a.items() if not k.startswith(RESERVED)}


def spans(case, resource, through=None, attrs=attrs):
    """Spans of one provider."""
    from opentelemetry import trace as api
    from opentelemetry.sdk.trace import Event, ReadableSpan, SpanLimits, SpanProcessor, TracerProvider
    from opentelemetry.sdk.trace.export import SimpleSpanProcessor
    from opentelemetry.sdk.trace.sampling import Decision, Sampler, SamplingResult
    from opentelemetry.trace import Link, SpanKind, Status, StatusCode

    rng = case.rng
    done = []

    class Keep(SpanProcessor):
        def on_end(self, span):
            done.append(span)

        def force_flush(self, timeout_millis=30000):
            return True

    class Sometimes(Sampler):
        def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
            return SamplingResult(rng.choice([Decision.RECORD_ONLY, Decision.RECORD_AND_SAMPLE]) if through is None else Decision.RECORD_AND_SAMPLE, attributes)

        def get_description(self):
            return "sometimes"

    limits = None
    if rng.random() < 0.3:
        limits = SpanLimits(max_attributes=rng.choice([0, 3]), max_events=rng.choice([0, 2]), max_links=rng.choice([0, 1]), max_event_attributes=1, max_attribute_length=rng.choice([None, 5]))
    p = TracerProvider(resource=resource, shutdown_on_exit=False, span_limits=limits, sampler=Sometimes())
    p.add_span_processor(Keep())
    if through is not None:
        p.add_span_processor(SimpleSpanProcessor(through))
    tracers = [p.get_tracer(*s) for s in otlp.scopes(rng, 2)]
    n = rng.choice([0, 1, 2, 5, 9])
    for _ in range(n):
        r = rng.random()
        if r < 0.25 and through is None:
            from opentelemetry.sdk.util.instrumentation import InstrumentationScope

            t0 = rng.randrange(0, 2**62)
            done.append(
                ReadableSpan(
                    name=gen.string(rng),
                    context=gen.span_context(rng, flags=rng.choice([0, 1, 2, 3, 255])),
                    parent=rng.choice([None, gen.span_context(rng)]),
                    resource=resource,
                    attributes=rng.choice([None, {}, attrs(rng)]),
                    events=[Event(gen.string(rng), attrs(rng, 2), rng.randrange(0, 2**62)) for _ in range(rng.choice([0, 1, 2]))],
                    kind=SpanKind[rng.choice(list(V2_KINDS))],
                    instrumentation_scope=rng.choice([None, InstrumentationScope("hand", "1")]),
                    status=rng.choice([Status(StatusCode.UNSET), Status(StatusCode.ERROR, "d"), Status(StatusCode.OK)]),
                    start_time=t0,
                    end_time=t0 + rng.randrange(0, 10**9),
                )
            )
            case.observe("bare_spans")
            continue
        ctx = None
        if r < 0.5:
            ctx = api.set_span_in_context(api.NonRecordingSpan(gen.span_context(rng)))
        elif r < 0.7 and done:
            ctx = api.set_span_in_context(api.NonRecordingSpan(rng.choice(done).get_span_context()))
        t0 = rng.choice([0, 1, 499, 500, 1500, 10**18 + 999, rng.randrange(0, 2**62)])
        links = [Link(gen.span_context(rng), attrs(rng, 2)) for _ in range(rng.choice([0, 0, 1, 3]))]
        if ctx is not None and rng.random() < 0.3:
            links.append(Link(api.get_current_span(ctx).get_span_context()))
        sp = rng.choice(tracers).start_span(gen.string(rng), ctx, SpanKind[rng.choice(list(V2_KINDS))], attrs(rng), links, start_time=t0)
        for _ in range(rng.choice([0, 1, 3, 4])):
            sp.add_event(gen.string(rng), attrs(rng, 2) if rng.random() < 0.8 else None, timestamp=rng.choice([0, t0, 501, 2**62]))
        if rng.random() < 0.2:
            sp.record_exception(ValueError(gen.string(rng)))
        for k, v in attrs(rng, 2).items():
            sp.set_attribute(k, v)
        r = rng.random()
        if r < 0.25:
            sp.set_status(Status(StatusCode.ERROR, rng.choice([None, "", gen.string(rng), "d" * 200])))
        elif r < 0.4:
            sp.set_status(StatusCode.OK)
        sp.end(t0 + rng.choice([0, 1, 499, 500, 1000, 10**9 + 501]) if rng.random() < 0.95 or not t0 else t0 - 1 - rng.randrange(t0))
    return done


def run(case):
    import requests

    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace.export import SpanExportResult

    rng = case.rng
    quiet.silence()
    fmt = rng.choice(["json_v1", "json_v2", "proto"])
    case.observe("format_" + fmt)
    kw, env = {}, {}
    if fmt == "proto":
        from opentelemetry.exporter.zipkin.proto.http import ZipkinExporter
    else:
        from opentelemetry.exporter.zipkin.encoder import Protocol
        from opentelemetry.exporter.zipkin.json import ZipkinExporter

        if fmt == "json_v1" or rng.random() < 0.5:
            kw["version"] = Protocol.V1 if fmt == "json_v1" else Protocol.V2
    url, seconds = "http://localhost:9411/api/v2/spans", 10
    if rng.random() < 0.3:
        url = env["OTEL_EXPORTER_ZIPKIN_ENDPOINT"] = "http://zipkin.env:1234/path"
        case.observe("configured_endpoints")
    elif rng.random() < 0.2:
        env["OTEL_EXPORTER_ZIPKIN_ENDPOINT"] = ""
    if rng.random() < 0.3:
        url = kw["endpoint"] = "http://zipkin.arg/api/v2/spans"
        case.observe("configured_endpoints")
    if rng.random() < 0.3:
        env["OTEL_EXPORTER_ZIPKIN_TIMEOUT"] = "7"
        seconds = 7
    if rng.random() < 0.3:
        seconds = kw["timeout"] = rng.choice([1, 30])
        case.observe("configured_timeouts")
    endpoint = {}
    if rng.random() < 0.4:
        kw["local_node_ipv4"] = rng.choice(["192.168.0.1", "255.255.255.255", 1, "0.0.0.0"])
        endpoint["ipv4"] = str(ipaddress.IPv4Address(kw["local_node_ipv4"]))
        case.observe("ipv4s")
    if rng.random() < 0.4:
        kw["local_node_ipv6"] = rng.choice(["2001:db8::c001", "::", "fe80::1", 2**128 - 1])
        endpoint["ipv6"] = str(ipaddress.IPv6Address(kw["local_node_ipv6"]))
        case.observe("ipv6s")
    if rng.random() < 0.4:
        endpoint["port"] = kw["local_node_port"] = rng.choice([1, 80, 31313, 65535])
        case.observe("ports")
    limit = None
    if rng.random() < 0.6:
        limit = kw["max_tag_value_length"] = rng.choice([0, 1, 2, 3, 5, 9, 20, 128, 1000, None])
    else:
        case.observe("default_limit")
    own = None
    if rng.random() < 0.3:
        own = kw["session"] = requests.Session()
        own.headers["X-Own"] = "yes"
        case.observe("own_sessions")
    named = rng.random() < 0.6
    rattrs = {k: v for k, v in attrs(rng, 3).items()}
    if rng.random() < 0.5:
        rattrs["r"] = "from the resource"
    if named:
        rattrs["service.name"] = rng.choice(["svc", "ünï", "s" * 300])
        case.observe("service_names")
    else:
        case.observe("service_name_defaults")
    resource = Resource(rattrs)
    wire = Wire()
    wire.install()
    try:
        with environment(env):
            exporter = ZipkinExporter(**kw)
            endpoint["serviceName"] = rattrs["service.name"] if named else Resource.create().attributes["service.name"]
        through = rng.random() < 0.15
        if through:
            batches = [[s] for s in spans(case, resource, exporter)]
            case.observe("through_processor", len(batches))
            case.eq(len(wire.log), len(batches), "posts", "posts of a simple processor")
            wanted = list(batches)
        else:
            wanted = []
            for _ in range(rng.choice([1, 1, 2])):
                batch = spans(case, resource)
                rng.shuffle(batch)
                answer = rng.choice([200, 200, 202, 201, 204, 301, 304, 307, 400, 404, 413, 429, 500, 503, requests.exceptions.ConnectionError("x"), requests.exceptions.Timeout("x")])
                wire.default = [answer]
                before = len(wire.log)
                try:
                    result = exporter.export(tuple(batch) if rng.random() < 0.5 else batch)
                except requests.exceptions.RequestException:
                    case.check(isinstance(answer, Exception), "raised", "export raised although the server answered")
                    result = None
                case.eq(len(wire.log) - before, 1, "posts", f"posts of one export, answer {answer!r}")
                # other 2xx answers may count as either
                ok = answer in (200, 202) or answer in (201, 204) and result is SpanExportResult.SUCCESS
                case.check((result is SpanExportResult.SUCCESS) == ok, "result", f"result {result} for answer {answer!r}")
                case.check(ok or isinstance(answer, Exception) or result is SpanExportResult.FAILURE, "result", f"result {result} for answer {answer!r}")
                case.observe("broken_connections" if isinstance(answer, Exception) else "success_answers" if ok else "failure_answers")
                wanted.append(batch)
            if len(wanted) > 1:
                case.observe("repeated_exports")
        for batch, sent in zip(wanted, wire.log):
            req = sent["request"]
            case.eq((req.method, req.url), ("POST", url), "endpoint-url", "request")
            case.eq(sent["kw"]["timeout"], seconds, "timeout", "request timeout")
            case.eq(req.headers.get("Content-Type"), "application/x-protobuf" if fmt == "proto" else "application/json", "content-type", "request")
            if own is not None:
                case.eq(req.headers.get("X-Own"), "yes", "session", "header of the given session")
            try:
                got = decode_pb(sent["data"]) if fmt == "proto" else decode_json(1 if fmt == "json_v1" else 2, sent["data"])
            except (Bad, ValueError, KeyError, IndexError, struct.error) as exc:
                case.fail("undecodable", f"{fmt} payload does not decode: {exc!r}")
            key = lambda t, i: (t, i)  # noqa: E731
            have = Counter(key(d["trace"], d["id"]) for d in got)
            want = Counter(key(s.get_span_context().trace_id, s.get_span_context().span_id) for s in batch)
            case.check(have == want, "not-once", f"spans missing {list((want - have))[:2]} surplus {list((have - want))[:2]}")
            queue = {}
            for d in got:
                queue.setdefault((d["trace"], d["id"]), []).append(d)
            for sp in batch:
                c = sp.get_span_context()
                compare(case, fmt, sp, queue[c.trace_id, c.span_id].pop(0), limit, endpoint)
            case.observe("batches")
            case.observe("spans", len(batch))
            if not batch:
                case.observe("empty_batches")
        case.check(exporter.force_flush() is not False, "flush", "force_flush reports failure")
        exporter.shutdown()
        if rng.random() < 0.5:
            exporter.shutdown()
        before = len(wire.log)
        wire.default = [200]
        result = exporter.export(wanted[0] if wanted else [])
        case.check(len(wire.log) == before, "export-after-shutdown", "a request was sent after shutdown")
        case.check(result is SpanExportResult.FAILURE, "result-after-shutdown", f"{result} after shutdown")
        case.observe("after_shutdown")
    finally:
        wire.remove()
    case.sig(fmt, limit, sorted(endpoint), [[(s.kind.name, len(s.attributes or ()), len(s.events), s.status.status_code.name) for s in b] for b in wanted])


WORKLOADS = [Workload("export", run, 4000, 120_000)]
