import datetime
import os
import threading
import time
from collections import Counter

from mon import gen, quiet
from mon.checks import p34
from mon.checks.p31 import environment
from mon.core import Workload

PROPERTY = "P35"
VENV = "pb3"
REQUIRED = [
    "exported_spans", "empty_batches", "parents", "roots", "trace_states", "events", "links", "parent_links", "huge_integers", "sequences", "error_statuses", "service_names", "answers_failed",
    "through_processor", "kind_SERVER", "kind_CLIENT", "shim_spans", "native_spans", "shim_in_native", "native_in_shim", "manual_spans", "context_manager_spans", "child_of_span", "decorated",
    "exceptions", "remote_parents", "remote_states", "unsampled_parents", "annotations", "message_events", "other_time_zones", "statuses", "double_finishes", "threads", "several_tracers", "current_checks",
    "detached_spans",
]
RULE = (
    "The exporter gets batches made by the real SDK and bare spans through a stand-in gRPC stub which serializes the requests; they are parsed and compared field by field. Programs nest OpenCensus "
    "spans (context managers, start/end, child spans, decorators) and native spans on one or two threads under a model of the span stack; after every step both APIs' current span, at the end "
    "all finished spans are compared with the model."
)
ASSUMPTIONS = [
    "spans are nested properly (the innermost started span ends first); Span.span() is called on the current span; inside a native span OpenCensus' current span is the closest enclosing shim span",
    "status codes are the OpenTelemetry codes and sequences become their str() (the existing tests and code define that); link trace states and dropped counts are not translated",
    "the shim cannot carry kinds and links (documented)",
]


# ---------------------------------------------------------------- exporter


def attrs(rng, n=4):
    a = p34.attrs(rng, n)
    if rng.random() < 0.1:
        a["huge"] = rng.choice([2**63, -(2**63) - 1, 2**70])
    return a


def ns(ts):
    return ts.seconds * 10**9 + ts.nanos


def values(m):
    out = {}
    for k, v in m.attribute_map.items():
        kind = v.WhichOneof("value")
        out[k] = (kind, v.string_value.value if kind == "string_value" else getattr(v, kind))
    return out


def want_values(case, a):
    out = {}
    for k, v in (a or {}).items():
        if isinstance(v, bool):
            out[k] = ("bool_value", v)
        elif isinstance(v, int) and -(2**63) <= v < 2**63:
            out[k] = ("int_value", v)
        elif isinstance(v, float):
            out[k] = ("double_value", v)
        else:
            out[k] = ("string_value", str(v))
            if isinstance(v, int):
                case.observe("huge_integers")
            elif not isinstance(v, str):
                case.observe("sequences")
    return out


def same(a, b):
    return set(a) == set(b) and all(a[k][0] == b[k][0] and gen.same(a[k][1], b[k][1]) for k in a)


class Stub:
    """Stands for the collector: reads and serializes the request stream."""

    def __init__(self, answer):
        self.answer, self.got = answer, []

    def Export(self, requests):
        import grpc

        if self.answer == "refuse":
            raise grpc.RpcError()
        batch = [r.SerializeToString() for r in requests]
        self.got.append(batch)

        def responses():
            if self.answer == "fail":
                raise grpc.RpcError()
            yield from ()

        return responses()


def exporter(case):
    from opencensus.proto.agent.trace.v1.trace_service_pb2 import ExportTraceServiceRequest

    from opentelemetry.exporter.opencensus.trace_exporter import OpenCensusSpanExporter
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace.export import SpanExportResult

    rng = case.rng
    quiet.silence()
    named = rng.random() < 0.6
    r = attrs(rng, 2)
    if named:
        r["service.name"] = rng.choice(["svc", "ünï"])
        case.observe("service_names")
    resource = Resource(r)
    stub = Stub("ok")
    with environment({}):
        exp = OpenCensusSpanExporter(client=stub, host_name="host")
        service = r["service.name"] if named else Resource.create().attributes["service.name"]
    if rng.random() < 0.2:
        batches = [[s] for s in p34.spans(case, resource, exp, attrs)]
        case.observe("through_processor", len(batches))
    else:
        batches = []
        for _ in range(rng.choice([1, 2])):
            batch = p34.spans(case, resource, None, attrs)
            rng.shuffle(batch)
            stub.answer = rng.choice(["ok", "ok", "ok", "fail", "refuse"])
            result = exp.export(batch)
            case.check(result is (SpanExportResult.SUCCESS if stub.answer == "ok" else SpanExportResult.FAILURE), "result", f"{result} for answer {stub.answer}")
            if stub.answer != "ok":
                case.observe("answers_failed")
            if stub.answer != "refuse":
                batches.append(batch)
            if not batch:
                case.observe("empty_batches")
    case.eq(len(stub.got), len(batches), "posts", "exports that reached the collector")
    for batch, raw in zip(batches, stub.got):
        msgs = [ExportTraceServiceRequest.FromString(x) for x in raw]
        case.check(all(m.node.service_info.name == service and m.node.identifier.host_name == "host" for m in msgs if batch), "node", f"node {msgs[0].node if msgs else None}, service {service}")
        got = [s for m in msgs for s in m.spans]
        key = lambda s: (int.from_bytes(s.trace_id, "big"), int.from_bytes(s.span_id, "big"))  # noqa: E731
        have = Counter(key(s) for s in got)
        want = Counter((s.get_span_context().trace_id, s.get_span_context().span_id) for s in batch)
        case.check(have == want, "not-once", f"missing {list((want - have))[:2]} surplus {list((have - want))[:2]}")
        queue = {}
        for s in got:
            case.check(len(s.trace_id) == 16 and len(s.span_id) == 8 and len(s.parent_span_id) in (0, 8), "ids", "id lengths")
            queue.setdefault(key(s), []).append(s)
        for sp in batch:
            c = sp.get_span_context()
            s = queue[c.trace_id, c.span_id].pop(0)
            w = f"span {sp.name!r}"
            case.eq(s.name.value, sp.name, "name", w)
            case.eq(s.kind, {"SERVER": 1, "CLIENT": 2}.get(sp.kind.name, 0), "kind", w)
            case.observe("kind_" + sp.kind.name)
            case.eq((ns(s.start_time), ns(s.end_time)), (sp.start_time, sp.end_time), "times", w)
            case.eq(int.from_bytes(s.parent_span_id, "big"), sp.parent.span_id if sp.parent else 0, "parent", w)
            case.observe("parents" if sp.parent else "roots")
            case.eq([(e.key, e.value) for e in s.tracestate.entries], list((c.trace_state or {}).items()), "trace-state", w)
            if c.trace_state:
                case.observe("trace_states")
            case.eq((s.status.code, s.status.message), (sp.status.status_code.value, sp.status.description or ""), "status", w)
            if sp.status.status_code.name == "ERROR":
                case.observe("error_statuses")
            a, b = values(s.attributes), want_values(case, sp.attributes)
            case.check(same(a, b), "attributes", f"{w}: attributes {a} want {b}")
            case.eq(len(s.time_events.time_event), len(sp.events), "events", w)
            for x, e in zip(s.time_events.time_event, sp.events):
                case.eq((ns(x.time), x.annotation.description.value), (e.timestamp, e.name), "events", w)
                a, b = values(x.annotation.attributes), want_values(case, e.attributes)
                case.check(same(a, b), "event-attributes", f"{w}: event {e.name!r} attributes {a} want {b}")
                case.observe("events")
            case.eq(len(s.links.link), len(sp.links), "links", w)
            for x, ln in zip(s.links.link, sp.links):
                case.eq((int.from_bytes(x.trace_id, "big"), int.from_bytes(x.span_id, "big")), (ln.context.trace_id, ln.context.span_id), "links", w)
                is_parent = sp.parent is not None and (sp.parent.trace_id, sp.parent.span_id) == (ln.context.trace_id, ln.context.span_id)
                case.eq(x.type, 2 if is_parent else 0, "link-type", w)
                if is_parent:
                    case.observe("parent_links")
                a, b = values(x.attributes), want_values(case, ln.attributes)
                case.check(same(a, b), "link-attributes", f"{w}: link attributes {a} want {b}")
                case.observe("links")
            case.observe("exported_spans")
    case.sig(named, [[(s.kind.name, len(s.attributes or ()), len(s.events), len(s.links), s.status.status_code.name) for s in b] for b in batches])


# ---------------------------------------------------------------- shim

EPOCH = datetime.datetime(1970, 1, 1)


class Boom(Exception):
    pass


class Model:
    def __init__(self, name, parent, shim):
        self.name, self.parent, self.shim = name, parent, shim
        self.attributes, self.events, self.status, self.exc = {}, [], ("UNSET", None), None
        self.otel = None
        self.oc = None
        self.ended = False
        self.foreign = False  # a current span context of another process, not a span made here

    def set_status(self, code, desc):
        if self.status[0] != "OK" and not self.ended:
            self.status = (code, desc if code == "ERROR" else None)


class Program:
    def __init__(self, case, rng, otel_tracer, remote, recorded, tag):
        self.case, self.rng, self.tracer, self.remote, self.recorded, self.tag = case, rng, otel_tracer, remote, recorded, tag
        self.stack, self.all, self.shape = [], [], []
        self.oc_tracers = []
        self.left = rng.choice([4, 8, 16])
        self.n = 0

    def name(self):
        self.n += 1
        return f"{self.tag}-{self.n}-" + gen.string(self.rng)

    def oc(self):
        from opencensus.trace.samplers import AlwaysOffSampler
        from opencensus.trace.tracer import Tracer

        if not self.oc_tracers or self.rng.random() < 0.2:
            if self.oc_tracers:
                self.case.observe("several_tracers")
            self.oc_tracers.append(Tracer(span_context=self.remote, sampler=AlwaysOffSampler()) if self.remote is not None else Tracer(sampler=AlwaysOffSampler()))
        return self.rng.choice(self.oc_tracers)

    def current(self):
        """Both APIs agree with the stack."""
        from opencensus.trace import execution_context

        from opentelemetry import trace

        case = self.case
        top = self.stack[-1] if self.stack else None
        got = trace.get_current_span()
        if top is None:
            case.check(not got.get_span_context().is_valid, "current-otel", f"a span {got} is current although none is active")
        else:
            case.check(got.get_span_context() == top.otel.get_span_context(), "current-otel", f"OpenTelemetry's current span is not {top.name!r}")
        shim = next((m.oc for m in reversed(self.stack) if m.shim), None)
        for t in self.oc_tracers[-1:]:
            case.check(t.current_span() is shim, "current-oc", f"OpenCensus' current span is {t.current_span()!r}")
        if self.oc_tracers:
            got = execution_context.get_current_span()
            case.check(got is shim, "current-oc-context", f"OpenCensus' execution context has {got!r}")
        case.observe("current_checks")

    def push(self, name, shim, otel, oc=None):
        from opentelemetry import trace

        m = Model(name, self.stack[-1] if self.stack else None, shim)
        m.otel = trace.get_current_span() if otel is None else otel
        m.oc = oc
        if shim:
            self.case.eq(oc.span_id, m.otel.get_span_context().span_id, "shim-span-id", f"span_id of shim span {name!r}")
        self.all.append(m)
        if self.stack and self.stack[-1].shim != shim:
            self.case.observe("shim_in_native" if shim else "native_in_shim")
        self.case.observe("shim_spans" if shim else "native_spans")
        self.stack.append(m)
        self.current()
        return m

    def pop(self, m, exc=None):
        assert self.stack.pop() is m
        if exc is not None and not m.ended:
            m.exc = exc
            m.set_status("ERROR", f"{type(exc).__name__}: {exc}")
            self.case.observe("exceptions")
        m.ended = True
        self.current()

    def decorate(self, m):
        """Data on the innermost span, through the API it was made by."""
        from opencensus.trace.status import Status as OCStatus
        from opencensus.trace.time_event import MessageEvent

        rng, case = self.rng, self.case
        for _ in range(rng.choice([0, 1, 2])):
            op = rng.choice(["attribute", "current_attribute", "annotation", "message", "status"])
            if not m.shim:
                k, v = gen.key(rng), gen.scalar(rng)
                m.otel.set_attribute(k, v)
                m.attributes[k] = v
                continue
            if op in ("attribute", "current_attribute"):
                k, v = gen.key(rng), gen.scalar(rng)
                if op == "attribute":
                    m.oc.add_attribute(k, v)
                else:
                    self.oc().add_attribute_to_current_span(k, v)
                if not m.ended:
                    m.attributes.pop(k, None)
                    m.attributes[k] = v
            elif op == "annotation":
                d = gen.string(rng)
                a = {k: v for k, v in gen.attributes(rng, 3, none_in_seq=False).items() if k not in ("self", "description")}
                m.oc.add_annotation(d, **a)
                if not m.ended:
                    m.events.append((d, {k: tuple(v) if isinstance(v, list) else v for k, v in a.items()}, None))
                case.observe("annotations")
            elif op == "message":
                us = rng.choice([0, 1, 1672531200123456, rng.randrange(0, 2**51)])
                typ = rng.choice([None, 0, 1, 2])
                un, co = rng.choice([(None, None), (5, None), (5, 3), (None, 3), ("20", "10"), (0, 0)])
                i = rng.choice(["id", 7, 0, "0", ""])
                m.oc.add_message_event(MessageEvent(EPOCH + datetime.timedelta(microseconds=us), i, typ, un, co))
                a = {"message.event.type": {1: "SENT", 2: "RECEIVED"}.get(typ, "TYPE_UNSPECIFIED")}
                co = un if co is None else co
                if un is not None:
                    a["message.event.size.uncompressed"] = un
                if co is not None:
                    a["message.event.size.compressed"] = co
                if not m.ended:
                    m.events.append((str(i), a, us * 1000))
                case.observe("message_events")
            else:
                code, d = rng.choice([0, 0, 1, 2, 5, 13]), rng.choice([None, "why"])
                m.oc.set_status(OCStatus(code, d))
                m.set_status("OK" if code == 0 else "ERROR", d)
                case.observe("statuses")

    def body(self, m):
        self.decorate(m)
        self.steps(len(self.stack))
        self.decorate(m)
        if self.rng.random() < 0.12:
            raise Boom("b")

    def steps(self, depth):
        for _ in range(self.rng.choice([0, 1, 2, 3]) if depth else 4):
            if self.left <= 0 or depth > 5:
                return
            self.left -= 1
            try:
                self.step()
            except Boom:
                self.current()

    def step(self):
        rng, case, name = self.rng, self.case, self.name()
        op = rng.choice(["oc_with", "oc_with", "oc_manual", "oc_manual", "oc_child", "oc_decorated", "native_with", "native_with", "native_detached", "native_foreign"])
        self.shape.append((op, len(self.stack)))
        m = exc = None
        if op == "oc_child" and not (self.stack and self.stack[-1].shim):
            op = "oc_with"
        if op in ("oc_with", "oc_child"):
            make = self.stack[-1].oc.span if op == "oc_child" else rng.choice([self.oc().span, self.oc().start_span])
            case.observe("child_of_span" if op == "oc_child" else "context_manager_spans")
            try:
                with make(name) as sp:
                    m = self.push(name, True, None, sp)
                    try:
                        self.body(m)
                    except Boom as e:
                        exc = e
                        raise
            finally:
                self.pop(m, exc)
        elif op == "oc_manual":
            t = self.oc()
            sp = t.start_span(name)
            m = self.push(name, True, None, sp)
            try:
                self.body(m)
            except Boom:
                pass
            if rng.random() < 0.2:
                sp.finish()
                m.ended = True
                case.observe("double_finishes")
                self.current()
            (t if rng.random() < 0.7 else self.oc()).end_span()
            case.observe("manual_spans")
            self.pop(m)
        elif op == "oc_decorated":
            t = self.oc()

            def func(x):
                nonlocal m
                m = self.push(name, True, None, t.current_span())
                try:
                    self.body(m)
                except Boom:
                    pass
                return x

            func.__name__ = name
            case.check(t.trace_decorator()(func)(case) is case, "decorator", "a decorated function's result is lost")
            case.observe("decorated")
            self.pop(m)
        elif op == "native_with":
            try:
                with self.tracer.start_as_current_span(name) as sp:
                    m = self.push(name, False, sp)
                    try:
                        self.body(m)
                    except Boom as e:
                        exc = e
                        raise
            finally:
                self.pop(m, exc)
        elif op == "native_foreign":
            from opentelemetry import trace

            c = trace.SpanContext(rng.getrandbits(128) or 1, rng.getrandbits(64) or 1, rng.random() < 0.7, trace.TraceFlags(rng.random() < 0.7), trace.TraceState([("f", "1")]))
            try:
                with trace.use_span(trace.NonRecordingSpan(c)) as sp:
                    m = self.push(name, False, sp)
                    m.foreign = True
                    case.observe("foreign_current_spans")
                    self.steps(len(self.stack))
            finally:
                self.pop(m)
        else:
            sp = self.tracer.start_span(name)
            m = Model(name, self.stack[-1] if self.stack else None, False)
            m.otel = sp
            self.all.append(m)
            self.current()
            sp.end()
            case.observe("detached_spans")

    def run(self):
        self.current()
        self.steps(0)
        self.current()


def shim(case):
    from opencensus.trace.span_context import SpanContext as OCContext
    from opencensus.trace.trace_options import TraceOptions
    from opencensus.trace.tracestate import Tracestate

    from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
    from opentelemetry.sdk.trace.sampling import ALWAYS_ON, DEFAULT_ON
    from opentelemetry.shim.opencensus import install_shim, uninstall_shim

    rng = case.rng
    quiet.silence()
    done = []

    class Keep(SpanProcessor):
        def on_end(self, span):
            done.append(span)

        def force_flush(self, timeout_millis=30000):
            return True

    always = rng.random() < 0.7
    provider = TracerProvider(sampler=ALWAYS_ON if always else DEFAULT_ON, shutdown_on_exit=False)
    provider.add_span_processor(Keep())
    zone = rng.choice(["UTC", "UTC", "Asia/Tokyo", "America/New_York", "XYZ-5:30"])
    if zone != "UTC":
        case.observe("other_time_zones")
    old = os.environ.get("TZ")
    os.environ["TZ"] = zone
    time.tzset()
    install_shim(tracer_provider=provider)
    try:
        native = provider.get_tracer("native")
        programs = []
        two = rng.random() < 0.3
        for i in range(2 if two else 1):
            remote, sampled = None, True
            if rng.random() < 0.4:
                sampled = rng.random() < 0.6
                state = None
                if rng.random() < 0.5:
                    state = Tracestate()
                    for j in range(rng.choice([1, 2])):
                        state[f"k{j}"] = f"v{j}"
                    case.observe("remote_states")
                remote = OCContext(
                    trace_id=f"{rng.getrandbits(128) or 1:032x}", span_id=f"{rng.getrandbits(64) or 1:016x}", trace_options=TraceOptions("1" if sampled else "0"), from_header=rng.random() < 0.8, tracestate=state
                )
                case.observe("remote_parents")
                if not sampled:
                    case.observe("unsampled_parents")
            programs.append((Program(case, rng if not two else __import__("random").Random(rng.random()), native, remote, None, f"p{i}"), remote, sampled, None if remote is None else remote.tracestate))
        if two:
            errors = []

            def go(p):
                try:
                    p.run()
                except BaseException as exc:  # noqa: BLE001
                    errors.append(exc)

            ts = [threading.Thread(target=go, args=(p[0],)) for p in programs]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            case.observe("threads", 2)
            if errors:
                raise errors[0]
        else:
            # a fresh thread has fresh contexts, whatever an earlier case left behind
            errors = []

            def alone():
                try:
                    programs[0][0].run()
                except BaseException as exc:  # noqa: BLE001
                    errors.append(exc)

            t = threading.Thread(target=alone)
            t.start()
            t.join()
            if errors:
                raise errors[0]
    finally:
        uninstall_shim()
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()
    by_id = Counter(s.context.span_id for s in done)
    case.check(all(v == 1 for v in by_id.values()), "ended-twice", "a span was exported twice")
    spans = {s.context.span_id: s for s in done}
    expected = set()
    for p, remote, sampled, state in programs:
        # a native span that is outermost knows nothing of the OpenCensus parent
        for m in p.all:
            if m.foreign:
                continue
            root = m
            while root.parent is not None and not root.foreign:
                root = root.parent
            under_remote = remote is not None and root.shim
            c = m.otel.get_span_context()
            if under_remote:
                case.eq(c.trace_id, int(remote.trace_id, 16), "trace-id", f"trace of {m.name!r} under an OpenCensus parent")
                want = dict(state.items()) if state is not None else {}
                case.eq(dict(c.trace_state.items()), want, "trace-state", f"trace state of {m.name!r}")
            if root.foreign:
                f = root.otel.get_span_context()
                case.eq((c.trace_id, dict(c.trace_state)), (f.trace_id, {"f": "1"}), "foreign-parent", f"trace of {m.name!r} under a current context of another process")
                recorded = always or f.trace_flags.sampled
            else:
                recorded = always or sampled or not under_remote
            case.eq(c.trace_flags.sampled, recorded, "sampled", f"flag of {m.name!r}")
            if not recorded:
                continue
            s = spans.get(c.span_id)
            case.check(s is not None, "lost", f"span {m.name!r} did not end")
            expected.add(c.span_id)
            case.eq(s.name, m.name, "shim-name", "name")
            if m.parent is not None:
                case.check(s.parent is not None and s.parent.span_id == m.parent.otel.get_span_context().span_id and s.parent.trace_id == s.context.trace_id, "shim-parent", f"{m.name!r} is not a child of {m.parent.name!r}")
            elif m.shim and remote is not None:
                case.check(s.parent is not None and s.parent.span_id == int(remote.span_id, 16) and s.parent.is_remote == remote.from_header, "remote-parent", f"{m.name!r} has parent {s.parent}, want the OpenCensus context {remote.span_id} header {remote.from_header}")
            else:
                case.check(s.parent is None, "root", f"{m.name!r} has parent {s.parent}")
            case.check(gen.same_map_unordered(s.attributes, m.attributes), "shim-attributes", f"{m.name!r}: {dict(s.attributes)} want {m.attributes}")
            evs = list(s.events)
            if m.exc is not None:
                case.check(evs and evs[-1].name == "exception", "shim-exception", f"{m.name!r} recorded no exception")
                evs.pop()
            case.eq([e.name for e in evs], [e[0] for e in m.events], "shim-events", f"events of {m.name!r}")
            for e, (_, a, ts) in zip(evs, m.events):
                case.check(gen.same_map_unordered(dict(e.attributes), a), "shim-event-attributes", f"{m.name!r}: {dict(e.attributes)} want {a}")
                case.check(ts is None or e.timestamp == ts, "message-time", f"message event of {m.name!r} at {e.timestamp} want {ts} (zone {zone})")
            case.eq((s.status.status_code.name, s.status.description), m.status, "shim-status", f"status of {m.name!r}")
            case.eq(s.kind.name, "INTERNAL", "shim-kind", m.name)
            case.check(s.start_time <= s.end_time and (m.parent is None or m.parent.foreign or m.parent.otel.start_time <= s.start_time), "shim-times", m.name)
    case.check(set(spans) == expected, "surplus", f"{len(set(spans) - expected)} spans nobody started")
    case.sig([p[0].shape for p in programs], always, [(p[1] is None, p[2]) for p in programs], zone)


WORKLOADS = [Workload("exporter", exporter, 1500, 40_000), Workload("shim", shim, 2500, 80_000)]
