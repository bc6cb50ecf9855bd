import asyncio
import contextvars
import itertools
import logging
import threading

from mon import gen
from mon.core import Workload

PROPERTY = "P44"
VENV = "pb5"
REQUIRED = [
    "requests", "spans", "sampled_spans", "unsampled_spans", "remote_children", "local_children", "task_children", "thread_calls", "queue_links", "pass_through_calls", "log_records", "logs_of_unsampled_spans",
    "measurements", "exemplars", "baggage_checks", "baggage_values", "external_parents", "trace_states", "errors", "concurrent_requests", "mid_collections", "restarted_traces", "list_carriers", "ratio_decisions",
]
RULE = (
    "Several simulated services, each with its own providers, samplers, processors and OTLP-encoding sinks, some without SDK, serve concurrent requests that call each other through text carriers in random propagation "
    "formats, spawn local spans, tasks and threads, put messages on queues, log, count and set baggage; the decoded payloads of all services are joined and compared with the plan of the requests."
)
ASSUMPTIONS = [
    "the services live in one process; each handles a call in an empty context of its own and sees only the carrier",
    "baggage crosses a call if the formats include W3C baggage, or Jaeger and there is a span; trace state crosses if W3C trace context is the last trace format extracted",
]


class Boom(Exception):
    pass


class Node:
    """One span of the plan; the facts are filled in while it runs."""

    def __init__(self, name, service, how):
        self.name, self.service, self.how = name, service, how
        self.steps = []
        self.trace_id = self.span_id = self.sampled = None
        self.parent = None  # Node or span context the span must be a child of
        self.link = None
        self.remote = how not in ("local", "task", "fail")
        self.state = None

    @property
    def effective(self):
        return self.trace_id, self.span_id, self.sampled


class Service:
    def __init__(self, case, rng, name, sdk):
        from opentelemetry import metrics, trace
        from opentelemetry.exporter.otlp.proto.common._log_encoder import encode_logs
        from opentelemetry.exporter.otlp.proto.common.metrics_encoder import encode_metrics
        from opentelemetry.exporter.otlp.proto.common.trace_encoder import encode_spans
        from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler
        from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult, SimpleLogRecordProcessor
        from opentelemetry.sdk.metrics import Counter, Histogram, MeterProvider
        from opentelemetry.sdk.metrics.export import AggregationTemporality, InMemoryMetricReader
        from opentelemetry.sdk.resources import Resource
        from opentelemetry.sdk.trace import TracerProvider, sampling
        from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor, SpanExporter, SpanExportResult

        self.name, self.sdk = name, sdk
        self.logger = logging.Logger(name, logging.INFO)
        self.spans, self.logs, self.metrics = [], [], []
        if not sdk:
            self.tracer = trace.NoOpTracerProvider().get_tracer(name)
            meter = metrics.NoOpMeterProvider().get_meter(name)
            self.counter, self.histogram = meter.create_counter("requests"), meter.create_histogram("sizes")
            self.logger.addHandler(logging.NullHandler())
            return
        lock = threading.Lock()
        service = self

        class Spans(SpanExporter):
            def export(self, spans):
                data = encode_spans(list(spans)).SerializeToString()
                with lock:
                    service.spans.append(data)
                return SpanExportResult.SUCCESS

            def shutdown(self):
                pass

            def force_flush(self, timeout_millis=30000):
                return True

        class Logs(LogExporter):
            def export(self, batch):
                data = encode_logs(list(batch)).SerializeToString()
                with lock:
                    service.logs.append(data)
                return LogExportResult.SUCCESS

            def shutdown(self):
                pass

        resource = Resource({"service.name": name})
        self.ratio = rng.choice([0.2, 0.5, 0.8])
        self.sampling = rng.choice(["parent_on", "parent_on", "parent_on", "parent_ratio", "parent_ratio", "on", "off", "ratio"])
        sampler = {
            "parent_on": lambda: sampling.ParentBased(sampling.ALWAYS_ON),
            "parent_ratio": lambda: sampling.ParentBased(sampling.TraceIdRatioBased(self.ratio)),
            "on": lambda: sampling.ALWAYS_ON,
            "off": lambda: sampling.ALWAYS_OFF,
            "ratio": lambda: sampling.TraceIdRatioBased(self.ratio),
        }[self.sampling]()
        size = rng.choice([1, 3, 16])
        self.tp = TracerProvider(sampler=sampler, resource=resource, shutdown_on_exit=False)
        self.tp.add_span_processor(BatchSpanProcessor(Spans(), max_queue_size=4096, max_export_batch_size=size, schedule_delay_millis=rng.choice([1, 10**7])) if rng.random() < 0.6 else SimpleSpanProcessor(Spans()))
        self.lp = LoggerProvider(resource=resource, shutdown_on_exit=False)
        self.lp.add_log_record_processor(
            BatchLogRecordProcessor(Logs(), max_queue_size=4096, max_export_batch_size=size, schedule_delay_millis=rng.choice([1, 10**7])) if rng.random() < 0.6 else SimpleLogRecordProcessor(Logs())
        )
        self.logger.addHandler(LoggingHandler(logger_provider=self.lp))
        t = rng.choice([AggregationTemporality.DELTA, AggregationTemporality.DELTA, AggregationTemporality.CUMULATIVE])
        self.delta = t is AggregationTemporality.DELTA
        self.reader = InMemoryMetricReader(preferred_temporality={Counter: t, Histogram: t})
        self.mp = MeterProvider([self.reader], resource=resource, shutdown_on_exit=False)
        self.tracer = self.tp.get_tracer(name)
        meter = self.mp.get_meter(name)
        self.counter, self.histogram = meter.create_counter("requests"), meter.create_histogram("sizes")
        self.encode_metrics, self.lock = encode_metrics, lock

    def collect(self):
        if self.sdk:
            with self.lock:  # keeps the payloads in the order of their collection
                d = self.reader.get_metrics_data()
                if d is not None:
                    self.metrics.append(self.encode_metrics(d).SerializeToString())

    def decides(self, parent_sampled):
        """Must this service sample?  None: its ratio sampler may decide either way."""
        if self.sampling == "on":
            return True
        if self.sampling == "off":
            return False
        if self.sampling == "ratio":
            return None
        if parent_sampled is not None:
            return parent_sampled
        return True if self.sampling == "parent_on" else None

    def finish(self):
        if not self.sdk:
            return True
        ok = (self.tp.force_flush(), self.lp.force_flush())
        self.collect()
        self.tp.shutdown()
        self.lp.shutdown()
        self.mp.shutdown()
        return ok == (True, True)


class System:
    def __init__(self, case, wire):
        self.case, self.rng, self.wire = case, case.rng, wire
        self.uid = itertools.count(1)
        self.nodes, self.logged, self.counted, self.recorded = [], [], {}, {}
        self.problems = []
        self.seen_baggage = []

    # -- planning -----------------------------------------------------------------------------------------------------

    def plan(self, services, depth, how):
        rng, case = self.rng, self.case
        s = rng.choice(services)
        n = Node(f"n{next(self.uid)}", s, how)
        self.nodes.append(n)
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.18:
                n.steps.append(("log", f"log {next(self.uid)}"))
            elif r < 0.3:
                n.steps.append((rng.choice(["count", "record"]), next(self.uid), rng.choice([{}, {"route": "a"}])))
            elif r < 0.4:
                n.steps.append(("baggage", rng.choice(["tenant", "user.id", "exp"]), rng.choice(["a", "b c", "é%", "1,2;3", "x" * 40])))
            elif r < 0.44:
                n.steps.append(("collect",))
            elif depth <= 0 or len(self.nodes) > 60:
                n.steps.append(("log", f"log {next(self.uid)}"))
            elif r < 0.58:
                n.steps.append(("local", self.plan([s], depth - 1, rng.choice(["local", "local", "fail"]))))
            elif r < 0.68:
                n.steps.append(("tasks", [self.plan([s], 0, "task") for _ in range(rng.randint(2, 3))]))
            else:
                k = rng.choice(["call", "call", "thread", "queue"])
                n.steps.append((k, self.plan(self.services, depth - 1, k)))
        return n

    # -- running ------------------------------------------------------------------------------------------------------

    def bad(self, msg):
        self.problems.append(msg)

    def send(self, fn, caller, node, baggage):
        """A call: what the caller's current context holds goes into a carrier, the callee starts from nothing but it."""
        from opentelemetry.propagators.textmap import Getter, Setter

        wire = self.wire
        # Jaeger's baggage travels only with a span
        crosses = "baggage" in self.names or "jaeger" in self.names and bool(caller.trace_id)
        if self.lists:

            class Put(Setter):
                def set(self, carrier, key, value):
                    carrier.append((key.upper(), value))

            class Get(Getter):
                def get(self, carrier, key):
                    return [v for k, v in carrier if k == key.upper()] or None

                def keys(self, carrier):
                    return [k.lower() for k, _ in carrier]

            carrier = []
            wire.inject(carrier, setter=Put())
            extract = lambda: wire.extract(tuple(carrier), getter=Get())  # noqa: E731
        else:
            carrier = {}
            wire.inject(carrier)
            extract = lambda: wire.extract(dict(carrier))  # noqa: E731
        box = []

        def remote():
            try:
                fn(node, extract(), dict(baggage) if crosses else {})
            except BaseException as e:  # pylint: disable=broad-exception-caught
                box.append(e)

        return lambda: contextvars.Context().run(remote), box

    def serve(self, node, ctx, baggage, caller):
        from opentelemetry import baggage as api
        from opentelemetry import trace

        self.seen_baggage.append((node.name, dict(api.get_all(ctx)), dict(baggage)))
        kw = {}
        if node.how == "queue":
            link = trace.get_current_span(ctx).get_span_context()
            kw = {"links": [trace.Link(link)], "kind": trace.SpanKind.CONSUMER}
            node.link, node.parent = caller, None
            ctx = api.set_baggage("tenant", baggage["tenant"]) if "tenant" in baggage else empty()
            baggage = {"tenant": baggage["tenant"]} if "tenant" in baggage else {}
        else:
            kw = {"kind": trace.SpanKind.SERVER}
            node.parent = caller
        token = attach(ctx)
        try:
            self.span(node, baggage, kw)
        finally:
            detach(token)

    def span(self, node, baggage, kw):
        with node.service.tracer.start_as_current_span(node.name, **kw) as sp:
            self.started(node, sp)
            self.body(node, baggage)

    def started(self, node, sp):
        c = sp.get_span_context()
        node.trace_id, node.span_id, node.sampled = c.trace_id, c.span_id, bool(c.trace_flags.sampled)
        node.state = c.trace_state.to_header()

    def body(self, node, baggage):
        tokens = []
        baggage = dict(baggage)
        try:
            for i, step in enumerate(node.steps):
                if node.how == "fail" and i == len(node.steps) - 1:
                    raise Boom(node.name)
                self.step(node, step, baggage, tokens)
        finally:
            while tokens:
                detach(tokens.pop())

    def simple(self, node, step, baggage, tokens):
        from opentelemetry import baggage as api

        op, s = step[0], node.service
        if op == "log":
            s.logger.info(step[1])
            self.logged.append((node, step[1]))
        elif op == "count":
            s.counter.add(step[1], step[2])
            self.counted[step[1]] = (node, step[2])
        elif op == "record":
            s.histogram.record(step[1], step[2])
            self.recorded[step[1]] = (node, step[2])
        elif op == "baggage":
            tokens.append(attach(api.set_baggage(step[1], step[2])))
            baggage[step[1]] = step[2]
        elif op == "collect":
            s.collect()
        else:
            return False
        return True

    def step(self, node, step, baggage, tokens):
        from opentelemetry import trace

        if self.simple(node, step, baggage, tokens):
            return
        op = step[0]
        if op == "local":
            child = step[1]
            child.parent = node
            try:
                self.span(child, baggage, {})
            except Boom:
                pass
        elif op == "tasks":

            async def task(child):
                await asyncio.sleep(0)
                child.parent = node
                inner = dict(baggage)
                toks = []
                with child.service.tracer.start_as_current_span(child.name) as sp:
                    self.started(child, sp)
                    try:
                        for x in child.steps:
                            await asyncio.sleep(0)
                            self.simple(child, x, inner, toks)
                            await asyncio.sleep(0)
                    finally:
                        while toks:
                            detach(toks.pop())

            async def main():
                await asyncio.gather(*[task(c) for c in step[1]])

            asyncio.run(main())
        else:
            child = step[1]
            run, box = self.send(lambda n, c, b: self.serve(n, c, b, node), node, child, baggage)
            if op == "thread":
                t = threading.Thread(target=run)
                t.start()
                t.join()
            else:
                run()
            if box:
                raise box[0]
        c = trace.get_current_span().get_span_context()
        if (c.trace_id, c.span_id) != (node.trace_id, node.span_id):
            self.bad(f"after step {op} of {node.name} the current span is {c}")

    def request(self, node, external):
        from opentelemetry import context, trace

        def go():
            try:
                ctx = empty()
                node.parent = external
                if external is not None:
                    carrier = {}
                    self.wire.inject(carrier, context=trace.set_span_in_context(trace.NonRecordingSpan(external), context.Context()))
                    ctx = self.wire.extract(carrier)
                token = attach(ctx)
                try:
                    self.span(node, {}, {"kind": trace.SpanKind.SERVER})
                finally:
                    detach(token)
                if dict(context.get_current()):
                    self.bad(f"a context was left behind: {context.get_current()}")
            except BaseException as e:  # pylint: disable=broad-exception-caught
                self.problems.append(f"{type(e).__name__}: {e}")

        return lambda: contextvars.Context().run(go)


def empty():
    from opentelemetry.context import Context

    return Context()


def attach(ctx):
    from opentelemetry import context

    return context.attach(ctx)


def detach(token):
    from opentelemetry import context

    context.detach(token)


def attributes(kvs):
    return {k.key: getattr(k.value, k.value.WhichOneof("value")) for k in kvs}


def system(case):
    from opentelemetry import propagate, trace
    from opentelemetry.baggage.propagation import W3CBaggagePropagator
    from opentelemetry.propagators.b3 import B3MultiFormat, B3SingleFormat
    from opentelemetry.propagators.composite import CompositePropagator
    from opentelemetry.propagators.jaeger import JaegerPropagator
    from opentelemetry.proto.collector.logs.v1.logs_service_pb2 import ExportLogsServiceRequest
    from opentelemetry.proto.collector.metrics.v1.metrics_service_pb2 import ExportMetricsServiceRequest
    from opentelemetry.proto.collector.trace.v1.trace_service_pb2 import ExportTraceServiceRequest
    from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator

    rng = case.rng
    formats = {"w3c": TraceContextTextMapPropagator, "b3": B3SingleFormat, "b3multi": B3MultiFormat, "jaeger": JaegerPropagator, "baggage": W3CBaggagePropagator}
    names = rng.choice([["w3c", "baggage"], ["w3c", "baggage"], ["baggage", "w3c"], ["b3", "baggage"], ["b3multi", "baggage"], ["jaeger"], ["w3c"], rng.sample(sorted(formats), rng.randint(2, 5))])
    if set(names) == {"baggage"}:
        names = ["w3c", "baggage"]
    wire = CompositePropagator([formats[n]() for n in names])
    glob = rng.random() < 0.5
    before = propagate.get_global_textmap()
    if glob:
        propagate.set_global_textmap(wire)
    try:
        sys = System(case, propagate if glob else wire)
        sys.names = names
        sys.carries_state = [n for n in names if n != "baggage"][-1] == "w3c"
        sys.lists = rng.random() < 0.4
        concurrent = rng.randint(1, 4)
        services = [Service(case, rng, f"svc{i}", True) for i in range(rng.randint(1, 4))]
        with_sdk = list(services)
        if rng.random() < 0.5:
            services.append(Service(case, rng, "plain", False))
        sys.services = services
        roots = []
        for _ in range(concurrent):
            ext = gen.span_context(rng, remote=True, flags=rng.choice([0, 1]), state=sys.carries_state) if rng.random() < 0.4 else None
            roots.append((sys.plan(with_sdk, rng.randint(1, 4), "request"), ext))
        runs = [sys.request(n, e) for n, e in roots]
        ts = [threading.Thread(target=r) for r in runs]
        [t.start() for t in ts]
        [t.join() for t in ts]
        done = [s.finish() for s in services]
    finally:
        propagate.set_global_textmap(before)
    ctx = f"services {[(s.name, getattr(s, 'sampling', None)) for s in services]} formats {names}"
    case.check(not sys.problems, "request-failed", lambda: f"{ctx}: {sys.problems[:2]}")
    case.check(all(done), "flush", lambda: f"{ctx}: force_flush answered {done}")
    case.observe("requests", len(roots))
    if concurrent > 1:
        case.observe("concurrent_requests", concurrent)
    if sys.lists:
        case.observe("list_carriers")

    for name, got, want in sys.seen_baggage:
        case.eq(got, want, "baggage", f"{ctx}: baggage seen by {name}")
        case.observe("baggage_checks")
        case.observe("baggage_values", len(want))

    ran = [n for n in sys.nodes if n.trace_id is not None]
    by_name = {n.name: n for n in ran}
    # what the services exported, joined
    spans, logs = {}, {}
    for s in with_sdk:
        for data in s.spans:
            for rs in ExportTraceServiceRequest.FromString(data).resource_spans:
                for ss in rs.scope_spans:
                    for sp in ss.spans:
                        case.check(sp.name not in spans, "span-twice", lambda: f"{ctx}: {sp.name} was exported twice")
                        spans[sp.name] = (attributes(rs.resource.attributes)["service.name"], ss.scope.name, sp)
        for data in s.logs:
            for rl in ExportLogsServiceRequest.FromString(data).resource_logs:
                for sl in rl.scope_logs:
                    for r in sl.log_records:
                        case.check(r.body.string_value not in logs, "log-twice", lambda: f"{ctx}: {r.body.string_value} was exported twice")
                        logs[r.body.string_value] = (attributes(rl.resource.attributes)["service.name"], r)

    want_exported, ratios = set(), {}
    for n in ran:
        w = f"{ctx}: span {n.name} of {n.service.name} ({n.how})"
        p = n.parent
        pe = None if p is None else p.effective if isinstance(p, Node) else (p.trace_id, p.span_id, bool(p.trace_flags.sampled))
        if not n.service.sdk:
            # without SDK the caller's context passes through
            want = pe if pe is not None else (0, 0, False)
            case.eq(n.effective, want, "pass-through", w)
            case.observe("pass_through_calls")
            continue
        if pe is not None and pe[0] == 0:
            pe = None  # started below something without a trace
        case.observe("spans")
        if pe is not None:
            case.eq(n.trace_id, pe[0], "trace-id", w)
        else:
            case.check(n.trace_id != 0 and all(m.trace_id != n.trace_id for m in ran if m is not n and root(m) is not root(n)), "trace-mixed", lambda: f"{w}: trace id {n.trace_id:x}")
            case.observe("restarted_traces", int(n.how == "queue"))
        must = n.service.decides(None if pe is None else pe[2])
        if must is not None:
            case.eq(n.sampled, must, "sampled", w)
        else:
            # ratio samplers agree on a trace: a larger ratio keeps what a smaller one keeps
            r, (low, high) = n.service.ratio, ratios.get(n.trace_id, (0.0, 1.1))
            case.check(r > low if n.sampled else r < high, "ratio-consistent", f"{w}: sampled={n.sampled} at ratio {r}; kept at {high}, dropped at {low} in the same trace")
            ratios[n.trace_id] = (low, min(high, r)) if n.sampled else (max(low, r), high)
            case.observe("ratio_decisions")
        case.observe("sampled_spans" if n.sampled else "unsampled_spans")
        # the trace state of the request survives every hop that carries it
        first = root(n)
        if sys.carries_state and first.parent is not None and first.how == "request":
            case.eq(n.state, first.parent.trace_state.to_header(), "trace-state", w)
            case.observe("trace_states", int(bool(n.state)))
        if not n.sampled:
            continue
        want_exported.add(n.name)
        case.check(n.name in spans, "span-lost", lambda: f"{w}: not exported")
        service, scope, sp = spans[n.name]
        case.eq((service, scope), (n.service.name,) * 2, "service", w)
        case.eq((int.from_bytes(sp.trace_id, "big"), int.from_bytes(sp.span_id, "big")), (n.trace_id, n.span_id), "ids", w)
        case.eq(int.from_bytes(sp.parent_span_id, "big"), pe[1] if pe else 0, "parent", w)
        case.eq(sp.trace_state, n.state, "trace-state", w)
        crossed = pe is not None and (n.remote or passed_through(n))
        case.eq(bool(sp.flags & 0x200), crossed, "remote-flag", w)
        if pe is not None:
            if isinstance(p, Node):
                case.observe("remote_children" if n.remote else "task_children" if n.how == "task" else "local_children")
                if n.how == "thread":
                    case.observe("thread_calls")
            else:
                case.observe("external_parents")
        links = [(int.from_bytes(x.trace_id, "big"), int.from_bytes(x.span_id, "big")) for x in sp.links]
        if n.how == "queue" and n.link.effective[0]:
            case.eq(links, [n.link.effective[:2]], "link", w)
            case.observe("queue_links")
        elif n.how != "queue":
            case.eq(links, [], "link", w)
        case.eq(sp.kind, {"request": 2, "call": 2, "thread": 2, "queue": 5}.get(n.how, 1), "kind", w)
        failed = n.how == "fail"
        case.eq(([e.name for e in sp.events], sp.status.code), (["exception"], 2) if failed else ([], 0), "error", w)
        if failed:
            case.observe("errors")
    case.eq(set(spans), want_exported, "spans-exported", ctx)

    want_logs = set()
    for n, body in sys.logged:
        if not n.service.sdk:
            continue
        want_logs.add(body)
        w = f"{ctx}: {body!r} of {n.name} in {n.service.name}"
        case.check(body in logs, "log-lost", lambda: f"{w}: not exported")
        service, r = logs[body]
        case.eq(service, n.service.name, "log-service", w)
        case.eq((int.from_bytes(r.trace_id, "big"), int.from_bytes(r.span_id, "big"), r.flags & 1), (n.trace_id, n.span_id, int(n.sampled)), "log-correlation", w)
        case.observe("log_records")
        if not n.sampled:
            case.observe("logs_of_unsampled_spans")
    case.eq(set(logs), want_logs, "logs-exported", ctx)

    for s in with_sdk:
        totals = {}
        for data in s.metrics:
            for rm in ExportMetricsServiceRequest.FromString(data).resource_metrics:
                case.eq(attributes(rm.resource.attributes)["service.name"], s.name, "metric-service", ctx)
                for sm in rm.scope_metrics:
                    for m in sm.metrics:
                        hist = m.WhichOneof("data") == "histogram"
                        for pt in (m.histogram if hist else m.sum).data_points:
                            k = (m.name, tuple(sorted(attributes(pt.attributes).items())))
                            v = (pt.sum, pt.count) if hist else (pt.as_int, 1)
                            if s.delta and k in totals:
                                totals[k] = (totals[k][0] + v[0], totals[k][1] + v[1])
                            else:
                                totals[k] = v
                            for e in pt.exemplars:
                                value = e.as_int if e.WhichOneof("value") == "as_int" else int(e.as_double)
                                made = (sys.recorded if hist else sys.counted).get(value)
                                w = f"{ctx}: exemplar {value} of {m.name} in {s.name}"
                                case.check(made is not None and made[0].service is s and made[1] == attributes(pt.attributes), "exemplar-unreal", w)
                                n = made[0]
                                case.check(n.sampled, "exemplar-unsampled", lambda: f"{w} of the unsampled {n.name}")
                                case.eq((int.from_bytes(e.trace_id, "big"), int.from_bytes(e.span_id, "big")), (n.trace_id, n.span_id), "exemplar-correlation", w)
                                case.observe("exemplars")
        want = {}
        for metric, made in (("requests", sys.counted), ("sizes", sys.recorded)):
            for v, (n, a) in made.items():
                if n.service is s:
                    k = (metric, tuple(sorted(a.items())))
                    t = want.get(k, (0, 0))
                    want[k] = (t[0] + v, t[1] + 1)
                    case.observe("measurements")
        case.eq({k: v[0] if k[0] == "requests" else v for k, v in totals.items() if v[0] or k in want}, {k: v[0] if k[0] == "requests" else v for k, v in want.items()}, "measurements", f"{ctx}: {s.name}")
        case.observe("mid_collections", len(s.metrics))
    case.sig(names, [(n.name, n.how, n.service.name, n.sampled) for n in ran])


def root(n):
    while isinstance(n.parent, Node):
        n = n.parent
    return n


def passed_through(n):
    """A local span below a service without SDK: its parent is the remote caller."""
    return isinstance(n.parent, Node) and not n.parent.service.sdk


WORKLOADS = [
    Workload("system", system, quick=3000, thorough=30000, chunk=10),
]
