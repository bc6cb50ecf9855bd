import threading
from collections import Counter

from mon import gen, quiet
from mon.checks.p31 import environment
from mon.core import Workload

PROPERTY = "P36"
VENV = "pb5"
REQUIRED = [
    "shim_spans", "native_spans", "shim_in_native", "native_in_shim", "implicit_parents", "roots", "child_of_spans", "child_of_contexts", "references", "several_references", "invalid_references",
    "ignored_active_spans", "explicit_start_times", "explicit_finish_times", "tags", "logs", "timed_logs", "renamed", "baggage_items", "activated_with_baggage", "finished_on_close", "kept_on_close",
    "scope_exceptions", "span_exceptions", "closed_by_hand", "detached_spans", "extracted_parents", "invalid_extracts", "unsupported_formats", "round_trips", "active_checks", "started_active", "activated",
    "remote_active", "log_events", "invalid_parents", "only_invalid_references", "parent_and_references", "from_context_managers", "native_scopes_closed",
]
RULE = (
    "Random programs nest OpenTracing scopes (started active or activated, closing with or without finishing), native current spans and unactivated spans with any references, tags, logs and times, "
    "under a model of the stack of active spans; after every step both APIs' active span is compared with the model, at the end all finished spans are. Injected contexts are extracted again."
)
ASSUMPTIONS = [
    "scopes close in the reverse order of their activation; an explicit parent that is no context asks for a root span",
    "the reference that is the parent may be a link as well (the existing tests demand it); times are exact to a microsecond (documented)",
    "baggage items stay on their span: they are not copied to children or carriers (not implemented); the error tag is a plain attribute",
]


BAGGAGE = ["k", "K", "l", "user id", "ключ"]


class Boom(Exception):
    pass


class Model:
    def __init__(self, name, parent, links, shim):
        self.name, self.parent, self.links, self.shim = name, parent, links, shim  # parent: OTel span context or None
        self.attributes, self.events, self.status = {}, [], ("UNSET", None)
        self.start = self.end = None
        self.baggage = {}
        self.by_reference = False
        self.span = self.otel = None
        self.ended = False

    def put(self, k, v):
        if self.ended:
            return
        c = gen.clean(k, v)
        if c is not gen.BAD:
            self.attributes[k] = c


class Program:
    def __init__(self, case, shim, native):
        self.case, self.rng, self.shim, self.native = case, case.rng, shim, native
        self.stack, self.all, self.extracted, self.shape = [], [], [], []
        self.left = self.rng.choice([4, 8, 16])
        self.n = 0

    # -- the oracle of what is active

    def active(self):
        from opentelemetry import trace

        case = self.case
        top = self.stack[-1] if self.stack else None
        now = trace.get_current_span()
        want = None if top is None else top if not isinstance(top, Model) else top.otel.get_span_context()
        if want is None:
            case.check(not now.get_span_context().is_valid, "current-span", f"{now} is current although nothing is active")
        else:
            case.check(now.get_span_context() == want, "current-span", f"current span {now.get_span_context()} want {want}")
        if self.rng.random() < 0.6:
            sp, sc = self.shim.active_span, self.shim.scope_manager.active
            if want is None:
                case.check(sp is None and sc is None, "active-span", f"active span {sp} although nothing is active")
            else:
                case.check(sp is not None and sp.context.unwrap() == want, "active-span", f"OpenTracing's active span is {sp and sp.context.unwrap()} want {want}")
                case.check(sc is not None and sc.span.context.unwrap() == want, "active-scope", f"OpenTracing's active scope has {sc and sc.span}")
                if isinstance(top, Model) and top.shim:
                    for k, v in top.baggage.items():
                        case.eq(sp.get_baggage_item(k), v, "baggage-of-active", f"baggage {k!r} of the active span")
            case.observe("active_checks")

    # -- spans

    def name(self):
        self.n += 1
        return f"{self.n}-" + gen.string(self.rng)

    def active_context(self):
        if not self.stack:
            return None
        top = self.stack[-1]
        return top.otel.get_span_context() if isinstance(top, Model) else top

    def tagset(self):
        rng = self.rng
        return {rng.choice(["a", "b", "error", "http.method", "span.kind", gen.key(rng)]): gen.value(rng) for _ in range(rng.choice([0, 1, 3]))}

    def seconds(self):
        rng = self.rng
        return rng.choice([0.0, 1.5, 1600000000.123456, rng.uniform(0, 2e9), 1700000000])

    def arguments(self):
        """-> keyword arguments of a start method, the expected parent, expected links."""
        import opentracing

        from opentelemetry.shim.opentracing_shim import SpanContextShim
        from opentelemetry.trace import INVALID_SPAN_CONTEXT

        rng, case = self.rng, self.case
        kw, parent, links, tags, start = {}, self.active_context(), [], {}, None
        known = [m for m in self.all if m.shim]
        r = rng.random()
        if r < 0.2 and known:
            m = rng.choice(known)
            if rng.random() < 0.5:
                kw["child_of"] = m.span
                case.observe("child_of_spans")
            else:
                kw["child_of"] = m.span.context
                case.observe("child_of_contexts")
            parent = m.otel.get_span_context()
        elif r < 0.23:
            kw["child_of"] = SpanContextShim(INVALID_SPAN_CONTEXT) if rng.random() < 0.5 else self.shim.extract(opentracing.Format.TEXT_MAP, {})
            parent = None
            case.observe("invalid_parents")
        elif r < 0.3 and self.extracted:
            kw["child_of"] = rng.choice(self.extracted)
            parent = kw["child_of"].unwrap()
            case.observe("extracted_parents")
        elif r < 0.4:
            # nothing to refer to: as if there were no references
            n = rng.choice([0, 1, 1, 2])
            kw["references"] = [rng.choice([opentracing.child_of, opentracing.follows_from])(SpanContextShim(INVALID_SPAN_CONTEXT)) for _ in range(n)]
            if n:
                case.observe("only_invalid_references")
        elif r < 0.6 and (known or self.extracted):
            pool = [m.span.context for m in known] + self.extracted
            refs = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))]
            links = [c.unwrap() for c in refs]
            parent = links[0]
            case.observe("references")
            if len(refs) > 1:
                case.observe("several_references")
            if rng.random() < 0.3:
                refs.insert(rng.randrange(len(refs) + 1), SpanContextShim(INVALID_SPAN_CONTEXT))
                case.observe("invalid_references")
            kw["references"] = [rng.choice([opentracing.child_of, opentracing.follows_from])(c) for c in refs]
        if kw.get("child_of") and parent is not None and rng.random() < 0.2:
            # the explicit parent wins, the references become links
            refs = [rng.choice([m.span.context for m in known] + self.extracted) for _ in range(rng.choice([1, 2]))]
            links = [c.unwrap() for c in refs]
            kw["references"] = [rng.choice([opentracing.child_of, opentracing.follows_from])(c) for c in refs]
            case.observe("parent_and_references")
        if rng.random() < 0.2:
            kw["ignore_active_span"] = True
            if not kw.get("child_of") and not links:
                if parent is not None:
                    case.observe("ignored_active_spans")
                parent = None
        elif rng.random() < 0.1:
            kw["ignore_active_span"] = False
        if rng.random() < 0.4:
            tags = kw["tags"] = self.tagset()
        if rng.random() < 0.3:
            start = kw["start_time"] = self.seconds()
            case.observe("explicit_start_times")
        if parent is not None and not kw.get("child_of") and not links:
            case.observe("implicit_parents")
        return kw, parent, links, tags, start

    def start(self, how):
        name = self.name()
        kw, parent, links, tags, start = self.arguments()
        m = Model(name, parent, links, True)
        m.by_reference = bool(links) and "child_of" not in kw
        for k, v in tags.items():
            m.put(k, v)
        self.case.observe("tags", len(tags))
        m.start = start
        got = how(name, **kw)
        self.case.observe("shim_spans")
        if parent is None:
            self.case.observe("roots")
        return m, got

    def push(self, m):
        if self.stack and isinstance(self.stack[-1], Model) and self.stack[-1].shim != m.shim:
            self.case.observe("shim_in_native" if m.shim else "native_in_shim")
        self.stack.append(m)
        self.active()

    def pop(self, m):
        assert self.stack.pop() is m
        self.active()

    def data(self, m):
        import warnings

        rng, case = self.rng, self.case
        if not m.shim:
            if rng.random() < 0.5:
                k, v = gen.key(rng), gen.scalar(rng)
                m.otel.set_attribute(k, v)
                m.put(k, v)
            return
        for _ in range(rng.choice([0, 1, 2])):
            op = rng.choice(["tag", "log", "log", "name", "baggage", "log_event"])
            if op == "tag":
                for k, v in self.tagset().items():
                    case.check(m.span.set_tag(k, v) is m.span, "chaining", "set_tag does not return the span")
                    m.put(k, v)
                    case.observe("tags")
            elif op == "log":
                kv = {gen.key(rng): gen.value(rng) for _ in range(rng.choice([0, 1, 2]))}
                if rng.random() < 0.5:
                    kv["event"] = gen.string(rng)
                t = self.seconds() if rng.random() < 0.4 else None
                if t is None:
                    got = m.span.log_kv(kv)
                else:
                    got = m.span.log_kv(kv, t)
                    case.observe("timed_logs")
                case.check(got is m.span, "chaining", "log_kv does not return the span")
                if not m.ended:
                    a = {k: gen.clean(k, v) for k, v in kv.items()}
                    m.events.append((kv.get("event", "log"), {k: v for k, v in a.items() if v is not gen.BAD}, t))
                case.observe("logs")
            elif op == "log_event":
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    m.span.log_event("happened", "load")
                if not m.ended:
                    m.events.append(("happened", {"event": "happened", "payload": "load"}, None))
                case.observe("log_events")
            elif op == "name":
                new = self.name()
                case.check(m.span.set_operation_name(new) is m.span, "chaining", "set_operation_name does not return the span")
                if not m.ended:
                    m.name = new
                case.observe("renamed")
            else:
                k, v = rng.choice(BAGGAGE), rng.choice([gen.string(rng), gen.value(rng)])
                m.span.set_baggage_item(k, v)
                m.baggage[k] = v
                case.observe("baggage_items")
            for k in BAGGAGE:
                got = m.span.get_baggage_item(k)
                case.check(type(got) is type(m.baggage.get(k)) and got == m.baggage.get(k), "baggage", f"baggage {k!r} of {m.name!r}: {got!r} want {m.baggage.get(k)!r}")

    def body(self, m):
        self.data(m)
        self.steps(len(self.stack))
        self.data(m)
        if self.rng.random() < 0.12:
            raise Boom("b")

    def steps(self, depth):
        for _ in range(self.rng.choice([0, 1, 2, 3]) if depth else 5):
            if self.left <= 0 or depth > 5:
                return
            self.left -= 1
            try:
                self.step()
            except Boom:
                self.active()

    def close(self, m, finish):
        self.case.observe("finished_on_close" if finish else "kept_on_close")
        if finish:
            m.ended = True

    def failed(self, m):
        """An exception left a scope: recorded by OpenTelemetry."""
        if not m.ended:
            m.events.append(("exception", None, None))
            if m.status[0] != "OK":
                m.status = ("ERROR", "Boom: b")
        self.case.observe("scope_exceptions")

    def finish(self, m):
        """Finish a span that is still open, by hand."""
        if m.ended:
            return
        t = self.rng.choice([None, self.seconds()])
        if t is not None:
            self.case.observe("explicit_finish_times")
        m.span.finish(t) if t is not None else m.span.finish()
        m.end, m.ended = t, True

    def step(self):
        from opentelemetry.shim.opentracing_shim import ScopeShim
        from opentelemetry.trace import use_span

        rng, case = self.rng, self.case
        op = rng.choice(["start_active", "start_active", "activate", "activate", "span_with", "native_with", "native_with", "native_detached", "detached", "carry", "remote"])
        self.shape.append((op, len(self.stack)))
        if op in ("start_active", "activate"):
            finish = rng.random() < 0.6
            how = rng.random()
            if op == "start_active":
                kw = {} if finish and rng.random() < 0.5 else {"finish_on_close": finish}
                m, scope = self.start(lambda name, **k: self.shim.start_active_span(name, **k, **kw))
                m.span = scope.span
                case.observe("started_active")
            else:
                m, m.span = self.start(self.shim.start_span)
                if rng.random() < 0.4:
                    m.span.set_baggage_item("k", "before")
                    m.baggage["k"] = "before"
                    case.observe("activated_with_baggage")
                self.active()
                if how < 0.8 or m.baggage:
                    scope = self.shim.scope_manager.activate(m.span, finish)
                else:
                    # from OpenTelemetry's own context manager, as documented
                    scope = ScopeShim.from_context_manager(self.shim.scope_manager, use_span(m.span.unwrap(), end_on_exit=finish))
                    m.span = scope.span
                    case.observe("from_context_managers")
                case.observe("activated")
            case.check(scope.manager is self.shim.scope_manager and m.span.tracer is self.shim, "owner", "manager of the scope or tracer of the span")
            m.otel = m.span.unwrap()
            case.eq(scope.span.unwrap(), m.otel, "scope-span", "span of the scope")
            self.all.append(m)
            self.push(m)
            if rng.random() < 0.5:
                try:
                    with scope as got:
                        case.check(got is scope, "scope-enter", "entering a scope gives another one")
                        try:
                            self.body(m)
                        except Boom:
                            self.failed(m)
                            raise
                finally:
                    self.close(m, finish)
                    self.pop(m)
                    self.after(m, finish)
            else:
                try:
                    self.body(m)
                except Boom:
                    pass
                scope.close()
                case.observe("closed_by_hand")
                self.close(m, finish)
                self.pop(m)
                self.after(m, finish)
        elif op == "span_with":
            # finishing, but not activating
            m, m.span = self.start(self.shim.start_span)
            m.otel = m.span.unwrap()
            self.all.append(m)
            self.active()
            try:
                with m.span:
                    self.data(m)
                    self.steps(max(1, len(self.stack)))
                    if rng.random() < 0.3:
                        raise Boom("b")
            except Boom:
                if not m.ended:
                    m.put("error", True)
                    m.events.append(("error", {"event": "error", "message": "b"}, None))
                case.observe("span_exceptions")
            m.ended = True
            self.active()
        elif op == "detached":
            m, m.span = self.start(self.shim.start_span)
            m.otel = m.span.unwrap()
            self.all.append(m)
            self.data(m)
            self.active()
            if rng.random() < 0.6:
                self.finish(m)
            case.observe("detached_spans")
        elif op == "native_with":
            name = self.name()
            m = Model(name, self.active_context(), [], False)
            self.all.append(m)
            try:
                with self.native.start_as_current_span(name) as sp:
                    m.otel = sp
                    self.push(m)
                    try:
                        self.body(m)
                    except Boom:
                        self.failed(m)
                        raise
                    if self.rng.random() < 0.25:
                        # closing the scope of a span activated natively ends the span, and activates nothing else
                        self.shim.scope_manager.active.close()
                        case.check(not sp.is_recording(), "finish-on-close", f"native span {name!r} is open after its scope was closed")
                        self.active()
                        case.observe("native_scopes_closed")
            finally:
                m.ended = True
                self.pop(m)
            case.observe("native_spans")
        elif op == "native_detached":
            name = self.name()
            m = Model(name, self.active_context(), [], False)
            m.otel = self.native.start_span(name)
            m.ended = True
            self.all.append(m)
            m.otel.end()
            case.observe("native_spans")
        elif op == "remote":
            from opentelemetry import trace

            c = gen.span_context(rng, remote=True, flags=1)
            with trace.use_span(trace.NonRecordingSpan(c)):
                self.stack.append(c)
                self.active()
                try:
                    self.steps(len(self.stack))
                finally:
                    self.stack.pop()
            self.active()
            case.observe("remote_active")
        else:
            self.carry()

    def after(self, m, finish):
        self.case.eq(m.otel.is_recording(), not m.ended, "finish-on-close", f"span {m.name!r} closed with finish_on_close={finish}")
        if not m.ended and self.rng.random() < 0.7:
            self.finish(m)

    def carry(self):
        from opentracing import Format, UnsupportedFormatException

        from opentelemetry.shim.opentracing_shim import SpanContextShim

        rng, case = self.rng, self.case
        fmt = rng.choice([Format.TEXT_MAP, Format.HTTP_HEADERS])
        if rng.random() < 0.15:
            bad = rng.choice([Format.BINARY, Format.BINARY, "other", None])
            for call in (lambda: self.shim.inject(SpanContextShim(gen.span_context(rng)), bad, bytearray()), lambda: self.shim.extract(bad, bytearray())):
                try:
                    call()
                except UnsupportedFormatException:
                    case.observe("unsupported_formats")
                else:
                    case.fail("unsupported-format", f"the format {bad!r} was accepted")
        if rng.random() < 0.2:
            c = self.shim.extract(fmt, rng.choice([{}, {"traceparent": "nonsense"}, {"other": "x"}]))
            case.check(c is None or not c.unwrap().is_valid, "extract-nothing", f"a context was found in nothing: {c and c.unwrap()}")
            case.observe("invalid_extracts")
        known = [m for m in self.all if m.shim]
        if known and rng.random() < 0.6:
            sent = rng.choice(known).span.context
        else:
            sent = SpanContextShim(gen.span_context(rng))
        carrier = {}
        self.shim.inject(sent, fmt, carrier)
        got = self.shim.extract(fmt, dict(carrier)).unwrap()
        want = sent.unwrap()
        case.check(
            (got.trace_id, got.span_id, got.trace_flags & 1, dict(got.trace_state)) == (want.trace_id, want.span_id, want.trace_flags & 1, dict(want.trace_state)) and got.is_remote,
            "round-trip",
            f"injected {want}, extracted {got}",
        )
        self.active()
        self.extracted.append(SpanContextShim(got))
        case.observe("round_trips")

    def run(self):
        self.active()
        self.steps(0)
        self.active()
        for m in self.all:
            if m.shim:
                self.finish(m)


def program(case):
    from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
    from opentelemetry.sdk.trace.sampling import ALWAYS_ON
    from opentelemetry.shim.opentracing_shim import create_tracer

    quiet.silence()
    done = []

    class Keep(SpanProcessor):
        def on_end(self, span):
            done.append(span)

        def force_flush(self, timeout_millis=30000):
            return True

    provider = TracerProvider(sampler=ALWAYS_ON, shutdown_on_exit=False)
    provider.add_span_processor(Keep())
    p = Program(case, create_tracer(provider), provider.get_tracer("native"))
    errors = []

    def run():
        try:
            with environment({}):
                p.run()
        except BaseException as exc:  # noqa: BLE001
            errors.append(exc)

    t = threading.Thread(target=run)  # fresh contexts
    t.start()
    t.join()
    if errors:
        raise errors[0]
    ids = Counter(s.context.span_id for s in done)
    case.check(all(v == 1 for v in ids.values()), "ended-twice", "a span was exported twice")
    spans = {s.context.span_id: s for s in done}
    for m in p.all:
        s = spans.pop(m.otel.get_span_context().span_id, None)
        case.check(s is not None, "lost", f"span {m.name!r} did not end")
        case.eq(s.name, m.name, "name", "name")
        parent = m.parent if m.parent is not None and m.parent.is_valid else None
        got = None if s.parent is None or not s.parent.is_valid else (s.parent.trace_id, s.parent.span_id)
        case.eq(got, None if parent is None else (parent.trace_id, parent.span_id), "parent", f"parent of {m.name!r}")
        if parent is not None:
            case.eq(s.context.trace_id, parent.trace_id, "trace", f"trace of {m.name!r}")
        links = [(ln.context.trace_id, ln.context.span_id) for ln in s.links]
        want = [(c.trace_id, c.span_id) for c in m.links]
        case.check(links == want or (m.by_reference and links == want[1:]), "links", f"links of {m.name!r}: {links} want {want}")
        case.check(not any(ln.attributes for ln in s.links), "links", f"attributes on links of {m.name!r}")
        case.check(all(type(x) is int for x in (s.start_time, s.end_time, *[e.timestamp for e in s.events])), "time-type", f"{m.name!r}: times {s.start_time!r} {s.end_time!r}")
        case.check(gen.same_map_unordered(s.attributes, m.attributes), "tags", f"attributes of {m.name!r}: {dict(s.attributes)} want {m.attributes}")
        case.eq([e.name for e in s.events], [e[0] for e in m.events], "logs", f"events of {m.name!r}")
        for e, (_, a, t) in zip(s.events, m.events):
            if a is not None:
                case.check(gen.same_map_unordered(dict(e.attributes), a), "log-fields", f"{m.name!r}: {dict(e.attributes)} want {a}")
            case.check(t is None or abs(e.timestamp - t * 10**9) < 1000, "log-time", f"log of {m.name!r} at {e.timestamp} want {t}")
        case.eq((s.status.status_code.name, s.status.description), m.status, "status", f"status of {m.name!r}")
        case.check(m.start is None or abs(s.start_time - m.start * 10**9) < 1000, "start-time", f"{m.name!r} starts at {s.start_time} want {m.start}")
        case.check(m.end is None or abs(s.end_time - m.end * 10**9) < 1000, "finish-time", f"{m.name!r} ends at {s.end_time} want {m.end}")
        for what, t, x in (("start", m.start, s.start_time), ("end", m.end, s.end_time)):
            case.check(t is not None or x > 10**18, "clock", f"{what} of {m.name!r} is {x}")
    case.check(not spans, "surplus", f"{len(spans)} spans nobody started")
    case.sig(p.shape)


WORKLOADS = [Workload("program", program, 4000, 150_000)]
