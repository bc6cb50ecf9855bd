import asyncio

from mon import gen, quiet
from mon.core import Workload

PROPERTY = "P13"
VENV = "pb5"
SCHED = False
REQUIRED = ["scopes", "exceptions", "base_exceptions", "str_failures", "decorated_sync", "decorated_async", "generators", "ended", "left_open", "status_ok_kept", "leaky_bodies", "tasks", "other_implementations"]
RULE = (
    "Random nestings of use_span, start_as_current_span (context manager, sync and async decorators, generator bodies) and 'with span', "
    "random flags, early ends, Ok statuses, leaked attaches and exceptions of many classes raised, caught or escaping at random levels; each "
    "span is compared with a scope model; distinct = program shape."
)
ASSUMPTIONS = [
    "exceptions deriving only from BaseException may be recorded or not (the code documents that use_span does not)",
    "in one workload two nested scopes enter the same span, with at most one of them recording",
]


class Custom(Exception):
    class Inner(Exception):
        pass


class NoStr(Exception):
    def __str__(self):
        raise ValueError("no str")

    __repr__ = __str__


class BadFormat(Exception):
    def __format__(self, spec):
        return "formatted"


class Unusual(Exception):
    def __str__(self):
        return "x" * 500 + "\ud800\x00é"


class FalseExc(Exception):
    def __bool__(self):
        return False

    def __eq__(self, o):
        return False

    __hash__ = None


def make_exc(rng):
    k = rng.randrange(16)
    if k == 0:
        return NoStr("x")
    if k == 1:
        return Custom.Inner("inner")
    if k == 2:
        return StopIteration(3)
    if k == 3:
        return StopAsyncIteration()
    if k == 4:
        return KeyError("k")
    if k == 5:
        return Unusual()
    if k == 6:
        return ExceptionGroup("eg", [ValueError("a"), NoStr()])
    if k == 7:
        e = RuntimeError("outer")
        e.__cause__ = ValueError("cause")
        return e
    if k == 8:
        return FalseExc("false")
    if k == 9:
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad")
    if k == 10:
        return rng.choice([KeyboardInterrupt(), SystemExit(3), GeneratorExit(), asyncio.CancelledError()])
    if k == 11:
        return RuntimeError("generator raised StopIteration")
    if k == 12:
        return OSError(2, "No such file")
    if k == 13:
        return Custom()
    return ValueError(gen.string(rng))


def safe_str(e):
    try:
        return str(e)
    except Exception:
        return None


class Prog:
    def __init__(self, case):
        from opentelemetry.sdk.resources import Resource
        from opentelemetry.sdk.trace import SpanProcessor, TracerProvider

        self.case, self.rng = case, case.rng
        self.ends = []
        prog = self

        class P(SpanProcessor):
            def on_end(self, span):
                prog.ends.append(span)

        from opentelemetry.sdk.trace.sampling import ALWAYS_ON

        prov = TracerProvider(sampler=ALWAYS_ON, resource=Resource({}), shutdown_on_exit=False)
        prov.add_span_processor(P())
        self.tr = prov.get_tracer("m")
        self.n = 0
        self.models = []
        self.shape = []

    def fail(self, mech, msg):
        self.case.fail(mech, msg + " | " + " ".join(self.shape))

    def flags(self):
        rng = self.rng
        return dict(record_exception=rng.random() < 0.7, set_status_on_exception=rng.random() < 0.7, end_on_exit=rng.random() < 0.75)

    def name(self):
        self.n += 1
        return f"s{self.n}"


class Model:
    def __init__(self, span, kind, flags):
        self.span, self.kind, self.flags = span, kind, flags
        self.ok = False
        self.err = False
        self.user_events = 0
        self.ended_inside = False
        self.escaped = None
        self.done = False


def inside(p, m):
    """What a body does with its own span."""
    from opentelemetry import context as ctxapi
    from opentelemetry import trace
    from opentelemetry.trace import Status, StatusCode

    rng, case = p.rng, p.case
    if trace.get_current_span() is not m.span and m.kind != "with":
        p.fail("not-current", f"{m.kind}: current span inside is {trace.get_current_span()}")
    if rng.random() < 0.3:
        m.span.add_event("user")
        m.user_events += 1
    if rng.random() < 0.12:
        m.span.set_status(Status(StatusCode.OK))
        m.ok = True
    elif rng.random() < 0.1:
        m.span.set_status(Status(StatusCode.ERROR, "mine"))
        m.err = not m.ok
    if rng.random() < 0.08:
        m.span.end()
        m.ended_inside = True
    if m.kind != "with" and rng.random() < 0.12:
        ctxapi.attach(ctxapi.set_value("leak", object()))
        case.observe("leaky_bodies")


def maybe_raise(p):
    if p.rng.random() < 0.35:
        exc = make_exc(p.rng)
        if isinstance(exc, StopIteration):  # changes identity in generators; see identity()
            exc = ValueError("v")
        p.shape.append("raise:" + type(exc).__name__)
        raise_here(exc)


def raise_here(exc):
    raise exc


def verify(p, m, before, exc):
    """After a scope was left with `exc` (None when normally)."""
    from opentelemetry import context as ctxapi
    from opentelemetry.trace import StatusCode

    case = p.case
    m.done = True
    m.escaped = exc
    case.observe("scopes")
    if ctxapi.get_current() is not before:
        p.fail("context-not-restored", f"{m.kind}: context after the scope is {ctxapi.get_current()} want {before}")
    span, f = m.span, m.flags
    ends = sum(1 for e in p.ends if e.context.span_id == span.context.span_id)
    should_end = m.ended_inside or f["end_on_exit"]
    if ends != (1 if should_end else 0):
        p.fail("end", f"{m.kind} end_on_exit={f['end_on_exit']} ended_inside={m.ended_inside} exception={type(exc).__name__}: ended {ends} times")
    case.observe("ended" if should_end else "left_open")
    ro = next((e for e in p.ends if e.context.span_id == span.context.span_id), span)
    evs = [e for e in ro.events if e.name == "exception"]
    users = [e for e in ro.events if e.name != "exception"]
    if len(users) != m.user_events:
        p.fail("events", f"{m.kind}: user events {len(users)} want {m.user_events}")
    code = ro.status.status_code
    base = StatusCode.OK if m.ok else StatusCode.ERROR if m.err else StatusCode.UNSET
    if exc is None or m.ended_inside:
        if evs:
            p.fail("spurious-exception", f"{m.kind}: {len(evs)} exception events, exception={exc!r}")
        if code is not base:
            p.fail("status", f"{m.kind}: status {code} want {base} without escaping exception")
        return
    if not isinstance(exc, Exception):
        case.observe("base_exceptions")
        if len(evs) > (1 if f["record_exception"] else 0):
            p.fail("exception-events", f"{m.kind}: {len(evs)} events for {type(exc).__name__}")
        if m.ok and code is not StatusCode.OK or code not in (base, StatusCode.ERROR):
            p.fail("status", f"{m.kind}: {code}")
        return
    case.observe("exceptions")
    want = 1 if f["record_exception"] else 0
    if len(evs) != want:
        p.fail("exception-events", f"{m.kind} record_exception={f['record_exception']}: {len(evs)} exception events for {type(exc).__name__}")
    msg = safe_str(exc)
    if msg is None:
        case.observe("str_failures")
    if want:
        a = evs[0].attributes
        t = type(exc)
        types = {t.__qualname__ if t.__module__ == "builtins" else f"{t.__module__}.{t.__qualname__}"}
        if a.get("exception.type") not in types:
            p.fail("exception-type", f"{a.get('exception.type')} want {types}")
        if msg is not None and a.get("exception.message") != msg or not isinstance(a.get("exception.message"), str):
            p.fail("exception-message", f"{a.get('exception.message')!r} want {msg!r}")
        st = a.get("exception.stacktrace")
        if not isinstance(st, str) or "raise_here" not in st or t.__qualname__.rsplit(".")[-1] not in st or "Traceback" not in st:
            p.fail("exception-stacktrace", f"{st!r}")
    if m.ok:
        case.observe("status_ok_kept")
        if code is not StatusCode.OK:
            p.fail("status", f"{m.kind}: Ok was overwritten with {code}")
    elif f["set_status_on_exception"]:
        if code is not StatusCode.ERROR:
            p.fail("status", f"{m.kind}: status {code} after {type(exc).__name__}")
        d = ro.status.description
        if not isinstance(d, str) or type(exc).__name__ not in d or (msg is not None and msg not in d):
            p.fail("status-description", f"{d!r} for {exc!r}")
    elif code is not base:
        p.fail("status", f"{m.kind}: status {code} want {base} (set_status_on_exception off)")


def scope(p, depth):
    """One random scope; may raise."""
    from opentelemetry import context as ctxapi
    from opentelemetry import trace

    rng = p.rng
    kind = rng.choice(["use", "use", "sacs", "sacs", "deco", "with", "gen", "nonrec"])
    before = ctxapi.get_current()
    f = p.flags()
    m = None
    p.shape.append(f"{kind}(")

    def body(sp):
        nonlocal m
        m = Model(sp, kind, f)
        p.models.append(m)
        inside(p, m)
        if depth < 4:
            for _ in range(rng.randrange(0, 3)):
                guarded(p, depth + 1)
        maybe_raise(p)

    exc = None
    try:
        if kind == "use":
            sp = p.tr.start_span(p.name())
            with trace.use_span(sp, **f) as got:
                if got is not sp:
                    p.fail("not-current", "use_span yields another span")
                body(sp)
        elif kind == "nonrec":
            # a non-recording span: nothing recorded, still current
            sp = trace.NonRecordingSpan(gen.span_context(rng))
            with trace.use_span(sp, **f):
                if trace.get_current_span() is not sp:
                    p.fail("not-current", "non-recording span is not current")
                if depth < 4:
                    guarded(p, depth + 1)
                maybe_raise(p)
        elif kind == "sacs":
            with p.tr.start_as_current_span(p.name(), **f) as sp:
                body(sp)
        elif kind == "with":
            f["end_on_exit"] = True
            sp = p.tr.start_span(p.name(), record_exception=f["record_exception"], set_status_on_exception=f["set_status_on_exception"])
            with sp as got:
                body(got)
        elif kind == "deco":
            p.case.observe("decorated_sync")

            @p.tr.start_as_current_span(p.name(), **f)
            def fn(x, y=2):
                if (x, y) != (1, 5):
                    p.fail("decorator", "arguments changed")
                body(trace.get_current_span())
                return "result"

            if fn.__name__ != "fn":
                p.fail("decorator", "name lost")
            r = fn(1, y=5)
            if r != "result":
                p.fail("decorator", "result lost")
        else:
            p.case.observe("generators")
            mode = rng.choice(["exhaust", "close", "throw"])

            def g():
                with p.tr.start_as_current_span(p.name(), **f) as sp:
                    body(sp)
                    yield 1

            it = g()
            try:
                next(it)
                if mode == "exhaust":
                    for _ in it:
                        pass
                elif mode == "close":
                    it.close()
                    exc = "closed"
                else:
                    e = make_exc(rng)
                    if isinstance(e, StopIteration):
                        e = ValueError("v")
                    p.shape.append("throw:" + type(e).__name__)
                    try:
                        raise_here(e)
                    except BaseException as e2:  # noqa
                        it.throw(e2)
                        p.fail("swallowed", "exception thrown into the generator was lost")
            except StopIteration:
                raise
    except BaseException as e:  # noqa
        exc = e
        from mon.core import Violation

        if isinstance(e, Violation):
            raise
    p.shape.append(")")
    real = exc
    if kind == "gen" and exc == "closed":
        real = GeneratorExit()
        exc = None
    if kind == "gen" and isinstance(exc, GeneratorExit):
        real = exc
    if m is not None:
        verify(p, m, before, real)
    elif ctxapi.get_current() is not before:
        p.fail("context-not-restored", f"{kind}: context after the scope")
    if exc is not None:
        raise exc


def guarded(p, depth):
    """A nested scope whose exception is caught here or keeps escaping."""
    from mon.core import Violation

    try:
        scope(p, depth)
    except Violation:
        raise
    except BaseException:  # noqa
        if p.rng.random() < 0.5:
            p.shape.append("escape")
            raise
        p.shape.append("caught")


def identity(case):
    """The exception that leaves a scope is the one that was raised."""
    from opentelemetry import context as ctxapi
    from opentelemetry import trace
    from mon.core import Violation

    rng = case.rng
    p = Prog(case)
    exc = make_exc(rng)
    kinds = [rng.choice(["use", "sacs", "with", "deco"]) for _ in range(rng.randrange(1, 4))]

    def run(ks):
        if not ks:
            raise_here(exc)
        k, rest = ks[0], ks[1:]
        f = p.flags()
        if k == "use":
            with trace.use_span(p.tr.start_span("x"), **f):
                run(rest)
        elif k == "sacs":
            with p.tr.start_as_current_span("x", **f):
                run(rest)
        elif k == "with":
            with p.tr.start_span("x"):
                run(rest)
        else:
            p.tr.start_as_current_span("x", **f)(run)(rest)

    before = ctxapi.get_current()
    cause, context = exc.__cause__, exc.__context__
    try:
        run(kinds)
    except Violation:
        raise
    except BaseException as e:  # noqa
        case.check(e is exc, "exception-replaced", f"{type(exc).__name__} became {type(e).__name__}: {safe_str(e)} through {kinds}")
        case.check(e.__cause__ is cause, "exception-changed", "cause changed")
    else:
        case.fail("swallowed", f"{type(exc).__name__} lost in {kinds}")
    case.check(ctxapi.get_current() is before, "context-not-restored", str(kinds))
    case.sig("identity", kinds, type(exc).__name__)


def program(case):
    from mon.core import Violation

    quiet.silence()
    p = Prog(case)
    for _ in range(case.rng.randrange(1, 4)):
        try:
            scope(p, 0)
        except Violation:
            raise
        except BaseException:  # noqa
            pass
    # spans left open can still be ended by the owner, with nothing added
    for m in p.models:
        m.span.end()
    ids = [e.context.span_id for e in p.ends]
    case.check(len(ids) == len(set(ids)), "double-end", "a span was ended twice")
    case.sig(tuple(p.shape))
    case.sample(p.shape)


def asynchronous(case):
    """Decorated coroutines and tasks: one span per call, ended after the body, concurrent calls separate."""
    from opentelemetry import context as ctxapi
    from opentelemetry import trace

    rng = case.rng
    quiet.silence()
    p = Prog(case)
    f = p.flags()
    seen = {}

    @p.tr.start_as_current_span("co", **f)
    async def co(i, exc, steps):
        sp = trace.get_current_span()
        m = seen[i] = Model(sp, "async", f)
        case.check(sp.is_recording(), "not-current", "no recording span in the coroutine")
        case.check(all(o.span is not sp for k, o in seen.items() if k != i), "shared-span", "two calls share a span")
        for _ in range(steps):
            await asyncio.sleep(0)
            case.check(trace.get_current_span() is sp, "not-current", f"call {i} lost its span after an await")
            case.check(not any(e.context.span_id == sp.context.span_id for e in p.ends), "ended-early", "span ended before the coroutine finished")
        if exc is not None:
            raise_here(exc)
        return i

    async def one(i):
        exc = make_exc(rng) if rng.random() < 0.4 else None
        if isinstance(exc, (KeyboardInterrupt, SystemExit, StopIteration, asyncio.CancelledError, GeneratorExit)):
            exc = ValueError("v")
        before = ctxapi.get_current()
        cancel = rng.random() < 0.2
        got = None
        steps = rng.randrange(0, 4)
        try:
            if cancel:
                t = asyncio.ensure_future(co(i, None, 50))
                for _ in range(rng.randrange(1, 4)):
                    await asyncio.sleep(0)
                t.cancel()
                await t
            else:
                r = await co(i, exc, steps)
                case.check(r == i, "decorator", "result lost")
        except (Exception, asyncio.CancelledError) as e:
            from mon.core import Violation

            if isinstance(e, Violation):
                raise
            got = e
            if not cancel:
                case.check(e is exc, "exception-replaced", f"{type(exc).__name__} became {type(e).__name__}")
        case.check(cancel or (got is not None) == (exc is not None), "swallowed", "exception lost")
        case.check(ctxapi.get_current() is before, "context-not-restored", "after await")
        if i in seen:
            verify(p, seen[i], before, got)
        case.observe("decorated_async")

    async def main():
        ts = [asyncio.ensure_future(one(i)) for i in range(rng.randrange(1, 5))]
        case.observe("tasks", len(ts))
        for t in ts:
            await t

    asyncio.run(main())
    case.sig("async", sorted(f.items()), [type(m.escaped).__name__ for m in seen.values()])


def other_spans(case):
    """Spans of another implementation, and one span in two nested scopes."""
    from opentelemetry import context as ctxapi
    from opentelemetry import trace
    from opentelemetry.trace import StatusCode

    rng = case.rng
    quiet.silence()
    log = []

    class Mine(trace.Span):
        def __init__(self, rec):
            self.rec = rec

        def end(self, end_time=None):
            log.append("end")

        def get_span_context(self):
            return trace.INVALID_SPAN_CONTEXT

        def set_attributes(self, attributes):
            pass

        def set_attribute(self, key, value):
            pass

        def add_event(self, name, attributes=None, timestamp=None):
            log.append("event")

        def add_link(self, context, attributes=None):
            pass

        def update_name(self, name):
            pass

        def is_recording(self):
            return self.rec

        def set_status(self, status, description=None):
            log.append(("status", status.status_code))

        def record_exception(self, exception, attributes=None, timestamp=None, escaped=False):
            log.append(("exc", exception))

    f = dict(record_exception=rng.random() < 0.6, set_status_on_exception=rng.random() < 0.6, end_on_exit=rng.random() < 0.6)
    exc = None if rng.random() < 0.3 else make_exc(rng)
    rec = rng.random() < 0.6
    sp = Mine(rec)
    before = ctxapi.get_current()
    got = None
    try:
        with trace.use_span(sp, **f):
            case.check(trace.get_current_span() is sp, "not-current", "a span of another implementation is not current")
            if exc is not None:
                raise exc
    except BaseException as e:  # noqa
        got = e
    case.check(got is exc, "exception-changed", f"{type(got).__name__} want {type(exc).__name__}")
    case.check(ctxapi.get_current() is before, "context-not-restored", "after use_span of another implementation")
    case.eq(log.count("end"), int(f["end_on_exit"]), "end", f"ends of a span with is_recording {rec}", flags=f)
    excs = [x for x in log if x[0] == "exc"]
    stat = [x for x in log if x[0] == "status"]
    if exc is None or not rec:
        case.check(not excs and not stat, "spurious-exception", f"{len(log)} calls", flags=f)
    elif isinstance(exc, Exception):
        case.check([x[1] is exc for x in excs] == [True] * f["record_exception"], "exception-events", f"{len(excs)} recorded", flags=f)
        case.check(stat == [("status", StatusCode.ERROR)] * f["set_status_on_exception"], "status", f"{stat}", flags=f)
    case.observe("other_implementations")
    # one span, two nested scopes: only the one asked to records it
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import TracerProvider
    from opentelemetry.sdk.trace.sampling import ALWAYS_ON

    span = TracerProvider(sampler=ALWAYS_ON, resource=Resource({}), shutdown_on_exit=False).get_tracer("m").start_span("s")
    inner = rng.random() < 0.5
    flag = rng.choice(["record_exception", "set_status_on_exception"])
    off = dict(record_exception=False, set_status_on_exception=False)
    e = ValueError("twice")
    try:
        with trace.use_span(span, **(off if inner else {**off, flag: True})):
            try:
                with trace.use_span(span, **({**off, flag: True} if inner else off)):
                    raise e
            finally:
                case.check(trace.get_current_span() is span, "not-current", "outer scope of the same span")
    except ValueError as x:
        case.check(x is e, "exception-changed", "same span nested")
    case.check(ctxapi.get_current() is before, "context-not-restored", "after nested scopes of one span")
    case.eq([ev.name for ev in span.events], ["exception"] if flag == "record_exception" else [], "exception-events", f"one span in two scopes, inner={inner} {flag}")
    case.eq(span.status.status_code, StatusCode.ERROR if flag != "record_exception" else StatusCode.UNSET, "status", f"one span in two scopes, inner={inner} {flag}")
    span.end()
    case.sig(rec, f, type(exc).__name__, inner, flag)


def repeated_calls(case):
    """One decorated function called again and again, recursively and from several threads."""
    import threading

    from opentelemetry import context as ctxapi
    from opentelemetry import trace

    rng = case.rng
    quiet.silence()
    p = Prog(case)
    f = p.flags()
    lock = threading.Lock()
    seen, problems = [], []

    @p.tr.start_as_current_span("fn", attributes={"a": 1}, **f)
    def fn(depth, fails):
        sp = trace.get_current_span()
        with lock:
            if any(o is sp for o, _, _ in seen):
                problems.append("two calls share a span")
            row = [sp, depth, None]
            seen.append(row)
        if not sp.is_recording() or dict(sp.attributes) != {"a": 1}:
            problems.append(f"span of the call: {sp}")
        if depth:
            try:
                fn(depth - 1, fails)
            except ValueError as e:
                row[2] = e if depth % 2 else None
                if depth % 2:
                    raise
            if trace.get_current_span() is not sp:
                problems.append("current span after the nested call")
            if p.ends and any(e.context.span_id == sp.context.span_id for e in list(p.ends)):
                problems.append("span ended before its call returned")
        elif fails:
            row[2] = ValueError("deep")
            raise row[2]
        return depth

    calls = [(rng.randrange(0, 4), rng.random() < 0.4) for _ in range(rng.randrange(2, 5))]

    def run(depth, fails):
        before = ctxapi.get_current()
        try:
            if fn(depth, fails) != depth:
                problems.append("result")
        except ValueError:
            pass
        if ctxapi.get_current() is not before:
            problems.append("context after the call")

    if rng.random() < 0.5:
        ts = [threading.Thread(target=run, args=c) for c in calls]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    else:
        for c in calls:
            run(*c)
    case.check(not problems, "repeated-calls", "; ".join(problems[:3]))
    case.eq(len(seen), sum(d + 1 for d, _ in calls), "repeated-calls", "calls that ran")
    ends = [e.context.span_id for e in p.ends]
    case.eq(sorted(ends), sorted(s.context.span_id for s, _, _ in seen) if f["end_on_exit"] else [], "end", "ended spans of repeated calls")
    for sp, depth, e in seen:
        case.eq(len([x for x in sp.events if x.name == "exception"]), int(e is not None and f["record_exception"]), "exception-events", f"call of depth {depth}")
        case.eq(sp.status.status_code is trace.StatusCode.ERROR, e is not None and f["set_status_on_exception"], "status", f"call of depth {depth}")
    case.observe("decorated_sync", len(seen))
    case.sig("calls", calls, sorted(f.items()))


WORKLOADS = [
    Workload("repeated_calls", repeated_calls, quick=800, thorough=10000),
    Workload("other_spans", other_spans, quick=1500, thorough=20000),
    Workload("program", program, quick=5000, thorough=100000),
    Workload("identity", identity, quick=2500, thorough=40000),
    Workload("async", asynchronous, quick=1500, thorough=30000),
]
