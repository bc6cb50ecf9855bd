import collections
import contextlib
import io
import json
import logging
import sys
import threading
import time
import traceback
import warnings

from mon import forked, gen, quiet
from mon.checks.p31 import environment
from mon.core import Workload

PROPERTY = "P39"
VENV = "pb5"
CASE_TIMEOUT = 300
REQUIRED = [
    "records", "below_level", "formatted_args", "object_bodies", "text_of_objects", "formatters", "custom_levels", "extras", "dropped_extras", "exceptions", "exceptions_without_traceback", "empty_exc_info",
    "in_span", "without_span", "unsampled_span", "limited_attributes", "truncated_values", "handled_records", "adapters", "encoded", "hostile_calls", "hostile_extras", "calls_after_hostile", "thread_records",
    "events", "events_with_context", "events_in_span", "events_with_timestamp", "disabled", "before_provider", "flushes",
]
RULE = (
    "Random programs log through isolated logger trees (levels, formatters, adapters, hand-made records, extras, exceptions, current spans, limits) with a plain handler before and after the one under test: "
    "each record the plain handler saw must have become exactly one log record, compared field by field with an independent reading of the call; hostile values, threads, events and late providers have their own programs."
)
ASSUMPTIONS = [
    "a call whose own formatting raises may yield no record; the message of an exception is its text or the text of its first argument; times agree to a microsecond (double precision of the source)",
    "which attributes survive a count limit is P09's business; here: the survivors are faithful and the counts add up",
]


def tree(level):
    root = logging.RootLogger(level)
    return root, logging.Manager(root)


class Tap(logging.Handler):
    """What the logging module hands to a handler in this place, and how the record looks then."""

    def __init__(self, level=0):
        super().__init__(level)
        self.seen = []

    def emit(self, record):
        self.seen.append((record, freeze(record)))


def freeze(record):
    out = {}
    for k, v in vars(record).items():
        out[k] = (v, list(v)) if isinstance(v, list) else (v, dict(v)) if isinstance(v, dict) else (v, None)
    return out


def thawed_equal(a, b, formatted):
    skip = {"message", "asctime", "exc_text"} if formatted else set()
    if set(a) - skip != set(b) - skip:
        return False
    for k in a:
        if k in skip:
            continue
        (v, c), (w, d) = a[k], b[k]
        if v is not w:
            return False
        if isinstance(c, (list, dict)) and not (len(c) == len(d) and all(x is y for x, y in zip(c.values() if isinstance(c, dict) else c, d.values() if isinstance(d, dict) else d))):
            return False
    return True


def make_provider(multi=None):
    from opentelemetry.sdk._logs import LoggerProvider, LogRecordProcessor
    from opentelemetry.sdk.resources import Resource

    class Sink(LogRecordProcessor):
        def __init__(self):
            self.got, self.flushed, self.answer = [], [], True

        def emit(self, log_data):
            self.got.append(log_data)

        def shutdown(self):
            self.flushed.append("shutdown")

        def force_flush(self, timeout_millis=30000):
            self.flushed.append(timeout_millis)
            return self.answer

    sink = Sink()
    provider = LoggerProvider(resource=Resource({"service.name": "s", "n": 7}), shutdown_on_exit=False)
    provider.add_log_record_processor(sink)
    return provider, sink


class Thing:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Fault(Exception):
    pass


def severity(levelno):
    if levelno < 10:
        return 0
    if levelno > 53:
        return 24
    base, off = divmod(levelno, 10)
    return {1: 5, 2: 9, 3: 13, 4: 17, 5: 21}[base] + min(off, 3)


def any_value(v):
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return True
    if isinstance(v, dict):
        return all(any_value(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(any_value(x) for x in v)
    return False


def make_msg(rng, case):
    """(msg, args, expected text or None when the object is the body)"""
    r = rng.random()
    text = gen.string(rng)
    if r < 0.3:
        return text, (), text
    if r < 0.55:
        n = rng.randrange(1, 4)
        args = tuple(rng.choice([lambda: rng.randrange(1000), lambda: gen.string(rng), lambda: rng.random(), lambda: Thing("thing" + gen.string(rng)), lambda: [1, "a"], lambda: None])() for _ in range(n))
        fmt = text.replace("%", "%%") + "".join(rng.choice(["-%s", " %r", "|%10s", "%.3s"]) for _ in range(n))
        case.observe("formatted_args")
        return fmt, args, fmt % args
    if r < 0.62:
        d = {"a": rng.randrange(100), "b": gen.string(rng)}
        case.observe("formatted_args")
        return "x %(a)d y %(b)s", (d,), "x %(a)d y %(b)s" % d
    if r < 0.68:  # an object as the template, with arguments
        case.observe("formatted_args")
        return rng.choice([(Thing("t %s"), (5,), "t 5"), (["%d"], (5,), "['5']"), ({"k": "%s"}, ("v",), "{'k': 'v'}")])
    if r < 0.74:
        return "100% sure", (), "100% sure"
    if r < 0.88:
        v = rng.choice(
            [lambda: rng.randrange(-5, 5), lambda: rng.random(), lambda: rng.random() < 0.5, lambda: None, lambda: b"\x00\xff", lambda: {"k": gen.string(rng), "n": [1, 2]}, lambda: [gen.string(rng), 2, None],
             lambda: ("a", 1), lambda: {}, lambda: [], lambda: {"deep": {"er": [{"x": 1}]}}]
        )()
        case.observe("object_bodies")
        return v, (), None
    v = rng.choice([lambda: Thing(gen.string(rng)), lambda: Fault("boom", 3), lambda: object, lambda: {1, 2}, lambda: [Thing("in a list")], lambda: {"k": Fault("deep")}, lambda: 1j])()
    case.observe("text_of_objects")
    return v, (), str(v)


EXTRA_KEYS = ["user", "http.method", "code.function", "exception.type", "event.name", "Ключ", "a b", "event_id", "_private", "body", "severity"]
EXTRA_KEYS += ["span", "trace_id", "span_id", "trace_flags", "otelTraceID", "context", "timestamp", "observed_timestamp", "severity_text", "severity_number", "resource", "attributes", "level", "logger", "scope"]
EXTRA_KEYS += ["id", "process_id", "thread_id", "request_id", "task", "file", "line", "function", "extra", "data", "time", "error", "exception", "stack", "msg_id", "NAME", "Message", "code.lineno_", "status"]


def make_extra(rng):
    if rng.random() < 0.35:
        return None
    out = {}
    for _ in range(rng.randrange(0, 5)):
        k = rng.choice(EXTRA_KEYS + [gen.key(rng)])
        out[k] = gen.value(rng) if rng.random() < 0.8 else rng.choice([Thing("x"), {"a": 1}, None, [1, "a"], b"ok", b"\xff", {1, 2}])
    return out


def deep(n):
    if n:
        return deep(n - 1)
    raise Fault("deep", n)


def make_exc(rng, case):
    """(exc_info argument, exception or None, has traceback)"""
    r = rng.random()
    if r < 0.5:
        return None, None, False
    if r < 0.58:
        case.observe("empty_exc_info")
        return rng.choice([(None, None, None), False, True]), None, False  # True outside of an except block
    kinds = [lambda: Fault("boom"), lambda: Fault(), lambda: Fault(7, "x"), lambda: KeyError("k"), lambda: OSError(2, "no such"), lambda: ValueError("näme\nsecond"), lambda: Fault(Thing("inner")), lambda: Fault(""), lambda: Fault(None)]
    e = rng.choice(kinds)()
    if r < 0.68:
        case.observe("exceptions_without_traceback")
        case.observe("exceptions")
        return rng.choice([e, (type(e), e, None)]), e, False
    case.observe("exceptions")
    try:
        if rng.random() < 0.3:
            try:
                deep(rng.randrange(0, 40))
            except Fault as cause:
                raise e from (cause if rng.random() < 0.5 else None)
        raise e
    except Exception as got:
        caught = got
    return rng.choice([caught, (type(caught), caught, caught.__traceback__), "raise"]), caught, True


def make_span(rng, case):
    from opentelemetry import context, trace

    r = rng.random()
    if r < 0.35:
        case.observe("without_span")
        return context.Context(), trace.SpanContext(0, 0, False, trace.TraceFlags(0))
    valid = r < 0.9
    sc = gen.span_context(rng, valid=valid)
    if valid:
        case.observe("in_span")
        if not sc.trace_flags:
            case.observe("unsampled_span")
    return trace.set_span_in_context(trace.NonRecordingSpan(sc), context.Context()), sc


LEVELS = [10, 20, 30, 40, 50, 11, 12, 13, 19, 23, 29, 33, 37, 49, 52, 53, 54, 60, 100, 9, 5, 1]


def expected_attributes(extra, where, exc, has_tb, limit):
    raw = dict(extra or {})
    raw["code.filepath"], raw["code.function"], raw["code.lineno"] = where
    if exc is not None:
        raw["exception.type"] = type(exc).__name__
        if exc.args:
            raw["exception.message"] = str(exc.args[0])
        if has_tb:
            raw["exception.stacktrace"] = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
    out = {}
    for k, v in raw.items():
        c = gen.clean(k, v, limit)
        if c is not gen.BAD:
            out[k] = c
    return out, len(raw)


def judge_attributes(case, got, dropped, want, total, count, exc, limit, **ctx):
    got = dict(got or {})
    alt = {}
    if exc is not None:
        text = str(exc)
        alt["exception.message"] = gen.clean("k", text, limit)
        for name in (type(exc).__qualname__, f"{type(exc).__module__}.{type(exc).__qualname__}"):
            alt.setdefault("exception.type", gen.clean("k", name, limit))
    for k, v in got.items():
        ok = (k in want and gen.same(v, want[k])) or (k in alt and gen.same(v, alt[k]) and (k in want or text))
        case.check(ok, "attributes", lambda: f"attribute {k!r} is {v!r} instead of {want.get(k, 'absent')!r}", got=got, want=want, **ctx)
    n = len(want) if count is None else min(len(want), count)
    required = len(want) - (1 if exc is not None and "exception.message" in want and not text else 0)
    case.check(len(got) >= min(n, required), "attributes-missing", lambda: f"attributes {sorted(set(want) - set(got))} are missing", got=got, want=want, limit=count, **ctx)
    case.check(count is None or len(got) <= count, "attribute-limit", lambda: f"{len(got)} attributes with a limit of {count}", **ctx)
    case.check(max(0, len(want) - len(got)) <= dropped <= total - len(got), "dropped-count", lambda: f"{dropped} attributes counted as dropped, {len(got)} of {len(want)} valid ones kept", **ctx)


def judge(case, call, record, data, resource, count, limit):
    ctx = dict(call=call["what"])
    rec = data.log_record
    eq = lambda got, want, mechanism: case.check(type(got) is type(want) and got == want, mechanism, lambda: f"{mechanism} is {got!r} instead of {want!r}", **ctx)  # noqa: E731
    if call["formatter"] is not None:
        copy = logging.makeLogRecord(dict(vars(record)))
        copy.exc_text = None
        eq(rec.body, call["formatter"]().format(copy), "body")
    elif call["text"] is not None:
        eq(rec.body, call["text"], "body")
    else:
        case.check(rec.body is call["msg"] or (type(rec.body) is type(call["msg"]) and repr(rec.body) == repr(call["msg"])), "body", lambda: f"body is {rec.body!r} instead of the object {call['msg']!r}", **ctx)
    eq(rec.severity_number.value, severity(call["level"]), "severity-number")
    name = record.levelname
    eq(rec.severity_text, "WARN" if name == "WARNING" else name, "severity-text")
    case.check(type(rec.timestamp) is int and abs(rec.timestamp - int(record.created * 1e9)) <= 1000, "timestamp", lambda: f"timestamp {rec.timestamp} for a record created at {record.created!r}", **ctx)
    case.check(type(rec.observed_timestamp) is int and abs(rec.observed_timestamp - call["now"]) < 300e9, "observed-timestamp", lambda: f"observed at {rec.observed_timestamp}, called at {call['now']}", **ctx)
    sc = call["span"]
    if sc.is_valid:
        case.check(rec.trace_id == sc.trace_id and rec.span_id == sc.span_id and rec.trace_flags == sc.trace_flags, "trace-context", lambda: f"ids {rec.trace_id:x} {rec.span_id:x} {rec.trace_flags}, current span is {sc}", **ctx)
    else:
        case.check((rec.trace_id or 0) in (0, sc.trace_id) and (rec.span_id or 0) in (0, sc.span_id) and (rec.trace_flags or 0) in (0, sc.trace_flags), "trace-context", lambda: f"ids {rec.trace_id} {rec.span_id} {rec.trace_flags} without a current span", **ctx)
    case.check(rec.resource == resource, "resource", lambda: f"resource is {rec.resource.attributes}", **ctx)
    eq(data.instrumentation_scope.name, record.name, "scope")
    want, total = expected_attributes(call["extra"], call["where"], call["exc"], call["has_tb"], limit)
    case.observe("extras", len(call["extra"] or {}))
    case.observe("dropped_extras", total - len(want))
    if count is not None and count < len(want):
        case.observe("limited_attributes")
    if limit is not None and any(isinstance(v, str) and len(v) == limit for v in want.values()):
        case.observe("truncated_values")
    judge_attributes(case, rec.attributes, rec.dropped_attributes, want, total, count, call["exc"], limit, **ctx)


def log_once(rng, case, logger, taps, formatter):
    """One call in any of the ways there are to make it; returns what has to come out of it."""
    from opentelemetry import context

    level = rng.choice(LEVELS) if rng.random() < 0.7 else rng.randrange(1, 61)
    msg, args, text = make_msg(rng, case)
    extra = make_extra(rng)
    exc_arg, exc, has_tb = make_exc(rng, case)
    ctx, sc = make_span(rng, case)
    kwargs = {}
    if extra is not None:
        kwargs["extra"] = extra
    if exc_arg is not None:
        kwargs["exc_info"] = exc_arg
    if rng.random() < 0.1:
        kwargs["stack_info"] = True
    call = dict(level=level, msg=msg, text=text, extra=dict(extra) if extra else None, exc=exc, has_tb=has_tb, span=sc, formatter=formatter, now=time.time_ns())
    how = rng.random()
    token = context.attach(ctx)
    try:
        if exc_arg == "raise":
            try:
                raise exc
            except Exception:
                kwargs["exc_info"] = True
                where = (__file__, "log_once", sys._getframe().f_lineno); logger.log(level, msg, *args, **kwargs)  # noqa: E702
        elif how < 0.15 and level in (10, 20, 30, 40, 50):
            fn = {10: logger.debug, 20: logger.info, 30: logger.warning, 40: logger.error, 50: logger.critical}[level]
            where = (__file__, "log_once", sys._getframe().f_lineno); fn(msg, *args, **kwargs)  # noqa: E702
        elif how < 0.25:
            adapter = logging.LoggerAdapter(logger, {"adapter": 1, "user": "adapter"})
            case.observe("adapters")
            call["extra"] = {"adapter": 1, "user": "adapter"}  # the adapter's extra replaces that of the call
            where = (__file__, "log_once", sys._getframe().f_lineno); adapter.log(level, msg, *args, **kwargs)  # noqa: E702
        elif how < 0.4:
            case.observe("handled_records")
            if isinstance(exc_arg, BaseException):
                kwargs["exc_info"] = (type(exc_arg), exc_arg, exc_arg.__traceback__)
            elif exc_arg is not None and not isinstance(exc_arg, tuple):
                kwargs["exc_info"] = None
                call["exc"], call["has_tb"] = None, False
            fields = dict(name=logger.name, msg=msg, args=args[0] if len(args) == 1 and isinstance(args[0], dict) else args, levelno=level, levelname=rng.choice([logging.getLevelName(level), "NOTICE"]), pathname="/p/x.py", lineno=rng.randrange(1000), funcName=rng.choice([None, "f"]), exc_info=kwargs.get("exc_info"), created=rng.choice([0.0, 1.5, 1700000000.123456, time.time()]))
            where = (fields["pathname"], fields["funcName"], fields["lineno"])
            fields.update(extra or {})
            record = logging.makeLogRecord(fields)
            if logger.isEnabledFor(level):
                logger.handle(record)
        else:
            where = (__file__, "log_once", sys._getframe().f_lineno); logger.log(level, msg, *args, **kwargs)  # noqa: E702
    finally:
        context.detach(token)
    call["where"] = where
    call["what"] = f"level {level} msg {msg!r} args {args!r} extra {extra!r} exc_info {exc_arg!r}"
    return call


FORMATTERS = [lambda: logging.Formatter("%(levelname)s:%(name)s:%(message)s"), lambda: logging.Formatter("{asctime} {message}", style="{"), lambda: logging.Formatter()]


def handler_case(case):
    from opentelemetry.exporter.otlp.proto.common._log_encoder import encode_logs
    from opentelemetry.sdk._logs import LoggingHandler

    rng = case.rng
    quiet.silence()
    warnings.simplefilter("ignore")
    logging.addLevelName(37, "NOTICE37")
    count = rng.choice([None] * 5 + [0, 1, 3, 4, 6, 128])
    limit = rng.choice([None] * 4 + [1, 4, 16])
    env = {}
    if count is not None:
        env["OTEL_ATTRIBUTE_COUNT_LIMIT"] = str(count)
    if limit is not None:
        env["OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT"] = str(limit)
    with environment(env):
        provider, sink = make_provider()
        root, manager = tree(rng.choice([0, 1, 10, 20]))
        root.setLevel(rng.choice([1, 10, 20]))
        hlevel = rng.choice([0, 0, 10, 20, 25, 30, 40])
        formatter = rng.choice([None, None, None] + FORMATTERS)
        handler = LoggingHandler(level=hlevel, logger_provider=provider)
        if formatter:
            handler.setFormatter(formatter())
            case.observe("formatters")
        before, after = Tap(hlevel), Tap(hlevel)
        everything = Tap()
        place = rng.choice([root, manager.getLogger("app"), manager.getLogger("app.sub")])
        for h in (everything, before, handler, after):
            place.addHandler(h)
        names = ["app.sub", "app.sub.näme", "app.sub." + (gen.string(rng).replace(".", "") or "x")]
        if rng.random() < 0.5:
            flt = lambda r: "drop" not in str(r.msg)  # noqa: E731
            for h in (before, handler, after):
                h.addFilter(flt)
        shape = []
        for _ in range(rng.choice([3, 6, 12])):
            if rng.random() < 0.1:
                hlevel = rng.choice([0, 10, 20, 30, 45])
                for h in (before, handler, after):
                    h.setLevel(hlevel)
            logger = manager.getLogger(rng.choice(names))
            if rng.random() < 0.1:
                logger.setLevel(rng.choice([0, 1, 10, 30]))
            n, seen = len(sink.got), len(before.seen)
            err = io.StringIO()
            with contextlib.redirect_stderr(err):
                call = log_once(rng, case, logger, (before, after), formatter)
            reached = len(before.seen) - seen
            case.check(len(sink.got) - n == reached, "record-count", lambda: f"a call of which the logging module handed {reached} record(s) to handlers of level {hlevel} made {len(sink.got) - n} log records", call=call["what"], stderr=err.getvalue())
            if len(everything.seen) and not reached:
                case.observe("below_level")
            if not reached:
                continue
            case.check(call["level"] >= hlevel, "level", "the plain handler saw a record below its level (harness)")
            (record, frozen), (record2, frozen2) = before.seen[-1], after.seen[-1]
            case.check(record is record2 and thawed_equal(frozen, frozen2, formatter), "caller-record-changed", lambda: f"the handler changed the record of the caller: {frozen} to {frozen2}", call=call["what"])
            judge(case, call, record, sink.got[-1], provider.resource, count, limit)
            case.observe("records")
            if call["level"] not in (10, 20, 30, 40, 50):
                case.observe("custom_levels")
            if rng.random() < 0.3:
                try:
                    encode_logs([sink.got[-1]])
                except Exception as exc:
                    case.fail("not-exportable", f"the record cannot be exported: {exc!r}", call=call["what"])
                case.observe("encoded")
            shape.append((call["level"], type(call["msg"]).__name__, call["exc"] is not None, bool(call["extra"])))
        if rng.random() < 0.3:
            handler.flush()
            case.check(sink.flushed, "flush", "flush() of the handler did not reach the processors")
            case.observe("flushes")
    case.sig(count, limit, hlevel, shape)
    case.sample(dict(count=count, limit=limit, calls=len(shape)))


class Hostile:
    def __init__(self, exc=ValueError):
        self.exc = exc

    def __str__(self):
        raise self.exc("no text")

    __repr__ = __str__


class HostileError(Exception):
    def __str__(self):
        raise ValueError("no text")

    __repr__ = __str__


class HostileSequence(collections.UserList):
    def __iter__(self):
        raise ValueError("no items")

    def __len__(self):
        raise ValueError("no length")


def hostile_case(case):
    from opentelemetry.sdk._logs import LoggingHandler

    rng = case.rng
    quiet.silence()
    warnings.simplefilter("ignore")
    with environment({}):
        provider, sink = make_provider()
        root, manager = tree(1)
        handler = LoggingHandler(level=rng.choice([0, 10]), logger_provider=provider)
        if rng.random() < 0.3:
            handler.setFormatter(rng.choice([logging.Formatter("%(nothing)s %(message)s"), logging.Formatter("%(message)s")]))
        root.addHandler(handler)
        logger = manager.getLogger("app")
        err = io.StringIO()
        shape = []
        cyclic = []
        cyclic.append(cyclic)
        for _ in range(6):
            kind = rng.choice(["args", "args2", "msg", "str-arg", "extra", "extra-key", "exc", "exc-arg", "seq-extra", "getMessage", "cyclic", "exc-type", "name"])
            n = len(sink.got)
            token = f"t{rng.randrange(10**6)}"
            call = None
            once = False
            if kind == "args":
                call = lambda: logger.info("%d and %s", "x")  # noqa: E731
            elif kind == "args2":
                call = lambda: logger.info("no placeholders", rng.randrange(5), "more")  # noqa: E731
            elif kind == "msg":
                call = lambda: logger.warning(Hostile(rng.choice([ValueError, OSError, Fault])))  # noqa: E731
            elif kind == "str-arg":
                call = lambda: logger.error("value %s", Hostile())  # noqa: E731
            elif kind == "extra":
                bad = rng.choice([Hostile(), object(), lambda: 1, HostileError(), type, {"a": Hostile()}, [Hostile()], {1: 2}])
                once = handler.formatter is None
                call = lambda: logger.info(token, extra={"bad": bad, "good": token})  # noqa: E731
            elif kind == "extra-key":
                once = handler.formatter is None
                call = lambda: logger.info(token, extra={rng.choice([1, None, ("a",), b"k", ""]): "v", "good": token})  # noqa: E731
            elif kind == "exc":
                call = lambda: logger.error("failed", exc_info=HostileError("x"))  # noqa: E731
            elif kind == "exc-arg":
                call = lambda: logger.error("failed", exc_info=Fault(Hostile()))  # noqa: E731
            elif kind == "exc-type":
                try:
                    raise HostileError(Hostile())
                except HostileError as exc:
                    e = exc
                call = lambda: logger.error("failed", exc_info=(HostileError, e, e.__traceback__))  # noqa: E731
            elif kind == "seq-extra":
                call = lambda: logger.info(token, extra={"bad": HostileSequence([1]), "good": token})  # noqa: E731
            elif kind == "getMessage":
                call = lambda: logger.info("x %s", 1, extra={"getMessage": rng.choice([1, "text"])})  # noqa: E731
            elif kind == "cyclic":
                call = lambda: logger.info(cyclic)  # noqa: E731
            elif kind == "name":
                call = lambda: logging.Logger.handle(logger, logging.makeLogRecord({"name": "app", "msg": "m", "args": (1, 2), "levelno": 20, "levelname": None}))  # noqa: E731
            with contextlib.redirect_stderr(err):
                try:
                    call()
                except Exception as exc:  # what the logging module itself lets through (RecursionError) is not provoked
                    case.fail("raised", f"a {kind!r} logging call raised {type(exc).__name__}", kind=kind)
            made = len(sink.got) - n
            case.check(made <= 1, "record-count", lambda: f"a {kind!r} call made {made} records")
            case.observe("hostile_calls")
            if once:
                case.check(made == 1, "hostile-extra-lost-record", f"a call with an {kind!r} that is no attribute value made no record", kind=kind)
                rec = sink.got[-1].log_record
                case.check(rec.body == token and rec.attributes.get("good") == token and "bad" not in rec.attributes, "hostile-extra", lambda: f"body {rec.body!r} attributes {dict(rec.attributes)}", kind=kind)
                case.observe("hostile_extras")
            if handler.formatter is None or rng.random() < 0.5:
                saved = handler.formatter
                handler.setFormatter(None)
                n = len(sink.got)
                with contextlib.redirect_stderr(err):
                    logger.info("after %s", token)
                case.check(len(sink.got) == n + 1 and sink.got[-1].log_record.body == f"after {token}", "not-working-after", f"after a {kind!r} call the next one made {len(sink.got) - n} records")
                handler.setFormatter(saved)
                case.observe("calls_after_hostile")
            shape.append(kind)
    case.sig(shape, handler.level)


def threads_case(case):
    from opentelemetry import context, trace
    from opentelemetry.sdk._logs import LoggingHandler

    rng = case.rng
    quiet.silence()
    warnings.simplefilter("ignore")
    with environment({}):
        provider, sink = make_provider()
        root, manager = tree(1)
        handlers = [LoggingHandler(logger_provider=provider) for _ in range(rng.choice([1, 1, 2]))]
        places = [root] if len(handlers) == 1 else [manager.getLogger("a"), manager.getLogger("b")]
        for p, h in zip(places, handlers):
            p.addHandler(h)
        n, per = rng.choice([2, 4, 8]), rng.choice([20, 60])
        want = {}
        errors = []
        barrier = threading.Barrier(n)

        def work(t):
            try:
                r = __import__("random").Random(f"{case.seed}/{case.index}/{t}")
                barrier.wait()
                for i in range(per):
                    ctx, sc = make_span_plain(r)
                    key = f"{t}-{i}"
                    level = r.choice([10, 20, 30, 40])
                    want[key] = (sc, level, t)
                    token = context.attach(ctx)
                    try:
                        if r.random() < 0.3:
                            try:
                                raise Fault(key)
                            except Fault:
                                manager.getLogger(r.choice("ab")).log(level, "m %s", key, extra={"key": key}, exc_info=True)
                        else:
                            manager.getLogger(r.choice("ab")).log(level, "m %s", key, extra={"key": key})
                    finally:
                        context.detach(token)
            except Exception as exc:  # noqa
                errors.append(exc)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
            [t.start() for t in ts]
            [t.join() for t in ts]
        finally:
            sys.setswitchinterval(old)
    case.check(not errors, "raised", lambda: f"a logging call raised {errors[0]!r}")
    got = collections.Counter(d.log_record.attributes.get("key") for d in sink.got)
    case.check(got == collections.Counter(want.keys()), "record-count", lambda: f"{len(want)} calls in {n} threads made {len(sink.got)} records; missing {[k for k in want if not got[k]][:5]}, repeated {[k for k in got if got[k] > 1][:5]}")
    for d in sink.got:
        rec = d.log_record
        key = rec.attributes["key"]
        sc, level, t = want[key]
        case.eq(rec.body, f"m {key}", "body", "message of a call in a thread")
        case.check((rec.trace_id, rec.span_id, rec.trace_flags) == (sc.trace_id, sc.span_id, sc.trace_flags), "trace-context", lambda: f"call {key} has ids of another context")
        case.eq(rec.severity_number.value, severity(level), "severity-number", "severity of a call in a thread")
        if "exception.message" in rec.attributes:
            case.eq(rec.attributes["exception.message"], key, "attributes", "exception of a call in a thread")
    # a thread's own records keep their order
    order = {}
    for d in sink.got:
        t, i = d.log_record.attributes["key"].split("-")
        case.check(order.get(t, -1) < int(i), "order", "records of one thread changed places")
        order[t] = int(i)
    case.observe("thread_records", len(sink.got))
    switches = sum(1 for a, b in zip(sink.got, sink.got[1:]) if a.log_record.attributes["key"].split("-")[0] != b.log_record.attributes["key"].split("-")[0])
    case.peak("thread_switches_between_records", switches)
    case.sig(n, per, switches)


def make_span_plain(r):
    from opentelemetry import context, trace

    if r.random() < 0.3:
        return context.Context(), trace.SpanContext(0, 0, False, trace.TraceFlags(0))
    sc = gen.span_context(r)
    return trace.set_span_in_context(trace.NonRecordingSpan(sc), context.Context()), sc


def events_case(case):
    from opentelemetry import context, trace
    from opentelemetry._events import Event
    from opentelemetry._logs import SeverityNumber
    from opentelemetry.sdk._events import EventLoggerProvider
    from opentelemetry.util.types import Attributes  # noqa

    rng = case.rng
    quiet.silence()
    warnings.simplefilter("ignore")
    count = rng.choice([None] * 5 + [1, 3, 128])
    limit = rng.choice([None] * 4 + [4, 16])
    env = {}
    if count is not None:
        env["OTEL_ATTRIBUTE_COUNT_LIMIT"] = str(count)
    if limit is not None:
        env["OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT"] = str(limit)
    with environment(env):
        provider, sink = make_provider()
        ep = EventLoggerProvider(logger_provider=provider)
        scope = (gen.string(rng, empty=False), rng.choice([None, "", "1.0"]), rng.choice([None, "", "https://x/1"]), rng.choice([None, {"a": 1}, {"s": ["x"]}]))
        style = rng.randrange(3)
        logger = ep.get_event_logger(*scope) if style else ep.get_event_logger(scope[0], version=scope[1], schema_url=scope[2], attributes=scope[3])
        shape = []
        for _ in range(rng.choice([2, 5])):
            name = gen.string(rng)
            attributes = {k: v for k, v in (make_extra(rng) or {}).items()} if rng.random() < 0.7 else None
            saved = dict(attributes) if attributes is not None else None
            body = rng.choice([None, gen.string(rng), {"k": [1, "x"]}, 5, b"\x00", 1.5, ["a", None], False, 0, ""])
            ts = rng.choice([None, None, 1, 1700000000000000123, 2**63])
            sev = rng.choice([None] + list(SeverityNumber))
            ctx, sc = make_span(rng, case)
            own = gen.span_context(rng) if rng.random() < 0.4 else None
            kwargs = {}
            if own is not None:
                kwargs.update(trace_id=own.trace_id, span_id=own.span_id, trace_flags=own.trace_flags)
            before = time.time_ns()
            event = Event(name, timestamp=ts, body=body, severity_number=sev, attributes=attributes, **kwargs)
            token = context.attach(ctx)
            n = len(sink.got)
            try:
                logger.emit(event)
            finally:
                context.detach(token)
            case.check(len(sink.got) == n + 1, "event-count", lambda: f"one event made {len(sink.got) - n} records")
            case.check(attributes == saved and (attributes is None or list(attributes) == list(saved)), "caller-attributes-changed", lambda: f"{saved} became {attributes}")
            data = sink.got[-1]
            rec = data.log_record
            what = dict(name=name, attributes=saved, body=body, own=own, current=sc)
            case.check(type(rec.body) is type(body) and rec.body == body, "event-body", lambda: f"body {rec.body!r} instead of {body!r}", **what)
            raw = {**(saved or {}), "event.name": name}
            want = {k: gen.clean(k, v, limit) for k, v in raw.items()}
            want = {k: v for k, v in want.items() if v is not gen.BAD}
            got = dict(rec.attributes or {})
            for k, v in got.items():
                case.check(k in want and gen.same(v, want[k]), "event-attributes", lambda: f"attribute {k!r} is {v!r} instead of {want.get(k, 'absent')!r}", **what)
            case.check(len(got) == (len(want) if count is None else min(count, len(want))), "event-attributes-missing", lambda: f"{got} instead of {want} with a limit of {count}", **what)
            if count is None or count >= len(raw):
                case.check(gen.same(got.get("event.name"), want["event.name"]), "event-name", lambda: f"event.name {got.get('event.name')!r} instead of {name!r}", **what)
            if ts is not None:
                case.eq(rec.timestamp, ts, "event-timestamp", "timestamp of the event", **what)
                case.observe("events_with_timestamp")
            else:
                case.check(abs(rec.timestamp - before) < 300e9, "event-timestamp", lambda: f"timestamp {rec.timestamp}, emitted at {before}", **what)
            exp = own or sc
            case.check((rec.trace_id or 0, rec.span_id or 0, rec.trace_flags or 0) == (exp.trace_id, exp.span_id, exp.trace_flags), "event-trace-context", lambda: f"ids {rec.trace_id} {rec.span_id} {rec.trace_flags}, want {exp}", **what)
            case.eq(rec.severity_number, sev if sev is not None else SeverityNumber.INFO, "event-severity", "severity of the event", **what)
            case.check(rec.resource == provider.resource, "event-resource", lambda: f"resource {rec.resource.attributes}", **what)
            s = data.instrumentation_scope
            case.check((s.name, s.version or "", s.schema_url or "", dict(s.attributes or {})) == (scope[0], scope[1] or "", scope[2] or "", {k: tuple(v) if isinstance(v, list) else v for k, v in (scope[3] or {}).items()}), "event-scope", lambda: f"scope {s} instead of {scope}", **what)
            case.observe("events")
            if own is not None:
                case.observe("events_with_context")
            elif sc.is_valid:
                case.observe("events_in_span")
            shape.append((type(body).__name__, ts is None, own is None, sc.is_valid, len(raw)))
        answer = rng.random() < 0.5
        sink.answer = answer
        got = ep.force_flush(rng.choice([1000, 30000]))
        case.check(bool(got) == answer and sink.flushed, "event-flush", lambda: f"force_flush gave {got!r}, the processor {answer}")
        ep.shutdown()
        case.check("shutdown" in sink.flushed, "event-shutdown", "shutdown did not reach the processor")
        case.observe("flushes")
    case.sig(count, limit, shape)


def disabled_case(case):
    """A disabled SDK, and handlers and loggers made before there is a provider."""
    from opentelemetry._events import Event
    from opentelemetry.sdk._events import EventLoggerProvider
    from opentelemetry.sdk._logs import LoggingHandler

    rng = case.rng
    quiet.silence()
    warnings.simplefilter("ignore")
    with environment({"OTEL_SDK_DISABLED": rng.choice(["true", "True", " TRUE "])}):
        provider, sink = make_provider()
        root, manager = tree(1)
        handler = LoggingHandler(logger_provider=provider)
        root.addHandler(handler)
        manager.getLogger("x").error("m %s", 1, extra={"a": 1})
        EventLoggerProvider(provider).get_event_logger("e").emit(Event("n", body=1))
        handler.flush()
        case.check(not sink.got, "disabled", "a disabled SDK made records")
        case.observe("disabled")

    early, level, text = rng.randrange(1, 4), rng.choice([10, 20, 30, 40]), gen.string(rng)
    formatted = rng.random() < 0.3

    def child():
        with environment({}):
            from opentelemetry import _logs

            err = io.StringIO()
            root, manager = tree(1)
            handler = LoggingHandler()
            if formatted:
                handler.setFormatter(logging.Formatter("%(message)s"))
            root.addHandler(handler)
            ep = EventLoggerProvider()
            el = ep.get_event_logger("e", "1")
            with contextlib.redirect_stderr(err):
                for i in range(early):
                    try:
                        manager.getLogger("x").log(level, "early %s", i)
                        el.emit(Event("early"))
                    except Exception as exc:
                        return "raised", repr(exc)
            noise = err.getvalue()
            provider, sink = make_provider()
            _logs.set_logger_provider(provider)
            manager.getLogger("x").log(level, "%s", text)
            el.emit(Event("late", body=text))
            logs = [(d.log_record.body, d.log_record.severity_number.value, d.instrumentation_scope.name, dict(d.log_record.attributes).get("event.name"), d.log_record.resource == provider.resource) for d in sink.got]
            return "ok", (noise, logs)

    kind, out = forked.call(child)[1]
    case.check(kind == "ok", "raised", f"a logging call before a provider was set raised {out}")
    case.check("Traceback" not in out[0], "early-error", lambda: f"a logging call before a provider was set failed: {out[0][-300:]}")
    case.eq([r[:4] for r in out[1]], [(text, severity(level), "x", None), (text, 9, "e", "late")], "late-provider", "records after the provider was set")
    case.check(out[1][0][4] and out[1][1][4], "late-provider-resource", "the record of a late provider has another resource")
    case.observe("before_provider")
    case.sig(early, level, text, formatted)


WORKLOADS = [
    Workload("late", disabled_case, quick=24, thorough=400, chunk=12),
    Workload("handler", handler_case, quick=1600, thorough=40000),
    Workload("hostile", hostile_case, quick=300, thorough=6000),
    Workload("threads", threads_case, quick=24, thorough=600),
    Workload("events", events_case, quick=1200, thorough=30000),
]
