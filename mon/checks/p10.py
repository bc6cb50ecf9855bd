import collections
import datetime
import decimal
import threading

from mon import gen, quiet, sched
from mon.core import Workload

PROPERTY = "P10"
VENV = "pb5"
SCHED = True
REQUIRED = ["kept", "dropped_values", "dropped_keys", "truncated", "bytes_decoded", "bytes_undecodable", "warnings", "mutations_after", "concurrent_writes", "evictions"]
RULE = (
    "Random attribute maps mixing valid values with hostile keys and values (wrong types, nested and mixed sequences, bytes, huge "
    "numbers, objects whose methods raise) recorded through every public entry point and compared with an independent cleaner; the "
    "caller's containers are then mutated; plus threads writing one span's attributes under the schedule fuzzer; distinct = value shapes per target."
)
ASSUMPTIONS = ["custom Sequence classes whose own iteration raises are not generated"]


class Hostile:
    def __bool__(self):
        raise RuntimeError("no bool")

    def __eq__(self, o):
        raise RuntimeError("no eq")

    def __hash__(self):
        return 7

    def __len__(self):
        raise RuntimeError("no len")

    def __iter__(self):
        raise RuntimeError("no iter")


def bad_value(rng):
    return rng.choice(
        [
            lambda: None,
            lambda: {"a": 1},
            lambda: {1, 2},
            lambda: object(),
            lambda: 1j,
            lambda: decimal.Decimal("1.5"),
            lambda: datetime.datetime(2020, 1, 1),
            lambda: (x for x in [1, 2]),
            lambda: len,
            lambda: [1, "a"],
            lambda: [1, 1.0],
            lambda: [True, 1],
            lambda: [None, "a", 3],
            lambda: [["a"], ["b"]],
            lambda: [{"a": 1}],
            lambda: ("x", b"y", 5),
            lambda: [object()],
            lambda: Hostile(),
            lambda: [Hostile()],
            lambda: frozenset(),
            lambda: collections.OrderedDict(a=1),
            lambda: int,
            lambda: [1, None, 2.5],
            lambda: ["a", ["b"]],
            lambda: b"\xff\xfe",
            lambda: b"\xc3",
        ]
    )()


def mixed_value(rng):
    """A sequence of several types in random order; sometimes homogeneous by chance."""
    pool = rng.sample([True, 0, 1, 1.0, "a", None, b"b", b"\xff", 2.5, False, "", -3, [], {}, object()], rng.randrange(1, 4))
    seq = [rng.choice(pool) for _ in range(rng.randrange(0, 6))]
    return tuple(seq) if rng.random() < 0.3 else seq


def odd_value(rng):
    """Unusual but valid."""
    return rng.choice(
        [
            lambda: b"bytes",
            lambda: "é\u20ac".encode(),
            lambda: [b"a", b"\xff", b"c"],
            lambda: ["s", b"t"],
            lambda: [None, None],
            lambda: [],
            lambda: (),
            lambda: [b"\xff"],
            lambda: range(3),
            lambda: collections.deque(["a"]) if False else collections.UserList(["x", "y"]),
            lambda: 10**30,
            lambda: float("nan"),
            lambda: [float("inf"), 1.5],
            lambda: "z" * rng.randrange(1, 60),
            lambda: ["y" * rng.randrange(1, 30), None, "q" * 9],
            lambda: "\ud800",
        ]
    )()


BAD_KEYS = ["", None, 5, 0, 1.5, b"k", (), ("a",), frozenset(), True, False]


def make(rng):
    items = []
    for i in range(rng.randrange(0, 7)):
        r = rng.random()
        k = gen.key(rng) if rng.random() < 0.8 else gen.string(rng, empty=False)
        if rng.random() < 0.12:
            k = rng.choice(BAD_KEYS)
        v = gen.value(rng) if r < 0.45 else bad_value(rng) if r < 0.68 else mixed_value(rng) if r < 0.8 else odd_value(rng)
        items.append((k, v))
    out = {}
    for k, v in items:
        if k in out:
            continue
        out[k] = v
    return out


def expect(case, attrs, limit):
    """Reference result of recording the map `attrs` (insertion order)."""
    want = {}
    for k, v in attrs.items():
        c = gen.clean(k, v, limit)
        if c is gen.BAD:
            case.observe("dropped_values" if isinstance(k, str) and k else "dropped_keys")
            continue
        want.pop(k, None)
        want[k] = c
        case.observe("kept")
        if limit is not None and isinstance(v, str) and len(v) > limit:
            case.observe("truncated")
        if isinstance(v, bytes):
            case.observe("bytes_decoded")
    case.observe("bytes_undecodable", sum(1 for v in attrs.values() if isinstance(v, bytes) and gen.clean("k", v) is gen.BAD))
    return want


def shape(v):
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(type(x).__name__ for x in v))
    return type(v).__name__


TARGETS = ["start", "set", "sets", "event", "exception", "link_start", "link_add", "log", "resource", "tracer_scope", "meter_scope", "logger_scope", "sampler"]


def targets(case):
    from opentelemetry.sdk._logs import LoggerProvider, LogLimits, LogRecord
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import SpanLimits, SpanProcessor, TracerProvider
    from opentelemetry.sdk.trace.sampling import Decision, Sampler, SamplingResult
    from opentelemetry.trace import Link, SpanContext

    rng = case.rng
    target = TARGETS[case.index % len(TARGETS)]
    limit = rng.choice([None, None, 0, 1, 5, 8, 20])
    attrs = make(rng)
    mine = dict(attrs)
    got = None
    scope_like = target in ("resource", "tracer_scope", "meter_scope", "logger_scope")
    if scope_like:
        limit = None
    # computed before the caller mutates anything
    want = expect(case, attrs, limit)
    bad = sum(1 for k, v in attrs.items() if gen.clean(k, v, limit) is gen.BAD)
    shapes = repr([(k, shape(v)) for k, v in attrs.items()])
    with quiet.capture() as recs:
        limits = SpanLimits(max_attribute_length=limit) if limit is not None else SpanLimits(max_attribute_length=SpanLimits.UNSET)
        ended = []

        class P(SpanProcessor):
            def on_end(self, span):
                ended.append(span)

        kw = {}
        if target == "sampler":

            class S(Sampler):
                def should_sample(self, *a, **k):
                    return SamplingResult(Decision.RECORD_AND_SAMPLE, attributes=mine)

                def get_description(self):
                    return "s"

            kw["sampler"] = S()
        if target in ("start", "set", "sets", "event", "exception", "link_start", "link_add", "sampler"):
            prov = TracerProvider(resource=Resource({}), shutdown_on_exit=False, span_limits=limits, **kw)
            prov.add_span_processor(P())
            tr = prov.get_tracer("m")
            skw = {}
            if target == "start":
                skw["attributes"] = mine
            elif target == "link_start":
                skw["links"] = [Link(SpanContext(1, 2, False), mine)]
            sp = tr.start_span("s", **skw)
            if target == "set":
                for k, v in attrs.items():
                    sp.set_attribute(k, v)
            elif target == "sets":
                sp.set_attributes(mine)
            elif target == "event":
                sp.add_event("e", mine)
            elif target == "exception":
                sp.record_exception(ValueError("x"), attributes=mine)
            elif target == "link_add":
                sp.add_link(SpanContext(1, 2, False), mine)
            mutate(case, mine)
            sp.end()
            ro = ended[0]
            if target in ("event", "exception"):
                got = dict(ro.events[0].attributes)
            elif target in ("link_start", "link_add"):
                got = dict(ro.links[0].attributes)
            else:
                got = dict(ro.attributes)
        elif target == "log":
            rec = LogRecord(attributes=mine, resource=Resource({}), limits=LogLimits(max_attribute_length=limit) if limit is not None else LogLimits(max_attribute_length=LogLimits.UNSET))
            mutate(case, mine)
            got = dict(rec.attributes)
        elif target == "resource":
            r = Resource(mine)
            mutate(case, mine)
            got = dict(r.attributes)
        else:
            if target == "tracer_scope":
                prov = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
                prov.add_span_processor(P())
                t = prov.get_tracer("m", "1", attributes=mine)
                mutate(case, mine)
                t.start_span("x").end()
                got = dict(ended[0].instrumentation_scope.attributes)
            elif target == "meter_scope":
                rd = InMemoryMetricReader()
                prov = MeterProvider([rd], resource=Resource({}), shutdown_on_exit=False)
                m = prov.get_meter("m", "1", attributes=mine)
                mutate(case, mine)
                m.create_counter("c").add(1)
                got = dict(rd.get_metrics_data().resource_metrics[0].scope_metrics[0].scope.attributes)
            else:
                from opentelemetry.sdk._logs import LogRecordProcessor

                logs = []

                class LP(LogRecordProcessor):
                    def emit(self, d):
                        logs.append(d)

                    def shutdown(self):
                        pass

                    def force_flush(self, timeout_millis=30000):
                        return True

                prov = LoggerProvider(resource=Resource({}), shutdown_on_exit=False)
                prov.add_log_record_processor(LP())
                lg = prov.get_logger("m", "1", attributes=mine)
                mutate(case, mine)
                lg.emit(LogRecord(body="x", resource=Resource({})))
                got = dict(logs[0].instrumentation_scope.attributes)
    ctx = dict(target=target, limit=limit, attrs=shapes)
    if target == "exception":
        std = {"exception.type": "ValueError", "exception.message": "x"[:limit] if limit is not None else "x"}
        if limit is not None:
            std["exception.type"] = "ValueError"[:limit]
        for k, v in std.items():
            if k not in want:
                case.check(got.get(k) == v, "exception-attributes", f"{k}={got.get(k)!r}", **ctx)
        for k in ("exception.type", "exception.message", "exception.stacktrace", "exception.escaped"):
            if k not in want:
                got.pop(k, None)
    case.check(gen.same_map_unordered(got, want), "cleaning", f"recorded {got!r} want {want!r}", **ctx)
    if bad:
        warns = [r for r in recs if r.levelname == "WARNING"]
        case.check(len(warns) >= bad, "no-warning", f"{bad} attributes dropped with {len(warns)} warnings", **ctx)
        case.observe("warnings", len(warns))
    case.sig(target, limit, ctx["attrs"])
    case.sample(ctx)


def mutate(case, mine):
    """The caller reuses its containers afterwards."""
    for k, v in list(mine.items()):
        if isinstance(v, list):
            v.append("mutated")
            v.insert(0, 5)
            case.observe("mutations_after")
        elif isinstance(v, collections.UserList):
            v.append("mutated")
            case.observe("mutations_after")
    mine["mutated"] = "yes"
    for k in list(mine)[:2]:
        mine[k] = "changed"


def writers(case):
    """Threads write one span's attributes; limits, counters and values stay consistent."""
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import SpanLimits, SpanProcessor, TracerProvider

    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=100_000)
    maxlen = rng.choice([1, 2, 3, 5, 8, None])
    n = rng.randrange(2, 5)
    shared = rng.random() < 0.5
    plan = []
    use_log = rng.random() < 0.5
    for w in range(n):
        ops = []
        for i in range(rng.randrange(1, 6)):
            k = f"s{rng.randrange(4)}" if shared else f"k{w}.{i}"
            v = rng.choice([f"{w}.{i}", [f"{w}.{i}", "x"], {"bad": 1} if rng.random() < 0.3 else f"{w}.{i}"])
            ops.append((k, v))
        plan.append(ops)
    ended = []

    def main():
        class P(SpanProcessor):
            def on_end(self, span):
                ended.append(span)

        prov = TracerProvider(resource=Resource({}), shutdown_on_exit=False, span_limits=SpanLimits(max_attributes=SpanLimits.UNSET if maxlen is None else maxlen))
        prov.add_span_processor(P())
        sp = prov.get_tracer("m").start_span("s")
        if use_log:
            import types

            from opentelemetry.sdk._logs import LogLimits, LogRecord

            rec = LogRecord(body="b", resource=Resource({}), limits=LogLimits(max_attributes=LogLimits.UNSET if maxlen is None else maxlen))
            ended.append(types.SimpleNamespace(attributes=rec.attributes, get_dropped=lambda: rec.dropped_attributes))

        def go(ops):
            for k, v in ops:
                if use_log:
                    rec.attributes[k] = v
                else:
                    sp.set_attribute(k, v)

        ts = [threading.Thread(target=go, args=(ops,)) for ops in plan]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        sp.end()

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("deadlock", str(exc))
    for name, exc, tb in s.thread_exceptions:
        case.fail("raised", f"{name}: {exc}", tb=tb)
    ro = ended[0]
    if use_log:
        ro.dropped_attributes = ro.get_dropped()
    got = dict(ro.attributes)
    ctx = dict(plan=plan, maxlen=maxlen, held=got)
    valid = [(k, v) for ops in plan for k, v in ops if not isinstance(v, dict)]
    keys = {k for k, _ in valid}
    offered = {}
    for k, v in valid:
        offered.setdefault(k, set()).add(tuple(v) if isinstance(v, list) else v)
    for k, v in got.items():
        case.check(k in offered and v in offered[k], "foreign-value", f"{k}={v!r} was never recorded", **ctx)
    if maxlen is not None:
        case.check(len(got) <= maxlen, "limit", f"{len(got)} attributes held, limit {maxlen}", **ctx)
    if maxlen is None or len(keys) <= maxlen:
        case.check(set(got) == keys and ro.dropped_attributes == 0, "lost-attribute", f"{sorted(keys - set(got))} lost, dropped={ro.dropped_attributes}", **ctx)
        # last write of a thread that is alone on a key wins
        for k in keys:
            owners = {w for w, ops in enumerate(plan) for kk, v in ops if kk == k and not isinstance(v, dict)}
            if len(owners) == 1:
                last = [v for kk, v in plan[next(iter(owners))] if kk == k and not isinstance(v, dict)][-1]
                last = tuple(last) if isinstance(last, list) else last
                case.check(got[k] == last, "stale-value", f"{k}={got[k]!r} last written {last!r}", **ctx)
    else:
        case.check(len(got) == maxlen, "limit", f"{len(got)} held of {len(keys)} keys with limit {maxlen}", **ctx)
        if not shared:
            case.eq(len(got) + ro.dropped_attributes, len(valid), "drop-count", "held + dropped", **ctx)
        else:
            case.check(ro.dropped_attributes >= len(keys) - len(got), "drop-count", f"dropped {ro.dropped_attributes}", **ctx)
        case.observe("evictions", ro.dropped_attributes)
    case.observe("concurrent_writes", len(valid))
    case.sig(s.signature())


WORKLOADS = [
    Workload("targets", targets, quick=13000, thorough=260000),
    Workload("writers", writers, quick=2000, thorough=40000),
]
