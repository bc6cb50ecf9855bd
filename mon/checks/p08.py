import json
import threading
import time
import traceback

from mon import gen, quiet, sched
from mon.core import Workload

PROPERTY = "P08"
VENV = "pb5"
SCHED = True
REQUIRED = ["ops_before_end", "ops_after_end", "spans_checked", "racing_ends", "racing_ops", "status_ignored", "exceptions_recorded"]
RULE = (
    "Random span programs (creation arguments, attributes, events, links, exceptions, names, statuses, end, and more calls after end) "
    "replayed on a model and compared with the span handed to the exporter; plus threads racing operations with end() under the schedule "
    "fuzzer; distinct = different program or context-switch sequence."
)
ASSUMPTIONS = [
    "values here are valid attribute values within the default limits (P09 and P10 cover the rest)",
]


def pipeline(**kw):
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import SpanProcessor, TracerProvider

    events = []

    class P(SpanProcessor):
        def on_start(self, span, parent_context=None):
            events.append(("start", span))

        def on_end(self, span):
            events.append(("end", span))

    kw.setdefault("resource", Resource({"r": 1}))
    prov = TracerProvider(shutdown_on_exit=False, **kw)
    prov.add_span_processor(P())
    return prov, events


class Err(Exception):
    pass


class Outer:
    class Inner(Exception):
        pass


def make_exception(rng):
    cls = rng.choice([Err, ValueError, KeyError, Outer.Inner, KeyboardInterrupt, UnicodeError, ExceptionGroup])
    e = cls("group", [ValueError("a"), Err("b")]) if cls is ExceptionGroup else cls(*([gen.string(rng)] * rng.choice([0, 1, 1, 2])))
    how = rng.choice(["raised", "raised", "raised", "fresh", "cause", "context", "note"])
    if how == "fresh":
        return e
    try:
        if how == "cause":
            raise e from OSError("cause")
        if how == "context":
            try:
                raise OSError("first")
            except OSError:
                raise e
        if how == "note":
            e.add_note(gen.string(rng))
        raise e
    except BaseException as exc:  # pylint: disable=broad-except
        return exc


class Model:
    def __init__(self, name, attrs, links):
        from opentelemetry.trace import StatusCode

        self.name = name
        self.attrs = gen.BoundedMap(None, None, attrs)
        self.events = []
        self.links = [l for l in links]
        self.code, self.desc = StatusCode.UNSET, None
        self.ignored = 0

    def status(self, code, desc):
        from opentelemetry.trace import StatusCode

        if self.code is StatusCode.OK or code is StatusCode.UNSET:
            self.ignored += 1
            return
        self.code = code
        self.desc = desc if code is StatusCode.ERROR else None


def keep_link(ctx, attrs):
    return ctx.is_valid or bool(attrs) or bool(ctx.trace_state)


def program(case):
    from opentelemetry import trace as trace_api
    from opentelemetry.context import Context
    from opentelemetry.sdk.trace.sampling import ALWAYS_ON
    from opentelemetry.trace import Link, SpanKind, Status, StatusCode

    rng = case.rng
    quiet.silence()
    prov, events = pipeline(sampler=ALWAYS_ON)
    scope = ("lib" + str(rng.randrange(9)), rng.choice(["1", ""]), rng.choice(["http://s", None]), rng.choice([None, {"sa": 1}]))
    tracer = prov.get_tracer(*scope)
    name = gen.string(rng)
    kind = rng.choice(list(SpanKind))
    attrs = gen.attributes(rng)
    links = [(gen.span_context(rng, valid=rng.random() < 0.8), gen.attributes(rng, 3)) for _ in range(rng.randrange(0, 4))]
    if links and rng.random() < 0.3:
        links.insert(rng.randrange(len(links) + 1), rng.choice(links))  # the same link twice
    start = rng.choice([None, 0, 5, 10**18])
    parent = gen.span_context(rng) if rng.random() < 0.4 else None
    pctx = trace_api.set_span_in_context(trace_api.NonRecordingSpan(parent), Context()) if parent else Context()
    if parent and rng.random() < 0.3:
        links.append((parent, {}))
    objs = {}
    given = [objs.setdefault(id(x), Link(x[0], dict(x[1]))) if rng.random() < 0.5 else Link(x[0], dict(x[1])) for x in links]
    t0 = time.time_ns()
    span = tracer.start_span(name, context=pctx, kind=kind, attributes=dict(attrs) or None, links=rng.choice([list, tuple])(given), start_time=start)
    t1 = time.time_ns()
    ctx0 = span.get_span_context()
    m = Model(name, attrs, [(c, a) for c, a in links if keep_link(c, a)])
    trace = []
    excs = []

    def op(active):
        o = rng.choice(["set", "sets", "event", "link", "status", "status2", "name", "exc"])
        if o == "set":
            k, v = gen.key(rng), gen.value(rng)
            span.set_attribute(k, v)
            if active:
                m.attrs.put(k, v)
        elif o == "sets":
            d = gen.attributes(rng, 5)
            span.set_attributes(d)
            if active:
                for k, v in d.items():
                    m.attrs.put(k, v)
        elif o == "event":
            n, a, ts = gen.string(rng), gen.attributes(rng), rng.choice([None, 0, 7, 10**18])
            a0 = time.time_ns()
            if rng.random() < 0.5:
                span.add_event(n, a, ts)
            else:
                span.add_event(name=n, attributes=a or None, timestamp=ts)
            a1 = time.time_ns()
            if active:
                m.events.append((n, dict(a), ts, a0, a1))
        elif o == "link":
            c, a = gen.span_context(rng, valid=rng.random() < 0.8), gen.attributes(rng, 3)
            if rng.random() < 0.3:
                # a link to itself, to its parent, or one it has already
                c, a = rng.choice([(ctx0, a), (parent or ctx0, a)] + m.links[-2:])
            span.add_link(c, dict(a) or None)
            if active and keep_link(c, a):
                m.links.append((c, a))
        elif o in ("status", "status2"):
            code, desc = rng.choice(list(StatusCode)), rng.choice([None, "why", "é"])
            if o == "status":
                # a description beside a Status object is ignored
                span.set_status(Status(code, desc), *rng.choice([(), (), (None,), ("other",)]))
            else:
                span.set_status(code, desc)
            if active:
                before = m.ignored
                m.status(code, desc)
                case.observe("status_ignored", m.ignored - before)
        elif o == "name":
            n = gen.string(rng)
            span.update_name(n)
            if active:
                m.name = n
        else:
            e = make_exception(rng)
            extra = rng.choice([None, {"exception.message": "mine", "z": 1}, {"q": [1, 2]}])
            ts, esc = rng.choice([None, 3]), rng.random() < 0.5
            a0 = time.time_ns()
            span.record_exception(e, attributes=extra, timestamp=ts, escaped=esc)
            a1 = time.time_ns()
            if active:
                t = type(e)
                full = t.__qualname__ if t.__module__ == "builtins" else f"{t.__module__}.{t.__qualname__}"
                d = {
                    "exception.type": full,
                    "exception.message": str(e),
                    "exception.stacktrace": "".join(traceback.format_exception(e)),
                    "exception.escaped": str(esc),
                }
                d.update(extra or {})
                m.events.append(("exception", d, ts, a0, a1))
                case.observe("exceptions_recorded")
        trace.append((o, active))
        case.observe("ops_before_end" if active else "ops_after_end")

    for _ in range(rng.randrange(0, 14)):
        op(True)
        case.check(span.is_recording(), "recording", "span stopped recording before end", trace=trace)
    end = rng.choice([None, 0, 99, 2 * 10**18])
    e0 = time.time_ns()
    span.end(end)
    e1 = time.time_ns()
    case.check(not span.is_recording(), "recording", "span still recording after end")
    for _ in range(rng.randrange(0, 5)):
        op(False)
    for _ in range(rng.randrange(0, 3)):
        span.end(rng.choice([None, 77]))
    with quiet.capture():
        span.__exit__(ValueError, ValueError("late"), None)
    ends = [s for k, s in events if k == "end"]
    starts = [s for k, s in events if k == "start"]
    case.check(len(starts) == 1 and len(ends) == 1, "end-callbacks", f"{len(starts)} start and {len(ends)} end callbacks", trace=trace)
    for ro, which in ((ends[0], "exported"), (span, "ended")):
        ctx = dict(which=which, trace=trace)
        case.eq(ro.name, m.name, "name", which, **ctx)
        case.check(ro.kind is kind, "kind", f"{ro.kind} {kind}", **ctx)
        case.check(ro.context == ctx0 and ro.get_span_context() == ctx0, "identity", "span context changed", **ctx)
        case.check(ro.parent == parent, "parent", f"{ro.parent} want {parent}", **ctx)
        case.eq(dict(ro.resource.attributes), {"r": 1}, "resource", which, **ctx)
        sc = ro.instrumentation_scope
        case.eq((sc.name, sc.version, sc.schema_url or None, dict(sc.attributes or {})), (scope[0], scope[1], scope[2], dict(scope[3] or {})), "scope", which, **ctx)
        case.check(gen.same_map(dict(ro.attributes), m.attrs.d), "attributes", f"{dict(ro.attributes)} != {m.attrs.d}", **ctx)
        case.eq(len(ro.events), len(m.events), "events", "number of events", **ctx)
        for ev, (n, a, ts, a0, a1) in zip(ro.events, m.events):
            case.eq(ev.name, n, "events", "event name", **ctx)
            case.check(gen.same_map(dict(ev.attributes), gen.BoundedMap(None, None, a).d), "events", f"event attributes {dict(ev.attributes)} != {a}", **ctx)
            case.check(ev.timestamp == ts if ts is not None else a0 <= ev.timestamp <= a1, "events", f"event time {ev.timestamp} {ts}", **ctx)
        case.eq(len(ro.links), len(m.links), "links", "number of links", **ctx)
        for ln, (c, a) in zip(ro.links, m.links):
            case.check(ln.context == c, "links", f"{ln.context} {c}", **ctx)
            case.check(gen.same_map(dict(ln.attributes or {}), gen.BoundedMap(None, None, a).d), "links", f"{ln.attributes} {a}", **ctx)
        case.check(ro.status.status_code is m.code and ro.status.description == m.desc, "status", f"{ro.status.status_code} {ro.status.description} want {m.code} {m.desc}", **ctx)
        case.check(ro.start_time == start if start is not None else t0 <= ro.start_time <= t1, "start-time", f"{ro.start_time}", **ctx)
        case.check(ro.end_time == end if end is not None else e0 <= ro.end_time <= e1, "end-time", f"{ro.end_time} {end}", **ctx)
        case.check(ro.dropped_attributes == ro.dropped_events == ro.dropped_links == 0, "dropped", "drops reported without a limit", **ctx)
    # what an exporter received must be read-only
    for box in (ends[0].attributes, *(e.attributes for e in ends[0].events)):
        try:
            box["planted"] = 1
        except TypeError:
            pass
        else:
            case.fail("mutable", f"exporter can modify the ended span's {type(box).__name__}", trace=trace)
    if 0 <= ends[0].start_time < 2 * 10**18:
        doc = json.loads(ends[0].to_json())
        case.eq(doc["name"], m.name, "json", "name")
        case.eq(doc["context"]["trace_id"], f"0x{ctx0.trace_id:032x}", "json", "trace id")
        case.eq(doc["context"]["span_id"], f"0x{ctx0.span_id:016x}", "json", "span id")
        case.eq(list(doc["attributes"]), list(m.attrs.d), "json", "attributes")
        case.eq([e["name"] for e in doc["events"]], [e[0] for e in m.events], "json", "events")
        case.eq(len(doc["links"]), len(m.links), "json", "links")
        case.eq(doc["status"]["status_code"], m.code.name, "json", "status")
    case.observe("spans_checked")
    case.sig(trace, name, list(attrs))
    case.sample(trace)


def racing(case):
    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=100_000)
    n = rng.randrange(1, 4)
    enders = rng.randrange(1, 4)
    hist = []
    box = {}
    snaps = []

    def main():
        from opentelemetry.sdk.trace import SpanProcessor

        prov, events = pipeline()

        class Snap(SpanProcessor):
            def on_end(self, span):
                hist.append(("on_end", None))
                snaps.append(snap(span))

        prov.add_span_processor(Snap())
        span = prov.get_tracer("m").start_span("r")
        box["span"], box["events"] = span, events

        def worker(w):
            for i in range(rng.randrange(1, 5)):
                o = rng.choice(["set", "sets", "event", "link", "name"])
                tag = f"{w}.{i}"
                hist.append(("call", (tag, o)))
                if o == "set":
                    span.set_attribute("a" + tag, i)
                elif o == "sets":
                    span.set_attributes({"b" + tag: 1, "c" + tag: 2, "d" + tag: 3})
                elif o == "event":
                    span.add_event("e" + tag, {"i": i})
                elif o == "link":
                    from opentelemetry.trace import SpanContext

                    span.add_link(SpanContext(w + 1, i + 1, False), {"l": tag})
                else:
                    span.update_name("n" + tag)
                hist.append(("ret", (tag, o)))

        def ender(e):
            hist.append(("end_call", e))
            span.end()
            hist.append(("end_ret", e))

        ts = [threading.Thread(target=worker, args=(w,)) for w in range(n)] + [threading.Thread(target=ender, args=(e,)) for e in range(enders)]
        rng.shuffle(ts)
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        span.set_attribute("late", 1)
        span.add_event("late")
        span.end()

    def snap(sp):
        return (
            sp.name,
            dict(sp.attributes),
            [e.name for e in sp.events],
            [dict(x.attributes)["l"] for x in sp.links],
            sp.end_time,
            sp.status.status_code,
        )

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("deadlock", str(exc))
    for name, exc, tb in s.thread_exceptions:
        case.fail("raised", f"{name}: {exc}", tb=tb)
    ctx = dict(hist=hist, snaps=snaps)
    ends = [x for k, x in box["events"] if k == "end"]
    case.check(len(ends) == 1 and len(snaps) == 1, "end-callbacks", f"{len(ends)} end callbacks", **ctx)
    final = snap(ends[0])
    case.check(final == snaps[0], "changed-after-end", "the exported span changed after its end callback", final=final, **ctx)
    nm, attrs, evs, links, _, _ = final
    first_end = next(k for k, h in enumerate(hist) if h[0] == "end_call")
    on_end = next(k for k, h in enumerate(hist) if h[0] == "on_end")
    last_name = None
    for k, (what, arg) in enumerate(hist):
        if what != "call":
            continue
        tag, o = arg
        ret = hist.index(("ret", arg))
        must, mustnot = ret < first_end, k > on_end
        present = {
            "set": lambda: "a" + tag in attrs,
            "sets": lambda: "b" + tag in attrs,
            "event": lambda: "e" + tag in evs,
            "link": lambda: tag in links,
            "name": lambda: None,
        }[o]()
        if o == "sets":
            have = [x + tag in attrs for x in "bcd"]
            case.check(all(have) or not any(have), "torn-update", f"only part of set_attributes {tag} is in the span", **ctx)
        if o == "name":
            continue
        case.check(present or not must, "lost-update", f"{o} {tag} finished before end but is missing", final=final, **ctx)
        case.check(not (present and mustnot), "update-after-end", f"{o} {tag} began after end but is present", final=final, **ctx)
    for w in range(n):
        mine = [x for x in evs if x.startswith(f"e{w}.")]
        case.check(mine == sorted(mine), "event-order", f"events of one thread out of order: {mine}", **ctx)
    case.check("late" not in attrs and "late" not in evs, "update-after-end", "late call changed the span", **ctx)
    case.check(len(set(evs)) == len(evs) and len(set(links)) == len(links), "duplicate", "an operation is recorded twice", **ctx)
    case.observe("racing_ends", enders)
    case.observe("racing_ops", sum(1 for h in hist if h[0] == "call"))
    case.sig(s.signature())


WORKLOADS = [
    Workload("program", program, quick=5000, thorough=100000),
    Workload("racing", racing, quick=3000, thorough=60000),
]
