import fractions
import math
import os

from mon import forked, gen, quiet
from mon.core import Workload

PROPERTY = "P11"
VENV = "pb5"
SCHED = False
REQUIRED = ["ratio_sampled", "ratio_dropped", "boundary_ids", "monotone_pairs", "delegate_calls", "decisions_applied", "dropped_spans", "record_only_spans", "exported", "env_configs", "env_fallbacks", "configurator_runs"]
RULE = (
    "Trace ids at and around ratio*2^64 with random high bits, all ratios incl. tiny and 1; parent contexts of every validity, remoteness "
    "and flag byte; custom samplers returning every decision; sampler names and arguments from the environment, valid and broken; "
    "distinct = ratio/id/parent/decision or environment."
)
ASSUMPTIONS = ["between floor and ceil of ratio*2^64 (only possible for ratios below 2^-11) either decision is accepted"]
M64 = (1 << 64) - 1


def ratio(rng):
    return rng.choice(
        [
            lambda: 0.0,
            lambda: 1.0,
            lambda: 0,
            lambda: 1,
            lambda: 0.5,
            lambda: 2.0 ** -rng.randrange(1, 70),
            lambda: rng.random(),
            lambda: rng.random() * 10 ** -rng.randrange(1, 18),
            lambda: 1 - 2.0**-53,
            lambda: 5e-324,
            lambda: 0.1,
            lambda: rng.randrange(0, 101) / 100,
        ]
    )()


def bounds(r):
    x = fractions.Fraction(r) * 2**64
    return math.floor(x), math.ceil(x)


def expected(r, tid):
    lo, hi = bounds(r)
    low = tid & M64
    return True if low < lo else False if low >= hi else None


def trace_id(rng, r):
    lo, hi = bounds(r)
    low = rng.choice([lo - 1, lo, lo + 1, hi, hi - 1, hi + 1, 0, 1, M64, M64 - 1, rng.getrandbits(64), rng.getrandbits(64), lo // 2]) & M64
    high = rng.choice([0, 1, M64, rng.getrandbits(64)])
    tid = (high << 64) | low
    return tid or 1


def parent(rng):
    """(context, kind) with kind in none/invalid/(remote,sampled)."""
    from opentelemetry import trace
    from opentelemetry.context import Context
    from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags

    k = rng.randrange(7)
    if k == 0:
        return Context(), None, None
    if k == 1:
        sc = gen.span_context(rng, valid=False)
        if rng.random() < 0.4:
            t, i = rng.choice([(2**128, 5), (7, 2**64), (-1, 5), (7, -1)])
            sc = SpanContext(t, i, sc.is_remote, TraceFlags(rng.choice([0, 1])), sc.trace_state)
        return trace.set_span_in_context(NonRecordingSpan(sc), Context()), None, sc
    remote = rng.random() < 0.5
    flags = rng.choice([0, 1, 0, 1, 2, 3, 0xFE, 0xFF, 0x80, 0x81])
    sc0 = gen.span_context(rng, remote=remote)
    sc = SpanContext(sc0.trace_id, sc0.span_id, remote, TraceFlags(flags), sc0.trace_state)
    return trace.set_span_in_context(NonRecordingSpan(sc), Context()), (remote, bool(flags & 1)), sc


def ratio_case(case):
    from opentelemetry.sdk.trace.sampling import TraceIdRatioBased
    from opentelemetry.trace import SpanKind

    rng = case.rng
    r = ratio(rng)
    s = TraceIdRatioBased(r)
    case.eq(s.rate, r, "rate", "rate")
    r2 = ratio(rng)
    s2 = TraceIdRatioBased(r2)
    for _ in range(6):
        tid = trace_id(rng, r)
        ctx, pk, psc = parent(rng)
        attrs = gen.attributes(rng)
        res = s.should_sample(ctx, tid, gen.string(rng), rng.choice(list(SpanKind) + [None]), attrs, None)
        got = res.decision.is_sampled()
        want = expected(r, tid)
        low = tid & M64
        case.check(want is None or got is want, "ratio", f"ratio {r!r} id {low:#x} sampled={got}, bound {bounds(r)}")
        case.check(res.decision.is_recording() == got, "ratio", "recording differs from sampled")
        # the same id with anything else different gives the same answer
        ctx2, _, _ = parent(rng)
        res2 = s.should_sample(ctx2, (rng.getrandbits(64) << 64) | low, "other", None, None, None)
        case.check(res2.decision == res.decision, "not-deterministic", f"ratio {r!r} low id {low:#x}: {res.decision} then {res2.decision}")
        got2 = s2.should_sample(ctx2, tid, "n").decision.is_sampled()
        if r2 >= r and got:
            case.check(got2, "not-monotone", f"id {low:#x} sampled at {r!r} but not at {r2!r}")
            case.observe("monotone_pairs")
        if r2 <= r and got2:
            case.check(got, "not-monotone", f"id {low:#x} sampled at {r2!r} but not at {r!r}")
            case.observe("monotone_pairs")
        if got:
            case.check(dict(res.attributes) == attrs, "attributes", "sampled decision lost the attributes")
        want_state = psc.trace_state if pk is not None else None
        case.check(res.trace_state == want_state or (not res.trace_state and not want_state), "trace-state", f"{res.trace_state} want {want_state}")
        case.observe("ratio_sampled" if got else "ratio_dropped")
        lo, hi = bounds(r)
        if low in (lo, lo - 1, hi, hi - 1):
            case.observe("boundary_ids")
        case.sig("ratio", r, tid)
    case.sample((r, hex(tid), got))


def parent_based(case):
    from opentelemetry.sdk.trace.sampling import Decision, ParentBased, Sampler, SamplingResult
    from opentelemetry.trace import Link, SpanContext, SpanKind, TraceState

    rng = case.rng
    calls = []

    class D(Sampler):
        def __init__(self, name):
            self.name = name
            self.res = SamplingResult(rng.choice(list(Decision)), {"by": name}, TraceState([("by", name)]))

        def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
            calls.append((self.name, parent_context, trace_id, name, kind, attributes, links))
            return self.res

        def get_description(self):
            return self.name

    names = ["root", "remote_parent_sampled", "remote_parent_not_sampled", "local_parent_sampled", "local_parent_not_sampled"]
    ds = {n: D(n) for n in names}
    given = {n: ds[n] for n in names if n == "root" or rng.random() < 0.8}
    pb = ParentBased(**given)
    for _ in range(6):
        ctx, pk, psc = parent(rng)
        tid = psc.trace_id if pk is not None else rng.getrandbits(128)
        name, kind, attrs = gen.string(rng), rng.choice(list(SpanKind)), gen.attributes(rng)
        links = [Link(SpanContext(1, 2, False))]
        del calls[:]
        res = pb.should_sample(ctx, tid, name, kind, attrs, links)
        want = "root" if pk is None else f"{'remote' if pk[0] else 'local'}_parent_{'sampled' if pk[1] else 'not_sampled'}"
        case.sig("parent", sorted(given), pk, psc.trace_flags if psc else None, want)
        if want in given:
            case.check([c[0] for c in calls] == [want], "delegate", f"parent {pk} asked {[c[0] for c in calls]}, want {want}")
            _, c_ctx, c_tid, c_name, c_kind, c_attrs, c_links = calls[0]
            case.check(
                c_ctx is ctx and c_tid == tid and c_name == name and c_kind == kind and c_attrs == attrs and list(c_links) == links,
                "delegate-arguments",
                f"delegate got {calls[0]!r}",
            )
            d = ds[want].res
            case.check(res.decision is d.decision and dict(res.attributes) == {"by": want} and res.trace_state == d.trace_state, "delegate-result", f"{res!r} want {d!r}")
        else:
            case.check(not calls, "delegate", f"parent {pk} asked {[c[0] for c in calls]}")
            case.eq(res.decision.is_sampled(), pk[1], "default-delegate", f"default for {want}")
        case.observe("delegate_calls")
    case.sample((sorted(given), pk, want))


def spans(case):
    """A real tracer applies whatever its sampler decides."""
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
    from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor, SpanExporter, SpanExportResult
    from opentelemetry.sdk.trace.sampling import ALWAYS_OFF, ALWAYS_ON, DEFAULT_OFF, DEFAULT_ON, Decision, ParentBased, ParentBasedTraceIdRatio, Sampler, SamplingResult, TraceIdRatioBased
    from opentelemetry.context import attach, detach
    from opentelemetry.trace import Link, SpanKind, TraceState

    rng = case.rng
    quiet.silence()
    seen = []
    kept = {"kept": rng.randrange(9), "s": "by sampler"}  # the sampler's own mapping, handed out again and again
    kept0 = dict(kept)

    class Custom(Sampler):
        def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
            res = SamplingResult(
                rng.choice(list(Decision)),
                rng.choice([None, {}, kept, {"s": rng.randrange(9)}, gen.attributes(rng, none_in_seq=False)]),
                rng.choice([None, TraceState([("x", str(rng.randrange(9)))]), TraceState()]),
            )
            seen.append((parent_context, trace_id, name, kind, attributes, links, res))
            return res

        def get_description(self):
            return "custom"

    class Spy(Sampler):
        def __init__(self, inner):
            self.inner = inner

        def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
            res = self.inner.should_sample(parent_context, trace_id, name, kind, attributes, links)
            seen.append((parent_context, trace_id, name, kind, attributes, links, res))
            return res

        def get_description(self):
            return self.inner.get_description()

    r = ratio(rng)
    builtin = {
        "on": ALWAYS_ON,
        "off": ALWAYS_OFF,
        "don": DEFAULT_ON,
        "doff": DEFAULT_OFF,
        "ratio": TraceIdRatioBased(r),
        "pratio": ParentBasedTraceIdRatio(r),
        "pb": ParentBased(TraceIdRatioBased(r), ALWAYS_OFF, ALWAYS_ON, ALWAYS_OFF, ALWAYS_ON),
    }
    which = rng.choice(["custom"] * 4 + list(builtin))
    sampler = Custom() if which == "custom" else Spy(builtin[which])
    started, ended = [], []

    class P(SpanProcessor):
        def on_start(self, span, parent_context=None):
            started.append(span)

        def on_end(self, span):
            ended.append(span)

        def force_flush(self, timeout_millis=30000):
            return True

    class E(SpanExporter):
        def __init__(self):
            self.spans = []

        def export(self, spans):
            self.spans += spans
            return SpanExportResult.SUCCESS

    simple, batch = E(), E()
    prov = TracerProvider(sampler=sampler, resource=Resource({}), shutdown_on_exit=False)
    prov.add_span_processor(P())
    prov.add_span_processor(SimpleSpanProcessor(simple))
    use_batch = case.index % 16 == 0
    if use_batch:
        prov.add_span_processor(BatchSpanProcessor(batch))
    tr = prov.get_tracer("m")
    want_export = []
    for i in range(rng.randrange(1, 6)):
        ctx, pk, psc = parent(rng)
        attrs = gen.attributes(rng)
        kind = rng.choice(list(SpanKind))
        name = f"s{i}"
        del seen[:]
        n0, e0 = len(started), len(ended)
        links = [Link(gen.span_context(rng), {"i": j}) for j in range(rng.choice([0, 0, 1, 3]))]
        if rng.random() < 0.25:
            # the parent is the current span: no context is passed
            token = attach(ctx)
            try:
                sp = tr.start_span(name, kind=kind, attributes=attrs, links=links)
            finally:
                detach(token)
            ctx = seen[0][0] if seen and seen[0][0] is None else ctx
        else:
            sp = tr.start_span(name, context=ctx, kind=kind, attributes=attrs, links=links)
        case.check(len(seen) == 1, "sampler-calls", f"sampler asked {len(seen)} times")
        s_ctx, s_tid, s_name, s_kind, s_attrs, s_links, res = seen[0]
        sc = sp.get_span_context()
        case.check(s_ctx is ctx and s_tid == sc.trace_id and s_name == name and s_kind == kind and dict(s_attrs or {}) == attrs and list(s_links or ()) == links, "sampler-arguments", f"{seen[0]!r} for {name}, id {sc.trace_id:#x}")
        if pk is not None:
            case.eq(sc.trace_id, psc.trace_id, "trace-id", "child of a valid parent")
        d = res.decision
        if which not in ("custom",):
            root = pk is None
            w = {
                "on": lambda: True,
                "off": lambda: False,
                "don": lambda: True if root else pk[1],
                "doff": lambda: False if root else pk[1],
                "ratio": lambda: expected(r, sc.trace_id),
                "pratio": lambda: expected(r, sc.trace_id) if root else pk[1],
                "pb": lambda: expected(r, sc.trace_id) if root else (not pk[1]),
            }[which]()
            case.check(w is None or d.is_sampled() is w, "builtin-sampler", f"{which} ratio={r!r} parent={pk} sampled={d.is_sampled()}")
        ctxd = dict(which=which, decision=str(d), parent=pk)
        case.eq(sp.is_recording(), d is not Decision.DROP, "recording", "is_recording", **ctxd)
        case.eq(bool(sc.trace_flags.sampled), d is Decision.RECORD_AND_SAMPLE, "sampled-flag", "sampled flag", **ctxd)
        case.check(int(sc.trace_flags) in (0, 1), "sampled-flag", f"flags {sc.trace_flags}")
        case.check(dict(sc.trace_state) == dict(res.trace_state or {}), "trace-state", f"span {sc.trace_state} decision {res.trace_state}", **ctxd)
        sp.set_attribute("later", 1)
        sp.add_event("e")
        if d is Decision.DROP:
            case.check(len(started) == n0, "dropped-started", "a dropped span reached a processor", **ctxd)
            case.observe("dropped_spans")
        else:
            case.check(len(started) == n0 + 1, "not-started", "a recorded span did not reach the processor", **ctxd)
        sp.end()
        if d is Decision.DROP:
            case.check(len(ended) == e0, "dropped-ended", "a dropped span reached a processor", **ctxd)
            case.check(not sp.is_recording(), "recording", "dropped span records", **ctxd)
        else:
            case.check(len(ended) == e0 + 1, "not-ended", "a recorded span did not reach the processor", **ctxd)
            want_attrs = {k: gen.clean(k, v) for k, v in dict(res.attributes or {}).items()}
            want_attrs = {k: v for k, v in want_attrs.items() if v is not gen.BAD}
            want_attrs["later"] = 1
            case.check(gen.same_map_unordered(dict(ended[-1].attributes), want_attrs), "attributes", f"{dict(ended[-1].attributes)} want {want_attrs}", **ctxd)
            if d is Decision.RECORD_ONLY:
                case.observe("record_only_spans")
            else:
                want_export.append(sc.span_id)
        case.check(kept == kept0, "sampler-mapping", f"the mapping the sampler returned became {kept}", **ctxd)
        case.observe("decisions_applied")
        case.sig("span", which, d, pk, psc.trace_flags if psc else None, bool(res.attributes), bool(res.trace_state))
    case.eq([s.context.span_id for s in simple.spans], want_export, "exported", "spans that reached the exporter")
    if use_batch:
        prov.force_flush()
        case.eq([s.context.span_id for s in batch.spans], want_export, "exported", "spans that reached the batch exporter")
    prov.shutdown()
    case.observe("exported", len(want_export))


NAMES = ["always_on", "always_off", "parentbased_always_on", "parentbased_always_off", "traceidratio", "parentbased_traceidratio"]
BAD_ARGS = ["", "abc", "1.5", "-0.1", "nan", "inf", "0,5", "1e400", "None"]


def probe(case, prov, name, rate, ids, ctxd):
    rng = case.rng
    tr = prov.get_tracer("m")
    for _ in range(12):
        ctx, pk, psc = parent(rng)
        r = rate if rate is not None else 1.0
        ids.next = trace_id(rng, r)
        tid = psc.trace_id if pk is not None else ids.next
        sc = tr.start_span("x", context=ctx).get_span_context()
        got = bool(sc.trace_flags.sampled)
        by_parent = name.startswith("parentbased") and pk is not None
        if by_parent:
            want = pk[1]
        elif name.endswith("always_on"):
            want = True
        elif name.endswith("always_off"):
            want = False
        else:
            want = expected(r, tid)
        case.check(want is None or got is want, "env-sampler", f"parent {pk} id {tid:#x} sampled={got} want {want}", **ctxd)


class env:
    def __init__(self, **kv):
        self.kv = kv

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in self.kv}
        for k, v in self.kv.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v

    def __exit__(self, *a):
        for k, v in self.old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def from_env(case):
    import opentelemetry.sdk._configuration  # noqa: imported before forking
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import TracerProvider
    from opentelemetry.sdk.trace.id_generator import RandomIdGenerator
    from opentelemetry.sdk.trace.sampling import ALWAYS_OFF

    rng = case.rng
    quiet.silence()

    class Ids(RandomIdGenerator):
        next = 1

        def generate_trace_id(self):
            return self.next

    ids = Ids()
    name = rng.choice(NAMES + [None, "bogus", "", "always"])
    arg = rng.choice([None, "0", "1", "0.25", "1e-3", "0.5", "1.0", "0.0"] + BAD_ARGS)
    shown = name if name is None or rng.random() < 0.7 else name.upper()
    ctxd = dict(sampler=shown, arg=arg)
    eff = name if name in NAMES else "parentbased_always_on"
    rate = float(arg) if arg not in [None] + BAD_ARGS else 1.0
    fell = name not in NAMES or (eff.endswith("ratio") and arg in [None] + BAD_ARGS)
    conf = case.index % 8 == 0
    with env(OTEL_TRACES_SAMPLER=shown, OTEL_TRACES_SAMPLER_ARG=arg), quiet.capture() as recs:
        if conf:

            def child():
                from opentelemetry import trace
                from opentelemetry.sdk._configuration import _OTelSDKConfigurator

                _OTelSDKConfigurator().configure(id_generator=ids)
                probe(case, trace.get_tracer_provider(), eff, rate, ids, ctxd)

            with env(OTEL_EXPERIMENTAL_RESOURCE_DETECTORS=None):
                out = forked.call(child)
            if out[0] != "ok":
                case.fail(out[4] or "configurator-raised", f"{out[1]}: {out[2]}", tb=out[3], **ctxd)
            case.observe("configurator_runs")
        else:
            explicit = rng.random() < 0.15
            if explicit:
                prov = TracerProvider(sampler=ALWAYS_OFF, resource=Resource({}), shutdown_on_exit=False, id_generator=ids)
                probe(case, prov, "always_off", None, ids, dict(explicit=True, **ctxd))
            else:
                prov = TracerProvider(resource=Resource({}), shutdown_on_exit=False, id_generator=ids)
                probe(case, prov, eff, rate, ids, ctxd)
                if fell and name is not None:
                    case.check([r for r in recs if r.levelname == "WARNING"], "no-warning", "fallback without a warning", **ctxd)
    case.observe("env_configs")
    if fell:
        case.observe("env_fallbacks")
    case.sig("env", shown, arg, conf)


WORKLOADS = [
    Workload("ratio", ratio_case, quick=6000, thorough=120000),
    Workload("parent_based", parent_based, quick=4000, thorough=60000),
    Workload("spans", spans, quick=5000, thorough=100000),
    Workload("from_env", from_env, quick=800, thorough=8000),
]
