import _thread
import asyncio
import itertools
import random as _random
import threading

from mon import gen, quiet, sched
from mon.core import Workload

PROPERTY = "P12"
VENV = "pb5"
SCHED = True
REQUIRED = ["spans", "children", "roots", "invalid_parents", "remote_parents", "thread_units", "task_units", "passed_contexts", "zero_random_draws", "dropped_parents", "custom_ids"]
RULE = (
    "Random programs of nested, explicit-parent, remote-parent, invalid-parent and root spans over threads (schedule fuzzer), asyncio tasks "
    "and executors, with default and custom id generators and a random source that often yields zero; every span is compared with a tree "
    "model of what was current where; distinct = program plus context switches."
)
ASSUMPTIONS = ["the process does not reseed the random module to repeat ids"]


class ZeroProneRandom:
    """random.getrandbits that returns 0 often: ids must still be non-zero."""

    def __init__(self, case, rng, p):
        self.case, self.rng, self.p = case, rng, p

    def __enter__(self):
        self.real = _random.getrandbits

        def bits(n):
            if self.rng.random() < self.p:
                self.case.observe("zero_random_draws")
                return 0
            return self.real(n)

        _random.getrandbits = bits

    def __exit__(self, *a):
        _random.getrandbits = self.real


def make(case):
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
    from opentelemetry.sdk.trace.id_generator import IdGenerator
    from opentelemetry.sdk.trace.sampling import DEFAULT_ON, Decision, Sampler, SamplingResult

    rng = case.rng
    ended = []

    class P(SpanProcessor):
        def on_start(self, span, parent_context=None):
            ended.append(("start", span, parent_context))

    class Ids(IdGenerator):
        def __init__(self):
            self.t, self.s = itertools.count(rng.choice([1, 2**127, 2**128 - 5000])), itertools.count(rng.choice([1, 2**63, 2**64 - 5000]))

        def generate_trace_id(self):
            return next(self.t)

        def generate_span_id(self):
            return next(self.s)

    class Some(Sampler):
        """Drops some spans; keeps the parent's trace state."""

        def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
            d = Decision.DROP if name.endswith("D") else Decision.RECORD_ONLY if name.endswith("R") else Decision.RECORD_AND_SAMPLE
            base = DEFAULT_ON.should_sample(parent_context, trace_id, name)
            return SamplingResult(d, {}, base.trace_state)

        def get_description(self):
            return "some"

    kw = {}
    custom = rng.random() < 0.3
    if custom:
        kw["id_generator"] = Ids()
        case.observe("custom_ids")
    drops = rng.random() < 0.4
    if drops:
        kw["sampler"] = Some()
    prov = TracerProvider(resource=Resource({}), shutdown_on_exit=False, **kw)
    prov.add_span_processor(P())
    return prov, ended, custom, drops


class Program:
    """Shared state of one random program."""

    def __init__(self, case):
        self.case = case
        self.rng = case.rng
        self.prov, self.started, self.custom, self.drops = make(case)
        self.tracers = [self.prov.get_tracer("a"), self.prov.get_tracer("b")]
        self.rows = []  # (span, parent SpanContext or None, what)
        self.n = itertools.count()
        self.problems = []

    def name(self):
        return f"s{next(self.n)}" + (self.rng.choice(["", "", "D", "R"]) if self.drops else "")

    def opts(self):
        """Everything start_span accepts that must not change who the parent is."""
        from opentelemetry.trace import Link, SpanKind

        rng, kw = self.rng, {}
        if rng.random() < 0.5:
            kw["kind"] = rng.choice(list(SpanKind))
        if rng.random() < 0.3:
            kw["attributes"] = {"parent": "x", "trace_id": 1}
        if rng.random() < 0.3:
            kw["links"] = [Link(gen.span_context(rng)) for _ in range(rng.randrange(3))]
        if rng.random() < 0.2:
            kw["start_time"] = rng.choice([0, 1, 10**18])
        if rng.random() < 0.2:
            kw["record_exception"] = False
            kw["set_status_on_exception"] = False
        return kw

    def invalid(self):
        from opentelemetry.trace import SpanContext

        rng = self.rng
        sc = gen.span_context(rng, valid=False)
        k = rng.randrange(8)
        if k < 4:
            return sc
        t, s = [(2**128, 5), (7, 2**64), (-1, 5), (7, -1)][k - 4]
        return SpanContext(t, s, sc.is_remote, sc.trace_flags, sc.trace_state)

    def new(self, span, parent, what):
        self.rows.append((span, parent, what))
        return span

    def current_is(self, want, where):
        from opentelemetry import trace

        got = trace.get_current_span().get_span_context()
        if want is None:
            ok = not got.is_valid
        else:
            ok = got == want
        if not ok:
            self.problems.append(f"current span {where} is {got} want {want}")

    def step(self, cur):
        """One non-nesting span; cur = SpanContext current in this unit (or None)."""
        from opentelemetry import trace
        from opentelemetry.context import Context
        from opentelemetry.trace import NonRecordingSpan

        rng, case = self.rng, self.case
        tr = rng.choice(self.tracers)
        k = rng.randrange(6)
        if k == 0:
            self.new(tr.start_span(self.name(), **self.opts()), cur, "implicit").end()
        elif k == 1:
            self.new(tr.start_span(self.name(), **self.opts(), context=Context()), None, "explicit root").end()
        elif k == 2:
            sc = gen.span_context(rng)
            if sc.is_remote:
                case.observe("remote_parents")
            self.new(tr.start_span(self.name(), **self.opts(), context=trace.set_span_in_context(NonRecordingSpan(sc), Context() if rng.random() < 0.5 else None)), sc, "given parent").end()
        elif k == 3:
            sc = self.invalid()
            case.observe("invalid_parents")
            self.new(tr.start_span(self.name(), **self.opts(), context=trace.set_span_in_context(NonRecordingSpan(sc), Context() if rng.random() < 0.5 else None)), None, "invalid parent").end()
        elif k == 4 and self.rows:
            span, _, _ = rng.choice(self.rows)  # also ended or dropped ones
            if not span.is_recording():
                case.observe("dropped_parents")
            self.new(tr.start_span(self.name(), **self.opts(), context=trace.set_span_in_context(span)), span.get_span_context(), "earlier span").end()
        else:
            s = tr.start_span(self.name(), **self.opts())
            self.new(s, cur, "left open")
        self.current_is(cur, "after start_span")

    def verify(self):
        case = self.case
        case.check(not self.problems, "current-span", "; ".join(self.problems[:3]))
        ids, roots = {}, {}
        for span, parent, what in self.rows:
            sc = span.get_span_context()
            case.observe("spans")
            ok = isinstance(sc.trace_id, int) and isinstance(sc.span_id, int) and 0 < sc.trace_id < 2**128 and 0 < sc.span_id < 2**64
            case.check(ok and sc.is_valid, "invalid-id", f"{what}: {sc}")
            case.check(not sc.is_remote, "remote-inherited", f"{what}: span is marked remote, parent {parent}")
            case.check(sc.span_id not in ids, "duplicate-span-id", f"{sc.span_id:#x} used twice")
            ids[sc.span_id] = what
            if parent is None:
                case.observe("roots")
                case.check(sc.trace_id not in roots, "duplicate-trace-id", f"two roots share {sc.trace_id:#x}")
                roots[sc.trace_id] = what
                case.check(not sc.trace_state, "trace-state", f"{what}: root has trace state {sc.trace_state}")
            else:
                case.observe("children")
                case.eq(sc.trace_id, parent.trace_id, "trace-id", f"{what}: trace id")
                case.check(dict(sc.trace_state) == dict(parent.trace_state), "trace-state", f"{what}: {sc.trace_state} parent {parent.trace_state}")
                case.check(self.custom or sc.span_id != parent.span_id, "duplicate-span-id", f"{what}: span id of its parent")
            if hasattr(span, "parent"):
                case.check(span.parent == parent and (parent is None or span.parent.is_remote == parent.is_remote), "parent", f"{what}: parent {span.parent} want {parent}")
        by_span = {id(s): c for _, s, c in self.started}
        for span, parent, what in self.rows:
            if hasattr(span, "parent"):
                case.check(id(span) in by_span, "not-started", f"{what} did not reach the processor")


def threads(case):
    from opentelemetry import context as ctxapi
    from opentelemetry import trace

    rng = case.rng
    quiet.silence()
    s = sched.Scheduler(rng.random(), max_steps=200_000)
    box = {}
    nthreads = rng.randrange(1, 4)

    def main():
        p = box["p"] = Program(case)
        children = []

        def unit(depth, cur, budget):
            p.current_is(cur, "at start")
            for _ in range(rng.randrange(1, budget)):
                r = rng.random()
                if r < 0.45:
                    p.step(cur)
                elif r < 0.7 and depth < 4:
                    with rng.choice(p.tracers).start_as_current_span(p.name(), **p.opts(), end_on_exit=rng.random() < 0.7) as sp:
                        p.new(sp, cur, "nested")
                        unit(depth + 1, sp.get_span_context(), budget - 1 if budget > 2 else 2)
                    p.current_is(cur, "after nested span")
                elif r < 0.85 and len(children) < nthreads:
                    pass_ctx = rng.random() < 0.5
                    ctx = ctxapi.get_current() if pass_ctx else None
                    t = threading.Thread(target=run_unit, args=(ctx, cur if pass_ctx else None))
                    children.append(t)
                    case.observe("thread_units")
                    if pass_ctx:
                        case.observe("passed_contexts")
                    t.start()
                else:
                    sp = rng.choice(p.tracers).start_span(p.name(), **p.opts())
                    p.new(sp, cur, "used")
                    with trace.use_span(sp, end_on_exit=rng.random() < 0.5):
                        p.step(sp.get_span_context())
                    p.current_is(cur, "after use_span")

        def run_unit(ctx, cur):
            tok = ctxapi.attach(ctx) if ctx is not None else None
            try:
                unit(2, cur, 4)
            finally:
                if tok is not None:
                    ctxapi.detach(tok)
            p.current_is(None, "at thread end")

        with ZeroProneRandom(case, rng, 0.3):
            for _ in range(nthreads - 1):
                t = threading.Thread(target=run_unit, args=(None, None))
                children.append(t)
                case.observe("thread_units")
                t.start()
            unit(0, None, 6)
            for t in children:
                t.join()

    try:
        s.run(main)
    except (sched.Deadlock, sched.StepLimit) as exc:
        case.fail("deadlock", str(exc))
    for name, exc, tb in s.thread_exceptions:
        case.fail("raised", f"{name}: {exc}", tb=tb)
    box["p"].verify()
    case.sig(s.signature(), len(box["p"].rows))


def in_thread(job):
    """Runs job in a fresh OS thread and waits (real locks, not the fuzzer's)."""
    done = _thread.allocate_lock()
    done.acquire()
    err = []

    def go():
        try:
            job()
        except BaseException as exc:  # noqa
            err.append(exc)
        finally:
            done.release()

    _thread.start_new_thread(go, ())
    done.acquire()
    if err:
        raise err[0]


def tasks(case):
    from opentelemetry import context as ctxapi
    from opentelemetry import trace

    rng = case.rng
    quiet.silence()
    p = Program(case)

    async def unit(depth, cur, budget):
        p.current_is(cur, "at task start")
        kids = []
        for _ in range(rng.randrange(1, budget)):
            for _ in range(rng.randrange(0, 3)):
                await asyncio.sleep(0)
            r = rng.random()
            if r < 0.35:
                p.step(cur)
            elif r < 0.6 and depth < 4:
                with rng.choice(p.tracers).start_as_current_span(p.name(), **p.opts()) as sp:
                    p.new(sp, cur, "nested")
                    await asyncio.sleep(0)
                    await unit(depth + 1, sp.get_span_context(), max(2, budget - 1))
                p.current_is(cur, "after nested span")
            elif r < 0.8 and depth < 3:
                # a task starts from the context at its creation
                kids.append(asyncio.ensure_future(unit(depth + 1, cur, 3)))
                case.observe("task_units")
            elif r < 0.9:
                nm = p.name()

                @rng.choice(p.tracers).start_as_current_span(nm)
                async def body(x=cur):
                    sp = trace.get_current_span()
                    p.new(sp, x, "decorated")
                    await asyncio.sleep(0)
                    p.step(sp.get_span_context())
                    await asyncio.sleep(0)

                await body()
                p.current_is(cur, "after decorated coroutine")
            else:
                # an executor thread starts from nothing
                def job():
                    p.current_is(None, "in executor")
                    sp = p.tracers[0].start_span(p.name())
                    p.new(sp, None, "executor")
                    sp.end()

                if cur is not None and rng.random() < 0.5:
                    ctx = ctxapi.get_current()

                    def job(ctx=ctx):  # noqa: F811
                        tok = ctxapi.attach(ctx)
                        try:
                            p.current_is(cur, "in executor")
                            sp = p.tracers[0].start_span(p.name())
                            p.new(sp, cur, "executor with context")
                            sp.end()
                        finally:
                            ctxapi.detach(tok)
                        p.current_is(None, "in executor after detach")

                    case.observe("passed_contexts")
                in_thread(job)
            p.current_is(cur, "in task")
        for k in kids:
            await k
            p.current_is(cur, "after awaiting a task")

    with ZeroProneRandom(case, rng, 0.3):
        asyncio.run(unit(0, None, 7))
    p.current_is(None, "after the loop")
    p.verify()
    case.sig([(w, getattr(x, "parent", None) is not None) for x, _, w in p.rows], rng.random())
    case.sample([(w, str(pc)) for _, pc, w in p.rows][:8])


def bulk(case):
    """Many ids from the default generator: valid and distinct."""
    from opentelemetry.sdk.trace import RandomIdGenerator

    g = RandomIdGenerator()
    with ZeroProneRandom(case, case.rng, 0.2):
        sids = [g.generate_span_id() for _ in range(2000)]
        tids = [g.generate_trace_id() for _ in range(2000)]
    case.check(len(set(sids)) == 2000 and len(set(tids)) == 2000, "duplicate-id", "generator repeated an id")
    case.check(all(0 < x < 2**64 for x in sids) and all(0 < x < 2**128 for x in tids), "invalid-id", "generator produced an invalid id")
    # all bits are used: samplers rely on the low 64 bits being uniform
    for bits, xs in ((64, sids), (128, tids)):
        ones = [sum(x >> b & 1 for x in xs) for b in range(bits)]
        case.check(min(ones) > 500 and max(ones) < 1500, "biased-ids", f"bit counts of 2000 ids {min(ones)}..{max(ones)}")
    case.observe("spans", 0)
    case.sig(case.index)


WORKLOADS = [
    Workload("threads", threads, quick=2500, thorough=50000),
    Workload("tasks", tasks, quick=2000, thorough=40000),
    Workload("bulk", bulk, quick=40, thorough=400),
]
