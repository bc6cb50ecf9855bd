"""Scheduled scenarios over the batching processors (spans and logs), recorded
at the boundary (producer calls and exporter calls), plus the history oracles.
"""

import logging

from mon import sched
from mon.core import Inconclusive

logging.getLogger("opentelemetry").setLevel(logging.CRITICAL + 1)
logging.getLogger("opentelemetry").propagate = False
logging.getLogger("opentelemetry").addHandler(logging.NullHandler())


class Config:
    def __init__(self, rng, focus):
        self.focus = focus
        self.batch = rng.choice([1, 2, 3, 4, 5, 8])
        if focus == "delivery":
            self.queue = self.batch + rng.choice([0, 0, 1, 2, 5, 40, 200])
        else:
            self.queue = self.batch + rng.choice([0, 1, 10, 200, 200])
        self.delay_ms = rng.choice([5, 50, 500, 5000])
        self.prompt = rng.random() < (0.7 if focus == "liveness" else 0.35)
        self.producers = rng.randrange(1, 5)
        self.items = rng.randrange(1, 13)
        self.gap = self.delay_ms / 1e3 * rng.choice([0.0, 0.0, 0.0, 0.1, 0.9, 3.0])
        self.unsampled = rng.choice([0.0, 0.0, 0.3])
        self.flushers = rng.choice([0, 0, 1, 1, 2]) if focus != "barrier" else rng.choice([1, 2, 3])
        self.flush_n = rng.randrange(1, 4)
        self.flush_timeouts = [rng.choice([30000, 30000, 200000, 100, 2, 0, 1, 50, None]) for _ in range(2)]
        self.export_timeout = rng.choice([30000, 30000, 100, 700])
        self.flush_via_provider = rng.random() < 0.3
        self.shutdown_mode = rng.choice(["after", "after", "race", "race", "none"])
        if focus == "liveness":
            self.shutdown_mode = rng.choice(["after", "none", "none"])
        self.shutdown_via_provider = rng.random() < 0.5
        self.export_time = rng.choice([0.0, 0.0, 0.001, self.delay_ms / 5e3, self.delay_ms / 100])
        self.block_first = focus == "liveness" and rng.random() < 0.4
        self.fault = rng.choice([0.0, 0.0, 0.3, 1.0])
        self.nested = rng.random() < 0.1
        self.late = rng.randrange(0, 3)

    def __repr__(self):
        return "Config(%s)" % ", ".join(f"{k}={v}" for k, v in sorted(vars(self).items()))


class History:
    def __init__(self, clock):
        self.events = []
        self.clock = clock

    def add(self, kind, *args):
        self.events.append((len(self.events), self.clock(), kind) + args)
        return len(self.events) - 1


def odd_span(rng):
    """start_span and end arguments of spans that look unusual but must be exported like any other."""
    from opentelemetry import trace
    from opentelemetry.context import Context

    kw, end = {}, {}
    if rng.random() < 0.6:
        return kw, end
    t = rng.choice([0, 1, 5, 10**18])
    kw["start_time"] = t
    if rng.random() < 0.6:
        end["end_time"] = rng.choice([t, t, t + 1, max(0, t - 1), 0])
    kw["kind"] = rng.choice(list(trace.SpanKind))
    if rng.random() < 0.3:
        parent = trace.SpanContext(rng.getrandbits(127) + 1, rng.getrandbits(63) + 1, rng.random() < 0.5, trace.TraceFlags(rng.choice([0, 1])))
        kw["context"] = trace.set_span_in_context(trace.NonRecordingSpan(parent), Context())
    if rng.random() < 0.3:
        kw["attributes"] = {"k": 1, "empty": ""}
    return kw, end


def odd_log(rng):
    """LogRecord arguments that look unusual but must be exported like any other."""
    from opentelemetry._logs import SeverityNumber
    from opentelemetry.trace import TraceFlags

    kw = dict(timestamp=1, trace_id=1, span_id=2, severity_number=SeverityNumber.INFO)
    if rng.random() < 0.6:
        return kw
    kw["timestamp"] = rng.choice([0, None, 1, 10**18])
    kw["observed_timestamp"] = rng.choice([None, 0, 7])
    kw["trace_id"], kw["span_id"] = rng.choice([(0, 0), (None, None), (1, 2), (2**128 - 1, 2**64 - 1)])
    kw["trace_flags"] = rng.choice([None, TraceFlags(0), TraceFlags(1)])
    kw["severity_number"] = rng.choice([None, SeverityNumber.UNSPECIFIED, SeverityNumber.TRACE, SeverityNumber.FATAL4])
    kw["severity_text"] = rng.choice([None, "", "x"])
    kw["attributes"] = rng.choice([None, {}, {"a": 1}])
    return kw


class SpanAdapter:
    name = "span"

    def __init__(self, cfg, hist, rng):
        from opentelemetry.sdk.resources import Resource
        from opentelemetry.sdk.trace import TracerProvider
        from opentelemetry.sdk.trace.export import BatchSpanProcessor, SpanExporter, SpanExportResult
        from opentelemetry.sdk.trace.sampling import Decision, Sampler, SamplingResult

        self.rng = rng

        class ByName(Sampler):
            def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
                if name.startswith("U"):
                    return SamplingResult(Decision.DROP if name.startswith("UD") else Decision.RECORD_ONLY)
                return SamplingResult(Decision.RECORD_AND_SAMPLE)

            def get_description(self):
                return "ByName"

        drv = self.driver = Exporter(cfg, hist, rng, lambda s: s.name, SpanExportResult)

        class Exp(SpanExporter):
            def export(self, spans):
                return drv.export(spans)

            def shutdown(self):
                drv.shutdown()

            def force_flush(self, timeout_millis=30000):
                return True

        self.provider = TracerProvider(sampler=ByName(), shutdown_on_exit=False, resource=Resource({}))
        self.processor = BatchSpanProcessor(
            Exp(), max_queue_size=cfg.queue, schedule_delay_millis=cfg.delay_ms, max_export_batch_size=cfg.batch,
            export_timeout_millis=cfg.export_timeout,
        )
        self.provider.add_span_processor(self.processor)
        self.tracer = self.provider.get_tracer("mon")

    def emit(self, ident, hist):
        kw, end = odd_span(self.rng)
        span = self.tracer.start_span(ident, **kw)
        hist.add("end_call", ident)
        span.end(**end)
        hist.add("end_ret", ident)


class LogAdapter:
    name = "log"

    def __init__(self, cfg, hist, rng):
        from opentelemetry.sdk.resources import Resource
        from opentelemetry.sdk._logs import LoggerProvider, LogRecord
        from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult
        from opentelemetry._logs import SeverityNumber

        drv = self.driver = Exporter(cfg, hist, rng, lambda d: d.log_record.body, LogExportResult)

        class Exp(LogExporter):
            def export(self, batch):
                return drv.export(batch)

            def shutdown(self):
                drv.shutdown()

        self.provider = LoggerProvider(shutdown_on_exit=False, resource=Resource({}))
        self.processor = BatchLogRecordProcessor(
            Exp(), max_queue_size=cfg.queue, schedule_delay_millis=cfg.delay_ms, max_export_batch_size=cfg.batch,
            export_timeout_millis=cfg.export_timeout,
        )
        self.provider.add_log_record_processor(self.processor)
        self.logger = self.provider.get_logger("mon")
        res = Resource({})
        self.make = lambda ident: LogRecord(body=ident, resource=res, **odd_log(rng))

    def emit(self, ident, hist):
        rec = self.make(ident)
        hist.add("end_call", ident)
        self.logger.emit(rec)
        hist.add("end_ret", ident)


class Exporter:
    def __init__(self, cfg, hist, rng, ident, result):
        self.cfg, self.hist, self.rng, self.ident, self.result = cfg, hist, rng, ident, result
        self.n = 0
        self.nested = None
        self.kept = []

    def export(self, batch):
        import time

        cfg = self.cfg
        self.n += 1
        n = self.n
        # read the batch both at entry and after the export work: the slice
        # handed over must not be changed underneath the exporter
        ids = [self.ident(x) for x in batch]
        self.hist.add("export_call", n, ids)
        # an exporter may keep the batch to send it later
        self.kept.append((n, batch, ids))
        if cfg.block_first and n == 1:
            time.sleep(cfg.delay_ms / 1e3 * 20)
        elif cfg.export_time:
            time.sleep(cfg.export_time * self.rng.random())
        if self.nested and n % 2:
            self.nested(n)
        again = [self.ident(x) for x in batch]
        if again != ids:
            self.hist.add("batch_mutated", n, ids, again)
        if self.rng.random() < cfg.fault:
            kind = self.rng.choice(["raise", "fail", "raise"])
            self.hist.add("export_ret", n, kind)
            if kind == "raise":
                raise self.rng.choice([RuntimeError, ValueError, KeyError, OSError])("exporter failure")
            return self.result.FAILURE
        self.hist.add("export_ret", n, "ok")
        return self.result.SUCCESS

    def shutdown(self):
        self.hist.add("exporter_shutdown")


def run_scenario(case, adapter_cls, focus):
    import threading
    import time

    rng = case.rng
    cfg = Config(rng, focus)
    s = sched.Scheduler(rng.random(), early_timer=0.0 if cfg.prompt else 0.03, max_steps=300_000)
    hist = History(lambda: s.now)

    def main():
        ad = adapter_cls(cfg, hist, rng)

        def producer(p):
            for i in range(cfg.items):
                if cfg.gap:
                    time.sleep(cfg.gap * rng.random())
                if adapter_cls is SpanAdapter and rng.random() < cfg.unsampled:
                    ident = f"{rng.choice(['UD', 'UR'])}-{p}-{i}"
                else:
                    ident = f"S-{p}-{i}"
                ad.emit(ident, hist)

        def flusher(f):
            for i in range(cfg.flush_n):
                time.sleep(rng.choice([0.0, 0.001, 0.1, 1.0]) * rng.random())
                k = f"{f}.{i}"
                target = ad.provider if cfg.flush_via_provider else ad.processor
                timeout = rng.choice(cfg.flush_timeouts)
                if timeout is None:
                    # the documented defaults
                    hist.add("flush_call", k, 30000 if cfg.flush_via_provider else cfg.export_timeout)
                    res = target.force_flush()
                else:
                    hist.add("flush_call", k, timeout)
                    res = target.force_flush(timeout)
                hist.add("flush_ret", k, res)

        threads = [threading.Thread(target=producer, args=(p,), name=f"prod{p}") for p in range(cfg.producers)]
        threads += [threading.Thread(target=flusher, args=(f,), name=f"flush{f}") for f in range(cfg.flushers)]
        for t in threads:
            t.start()
        if cfg.shutdown_mode == "race":
            time.sleep(rng.choice([0.0, 0.0005, 0.05, 2.0]) * rng.random())
        else:
            for t in threads:
                t.join()
        if cfg.shutdown_mode != "none":
            hist.add("shutdown_call")
            (ad.provider if cfg.shutdown_via_provider else ad.processor).shutdown()
            hist.add("shutdown_ret")
            for t in threads:
                t.join()
            for i in range(cfg.late):
                ad.emit(f"S-late-{i}", hist)
            time.sleep(cfg.delay_ms / 1e3 * 30)
        else:
            # no shutdown: periodic export alone must deliver everything
            if cfg.block_first:
                time.sleep(cfg.delay_ms / 1e3 * 22)
            want = sum(1 for e in hist.events if e[2] == "end_ret" and e[3].startswith("S"))
            idle, last = 0, 0
            while idle < 30:
                got = sum(len(e[4]) for e in hist.events if e[2] == "export_call")
                if got >= want:
                    break
                idle, last = (0 if got > last else idle + 1), got
                time.sleep(cfg.delay_ms / 1e3 * 2 + cfg.export_time)
        for n, kept, ids in ad.driver.kept:
            again = [None if x is None else ad.driver.ident(x) for x in kept]
            if again != ids:
                hist.add("batch_mutated", n, ids, again)
        hist.add("stop")

    try:
        s.run(main)
    except sched.Deadlock as exc:
        case.fail("deadlock", f"deadlock: {exc}", cfg=cfg, events=hist.events[-60:])
    except sched.StepLimit as exc:
        case.fail("no-termination", f"livelock: {exc}", cfg=cfg, events=hist.events[-60:])
    for name, exc, tb in s.thread_exceptions:
        case.fail("thread-died", f"thread {name} died: {exc}", tb=tb, cfg=cfg)
    case.observe("events", len(hist.events))
    case.observe("schedule_switches", s.switches)
    case.observe("lines_stepped", s.lines)
    case.sig(cfg.batch, cfg.queue, s.signature())
    case.sample({"cfg": repr(cfg), "events": [e[2:] for e in hist.events[:40]]})
    return cfg, hist, s


class Parsed:
    def __init__(self, hist):
        self.end_call, self.end_ret = {}, {}
        self.delivered = {}  # ident -> list of (export n)
        self.exports = {}
        self.flush = {}
        self.shutdown_call = self.shutdown_ret = None
        self.exporter_shutdown = []
        self.order = []
        self.mutated = []
        self.ev = hist.events
        for seq, now, kind, *a in hist.events:
            if kind == "end_call":
                self.end_call[a[0]] = (seq, now)
            elif kind == "end_ret":
                self.end_ret[a[0]] = (seq, now)
            elif kind == "export_call":
                self.exports[a[0]] = {"call": (seq, now), "ids": a[1], "ret": None}
                for i in a[1]:
                    self.delivered.setdefault(i, []).append(a[0])
                    self.order.append(i)
            elif kind == "export_ret":
                self.exports[a[0]]["ret"] = (seq, now)
            elif kind == "flush_call":
                self.flush[a[0]] = {"call": (seq, now), "timeout": a[1], "ret": None}
            elif kind == "flush_ret":
                self.flush[a[0]].update(ret=(seq, now), res=a[1])
            elif kind == "shutdown_call":
                self.shutdown_call = (seq, now)
            elif kind == "shutdown_ret":
                self.shutdown_ret = (seq, now)
            elif kind == "exporter_shutdown":
                self.exporter_shutdown.append((seq, now))
            elif kind == "batch_mutated":
                self.mutated.append(a)


def overflow_count(cfg, h):
    """Number of ends at which the queue may have been full: upper bound on
    pending items (ended or being ended, not yet handed to the exporter)."""
    pending = set()
    over = 0
    for seq, now, kind, *a in h.ev:
        if kind == "end_call" and a[0].startswith("S"):
            pending.add(a[0])
            if len(pending) > cfg.queue:
                over += 1
        elif kind == "export_call":
            pending.difference_update(a[1])
    return over


def oracle_delivery(case, cfg, hist, h):
    ctx = dict(cfg=cfg, events=hist.events)
    case.check(not h.mutated, "batch-mutated", "the batch changed while the exporter was reading it", **ctx)
    # serial exports, bounded batches
    open_n = None
    for seq, now, kind, *a in h.ev:
        if kind == "export_call":
            case.check(open_n is None, "concurrent-export", f"export {a[0]} starts while {open_n} is running", **ctx)
            open_n = a[0]
            case.check(len(a[1]) <= cfg.batch, "batch-too-big", f"batch of {len(a[1])} > {cfg.batch}", **ctx)
            for i in a[1]:
                case.check(i in h.end_call and h.end_call[i][0] < seq, "not-ended", f"{i} exported before it ended", **ctx)
                case.check(not i.startswith("U"), "unsampled-exported", f"unsampled {i} exported", **ctx)
        elif kind == "export_ret":
            open_n = None
    for i, ns in h.delivered.items():
        case.check(len(ns) == 1, "duplicate", f"{i} exported {len(ns)} times", **ctx)
    # order
    pos = {i: k for k, i in enumerate(h.order)}
    best = -1  # max end_ret-ordered position check: O(n log n)
    items = sorted((h.end_ret[i][0], "ret", i) for i in pos if i in h.end_ret)
    items += [(h.end_call[i][0], "call", i) for i in pos]
    items.sort()
    maxpos, maxid = -1, None
    for seq, kind, i in items:
        if kind == "ret":
            if pos[i] > maxpos:
                maxpos, maxid = pos[i], i
        else:
            case.check(pos[i] > maxpos or maxid is None, "order", f"{i} ended after {maxid} but was exported before it", **ctx)
    # conservation
    limit_seq = h.shutdown_call[0] if h.shutdown_call else len(h.ev)
    must = [i for i, (seq, _) in h.end_ret.items() if i.startswith("S") and seq < limit_seq]
    lost = [i for i in must if i not in h.delivered]
    over = overflow_count(cfg, h)
    case.observe("items_ended", len(h.end_ret))
    case.observe("items_delivered", len(h.delivered))
    case.observe("exports", len(h.exports))
    case.observe("overflow_cases", 1 if over else 0)
    case.observe("items_dropped_by_overflow", len(lost) if over else 0)
    case.check(len(lost) <= over, "lost", f"{len(lost)} items lost ({lost[:8]}) with at most {over} queue overflows", **ctx)


def oracle_barrier(case, cfg, hist, h):
    ctx = dict(cfg=cfg, events=hist.events)
    for k, f in h.flush.items():
        if f["ret"] is None:
            continue
        case.check(isinstance(f["res"], bool), "flush-result", f"force_flush returned {f['res']!r}", **ctx)
        if h.shutdown_call and h.shutdown_call[0] < f["ret"][0]:
            continue
        case.observe("flush_checked")
        if not f["res"]:
            case.observe("flush_timed_out")
            continue
        for i, (seq, _) in h.end_ret.items():
            if seq >= f["call"][0] or not i.startswith("S"):
                continue
            for n in h.delivered.get(i, ()):
                e = h.exports[n]
                case.check(
                    e["ret"] is not None and e["ret"][0] < f["ret"][0],
                    "flush-incomplete",
                    f"force_flush {k} returned True but {i}, ended before the call, was exported only later",
                    **ctx,
                )
                case.observe("flushed_items_checked")
    oracle_flush_time(case, cfg, h, ctx)
    if h.shutdown_ret:
        case.observe("shutdown_checked")
        over = overflow_count(cfg, h)
        end = h.shutdown_ret[0]
        for n, e in h.exports.items():
            case.check(e["call"][0] < end, "export-after-shutdown", f"export {n} {e['ids']} called after shutdown() returned", **ctx)
            case.check(
                e["ret"] is not None and e["ret"][0] < end, "export-after-shutdown", f"export {n} still running when shutdown() returned", **ctx
            )
        case.check(
            len(h.exporter_shutdown) == 1, "exporter-shutdown", f"exporter shut down {len(h.exporter_shutdown)} times", **ctx
        )
        sd = h.exporter_shutdown[0][0]
        case.check(sd < end, "exporter-shutdown", "exporter shut down only after shutdown() returned", **ctx)
        for n, e in h.exports.items():
            case.check(e["ret"][0] < sd, "export-after-exporter-shutdown", f"export {n} overlaps or follows exporter.shutdown()", **ctx)
        lost = [
            i
            for i, (seq, _) in h.end_ret.items()
            if i.startswith("S") and seq < h.shutdown_call[0] and i not in h.delivered
        ]
        case.check(len(lost) <= over, "shutdown-lost", f"shutdown() returned without exporting {lost[:8]}", **ctx)
        for i, ns in h.delivered.items():
            case.check(
                h.end_call[i][0] < end, "accepted-after-shutdown", f"{i} ended after shutdown() returned but was exported", **ctx
            )


def oracle_flush_time(case, cfg, h, ctx):
    for k, f in h.flush.items():
        if cfg.prompt and f["ret"] is not None:
            took = f["ret"][1] - f["call"][1]
            case.check(
                took <= (f["timeout"] + 50) * 1e6, "flush-overrun", f"force_flush took {took / 1e6}ms > {f['timeout']}ms", **ctx
            )
            case.observe("flushes_timed")
            if not f["res"]:
                case.observe("flushes_given_up")
            if not f["res"] and not (h.shutdown_call and h.shutdown_call[0] < f["ret"][0]):
                # it may only give up while the exporter was busy all the time
                t = f["call"][1]
                idle = 0
                for e in sorted(h.exports.values(), key=lambda e: e["call"][1]):
                    a, b = e["call"][1], (e["ret"] or (0, f["ret"][1]))[1]
                    if a >= f["ret"][1]:
                        break
                    idle = max(idle, a - t)
                    t = max(t, b)
                idle = max(idle, f["ret"][1] - t)
                case.check(
                    idle <= 20e6,
                    "flush-false",
                    f"force_flush gave up after {took / 1e6} ms although the exporter was idle for {idle / 1e6} ms of that",
                    **ctx,
                )


def oracle_liveness(case, cfg, hist, h):
    ctx = dict(cfg=cfg, events=hist.events)
    oracle_flush_time(case, cfg, h, ctx)
    slow = cfg.block_first or cfg.export_time * 1e3 >= cfg.delay_ms
    if cfg.prompt:
        # the producer never waits for the exporter
        for i, (seq, t1) in h.end_ret.items():
            took = t1 - h.end_call[i][1]
            case.check(took < 20e6, "producer-blocked", f"ending {i} blocked for {took / 1e6} ms of virtual time", **ctx)
            case.observe("ends_timed")
        if slow:
            case.observe("ends_during_slow_export_cases")
        if cfg.shutdown_mode == "none":
            # each item is handed over within one schedule delay plus the time the
            # exporter itself used meanwhile
            for i, (seq, t) in h.end_ret.items():
                if not i.startswith("S"):
                    continue
                if i not in h.delivered:
                    continue
                e = h.exports[h.delivered[i][0]]
                busy = 0
                for e2 in h.exports.values():
                    a, b = e2["call"][1], (e2["ret"] or e2["call"])[1]
                    busy += max(0, min(b, e["call"][1]) - max(a, t))
                wait = e["call"][1] - t - busy
                case.check(
                    wait <= cfg.delay_ms * 1e6 + 20e6,
                    "late-export",
                    f"{i} waited {wait / 1e6} ms for export with a schedule delay of {cfg.delay_ms} ms",
                    **ctx,
                )
                case.observe("latencies_checked")
    # faults: whatever export() did, every later item is still attempted
    faults = [e for e in h.exports.values() if e["ret"] is not None]
    limit_seq = h.shutdown_call[0] if h.shutdown_call else len(h.ev)
    over = overflow_count(cfg, h)
    lost = [i for i, (seq, _) in h.end_ret.items() if i.startswith("S") and seq < limit_seq and i not in h.delivered]
    case.check(
        len(lost) <= over, "stalled", f"{len(lost)} items never handed to the exporter ({lost[:6]}), overflows={over}", **ctx
    )
    if any(ev[2] == "export_ret" and ev[4] != "ok" for ev in h.ev):
        case.observe("cases_with_exporter_faults")
    case.observe("exports", len(h.exports))
