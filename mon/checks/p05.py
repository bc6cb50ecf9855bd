import json
import os
import random
import select
import signal
import sys
import tempfile
import threading
import time

from mon import quiet
from mon.core import Inconclusive, Workload

PROPERTY = "P05"
VENV = "pb5"
SCHED = False
CASE_TIMEOUT = 150
REQUIRED = ["forks", "items_pending_at_fork", "child_items_exported", "parent_items_exported", "child_flushes", "child_shutdowns", "forks_at_a_chosen_line", "metric_forks_during_export", "concurrent_processors"]
RULE = (
    "Each case runs in its own process tree: producers feed a real batch span/log processor (or a periodic metric reader) while "
    "the main thread really forks; every process appends its exporter calls to one log; distinct = different configuration and fork position."
)
ASSUMPTIONS = [
    "for metrics the fork happens while the reader is idle or inside an exporter call, not inside the microseconds in which a collection holds the storage locks",
    "a child that makes no progress and uses no CPU for 40 s is hung",
]


class Log:
    def __init__(self, path):
        self.fd = os.open(path, os.O_APPEND | os.O_CREAT | os.O_RDWR)

    def add(self, **kw):
        kw["pid"] = os.getpid()
        os.write(self.fd, (json.dumps(kw) + "\n").encode())


def read_log(path):
    with open(path) as f:
        text = f.read()
    # another process may be in the middle of its write: leave an unfinished last line out
    return [json.loads(x) for x in text[: text.rfind("\n") + 1].splitlines()]


def wait_for(cond, limit=40):
    end = time.monotonic() + limit
    while time.monotonic() < end:
        if cond():
            return True
        time.sleep(0.003)
    return False


def run_tree(case, body, path):
    """body(log, rng) runs as the parent process of the scenario."""
    quiet.silence()
    seed = case.rng.random()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(120)
            os.setpgid(0, 0)
            log = Log(path)
            body(log, random.Random(seed))
            code = 0
        except BaseException as exc:  # pylint: disable=broad-except
            import traceback

            Log(path).add(ev="crash", err=repr(exc)[:300], tb=traceback.format_exc(limit=-5)[:1500])
        finally:
            os._exit(code)
    deadline = time.monotonic() + 110
    while time.monotonic() < deadline:
        r, st = os.waitpid(pid, os.WNOHANG)
        if r:
            break
        time.sleep(0.002)
    else:
        os.killpg(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        ev = read_log(path)
        case.fail("hang", "the parent process of a forking program never finished", events=ev[-40:])
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    ev = read_log(path)
    for e in ev:
        if e["ev"] == "crash":
            case.fail("crash", f"process failed: {e['err']}", tb=e["tb"])
    return ev, pid


def reap(log, kids):
    """Waits for children; one that is alive, idle and silent for long is hung."""
    for kid, name in kids:
        end = time.monotonic() + 60
        while time.monotonic() < end:
            r, st = os.waitpid(kid, os.WNOHANG)
            if r:
                log.add(ev="reaped", name=name, status=st)
                break
            time.sleep(0.003)
        else:
            os.kill(kid, signal.SIGKILL)
            os.waitpid(kid, 0)
            log.add(ev="hung", name=name)


def make_pipeline(kind, log, delay, batch, export_sleep, workers=0):
    ident = None

    def export(names):
        log.add(ev="export", ids=names)
        if export_sleep:
            time.sleep(export_sleep)
        log.add(ev="exported", ids=names)

    if kind == "span":
        from opentelemetry.sdk.resources import Resource
        from opentelemetry.sdk.trace import ConcurrentMultiSpanProcessor, TracerProvider
        from opentelemetry.sdk.trace.export import BatchSpanProcessor, SpanExporter, SpanExportResult

        class E(SpanExporter):
            def export(self, spans):
                export([(s.name, s.context.trace_id, s.context.span_id) for s in spans])
                return SpanExportResult.SUCCESS

            def shutdown(self):
                log.add(ev="exporter_shutdown")

        prov = TracerProvider(resource=Resource({}), shutdown_on_exit=False, active_span_processor=ConcurrentMultiSpanProcessor(workers) if workers else None)
        proc = BatchSpanProcessor(E(), max_queue_size=4000, schedule_delay_millis=delay, max_export_batch_size=batch)
        prov.add_span_processor(proc)
        tracer = prov.get_tracer("m")

        def emit(name):
            s = tracer.start_span(name)
            s.end()
            log.add(ev="ended", id=name)

        start = tracer.start_span
    else:
        from opentelemetry._logs import SeverityNumber
        from opentelemetry.sdk._logs import LoggerProvider, LogRecord
        from opentelemetry.sdk._logs._internal import ConcurrentMultiLogRecordProcessor
        from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult
        from opentelemetry.sdk.resources import Resource

        class E(LogExporter):
            def export(self, batch):
                export([(d.log_record.body, 0, 0) for d in batch])
                return LogExportResult.SUCCESS

            def shutdown(self):
                log.add(ev="exporter_shutdown")

        res = Resource({})
        prov = LoggerProvider(resource=res, shutdown_on_exit=False, multi_log_record_processor=ConcurrentMultiLogRecordProcessor(workers) if workers else None)
        proc = BatchLogRecordProcessor(E(), max_queue_size=4000, schedule_delay_millis=delay, max_export_batch_size=batch)
        prov.add_log_record_processor(proc)
        logger = prov.get_logger("m")

        def emit(name):
            logger.emit(LogRecord(timestamp=1, trace_id=1, span_id=1, severity_number=SeverityNumber.INFO, body=name, resource=res))
            log.add(ev="ended", id=name)

        start = None
    return prov, proc, emit, start


class Pin:
    """Stops one thread at its k-th traced line of the processor's code, so that the fork finds it exactly there."""

    def __init__(self, role, k):
        self.role, self.k = role, k
        self.n, self.done = 0, False
        self.paused, self.resume = threading.Event(), threading.Event()
        self.where = None
        threading.settrace(self.call)

    def call(self, frame, event, arg):
        name = frame.f_code.co_filename
        if self.done or "opentelemetry/sdk/" not in name or not ("export" in name or "shared" in name):
            return None
        return self.line if self.role == self.mine() else None

    @staticmethod
    def mine():
        n = threading.current_thread().name
        return n.split("-")[0] if n.startswith(("producer-", "flusher-")) else "worker"

    def line(self, frame, event, arg):
        if event == "line" and not self.done:
            self.n += 1
            if self.n == self.k:
                self.done = True
                self.where = f"{os.path.basename(os.path.dirname(frame.f_code.co_filename))}:{frame.f_code.co_name}:{frame.f_lineno - frame.f_code.co_firstlineno}"
                self.paused.set()
                self.resume.wait(30)
        return self.line

    def wait(self):
        r = self.paused.wait(0.3)
        self.done = True
        return r


def pinned(case):
    batching(case, pin=True)


def batching(case, pin=False):
    rng = case.rng
    kind = rng.choice(["span", "span", "log"])
    delay = rng.choice([20, 20, 60000])
    batch = rng.choice([1, 3, 16, 512])
    export_sleep = rng.choice([0, 0, 0.002, 0.02])
    producers = rng.randrange(1, 4)
    nkids = rng.choice([1, 1, 2, 3])
    mode = [rng.choice(["flush", "shutdown", "wait" if delay == 20 else "flush"]) for _ in range(nkids + 1)]
    grand = rng.random() < 0.3
    pause = rng.choice([0, 0.0005, 0.003])
    workers = rng.choice([0, 0, 1, 2]) if not pin else 0  # threads of a concurrent multi processor
    late_fork = rng.random() < 0.15  # fork after the parent already shut down: the child must stay quiet
    tmp = tempfile.mkdtemp(prefix="p05-")
    path = os.path.join(tmp, "log")
    cfg = dict(kind=kind, delay=delay, batch=batch, export_sleep=export_sleep, producers=producers, mode=mode, grand=grand, pause=pause, workers=workers)

    def child(name, log, crng, prov, proc, emit, start, shared, mode, depth):
        log.add(ev="child", name=name)
        if shared:
            shared[0].end()
            log.add(ev="ended", id="shared")
        n = crng.randrange(1, 6)
        if crng.random() < 0.5:
            ts = [threading.Thread(target=lambda t=t: [emit(f"{name}-{t}-{i}") for i in range(n)]) for t in range(2)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            for i in range(n):
                emit(f"{name}-0-{i}")
        if depth:
            kid = os.fork()
            if kid == 0:
                try:
                    child(name + "g", Log(path), random.Random(f"{name}g"), prov, proc, emit, start, None, "flush", 0)
                    os._exit(0)
                finally:
                    os._exit(1)
            log.add(ev="fork", name=name + "g")
            reap(log, [(kid, name + "g")])
        me = os.getpid()
        if mode == "wait":
            def done():
                ev = [e for e in read_log(path) if e["pid"] == me]
                want = {e["id"] for e in ev if e["ev"] == "ended"}
                got = {i[0] for e in ev if e["ev"] == "exported" for i in e["ids"]}
                return want <= got

            if not wait_for(done):
                log.add(ev="not_exported")
        elif mode == "flush":
            log.add(ev="flush_call")
            res = proc.force_flush(30000)
            log.add(ev="flush_ret", res=res)
        else:
            log.add(ev="shutdown_call")
            prov.shutdown()
            log.add(ev="shutdown_ret")

    if pin:
        role, nth = rng.choice(["worker", "producer", "producer", "flusher"]), rng.randrange(1, 40)
        batch = rng.choice([1, 1, 2, 5])
        delay = rng.choice([20, 60000])
        late_fork = False
        cfg.update(role=role, nth=nth, batch=batch, delay=delay)
        mode = ["flush" if m == "wait" and delay != 20 else m for m in mode]

    def body(log, prng):
        at = Pin(role, nth) if pin else None
        prov, proc, emit, start = make_pipeline(kind, log, delay, batch, export_sleep, workers)

        def produce(p):
            for i in range(30):
                emit(f"P-{p}-{i}")
                if pause:
                    time.sleep(pause)

        shared = [start("shared")] if start and prng.random() < 0.5 else None
        ts = [threading.Thread(target=produce, args=(p,), name=f"producer-{p}") for p in range(producers)]
        if pin:
            ts.append(threading.Thread(target=lambda: [proc.force_flush(20000) for _ in range(3)], name="flusher-0"))
        if late_fork:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            prov.shutdown()
            log.add(ev="fork", name="late")
            kid = os.fork()
            if kid == 0:
                log.add(ev="child", name="late")
                emit("late-0")
                time.sleep(0.1)
                os._exit(0)
            reap(log, [(kid, "late")])
            return
        for t in ts:
            t.start()
        kids = []
        for k in range(nkids):
            time.sleep(prng.choice([0, 0.001, 0.004, 0.02]) * prng.random())
            name = f"C{k}"
            if pin and not k and at.wait():
                log.add(ev="pinned", where=at.where)
            log.add(ev="fork", name=name)
            kid = os.fork()
            if kid == 0:
                code = 1
                try:
                    child(name, log, random.Random(f"{k}"), prov, proc, emit, start, shared, mode[k], grand and k == 0)
                    code = 0
                except BaseException as exc:  # pylint: disable=broad-except
                    log.add(ev="crash", err=repr(exc)[:300], tb="")
                finally:
                    os._exit(code)
            kids.append((kid, name))
            if pin:
                at.resume.set()
        for t in ts:
            t.join()
        if shared:
            shared[0].end()
            log.add(ev="ended", id="shared")
        reap(log, kids)
        log.add(ev="shutdown_call")
        prov.shutdown()
        log.add(ev="shutdown_ret")

    ev, pid = run_tree(case, body, path)
    os.remove(path)
    os.rmdir(tmp)
    ctx = dict(cfg=cfg, events=ev)
    for e in ev:
        case.check(e["ev"] != "hung", "child-hang", f"child {e.get('name')} hung after fork", **ctx)
        case.check(e["ev"] != "not_exported", "child-not-exported", "items ended in the child were not exported by its own worker", **ctx)
        case.check(not (e["ev"] == "reaped" and e["status"] != 0), "child-died", f"child {e.get('name')} died {e.get('status')}", **ctx)
    pids = {}
    for e in ev:
        pids.setdefault(e["pid"], []).append(e)
    ids_seen = {}
    forks = sum(1 for e in ev if e["ev"] == "fork")
    for e in ev:
        if e["ev"] == "pinned":
            case.observe("forks_at_a_chosen_line")
            cfg["where"] = e["where"]
    case.observe("forks", forks)
    if workers:
        case.observe("concurrent_processors")
    pending = set()
    for e in ev:
        if e["pid"] != pid:
            continue
        if e["ev"] == "ended":
            pending.add(e["id"])
        elif e["ev"] == "export":
            pending -= {i[0] for i in e["ids"]}
        elif e["ev"] == "fork":
            case.observe("items_pending_at_fork", len(pending))
    for q, evs in pids.items():
        ended = {e["id"]: k for k, e in enumerate(evs) if e["ev"] == "ended"}
        exported = {}
        for k, e in enumerate(evs):
            if e["ev"] == "export":
                for name, tid, sid in e["ids"]:
                    exported.setdefault(name, []).append(k)
                    key = (tid, sid)
                    if tid and name != "shared":
                        other = ids_seen.setdefault(key, (q, name))
                        case.check(other == (q, name), "id-collision", f"{name} and {other} share span id {key}", **ctx)
        case.observe("parent_items_exported" if q == pid else "child_items_exported", len(exported))
        name_of = next((e["name"] for e in evs if e["ev"] == "child"), "P")
        if name_of == "late":
            case.check(not exported, "export-after-shutdown", f"a child forked after shutdown exported {list(exported)}", **ctx)
            continue
        for name, ks in exported.items():
            case.check(len(ks) == 1, "duplicate", f"{name} exported {len(ks)} times by process {name_of}", **ctx)
            if name != "shared":
                case.check(
                    name.startswith(name_of + "-"), "foreign-export", f"process {name_of} exported {name}, pending in another process", **ctx
                )
            else:
                case.check("shared" in ended, "foreign-export", f"process {name_of} exported the span it did not end", **ctx)
        lost = [i for i in ended if i not in exported]
        case.check(not lost, "lost", f"process {name_of} never exported {lost[:6]}", **ctx)
        for k, e in enumerate(evs):
            if e["ev"] == "flush_ret":
                case.check(e["res"] is True, "flush-failed", f"force_flush in {name_of} returned {e['res']}", **ctx)
                case.observe("child_flushes")
                done = {i[0] for x in evs[:k] if x["ev"] == "exported" for i in x["ids"]}
                case.check(set(ended) <= done, "flush-incomplete", f"force_flush in {name_of} returned before exporting everything", **ctx)
            if e["ev"] == "shutdown_ret":
                if q != pid:
                    case.observe("child_shutdowns")
                n = sum(1 for x in evs[:k] if x["ev"] == "exporter_shutdown")
                case.check(n == 1, "exporter-shutdown", f"exporter shut down {n} times in {name_of}", **ctx)
                case.check(all(x["ev"] not in ("export", "exported") for x in evs[k:]), "export-after-shutdown", f"{name_of} exported after shutdown", **ctx)
    case.sig(cfg, forks, len(ev))
    case.sample(cfg)


def metrics(case):
    rng = case.rng
    during = rng.random() < 0.5
    delta = rng.random() < 0.5
    mode = rng.choice(["wait", "shutdown", "flush"])
    nadd = rng.randrange(1, 5)
    tmp = tempfile.mkdtemp(prefix="p05m-")
    path = os.path.join(tmp, "log")
    cfg = dict(during=during, delta=delta, mode=mode, nadd=nadd)

    def body(log, prng):
        from opentelemetry.sdk.metrics import Counter, MeterProvider
        from opentelemetry.sdk.metrics.export import AggregationTemporality, MetricExporter, MetricExportResult, PeriodicExportingMetricReader
        from opentelemetry.sdk.resources import Resource

        inside, release = threading.Event(), threading.Event()
        parent = os.getpid()
        hold = [during]

        class E(MetricExporter):
            def export(self, md, timeout_millis=1, **kw):
                pts = {}
                for rm in md.resource_metrics:
                    for sm in rm.scope_metrics:
                        for m in sm.metrics:
                            pts[m.name] = sum(p.value for p in m.data.data_points)
                log.add(ev="export", pts=pts)
                if hold[0] and os.getpid() == parent:
                    hold[0] = False
                    inside.set()
                    release.wait(60)
                return MetricExportResult.SUCCESS

            def shutdown(self, timeout_millis=1, **kw):
                log.add(ev="exporter_shutdown")

            def force_flush(self, timeout_millis=1):
                return True

        temp = {Counter: AggregationTemporality.DELTA if delta else AggregationTemporality.CUMULATIVE}
        interval = 15 if during or mode == "wait" else 60000
        reader = PeriodicExportingMetricReader(E(preferred_temporality=temp), export_interval_millis=interval)
        prov = MeterProvider([reader], resource=Resource({}), shutdown_on_exit=False)
        meter = prov.get_meter("m")
        pc = meter.create_counter("parent")
        cc = meter.create_counter("child")
        # the gate keeps the ticker inside one export; otherwise nothing is recorded
        # until after the fork so that the ticker has nothing to collect
        if during:
            pc.add(1)
            inside.wait(60)
            log.add(ev="in_export")
        elif interval == 15:
            # idle reader: fork right after a tick has finished
            pc.add(1)
            n0 = [0]
            wait_for(lambda: any(e["ev"] == "export" for e in read_log(path)))
            time.sleep(0.005)
        log.add(ev="fork", name="C")
        kid = os.fork()
        if kid == 0:
            code = 1
            try:
                log.add(ev="child", name="C")
                for _ in range(nadd):
                    cc.add(1)
                me = os.getpid()

                def seen():
                    ex = [e["pts"].get("child", 0) for e in read_log(path) if e["pid"] == me and e["ev"] == "export"]
                    return (sum(ex) if delta else max(ex, default=0)) >= nadd

                if mode == "wait":
                    if interval == 15 and not wait_for(seen):
                        log.add(ev="not_exported")
                elif mode == "flush":
                    reader.force_flush(20000)
                    log.add(ev="flush_ret", ok=seen())
                else:
                    prov.shutdown()
                    log.add(ev="shutdown_ret", ok=seen())
                code = 0
            except BaseException as exc:  # pylint: disable=broad-except
                log.add(ev="crash", err=repr(exc)[:300], tb="")
            finally:
                os._exit(code)
        reap(log, [(kid, "C")])
        release.set()
        pc.add(5)
        prov.shutdown()
        log.add(ev="shutdown_ret", ok=True)

    ev, pid = run_tree(case, body, path)
    os.remove(path)
    os.rmdir(tmp)
    ctx = dict(cfg=cfg, events=ev)
    case.observe("forks")
    case.observe("metric_forks")
    for e in ev:
        case.check(e["ev"] != "hung", "metric-child-hang", "child hung after fork", **ctx)
        case.check(e["ev"] != "not_exported", "metric-child-not-exported", "the child's reader exports nothing after the fork", **ctx)
        if e["ev"] in ("flush_ret", "shutdown_ret"):
            case.check(e["ok"], "metric-child-flush", f"{e['ev']} in the child did not export what it recorded", **ctx)
        if e["ev"] == "in_export":
            case.observe("metric_forks_during_export")
    want = 5 + (1 if any(e["ev"] in ("in_export",) for e in ev) or (mode == "wait") else 0)
    got = [e["pts"].get("parent", 0) for e in ev if e["pid"] == pid and e["ev"] == "export"]
    total = sum(got) if delta else max(got, default=0)
    case.eq(total, want, "metric-parent", "parent exported", **ctx)
    case.check(not any(e["pid"] == pid and e["ev"] == "export" and e["pts"].get("child") for e in ev), "metric-foreign", "parent exported the child's measurements", **ctx)
    case.sig(cfg, len(ev))
    case.sample(cfg)


WORKLOADS = [
    Workload("pinned", pinned, quick=160, thorough=6000),
    Workload("batch", batching, quick=160, thorough=8000),
    Workload("metrics", metrics, quick=80, thorough=2000),
]
