import gzip
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import zlib
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

from mon.core import Workload

PROPERTY = "P45"
VENV = "pb5"
CASE_TIMEOUT = 240
REQUIRED = [
    "processes", "spans", "log_records", "counters", "http", "grpc", "by_code", "by_environment", "end_of_program", "sys_exits", "uncaught_exceptions", "signal_exits", "explicit_shutdowns", "late_threads", "exit_handlers",
    "forked_children", "exports_of_parent_and_child", "concurrent_multis", "simple_processors", "tasks", "daemon_threads", "open_spans", "event_programs", "transient_errors", "absent_collectors", "multiprocessing_children",
]
RULE = (
    "Real programs, configured in code or by the environment, run in fresh interpreters, send to a real OTLP collector on the loopback interface over HTTP or gRPC and end in every ordinary way with telemetry pending; "
    "what the collector decoded is compared with what the program says it ended, emitted and added."
)
ASSUMPTIONS = [
    "processes that are killed, or leave through os._exit without flushing, lose what is pending; telemetry produced by exit handlers registered before the SDK (which run after it) is out of scope",
    "gRPC programs do not fork (gRPC does not support it)",
    "no export over the network is running in another thread while a process forks: the child would inherit the locks of the HTTP client and of the interpreter's import system (P05 forks at any moment, with exporters that take no locks)",
]


class Collector:
    """Decodes what it receives; the first requests may be refused with a retryable answer."""

    def __init__(self, protocol, refuse):
        import grpc
        from opentelemetry.proto.collector.logs.v1 import logs_service_pb2 as lg
        from opentelemetry.proto.collector.logs.v1 import logs_service_pb2_grpc as lgg
        from opentelemetry.proto.collector.metrics.v1 import metrics_service_pb2 as mt
        from opentelemetry.proto.collector.metrics.v1 import metrics_service_pb2_grpc as mtg
        from opentelemetry.proto.collector.trace.v1 import trace_service_pb2 as tr
        from opentelemetry.proto.collector.trace.v1 import trace_service_pb2_grpc as trg

        self.lock = threading.Lock()
        self.spans, self.logs, self.sums, self.resources = Counter(), Counter(), {}, set()
        self.problems = []
        self.refuse = dict(refuse)
        self.refused = 0
        me = self
        kinds = {"traces": (tr.ExportTraceServiceRequest, tr.ExportTraceServiceResponse), "metrics": (mt.ExportMetricsServiceRequest, mt.ExportMetricsServiceResponse), "logs": (lg.ExportLogsServiceRequest, lg.ExportLogsServiceResponse)}

        if protocol == "http":

            class H(BaseHTTPRequestHandler):
                protocol_version = "HTTP/1.1"

                def do_POST(self):
                    data = self.rfile.read(int(self.headers["content-length"]))
                    enc = self.headers.get("content-encoding")
                    kind = self.path.rsplit("/", 1)[-1]
                    status = 200
                    if me.refused_now(kind):
                        status = 503
                    else:
                        try:
                            data = gzip.decompress(data) if enc == "gzip" else zlib.decompress(data) if enc == "deflate" else data
                            me.take(kind, kinds[kind][0].FromString(data))
                        except Exception as e:  # pylint: disable=broad-exception-caught
                            me.problems.append(f"{self.path}: {type(e).__name__}: {e}")
                            status = 400
                    self.send_response(status)
                    self.send_header("content-length", "0")
                    self.end_headers()

                def log_message(self, *a):
                    pass

            self.server = ThreadingHTTPServer(("127.0.0.1", 0), H)
            self.server.daemon_threads = True
            self.port = self.server.server_address[1]
            threading.Thread(target=self.server.serve_forever, args=(0.05,), daemon=True).start()
            self.stop = lambda: (self.server.shutdown(), self.server.server_close())
            return

        def method(kind):
            def export(_, request, context):
                if me.refused_now(kind):
                    context.abort(grpc.StatusCode.UNAVAILABLE, "later")
                me.take(kind, request)
                return kinds[kind][1]()

            return export

        self.server = grpc.server(ThreadPoolExecutor(6))
        trg.add_TraceServiceServicer_to_server(type("T", (trg.TraceServiceServicer,), {"Export": method("traces")})(), self.server)
        mtg.add_MetricsServiceServicer_to_server(type("M", (mtg.MetricsServiceServicer,), {"Export": method("metrics")})(), self.server)
        lgg.add_LogsServiceServicer_to_server(type("L", (lgg.LogsServiceServicer,), {"Export": method("logs")})(), self.server)
        self.port = self.server.add_insecure_port("127.0.0.1:0")
        self.server.start()
        self.stop = lambda: self.server.stop(0).wait()

    def refused_now(self, kind):
        with self.lock:
            if self.refuse.get(kind, 0):
                self.refuse[kind] -= 1
                self.refused += 1
                return True
        return False

    def take(self, kind, msg):
        with self.lock:
            if kind == "traces":
                for rs in msg.resource_spans:
                    self.resource(rs)
                    for ss in rs.scope_spans:
                        self.spans.update(s.name for s in ss.spans)
            elif kind == "logs":
                for rl in msg.resource_logs:
                    self.resource(rl)
                    for sl in rl.scope_logs:
                        self.logs.update(r.body.string_value for r in sl.log_records)
            else:
                for rm in msg.resource_metrics:
                    self.resource(rm)
                    for sm in rm.scope_metrics:
                        for m in sm.metrics:
                            for p in m.sum.data_points:
                                self.sums[m.name] = max(self.sums.get(m.name, 0), p.as_int)

    def resource(self, r):
        self.resources.update(kv.value.string_value for kv in r.resource.attributes if kv.key == "service.name")


PROGRAM = r"""
import json, logging, os, signal, sys, threading, time

plan = json.loads(sys.argv[1])
done = os.open(sys.argv[2], os.O_WRONLY | os.O_APPEND | os.O_CREAT)


class Boom(Exception):
    pass


def say(kind, what):
    # written when the telemetry is certain: the span ended, the record was emitted, the value was added
    os.write(done, (json.dumps([kind, what]) + "\n").encode())

from opentelemetry._events import Event

providers, event_loggers = [], []
if plan["setup"] == "code":
    from opentelemetry import metrics, trace
    from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler
    from opentelemetry.sdk._events import EventLoggerProvider
    from opentelemetry.sdk._logs._internal import ConcurrentMultiLogRecordProcessor
    from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, SimpleLogRecordProcessor
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import PeriodicExportingMetricReader
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import ConcurrentMultiSpanProcessor, TracerProvider
    from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor

    if plan["protocol"] == "http":
        from opentelemetry.exporter.otlp.proto.http._log_exporter import OTLPLogExporter
        from opentelemetry.exporter.otlp.proto.http.metric_exporter import OTLPMetricExporter
        from opentelemetry.exporter.otlp.proto.http.trace_exporter import OTLPSpanExporter

        def ep(kind):
            return {"endpoint": plan["endpoint"] + "/v1/" + kind}
    else:
        from opentelemetry.exporter.otlp.proto.grpc._log_exporter import OTLPLogExporter
        from opentelemetry.exporter.otlp.proto.grpc.metric_exporter import OTLPMetricExporter
        from opentelemetry.exporter.otlp.proto.grpc.trace_exporter import OTLPSpanExporter

        def ep(kind):
            return {"endpoint": plan["endpoint"], "insecure": True}
    res = Resource({"service.name": "app"})

    def make_traces():
        tp = TracerProvider(resource=res, active_span_processor=ConcurrentMultiSpanProcessor() if plan["concurrent"] else None)
        e = OTLPSpanExporter(**ep("traces"))
        tp.add_span_processor(SimpleSpanProcessor(e) if plan["simple"] else BatchSpanProcessor(e, schedule_delay_millis=plan["delay"], max_export_batch_size=plan["batch"]))
        trace.set_tracer_provider(tp)
        providers.append(tp)

    def make_logs():
        lp = LoggerProvider(resource=res, multi_log_record_processor=ConcurrentMultiLogRecordProcessor() if plan["concurrent"] else None)
        e = OTLPLogExporter(**ep("logs"))
        lp.add_log_record_processor(SimpleLogRecordProcessor(e) if plan["simple"] else BatchLogRecordProcessor(e, schedule_delay_millis=plan["delay"], max_export_batch_size=plan["batch"]))
        providers.append(lp)
        if plan["events"]:
            event_loggers.append(EventLoggerProvider(lp).get_event_logger("app"))
        else:
            logging.getLogger("app").addHandler(LoggingHandler(logger_provider=lp))

    def make_metrics():
        mp = MeterProvider([PeriodicExportingMetricReader(OTLPMetricExporter(**ep("metrics")), export_interval_millis=plan["delay"])], resource=res)
        metrics.set_meter_provider(mp)
        providers.append(mp)

    for x in plan["order"]:
        {"t": make_traces, "l": make_logs, "m": make_metrics}[x]()
else:
    from opentelemetry import metrics, trace
    from opentelemetry._logs import get_logger_provider
    from opentelemetry.sdk._configuration import _OTelSDKConfigurator

    _OTelSDKConfigurator().configure()
    if plan["events"]:
        from opentelemetry._events import get_event_logger

        event_loggers.append(get_event_logger("app"))
    providers += [trace.get_tracer_provider(), get_logger_provider(), metrics.get_meter_provider()]

tracer = trace.get_tracer("app")
counter = metrics.get_meter("app").create_counter("work")
log = logging.getLogger("app")
log.setLevel(logging.INFO)
opened = []


def emit(text):
    if plan["events"]:
        event_loggers[0].emit(Event("e", body=text))
    else:
        log.info(text)



def work(name, n):
    for i in range(n):
        with tracer.start_as_current_span(f"{name}-{i}"):
            emit(f"{name}-log-{i}")
            say("log", f"{name}-log-{i}")
            counter.add(1)
            say("add", 1)
        say("span", f"{name}-{i}")


if plan["exit_handler"]:
    import atexit

    # registered after the SDK's own handlers, so it runs before them
    atexit.register(work, "exit", 2)

work("main", plan["n"])
if plan["open"]:
    opened.append(tracer.start_span("open"))
for t in range(plan["threads"]):
    th = threading.Thread(target=work, args=(f"thread{t}", 2))
    th.start()
    th.join()
if plan["daemon"]:
    ev = threading.Event()

    def daemon():
        work("daemon", 2)
        ev.set()
        while True:
            time.sleep(0.01)

    threading.Thread(target=daemon, daemon=True).start()
    ev.wait()
if plan["tasks"]:
    import asyncio

    async def task(i):
        await asyncio.sleep(0)
        work(f"task{i}", 1)

    async def main():
        await asyncio.gather(*[task(i) for i in range(plan["tasks"])])

    asyncio.run(main())
if plan["forks"]:
    # the connections to the collector are open when the program forks
    for p in providers[:]:
        p.force_flush()
pids = []
for k in range(plan["forks"]):
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        # the counter of a child is its own: what the parent added so far is in it too
        for i in range(2):
            with tracer.start_as_current_span(f"child{k}-{i}"):
                emit(f"child{k}-log-{i}")
            say("span", f"child{k}-{i}")
            say("log", f"child{k}-log-{i}")
            if plan["together"]:
                for p in providers[:]:
                    p.force_flush()
        if plan["child_end"] == "flush":
            for p in providers[:]:
                p.force_flush()
            os._exit(0)
        if plan["exit_handler"]:
            atexit.unregister(work)
        sys.exit(0)
    pids.append(pid)
    if not plan["together"]:
        assert os.waitpid(pids.pop(), 0)[1] == 0
if pids:
    # parent and children export at the same time
    for i in range(4):
        work(f"together{i}", 1)
        for p in providers[:]:
            p.force_flush()
for pid in pids:
    assert os.waitpid(pid, 0)[1] == 0
if plan["multiprocessing"]:
    import multiprocessing

    def run():
        for i in range(2):
            with tracer.start_as_current_span(f"mp-{i}"):
                pass
            say("span", f"mp-{i}")
        providers[[type(p).__name__ for p in providers].index("TracerProvider")].force_flush()

    p = multiprocessing.get_context("fork").Process(target=run)
    p.start()
    p.join()
    assert p.exitcode == 0, p.exitcode
if plan["late"]:

    def late():
        time.sleep(plan["late"])
        work("late", 2)

    threading.Thread(target=late).start()
end = plan["end"]
if end == "shutdown":
    for p in providers:
        p.shutdown()
elif end == "exit":
    sys.exit(7)
elif end == "raise":
    raise Boom("the program failed")
elif end == "signal":

    def stop(*a):
        sys.exit(5)

    signal.signal(signal.SIGTERM, stop)
    with tracer.start_as_current_span("interrupted"):
        say("span", "interrupted")
        os.kill(os.getpid(), signal.SIGTERM)
        time.sleep(60)
"""


def program(case):
    rng = case.rng
    protocol = ["http", "grpc"][case.index % 2]
    setup = "environment" if case.index % 4 >= 2 else "code"
    simple = setup == "code" and rng.random() < 0.15
    absent = protocol == "http" and rng.random() < 0.1
    end = rng.choice(["fall", "fall", "exit", "raise", "signal", "shutdown"])
    forks = rng.choice([0, 0, 1, 2, 3]) if protocol == "http" and not absent else 0
    refuse = {rng.choice(["traces", "logs", "metrics"]): 1} if rng.random() < 0.12 and not simple else {}
    plan = dict(
        protocol=protocol, setup=setup, simple=simple, concurrent=setup == "code" and rng.random() < 0.4, batch=rng.choice([1, 3, 512]), delay=rng.choice([10**7, 10**7, 5]), order="".join(rng.sample("tlm", 3)),
        n=rng.randint(1, 6), open=rng.random() < 0.3, threads=rng.choice([0, 0, 1, 3]), daemon=rng.random() < 0.25, events=rng.random() < 0.4, tasks=rng.choice([0, 0, 3]), forks=forks, together=rng.random() < 0.6, child_end=rng.choice(["flush", "exit"]),
        multiprocessing=protocol == "http" and not absent and rng.random() < 0.15, late=0.05 if end in ("fall", "exit", "raise") and rng.random() < 0.3 else 0, exit_handler=end != "shutdown" and rng.random() < 0.3, end=end,
    )
    if plan["forks"] or plan["multiprocessing"]:
        # no export is running in the background while the process forks
        plan.update(delay=10**7, batch=512)
    collector = Collector(protocol, refuse)
    root = tempfile.mkdtemp(prefix="mon45-")
    try:
        port = collector.port
        if absent:
            collector.stop()
        plan["endpoint"] = f"http://127.0.0.1:{port}"
        env = {k: v for k, v in os.environ.items() if not k.startswith(("OTEL_", "GRPC_")) and "proxy" not in k.lower()}
        env.update(PYTHONPATH=os.pathsep.join(p for p in sys.path if p), PYTHONWARNINGS="ignore", OTEL_EXPERIMENTAL_RESOURCE_DETECTORS="")
        if setup == "environment":
            env.update(
                OTEL_SERVICE_NAME="app", OTEL_TRACES_EXPORTER="otlp", OTEL_METRICS_EXPORTER="otlp", OTEL_LOGS_EXPORTER="otlp", OTEL_PYTHON_LOGGING_AUTO_INSTRUMENTATION_ENABLED=str(not plan["events"]).lower(),
                OTEL_EXPORTER_OTLP_PROTOCOL={"http": "http/protobuf", "grpc": "grpc"}[protocol], OTEL_EXPORTER_OTLP_ENDPOINT=plan["endpoint"], OTEL_EXPORTER_OTLP_INSECURE="true",
                OTEL_BSP_SCHEDULE_DELAY=str(plan["delay"]), OTEL_BLRP_SCHEDULE_DELAY=str(plan["delay"]), OTEL_METRIC_EXPORT_INTERVAL=str(plan["delay"]), OTEL_EXPORTER_OTLP_COMPRESSION=rng.choice(["none", "gzip"]),
            )
        path, said = os.path.join(root, "program.py"), os.path.join(root, "said")
        with open(path, "w") as f:
            f.write(PROGRAM)
        p = subprocess.run([sys.executable, path, json.dumps(plan), said], env=env, cwd=root, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=100)
        with open(said) as f:
            lines = [json.loads(x) for x in f]
    finally:
        if not absent:
            collector.stop()
        shutil.rmtree(root)
    shown = {k: v for k, v in plan.items() if v and k != "endpoint"}
    ctx = f"{shown} refused={refuse} absent={absent}"
    err = p.stderr[-600:]
    case.eq(p.returncode, {"exit": 7, "raise": 1, "signal": 5}.get(end, 0), "exit-code", f"{ctx}: {err}")
    want_spans = Counter(x for k, x in lines if k == "span")
    want_logs = Counter(x for k, x in lines if k == "log")
    want_sum = sum(x for k, x in lines if k == "add")
    case.observe("processes")
    case.observe(protocol)
    case.observe("by_" + setup)
    case.observe({"fall": "end_of_program", "exit": "sys_exits", "raise": "uncaught_exceptions", "signal": "signal_exits", "shutdown": "explicit_shutdowns"}[end])
    for flag, kind in (
        ("late", "late_threads"), ("exit_handler", "exit_handlers"), ("forks", "forked_children"), ("concurrent", "concurrent_multis"), ("simple", "simple_processors"), ("tasks", "tasks"), ("daemon", "daemon_threads"),
        ("open", "open_spans"), ("events", "event_programs"), ("multiprocessing", "multiprocessing_children"),
    ):
        if plan[flag]:
            case.observe(kind)
    if forks and plan["together"]:
        case.observe("exports_of_parent_and_child", forks)
    if absent:
        # nothing can arrive, but the program ends as it would have
        case.observe("absent_collectors")
        case.sig(ctx)
        return
    case.observe("transient_errors", collector.refused)
    case.check(not collector.problems, "undecodable", lambda: f"{ctx}: {collector.problems[:2]}")
    tail = f"{ctx}: {err}"
    case.check(want_spans == collector.spans, "spans", lambda: f"lost {dict(want_spans - collector.spans)} unexpected {dict(collector.spans - want_spans)}: {tail}")
    got_logs = Counter({k: v for k, v in collector.logs.items() if "-log-" in k})
    case.check(want_logs == got_logs, "logs", lambda: f"lost {dict(want_logs - got_logs)} unexpected {dict(got_logs - want_logs)}: {tail}")
    case.eq(collector.sums.get("work", 0), want_sum, "sum", tail)
    case.eq(collector.resources, {"app"}, "resource", tail)
    traces = p.stderr.count("Traceback (most recent call last)")
    case.check(traces <= (end == "raise") and "Exception ignored" not in p.stderr, "stderr", lambda: f"{traces} tracebacks: {tail}")
    case.observe("spans", sum(want_spans.values()))
    case.observe("log_records", sum(want_logs.values()))
    case.observe("counters", want_sum)
    case.sig(ctx)


WORKLOADS = [
    Workload("program", program, quick=160, thorough=3000, chunk=4),
]
