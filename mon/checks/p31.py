import gzip
import os
import threading
import zlib

from mon import gen, quiet, sched
from mon.core import Workload

PROPERTY = "P31"
VENV = "pb5"
SCHED = True
REQUIRED = [
    "exports", "attempts", "successes", "failures", "retries", "transport_errors", "spans_batches", "logs_batches", "metrics_batches", "gave_up", "redirect_class", "client_errors", "empty_batches", "shutdowns", "second_shutdowns",
    "exports_after_shutdown", "shutdowns_during_backoff", "concurrent_exports", "gzip", "deflate", "plain", "config_env_general", "config_env_signal", "config_argument", "default_endpoints", "configured_headers", "configured_timeouts", "configured_certificates", "user_sessions",
]
RULE = (
    "The real exporters run over requests with a recording transport in place of the network: scripted statuses and transport faults per batch, virtual time for the backoff, concurrent exports and shutdowns under the "
    "schedule fuzzer, generated environments and constructor arguments; distinct = signal, script, configuration."
)
ASSUMPTIONS = [
    "408 and 5xx are the retryable responses (as the exporters document them); 429 and transport errors may be retried or not",
    "an attempt that started before shutdown() returned may still reach the wire; one whose backoff ends later may not",
    "redirects with a Location are followed by requests and out of scope; malformed configuration values are P38's",
]

SIGNALS = ("TRACES", "LOGS", "METRICS")
RETRY = {408} | set(range(500, 600))
ENV = ["ENDPOINT", "HEADERS", "COMPRESSION", "TIMEOUT", "CERTIFICATE", "CLIENT_CERTIFICATE", "CLIENT_KEY"]


class Wire:
    """Stands for the network: records every prepared request and plays a script."""

    def __init__(self):
        self.log = []  # (request, kwargs, time, thread name)
        self.scripts = {}  # decoded body -> list of answers
        self.default = [200]
        self.clock = lambda: 0
        self.problems = []

    def send(self, adapter, request, **kw):
        import requests

        body = request.body if request.body is not None else b""
        if isinstance(body, str):
            body = body.encode()
        enc = request.headers.get("Content-Encoding")
        if isinstance(enc, bytes):
            enc = enc.decode()
        try:
            data = gzip.decompress(body) if enc == "gzip" else zlib.decompress(body) if enc == "deflate" else body
        except Exception as exc:  # noqa: BLE001
            self.problems.append(("undecodable-body", f"body sent with Content-Encoding {enc!r} does not decode: {exc!r}"))
            data = body
        script = self.scripts.get(data, self.default)
        n = sum(1 for x in self.log if x["data"] == data)
        answer = script[min(n, len(script) - 1)]
        self.log.append({"request": request, "kw": kw, "t": self.clock(), "data": data, "answer": answer, "encoding": enc})
        if isinstance(answer, BaseException):
            raise answer
        r = requests.Response()
        r.status_code = answer
        r.reason = "scripted"
        r._content = b"scripted answer"
        r.url = request.url
        r.request = request
        return r

    def install(self):
        from requests.adapters import HTTPAdapter

        wire = self

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            return wire.send(adapter, request, timeout=timeout, verify=verify, cert=cert)

        self.orig = HTTPAdapter.send
        HTTPAdapter.send = send

    def remove(self):
        from requests.adapters import HTTPAdapter

        HTTPAdapter.send = self.orig


class environment:
    def __init__(self, values):
        self.values = values

    def __enter__(self):
        self.saved = dict(os.environ)
        for k in list(os.environ):
            if k.startswith("OTEL_"):
                del os.environ[k]
        os.environ.update(self.values)

    def __exit__(self, *a):
        os.environ.clear()
        os.environ.update(self.saved)


def exporter_class(signal):
    if signal == "TRACES":
        from opentelemetry.exporter.otlp.proto.http.trace_exporter import OTLPSpanExporter as C
    elif signal == "LOGS":
        from opentelemetry.exporter.otlp.proto.http._log_exporter import OTLPLogExporter as C
    else:
        from opentelemetry.exporter.otlp.proto.http.metric_exporter import OTLPMetricExporter as C
    return C


def make_batch(rng, signal, tag, empty=True):
    """A batch and the message a receiver must decode from it."""
    from opentelemetry.exporter.otlp.proto.common._log_encoder import encode_logs
    from opentelemetry.exporter.otlp.proto.common.metrics_encoder import encode_metrics
    from opentelemetry.exporter.otlp.proto.common.trace_encoder import encode_spans
    from opentelemetry.sdk.resources import Resource

    n = rng.choice([0, 1, 2, 5, 30] if empty else [1, 2, 5])
    res = Resource({"tag": tag, "big": "".join(rng.choice("abcdefgh") for _ in range(150_000))} if rng.random() < 0.02 else {"tag": tag})
    if signal == "TRACES":
        from opentelemetry.sdk.trace import TracerProvider

        tracer = TracerProvider(resource=res, shutdown_on_exit=False).get_tracer("t" + tag)
        batch = []
        for i in range(n):
            s = tracer.start_span(f"s{i}", attributes={"i": i, "text": gen.string(rng)})
            s.end()
            batch.append(s._readable_span())
        return batch, encode_spans(batch), n
    if signal == "LOGS":
        from opentelemetry._logs import SeverityNumber
        from opentelemetry.sdk._logs import LoggerProvider, LogRecord
        from opentelemetry.sdk._logs import LogRecordProcessor

        batch = []

        class P(LogRecordProcessor):
            def emit(self, log_data):
                batch.append(log_data)

            def shutdown(self):
                pass

            def force_flush(self, timeout_millis=30000):
                return True

        prov = LoggerProvider(resource=res, shutdown_on_exit=False)
        prov.add_log_record_processor(P())
        logger = prov.get_logger("l" + tag)
        for i in range(n):
            logger.emit(LogRecord(timestamp=i + 1, trace_id=i, span_id=0, trace_flags=None, severity_text="x", severity_number=SeverityNumber.INFO, body=gen.string(rng), attributes={"i": i}, resource=res))
        return batch, encode_logs(batch), n
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader, MetricsData

    if n == 0:
        data = MetricsData([])
        return data, encode_metrics(data), 0
    reader = InMemoryMetricReader()
    m = MeterProvider([reader], resource=res, shutdown_on_exit=False).get_meter("m" + tag)
    c = m.create_counter("c")
    h = m.create_histogram("h")
    for i in range(n):
        c.add(i, {"i": i})
        h.record(i)
    data = reader.get_metrics_data()
    return data, encode_metrics(data), n


def decode(signal, data):
    from opentelemetry.proto.collector.logs.v1.logs_service_pb2 import ExportLogsServiceRequest
    from opentelemetry.proto.collector.metrics.v1.metrics_service_pb2 import ExportMetricsServiceRequest
    from opentelemetry.proto.collector.trace.v1.trace_service_pb2 import ExportTraceServiceRequest

    return {"TRACES": ExportTraceServiceRequest, "LOGS": ExportLogsServiceRequest, "METRICS": ExportMetricsServiceRequest}[signal].FromString(data)


def script(rng):
    import requests

    errors = [requests.exceptions.ConnectionError("refused"), requests.exceptions.ConnectTimeout("slow"), requests.exceptions.ReadTimeout("slow"), requests.exceptions.SSLError("bad"), requests.exceptions.ChunkedEncodingError("cut")]
    final = rng.choice([200, 200, 200, 201, 202, 204, 206, 299, 300, 304, 307, 399, 400, 401, 403, 404, 405, 413, 415, 418, 499, rng.choice(errors), 429])
    if rng.random() < 0.1:
        return [rng.choice([408, 500, 503])]
    k = rng.choice([0, 0, 0, 1, 1, 2, 3, 5])
    return [rng.choice([408, 500, 502, 503, 504, 599, rng.randrange(500, 600)]) for _ in range(k)] + [final]


def judge(case, signal, sent, attempts, result, raised, cut=False):
    """One export call against what went over the wire."""
    what = [x["answer"] for x in attempts]
    if raised is not None:
        case.fail("raised", f"{signal} export raised {raised!r} (answers {what})")
    case.check(attempts or cut, "not-sent", f"{signal} export sent nothing and returned {result}")
    case.observe("attempts", len(attempts))
    for x in attempts:
        m = decode(signal, x["data"])
        case.check(m == sent, "body", f"{signal}: decoded body differs from the batch", got=str(m)[:1500], want=str(sent)[:1500])
        r = x["request"]
        case.check(r.method == "POST", "method", f"{signal}: {r.method}")
        case.check(r.headers.get("Content-Type") == "application/x-protobuf", "content-type", f"{signal}: headers {dict(r.headers)}")
        case.check(int(r.headers.get("Content-Length", -1)) == len(r.body or b""), "content-length", f"{signal}: {r.headers.get('Content-Length')} for {len(r.body or b'')} bytes")
    ok = result.name == "SUCCESS"
    case.check(result.name in ("SUCCESS", "FAILURE"), "result", f"{result!r}")
    if attempts:
        last = what[-1]
        want = isinstance(last, int) and 200 <= last < 300
        case.check(ok == want, "verdict", f"{signal}: {result.name} after answers {what}")
    else:
        case.check(not ok, "verdict", f"{signal}: success without sending")
    case.observe("successes" if ok else "failures")
    for a, b in zip(attempts, attempts[1:]):
        case.check(not isinstance(a["answer"], int) or a["answer"] in RETRY or a["answer"] == 429, "retried-final-answer", f"{signal}: retried after {a['answer']} ({what})")
        case.observe("retries")
    gaps = [(b["t"] - a["t"]) / 1e9 for a, b in zip(attempts, attempts[1:])]
    for i, g in enumerate(gaps):
        case.check(0.05 < g <= 66, "backoff", f"{signal}: waited {gaps} between attempts")
        if i:
            case.check(g >= 1.3 * gaps[i - 1] or gaps[i - 1] >= 30, "backoff", f"{signal}: waits {gaps} do not grow exponentially")
    case.check(sum(gaps) < 600 and len(attempts) <= 12, "unbounded", f"{signal}: {len(attempts)} attempts, waits {gaps}")
    if attempts and isinstance(what[-1], int) and what[-1] in RETRY and not cut:
        case.check(sum(gaps) >= 15, "gave-up-early", f"{signal}: gave up after answers {what}, waits {gaps}")
        case.observe("gave_up")
    for a in what:
        if not isinstance(a, int):
            case.observe("transport_errors")
        elif 300 <= a < 400:
            case.observe("redirect_class")
        elif 400 <= a < 500 and a != 408:
            case.observe("client_errors")


def exchange(case):
    """Sequential exports against scripted answers, then shutdown."""
    rng = case.rng
    quiet.silence()
    signal = rng.choice(SIGNALS)
    wire = Wire()
    wire.install()
    s = sched.Scheduler(rng.random(), early_timer=0.0)
    out = []

    def main():
        from opentelemetry.exporter.otlp.proto.http import Compression

        wire.clock = lambda: s.now
        comp = rng.choice([Compression.NoCompression, Compression.Gzip, Compression.Deflate])
        ex = exporter_class(signal)(endpoint="http://collector:4318/x", compression=comp)
        for j in range(rng.choice([1, 2, 4])):
            batch, sent, n = make_batch(rng, signal, str(j))
            if n == 0:
                case.observe("empty_batches")
            sc = script(rng)
            wire.scripts = {sent.SerializeToString(): sc}
            wire.default = sc
            wire.log = []
            raised = result = None
            try:
                result = ex.export(batch)
            except Exception as exc:  # noqa: BLE001
                raised = exc
            out.append((sent, list(wire.log), result, raised, comp.value))
            case.observe("exports")
            case.observe({"TRACES": "spans", "LOGS": "logs", "METRICS": "metrics"}[signal] + "_batches")
        case.check(ex.force_flush(1000) is not False, "flush", "force_flush reported failure with nothing buffered")
        ex.shutdown()
        case.observe("shutdowns")
        for _ in range(rng.choice([0, 1, 2])):
            batch, sent, n = make_batch(rng, signal, "late")
            wire.log = []
            wire.default = [200]
            wire.scripts = {}
            r = ex.export(batch)
            case.check(not wire.log, "sent-after-shutdown", f"{signal}: an export after shutdown went over the wire")
            case.check(r.name == "FAILURE", "verdict-after-shutdown", f"{signal}: an export after shutdown returned {r}")
            case.observe("exports_after_shutdown")
            if rng.random() < 0.5:
                ex.shutdown()
                case.observe("second_shutdowns")

    try:
        with environment({}):
            s.run(main)
    finally:
        wire.remove()
    for m, t in wire.problems:
        case.fail(m, t)
    for sent, attempts, result, raised, comp in out:
        judge(case, signal, sent, attempts, result, raised)
        case.observe({"none": "plain"}.get(comp, comp))
        for x in attempts:
            case.check(x["encoding"] == (None if comp == "none" else comp), "compression", f"Content-Encoding {x['encoding']} with compression {comp}")
            if comp == "gzip":
                case.check(bytes(x["request"].body[:2]) == b"\x1f\x8b", "compression", "not gzip data")
    case.sig(signal, [[str(a["answer"]) for a in o[1]] + [o[4]] for o in out])


def concurrent(case):
    """Exports from several threads while another one shuts the exporter down."""
    rng = case.rng
    quiet.silence()
    signal = rng.choice(SIGNALS)
    wire = Wire()
    wire.install()
    s = sched.Scheduler(rng.random(), early_timer=0.0)
    done = []
    state = {}

    def main():
        wire.clock = lambda: s.now
        ex = exporter_class(signal)(endpoint="http://collector:4318/x")
        batches = [make_batch(rng, signal, str(j), empty=False) for j in range(rng.choice([1, 2, 3]))]
        for j, (b, sent, n) in enumerate(batches):
            wire.scripts[sent.SerializeToString()] = script(rng)

        def exporting(j):
            b, sent, n = batches[j]
            rec = {"sent": sent, "begin": s.now, "down_at_begin": "down" in state}
            try:
                rec["result"] = ex.export(b)
            except Exception as exc:  # noqa: BLE001
                rec["raised"] = exc
            rec["end"] = s.now
            done.append(rec)

        ts = [threading.Thread(target=exporting, args=(j,)) for j in range(len(batches))]
        delay = rng.choice([0, 0.5, 1.5, 2.5, 5, 20, None])

        def stopping():
            import time

            if delay:
                time.sleep(delay)
            ex.shutdown()
            state["down"] = s.now

        if delay is not None:
            ts.append(threading.Thread(target=stopping))
        rng.shuffle(ts)
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    try:
        with environment({}):
            s.run(main)
    finally:
        wire.remove()
    for m, t in wire.problems:
        case.fail(m, t)
    for _, exc in s.thread_exceptions:
        case.fail("raised", f"{signal}: {exc!r}")
    down = state.get("down")
    for rec in done:
        data = rec["sent"].SerializeToString()
        attempts = [x for x in wire.log if x["data"] == data]
        cut = down is not None and rec["end"] >= down
        if down is not None:
            late = [x for x in attempts if x["t"] > down + 5e8]
            case.check(not late, "sent-after-shutdown", f"{signal}: {len(late)} attempts up to {((late or [{'t': 0}])[-1]['t'] - down) / 1e9:.1f} s after shutdown() had returned (answers {[x['answer'] for x in attempts]})")
            if rec["down_at_begin"]:
                case.check(not attempts, "sent-after-shutdown", f"{signal}: an export begun after shutdown went over the wire")
            if cut and attempts and isinstance(attempts[-1]["answer"], int) and attempts[-1]["answer"] in RETRY:
                case.observe("shutdowns_during_backoff")
        if "result" in rec or "raised" in rec:
            judge(case, signal, rec["sent"], attempts, rec.get("result"), rec.get("raised"), cut=cut)
        case.observe("concurrent_exports")
    known = {r["sent"].SerializeToString() for r in done}
    case.check(all(x["data"] in known for x in wire.log), "body", "something other than the batches was sent")
    case.sig(s.signature())


TOKEN = "abcdefghijklmnopqrstuvwxyz"


def headers(rng, tag):
    """A header dict and its environment form."""
    d = {}
    parts = []
    for i in range(rng.choice([1, 2, 3])):
        k = rng.choice(["x-", "api-", ""]) + "".join(rng.choice(TOKEN) for _ in range(4)) + tag[:1]
        v = rng.choice(["v" + tag, "Bearer abc", "a b", "x/y;z", "100%", "k1=v1"])
        d[k] = v
        from urllib.parse import quote

        # a space needs no encoding: header lists are read liberally
        e = quote(v, safe="") if rng.random() < 0.6 or "%" in v or "," in v or ";" in v else v
        parts.append(rng.choice(["", " "]) + k + "=" + e + rng.choice(["", " "]))
    return d, ",".join(parts)


def config(case):
    """Settings: argument over signal-specific over general over default."""
    import requests

    from opentelemetry.exporter.otlp.proto.http import Compression

    rng = case.rng
    quiet.silence()
    signal = rng.choice(SIGNALS)
    env, kw = {}, {}
    want = {}
    other = rng.choice([x for x in SIGNALS if x != signal])
    arg_names = {"ENDPOINT": "endpoint", "HEADERS": "headers", "COMPRESSION": "compression", "TIMEOUT": "timeout", "CERTIFICATE": "certificate_file", "CLIENT_CERTIFICATE": "client_certificate_file", "CLIENT_KEY": "client_key_file"}
    for name in ENV:
        for level in ("general", "other", "signal", "arg"):
            if rng.random() < 0.6:
                continue
            tag = level + str(rng.randrange(100))
            if name == "ENDPOINT":
                base = rng.choice(["http://", "https://"]) + "h" + tag + rng.choice(["", ":4318", ":1/base", ":1/base/"])
                value = text = base
                full = base + ("" if base.endswith("/") else "/") + "v1/" + signal.lower() if level == "general" else base
                if full.count("/") == 2:
                    full += "/"
                eff = full
            elif name == "HEADERS":
                value, text = headers(rng, tag)
                eff = value
            elif name == "COMPRESSION":
                value = rng.choice(list(Compression))
                text = rng.choice([value.value, value.value.upper(), " " + value.value])
                eff = value.value
            elif name == "TIMEOUT":
                value = eff = rng.randrange(1, 100)
                text = str(value)
            else:
                value = eff = text = "/nowhere/" + name.lower() + tag
            if level == "general":
                env["OTEL_EXPORTER_OTLP_" + name] = text
            elif level == "other":
                env[f"OTEL_EXPORTER_OTLP_{other}_{name}"] = text
                continue
            elif level == "signal":
                env[f"OTEL_EXPORTER_OTLP_{signal}_{name}"] = text
            else:
                kw[arg_names[name]] = value
            want[name] = eff  # later levels win
            case.observe({"general": "config_env_general", "signal": "config_env_signal", "arg": "config_argument"}[level])
    if rng.random() < 0.3:
        ses = requests.Session()
        ses.headers["x-session"] = "mine"
        kw["session"] = ses
        case.observe("user_sessions")
    given = dict(kw.get("headers", {}))
    wire = Wire()
    wire.install()
    batch, sent, n = make_batch(rng, signal, "c")
    try:
        with environment(env):
            ex = exporter_class(signal)(**kw)
            if rng.random() < 0.5:
                os.environ["OTEL_EXPORTER_OTLP_ENDPOINT"] = "http://changed-later"
            result = ex.export(batch)
    finally:
        wire.remove()
    for m, t in wire.problems:
        case.fail(m, t)
    ctx = dict(env=env, kw={k: str(v) for k, v in kw.items()})
    judge(case, signal, sent, wire.log, result, None)
    case.check(result.name == "SUCCESS" and len(wire.log) == 1, "verdict", f"{result} after {len(wire.log)} attempts")
    r, k = wire.log[0]["request"], wire.log[0]["kw"]
    url = want.get("ENDPOINT", "http://localhost:4318/v1/" + signal.lower())
    if "ENDPOINT" not in want:
        case.observe("default_endpoints")
    case.check(r.url == url, "endpoint", f"{signal}: posted to {r.url} want {url}", **ctx)
    hs = {a.lower(): (b.decode() if isinstance(b, bytes) else b) for a, b in r.headers.items()}
    for a, b in want.get("HEADERS", {}).items():
        case.check(hs.get(a.lower()) == b, "header", f"{signal}: header {a!r} is {hs.get(a.lower())!r} want {b!r}", **ctx)
        case.observe("configured_headers")
    if "session" in kw:
        case.check(hs.get("x-session") == "mine", "session", "the given session was not used", **ctx)
    allowed = set(want.get("HEADERS", {})) | {"user-agent", "content-type", "content-encoding", "content-length", "accept", "accept-encoding", "connection", "x-session"}
    extra = set(hs) - {a.lower() for a in allowed}
    case.check(not extra, "header", f"{signal}: unexpected headers {sorted(extra)}", **ctx)
    comp = want.get("COMPRESSION", "none")
    case.check(hs.get("content-encoding") == (None if comp == "none" else comp), "compression", f"{signal}: Content-Encoding {hs.get('content-encoding')} want {comp}", **ctx)
    case.observe({"none": "plain"}.get(comp, comp))
    t = k["timeout"]
    case.check(t == want.get("TIMEOUT", 10), "timeout", f"{signal}: timeout {t} want {want.get('TIMEOUT', 10)}", **ctx)
    case.observe("configured_timeouts", "TIMEOUT" in want)
    case.check(k["verify"] == want.get("CERTIFICATE", True), "certificate", f"{signal}: verify {k['verify']} want {want.get('CERTIFICATE', True)}", **ctx)
    cc, ck = want.get("CLIENT_CERTIFICATE"), want.get("CLIENT_KEY")
    cert = (cc, ck) if cc and ck else cc
    case.check(k["cert"] == cert, "certificate", f"{signal}: client certificate {k['cert']} want {cert}", **ctx)
    case.observe("configured_certificates", bool(cert))
    case.check(kw.get("headers", {}) == given, "argument-changed", "the caller's headers were changed")
    case.sig(signal, sorted(env), sorted(kw))


WORKLOADS = [Workload("exchange", exchange, 900, 12000), Workload("concurrent", concurrent, 900, 12000), Workload("config", config, 900, 12000)]
