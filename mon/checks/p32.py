import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from mon import gen, quiet, sched
from mon import metrics as mm
from mon.checks.p31 import SIGNALS, environment, headers, make_batch
from mon.core import Workload

PROPERTY = "P32"
VENV = "pb5"
SCHED = True
REQUIRED = [
    "exports", "attempts", "successes", "failures", "retries", "server_delays", "exponential_delays", "gave_up", "final_codes", "hangs", "spans_batches", "logs_batches", "metrics_batches", "empty_batches", "shutdowns", "second_shutdowns",
    "exports_after_shutdown", "shutdown_while_exporting", "concurrent_exports", "split_exports", "split_requests", "split_points", "config_env_general", "config_env_signal", "config_argument", "secure", "insecure", "gzip", "deflate",
    "configured_metadata", "configured_timeouts", "certificates_read", "default_endpoints", "wire_exports", "wire_retries", "wire_metadata", "wire_failures",
]
RULE = (
    "The real exporters run over a recording gRPC channel (scripted status codes, retry delays, hanging calls) in virtual time, with concurrent exports and shutdowns under the schedule fuzzer and generated environments and arguments; "
    "size-split metric batches are recombined; fresh processes also export to a real in-process gRPC server with scripted codes; distinct = signal, script, configuration, schedule."
)
ASSUMPTIONS = [
    "the retryable codes are CANCELLED, DEADLINE_EXCEEDED, RESOURCE_EXHAUSTED, ABORTED, OUT_OF_RANGE, UNAVAILABLE, DATA_LOSS (as the exporters document them)",
    "asking for an insecure connection to an https endpoint is contradictory: it is secure, with any credentials",
    "an empty metric batch may be skipped when splitting is on; metadata keys are valid (lower case); header strings with malformed members are P17's and P38's",
]

RETRY = ["CANCELLED", "DEADLINE_EXCEEDED", "RESOURCE_EXHAUSTED", "ABORTED", "OUT_OF_RANGE", "UNAVAILABLE", "DATA_LOSS"]
FINAL = ["UNKNOWN", "INVALID_ARGUMENT", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "FAILED_PRECONDITION", "UNIMPLEMENTED", "INTERNAL", "UNAUTHENTICATED"]
PATHS = {
    "TRACES": "/opentelemetry.proto.collector.trace.v1.TraceService/Export",
    "LOGS": "/opentelemetry.proto.collector.logs.v1.LogsService/Export",
    "METRICS": "/opentelemetry.proto.collector.metrics.v1.MetricsService/Export",
}
RETRYINFO = "google.rpc.retryinfo-bin"


def retry_info(seconds):
    from google.protobuf.duration_pb2 import Duration
    from google.rpc.error_details_pb2 import RetryInfo

    return RetryInfo(retry_delay=Duration(seconds=int(seconds), nanos=int(round((seconds % 1) * 1e9)))).SerializeToString()


class Wire:
    """Stands for gRPC: channels it makes record every call and play a script."""

    def __init__(self):
        self.channels = []
        self.calls = []
        self.scripts = {}
        self.default = [("OK", None)]
        self.clock = lambda: 0
        self.ssl = []

    def answer(self, chan, path, raw, timeout, metadata):
        script = self.scripts.get(raw, self.default)
        n = sum(1 for c in self.calls if c["data"] == raw)
        a = script[min(n, len(script) - 1)]
        rec = {"data": raw, "path": path, "t": self.clock(), "timeout": timeout, "metadata": tuple(metadata or ()), "answer": a, "channel": chan, "closed": chan.closed}
        self.calls.append(rec)
        try:
            self.play(chan, rec, a, timeout)
        finally:
            rec["end"] = self.clock()

    def play(self, chan, rec, a, timeout):
        if chan.closed:
            raise ValueError("Cannot invoke RPC on closed channel!")
        code, delay = a
        if code == "HANG":
            ev = threading.Event()
            rec["hung"] = True
            chan.pending.append(ev)
            closed = ev.wait(timeout)
            chan.pending.remove(ev)
            rec["answer"] = ("CANCELLED" if closed else "DEADLINE_EXCEEDED", None)
            raise make_error(rec["answer"][0], None)
        if code == "SLOW":
            time.sleep(delay)
            return
        if code != "OK":
            raise make_error(code, delay)


def make_error(code, delay):
    import grpc

    class Error(grpc.RpcError, grpc.Call):
        def code(self):
            return getattr(grpc.StatusCode, code)

        def details(self):
            return "scripted"

        def trailing_metadata(self):
            md = (("x-other", "1"),)
            if isinstance(delay, bytes):
                return md + ((RETRYINFO, delay),)
            return md if delay is None else md + ((RETRYINFO, retry_info(delay)),)

        def initial_metadata(self):
            return ()

        def is_active(self):
            return False

        def time_remaining(self):
            return None

        def cancel(self):
            return False

        def add_callback(self, callback):
            return False

    return Error(code)


class Channel:
    def __init__(self, wire, target, credentials, options, compression):
        self.wire, self.target, self.credentials, self.options, self.compression = wire, target, credentials, options, compression
        self.closed = False
        self.pending = []
        wire.channels.append(self)

    def unary_unary(self, path, request_serializer=None, response_deserializer=None, **kw):
        def call(request, timeout=None, metadata=None, credentials=None, wait_for_ready=None, compression=None):
            self.wire.answer(self, path, request_serializer(request), timeout, metadata)
            return response_deserializer(b"")

        return call

    def close(self):
        self.closed = True
        for ev in list(self.pending):
            ev.set()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def subscribe(self, *a, **k):
        pass

    def unsubscribe(self, *a, **k):
        pass


wire_now = None


def install():
    """Put the recording channels in place before the exporters bind the names."""
    import grpc

    if getattr(grpc, "_mon_wire", False):
        return
    grpc._mon_wire = True

    def insecure_channel(target, options=None, compression=None):
        return Channel(wire_now, target, None, options, compression)

    def secure_channel(target, credentials, options=None, compression=None):
        return Channel(wire_now, target, credentials, options, compression)

    def ssl_channel_credentials(root_certificates=None, private_key=None, certificate_chain=None):
        return ("ssl", root_certificates, private_key, certificate_chain)

    grpc.insecure_channel, grpc.secure_channel, grpc.ssl_channel_credentials = insecure_channel, secure_channel, ssl_channel_credentials


def exporter_class(signal):
    install()
    if signal == "TRACES":
        from opentelemetry.exporter.otlp.proto.grpc.trace_exporter import OTLPSpanExporter as C
    elif signal == "LOGS":
        from opentelemetry.exporter.otlp.proto.grpc._log_exporter import OTLPLogExporter as C
    else:
        from opentelemetry.exporter.otlp.proto.grpc.metric_exporter import OTLPMetricExporter as C
    return C


def new_wire():
    global wire_now
    wire_now = Wire()
    return wire_now


def decode(signal, data):
    from mon.checks.p31 import decode as d

    return d(signal, data)


def script(rng, hang=True):
    def delay():
        return rng.choice([None, None, 0, 0.25, 1.5, 7, 20.000000001])

    if rng.random() < 0.12:
        return [(rng.choice(RETRY), rng.choice([None, 0.5]))]
    k = rng.choice([0, 0, 0, 1, 1, 2, 3, 5])
    out = [(rng.choice(RETRY), delay()) for _ in range(k)]
    if hang and rng.random() < 0.15:
        out.append(("HANG", None))
    if rng.random() < 0.1:
        out.append((rng.choice(RETRY), b"\xff\xff not a message"))
    out = out[:5]
    out.append(rng.choice([("OK", None)] * 3 + [("SLOW", 3)] + [(rng.choice(FINAL), delay())] * 2))
    return out


def judge(case, signal, sent, calls, result, raised, cut=False, crowd=False):
    what = [c["answer"] for c in calls]
    if raised is not None:
        case.fail("raised", f"{signal} export raised {raised!r} (answers {what})")
    case.check(calls or cut, "not-sent", f"{signal} export sent nothing and returned {result}")
    case.observe("attempts", len(calls))
    for c in calls:
        case.check(c["path"] == PATHS[signal], "method", f"{signal}: called {c['path']}")
        m = decode(signal, c["data"])
        case.check(m == sent, "message", f"{signal}: the message sent differs from the batch", got=str(m)[:1500], want=str(sent)[:1500])
    case.check(result.name in ("SUCCESS", "FAILURE"), "result", f"{result!r}")
    ok = result.name == "SUCCESS"
    if calls:
        want = what[-1][0] in ("OK", "SLOW") and not calls[-1]["closed"]
        case.check(ok == want, "verdict", f"{signal}: {result.name} after answers {what}")
    else:
        case.check(not ok, "verdict", f"{signal}: success without sending")
    case.observe("successes" if ok else "failures")
    last = None
    for i, (a, b) in enumerate(zip(calls, calls[1:])):
        code, d = a["answer"]
        case.check(code in RETRY, "retried-final-code", f"{signal}: retried after {code} ({what})")
        case.observe("retries")
        gap = (b["t"] - a["end"]) / 1e9
        if isinstance(d, (int, float)):
            # other exports may hold the exporter's lock meanwhile
            case.check(abs(gap - d) < 0.05 or (crowd and gap > d), "server-delay", f"{signal}: server asked for {d} s, next attempt after {gap:.6f} s")
            case.observe("server_delays")
        else:
            case.check(0.05 < gap <= 66 or (crowd and gap > 0.05), "backoff", f"{signal}: waited {gap:.6f} s after {code}")
            if not crowd and last is not None and last[0] == i - 1:
                case.check(gap >= 1.3 * last[1] or last[1] >= 30, "backoff", f"{signal}: waits do not grow exponentially: {last[1]} then {gap}")
            last = (i, gap)
            case.observe("exponential_delays")
    case.check(len(calls) <= 12, "unbounded", f"{signal}: {len(calls)} attempts")
    if calls and what[-1][0] in RETRY and not cut:
        case.check(len(calls) >= 4, "gave-up-early", f"{signal}: gave up after answers {what}")
        case.observe("gave_up")
    case.observe("final_codes", sum(1 for c, _ in what if c in FINAL))
    case.observe("hangs", sum(1 for c in calls if c.get("hung")))


def exchange(case):
    rng = case.rng
    quiet.silence()
    signal = rng.choice(SIGNALS)
    cls = exporter_class(signal)
    wire = new_wire()
    s = sched.Scheduler(rng.random(), early_timer=0.0)
    out = []

    def main():
        wire.clock = lambda: s.now
        timeout = rng.choice([None, 3])
        hdr = rng.choice([None, (("k", "v"), ("k", "w"), ("a-bin", b"\x00\xff"))])
        ex = cls(endpoint="http://collector:4317", timeout=timeout, headers=hdr)
        for j in range(rng.choice([1, 2, 4])):
            batch, sent, n = make_batch(rng, signal, str(j))
            case.observe("empty_batches", n == 0)
            wire.default = script(rng)
            wire.calls = []
            raised = result = None
            try:
                result = ex.export(batch)
            except Exception as exc:  # noqa: BLE001
                raised = exc
            out.append((sent, list(wire.calls), result, raised))
            for n, call in enumerate(wire.calls):
                case.check(call["timeout"] == (timeout or 10), "timeout", lambda: f"{signal}: attempt {n + 1} with timeout {call['timeout']} want {timeout or 10}")
                md = sorted((k, v) for k, v in call["metadata"] if k != "user-agent")
                case.check(md == sorted(hdr or ()), "metadata", lambda: f"{signal}: attempt {n + 1} with metadata {md} want {hdr}")
            case.observe("exports")
            case.observe({"TRACES": "spans", "LOGS": "logs", "METRICS": "metrics"}[signal] + "_batches")
        case.check(ex.force_flush(1000) is not False, "flush", "force_flush reported failure with nothing buffered")
        ex.shutdown()
        case.observe("shutdowns")
        case.check(all(c.closed for c in wire.channels), "channel-open", f"{signal}: shutdown left the channel open")
        for _ in range(rng.choice([0, 1, 2])):
            batch, sent, n = make_batch(rng, signal, "late")
            wire.calls, wire.default = [], [("OK", None)]
            r = ex.export(batch)
            case.check(not wire.calls, "sent-after-shutdown", f"{signal}: an export after shutdown called the server")
            case.check(r.name == "FAILURE", "verdict-after-shutdown", f"{signal}: an export after shutdown returned {r}")
            case.observe("exports_after_shutdown")
            if rng.random() < 0.5:
                ex.shutdown()
                case.observe("second_shutdowns")

    with environment({}):
        s.run(main)
    for sent, calls, result, raised in out:
        judge(case, signal, sent, calls, result, raised)
    case.sig(signal, [[str(c["answer"]) for c in o[1]] for o in out])


def concurrent(case):
    rng = case.rng
    quiet.silence()
    signal = rng.choice(SIGNALS)
    cls = exporter_class(signal)
    wire = new_wire()
    s = sched.Scheduler(rng.random(), early_timer=0.0)
    done = []
    state = {}

    def main():
        wire.clock = lambda: s.now
        ex = cls(endpoint="http://collector:4317", timeout=rng.choice([None, 60]))
        batches = [make_batch(rng, signal, str(j), empty=False) for j in range(rng.choice([1, 2, 3]))]
        for b, sent, n in batches:
            wire.scripts[sent.SerializeToString()] = script(rng)

        def exporting(j):
            b, sent, n = batches[j]
            rec = {"sent": sent, "down_at_begin": "down" in state}
            try:
                rec["result"] = ex.export(b)
            except Exception as exc:  # noqa: BLE001
                rec["raised"] = exc
            rec["end"] = s.now
            done.append(rec)

        ts = [threading.Thread(target=exporting, args=(j,)) for j in range(len(batches))]
        delay = rng.choice([0, 0.5, 1.5, 2.5, 5, 20, None])

        def stopping():
            if delay:
                time.sleep(delay)
            state.setdefault("asked", s.now)
            if signal == "TRACES" or rng.random() < 0.5:
                ex.shutdown()
            else:
                ex.shutdown(timeout_millis=rng.choice([2000, 10000]))
            state.setdefault("down", s.now)
            state.setdefault("calls", len(wire.calls))

        if delay is not None:
            ts.append(threading.Thread(target=stopping))
            if rng.random() < 0.2:
                ts.append(threading.Thread(target=stopping))
        rng.shuffle(ts)
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    with environment({}):
        s.run(main)
    for _, exc in s.thread_exceptions:
        case.fail("raised", f"{signal}: {exc!r}")
    if "down" in state:
        late = wire.calls[state["calls"] :]
        case.check(not late, "sent-after-shutdown", f"{signal}: {len(late)} calls after shutdown() had returned")
        case.check(all(c.closed for c in wire.channels), "channel-open", f"{signal}: shutdown left the channel open")
        case.check((state["down"] - state["asked"]) / 1e9 <= 31, "slow-shutdown", f"{signal}: shutdown took {(state['down'] - state['asked']) / 1e9} s")
    for rec in done:
        data = rec["sent"].SerializeToString()
        calls = [c for c in wire.calls if c["data"] == data]
        cut = "asked" in state and rec["end"] >= state["asked"]
        if rec["down_at_begin"]:
            case.check(not calls, "sent-after-shutdown", f"{signal}: an export begun after shutdown called the server")
        elif cut and calls:
            case.observe("shutdown_while_exporting")
        judge(case, signal, rec["sent"], calls, rec.get("result"), rec.get("raised"), cut=cut, crowd=True)
        case.observe("concurrent_exports")
    known = {r["sent"].SerializeToString() for r in done}
    case.check(all(c["data"] in known for c in wire.calls), "message", "something other than the batches was sent")
    case.sig(s.signature())


def config(case):
    import grpc

    rng = case.rng
    quiet.silence()
    signal = rng.choice(SIGNALS)
    cls = exporter_class(signal)
    wire = new_wire()
    env, kw, want = {}, {}, {}
    other = rng.choice([x for x in SIGNALS if x != signal])
    tmp = tempfile.mkdtemp(prefix="p32-")
    try:
        arg = {"ENDPOINT": "endpoint", "HEADERS": "headers", "COMPRESSION": "compression", "TIMEOUT": "timeout", "INSECURE": "insecure"}
        certs = {}
        for name in ("ENDPOINT", "HEADERS", "COMPRESSION", "TIMEOUT", "INSECURE"):
            for level in ("general", "other", "signal", "arg"):
                if rng.random() < 0.6:
                    continue
                tag = level + str(rng.randrange(100))
                if name == "ENDPOINT":
                    host = "h" + tag + rng.choice(["", ":4317"])
                    value = text = rng.choice(["http://", "https://", "", "grpc://"]) + host
                    if "://" not in value:
                        value = text = host = "h" + tag + ":4317"
                    eff = (value, host)
                elif name == "HEADERS":
                    d, text = headers(rng, tag)
                    value = rng.choice([d, list(d.items()), tuple(d.items()), text])
                    eff = dict(d)
                elif name == "COMPRESSION":
                    value = rng.choice([grpc.Compression.Gzip, grpc.Compression.Deflate, grpc.Compression.NoCompression])
                    text = rng.choice(["{}", "{}", " {} "]).format({0: "none", 1: "deflate", 2: "gzip"}[int(value)])
                    text = text.upper() if rng.random() < 0.2 else text
                    eff = value
                elif name == "TIMEOUT":
                    value = eff = rng.randrange(1, 100)
                    text = str(value)
                else:
                    value = eff = rng.random() < 0.5
                    text = rng.choice([str(value), str(value).lower(), str(value).upper()])
                if level == "general":
                    env["OTEL_EXPORTER_OTLP_" + name] = text
                elif level == "other":
                    env[f"OTEL_EXPORTER_OTLP_{other}_{name}"] = text
                    continue
                elif level == "signal":
                    env[f"OTEL_EXPORTER_OTLP_{signal}_{name}"] = text
                else:
                    kw[arg[name]] = value
                want[name] = eff
                case.observe({"general": "config_env_general", "signal": "config_env_signal", "arg": "config_argument"}[level])
        for level in ("general", "signal"):
            if rng.random() < 0.4:
                names = ["CERTIFICATE"] + [x for x in ("CLIENT_KEY", "CLIENT_CERTIFICATE") if rng.random() < 0.5]
                got = {}
                for x in names:
                    p = os.path.join(tmp, level + x)
                    got[x] = f"{level} {x} contents".encode()
                    with open(p, "wb") as f:
                        f.write(got[x])
                    env[f"OTEL_EXPORTER_OTLP_{'' if level == 'general' else signal + '_'}{x}"] = p
                certs = ("ssl", got["CERTIFICATE"], got.get("CLIENT_KEY"), got.get("CLIENT_CERTIFICATE"))
        creds = certs or ("ssl", None, None, None)
        if rng.random() < 0.2:
            kw["credentials"] = creds = ("ssl", b"given", None, None)
        endpoint, host = want.get("ENDPOINT", ("http://localhost:4317", "localhost:4317"))
        if endpoint.startswith("https"):
            insecure = False
        else:
            insecure = want.get("INSECURE", endpoint.startswith("http:"))
        batch, sent, n = make_batch(rng, signal, "c")
        with environment(env):
            ex = cls(**kw)
            result = ex.export(batch)
        ctx = dict(env=env, kw={k: str(v) for k, v in kw.items()})
        judge(case, signal, sent, wire.calls, result, None)
        case.check(len(wire.channels) == 1, "channels", f"{signal}: {len(wire.channels)} channels", **ctx)
        ch, call = wire.channels[0], wire.calls[0]
        case.observe("default_endpoints", "ENDPOINT" not in want)
        case.check(ch.target == host, "endpoint", f"{signal}: connected to {ch.target} want {host}", **ctx)
        case.check((ch.credentials is None) == insecure, "security", f"{signal}: insecure={ch.credentials is None} want {insecure} for {endpoint}", **ctx)
        case.observe("insecure" if insecure else "secure")
        if not insecure and not want.get("INSECURE"):
            case.check(ch.credentials == creds, "credentials", f"{signal}: credentials {ch.credentials} want {creds}", **ctx)
            case.observe("certificates_read", bool(certs) and "credentials" not in kw)
        comp = want.get("COMPRESSION", grpc.Compression.NoCompression)
        case.check((ch.compression or grpc.Compression.NoCompression) == comp, "compression", f"{signal}: compression {ch.compression} want {comp}", **ctx)
        case.observe({0: "plain", 1: "deflate", 2: "gzip"}[int(comp)])
        case.check(call["timeout"] == want.get("TIMEOUT", 10), "timeout", f"{signal}: timeout {call['timeout']} want {want.get('TIMEOUT', 10)}", **ctx)
        case.observe("configured_timeouts", "TIMEOUT" in want)
        md = list(call["metadata"])
        ua = [v for k, v in md if k == "user-agent"]
        case.check(len(ua) == 1 and ua[0].startswith("OTel-OTLP-Exporter-Python/"), "metadata", f"{signal}: user-agent {ua}", **ctx)
        rest = sorted((k, v) for k, v in md if k != "user-agent")
        case.check(rest == sorted(want.get("HEADERS", {}).items()), "metadata", f"{signal}: metadata {rest} want {want.get('HEADERS', {})}", **ctx)
        case.observe("configured_metadata", len(rest))
    finally:
        shutil.rmtree(tmp)
    case.sig(signal, sorted(env), sorted(kw))


def split(case):
    """Metric batches under max_export_batch_size, recombined."""
    from opentelemetry.exporter.otlp.proto.common.metrics_encoder import encode_metrics
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import MetricsData
    from opentelemetry.sdk.metrics.view import ExponentialBucketHistogramAggregation, View
    from opentelemetry.sdk.resources import Resource

    rng = case.rng
    quiet.silence()
    cls = exporter_class("METRICS")
    wire = new_wire()
    rms = []
    for r in range(rng.choice([1, 1, 2, 3])):
        pick, _ = mm.temporality(rng)
        reader = mm.reader_class()(preferred_temporality=pick)
        views = [View(instrument_name="e*", aggregation=ExponentialBucketHistogramAggregation())]
        prov = MeterProvider([reader], resource=Resource({"r": r}), views=views, shutdown_on_exit=False)
        for sc in range(rng.choice([1, 2, 3])):
            m = prov.get_meter(f"m{sc}", schema_url=f"http://s/{sc}")
            for i in range(rng.choice([0, 1, 3])):
                k = rng.choice([0, 1, 2, 5])
                which = rng.randrange(5)
                for j in range(k):
                    a = {"j": j}
                    if which == 0:
                        m.create_counter(f"c{i}", unit="u", description="d").add(j, a)
                    elif which == 1:
                        m.create_up_down_counter(f"u{i}").add(-j, a)
                    elif which == 2:
                        m.create_gauge(f"g{i}").set(j * 0.5, a)
                    elif which == 3:
                        m.create_histogram(f"h{i}", unit="s").record(j, a)
                    else:
                        m.create_histogram(f"e{i}").record(j + 1, a)
        prov.get_meter("obs").create_observable_gauge("og", [lambda o: [Observation(1, {"k": x}) for x in range(3)]])
        d = reader.take()
        if d is not None:
            rms.extend(d.resource_metrics)
    data = MetricsData(rms)
    full = encode_metrics(data)

    def points(msg):
        out = []
        for rm in msg.resource_metrics:
            for sm in rm.scope_metrics:
                for met in sm.metrics:
                    kind = met.WhichOneof("data")
                    body = getattr(met, kind) if kind else None
                    head = (rm.resource.SerializeToString(), rm.schema_url, sm.scope.SerializeToString(), sm.schema_url, met.name, met.unit, met.description, kind, getattr(body, "aggregation_temporality", None), getattr(body, "is_monotonic", None))
                    for p in body.data_points if body is not None else ():
                        out.append((head, p.SerializeToString()))
        return out

    before = points(full)
    limit = rng.choice([1, 1, 2, 3, 4, 5, 7, 10, len(before), len(before) + 1, max(1, len(before) - 1), 1000])
    limit = max(1, limit)
    failing = rng.random() < 0.4
    s = sched.Scheduler(rng.random(), early_timer=0.0)
    res = []

    def main():
        wire.clock = lambda: s.now
        ex = cls(endpoint="http://c:1", max_export_batch_size=limit)
        if failing:
            code = rng.choice(FINAL)
            bad = set(rng.sample(range(1 + len(before) // limit), 1))
            orig = wire.answer

            def answer(chan, path, raw, timeout, metadata):
                i = len(wire.calls)
                wire.scripts[raw] = [(code, None)] if i in bad else [("OK", None)]
                return orig(chan, path, raw, timeout, metadata)

            wire.answer = answer
        res.append(ex.export(data))

    with environment({}):
        s.run(main)
    result = res[0]
    sent = []
    for c in wire.calls:
        ps = points(decode("METRICS", c["data"]))
        case.check(len(ps) <= limit, "split-limit", f"{len(ps)} points in one request, limit {limit}")
        case.check(ps or not before, "split-empty", "an empty request was sent")
        sent += ps
        case.observe("split_requests")
    case.check(sorted(sent) == sorted(before), "split-conservation", f"{len(before)} points, {len(sent)} sent in {len(wire.calls)} requests (limit {limit}, results {[c['answer'][0] for c in wire.calls]})")
    bad = any(c["answer"][0] != "OK" for c in wire.calls)
    case.check((result.name == "SUCCESS") == (not bad), "verdict", f"{result} after {[c['answer'][0] for c in wire.calls]}")
    again = points(encode_metrics(data))
    case.check(again == before, "data-changed", "splitting changed the caller's metrics data")
    case.observe("split_exports")
    case.observe("split_points", len(before))
    case.sig(limit, len(before), failing, [len(rm.scope_metrics) for rm in rms])


SERVER = r'''
import json, sys, time, random
delays = []
time.sleep = lambda s: delays.append(s)
sys.path[:0] = [p for p in sys.argv[2].split(":") if p]
from concurrent.futures import ThreadPoolExecutor
import grpc, logging
logging.disable(logging.CRITICAL)
from mon.checks import p31, p32
rng = random.Random(json.loads(sys.argv[1]))
from opentelemetry.proto.collector.logs.v1 import logs_service_pb2_grpc as lg, logs_service_pb2 as lm
from opentelemetry.proto.collector.metrics.v1 import metrics_service_pb2_grpc as mg, metrics_service_pb2 as mmsg
from opentelemetry.proto.collector.trace.v1 import trace_service_pb2_grpc as tg, trace_service_pb2 as tm
state = {"script": [], "got": []}
def handler(response):
    class H:
        def Export(self, request, context):
            i = len(state["got"])
            state["got"].append((request, {k: v for k, v in context.invocation_metadata() if isinstance(v, str)}))
            code, delay = state["script"][min(i, len(state["script"]) - 1)]
            if code != "OK":
                context.set_code(getattr(grpc.StatusCode, code))
                if delay is not None:
                    context.set_trailing_metadata(((p32.RETRYINFO, p32.retry_info(delay)),))
            return response()
    return H()
server = grpc.server(ThreadPoolExecutor(4))
tg.add_TraceServiceServicer_to_server(handler(tm.ExportTraceServiceResponse), server)
lg.add_LogsServiceServicer_to_server(handler(lm.ExportLogsServiceResponse), server)
mg.add_MetricsServiceServicer_to_server(handler(mmsg.ExportMetricsServiceResponse), server)
port = server.add_insecure_port("127.0.0.1:0")
server.start()
p32.install = lambda: None
out = []
for n in range(24):
    signal = rng.choice(p31.SIGNALS)
    comp = rng.choice([None, grpc.Compression.Gzip, grpc.Compression.Deflate])
    hd, _ = p31.headers(rng, "w")
    ex = p32.exporter_class(signal)(endpoint=f"http://127.0.0.1:{port}", headers=hd, compression=comp, timeout=100)
    for j in range(2):
        state["script"] = [s for s in p32.script(rng, hang=False) if not isinstance(s[1], bytes) and s[0] != "SLOW"] or [("OK", None)]
        state["got"] = []
        del delays[:]
        batch, sent, k = p31.make_batch(rng, signal, str(n) + str(j))
        try:
            res = ex.export(batch).name
        except Exception as e:
            res = repr(e)
        out.append({"signal": signal, "script": state["script"], "result": res, "same": [r == sent for r, _ in state["got"]], "meta": [all(m.get(a) == b for a, b in hd.items()) for _, m in state["got"]], "n": len(state["got"]), "delays": list(delays)})
    ex.shutdown()
    state["got"] = []
    r = ex.export(batch).name
    out.append({"after": r, "n": len(state["got"])})
server.stop(None).wait()
ex = p32.exporter_class("TRACES")(endpoint=f"http://127.0.0.1:{port}", timeout=100)
del delays[:]
batch, sent, k = p31.make_batch(rng, "TRACES", "down")
try:
    res = ex.export(batch).name
except Exception as e:
    res = repr(e)
out.append({"down": res, "delays": list(delays)})
ex.shutdown()
print("RESULT " + json.dumps(out))
sys.stdout.flush()
import os
os._exit(0)
'''


def wire(case):
    """Fresh process: real exporters against a real gRPC server on the loopback."""
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = {k: v for k, v in os.environ.items() if not k.startswith("OTEL_")}
    r = subprocess.run([sys.executable, "-c", SERVER, json.dumps(case.rng.randrange(2**32)), ":".join([here] + [p for p in sys.path if p])], capture_output=True, text=True, timeout=600, env=env, cwd=here)
    line = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
    case.check(line, "process", f"the exporting process ended with {r.returncode}: {(r.stderr or r.stdout)[-1500:]}")
    sig = []
    for o in json.loads(line[0][7:]):
        if "down" in o:
            case.check(o["down"] == "FAILURE", "verdict", f"export to a stopped server: {o['down']}")
            case.observe("wire_failures")
            continue
        if "after" in o:
            case.check(o["after"] == "FAILURE" and o["n"] == 0, "sent-after-shutdown", f"{o}")
            continue
        case.check(all(o["same"]), "message", f"received message differs from the batch: {o}")
        case.check(all(o["meta"]), "metadata", f"configured metadata missing on the wire: {o}")
        codes = [s[0] for s in o["script"]]
        n = next((i + 1 for i, c in enumerate(codes) if c not in RETRY), None)
        if n is not None and n <= 6:
            case.check(o["n"] == n, "attempts", f"{o['n']} attempts want {n}: {o}")
            case.check(o["result"] == ("SUCCESS" if codes[n - 1] == "OK" else "FAILURE"), "verdict", f"{o}")
        else:
            case.check(o["result"] == "FAILURE", "verdict", f"{o}")
        case.check(len(o["delays"]) >= o["n"] - 1, "backoff", f"no wait between attempts: {o}")
        for (c, d), got in zip(o["script"], o["delays"]):
            if d is not None and c in RETRY:
                case.check(abs(got - d) < 1e-6, "server-delay", f"{o}")
        case.observe("wire_exports")
        case.observe("wire_retries", o["n"] - 1)
        case.observe("wire_metadata", len(o["meta"]))
        sig.append((o["signal"], codes))
    case.sig(sig)


WORKLOADS = [Workload("exchange", exchange, 900, 12000), Workload("concurrent", concurrent, 900, 12000), Workload("config", config, 900, 12000), Workload("split", split, 700, 9000), Workload("wire", wire, 8, 80)]
