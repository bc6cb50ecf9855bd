#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
SDK = "opentelemetry-sdk/src/opentelemetry/sdk/"
API = "opentelemetry-api/src/opentelemetry/"
EXP = "exporter/opentelemetry-exporter-"


def p(pid, title, statement, over, text, why, files, mech, technique):
    assert len(title) <= 80, (pid, len(title))
    P.append((
        {"id": pid, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}},
        " ".join(technique.split())))


TRE = SDK + "trace/export/__init__.py"
p("P01", "Batch span export is lossless, exactly-once and ordered until the queue is full",
  """Every sampled span that ends before shutdown of a batch span processor is handed to its exporter exactly once,
  unsampled spans are never handed over, and spans are lost only when the configured queue capacity is exceeded, at most
  one per overflow. Batches never exceed the configured maximum size, never overlap in time, are not modified while the
  exporter holds them, and a span that ended before another one began to end is exported no later than it.""",
  ["schedules", "inputs", "configurations"],
  """All interleavings of producer threads, the export worker, flushers and shutdown; all queue/batch/delay
  configurations; all exporter durations.""",
  """Tests drive one or a few fixed schedules with real sleeps; loss or duplication needs a particular preemption
  between the queue, the flush request and the worker's wait.""",
  [TRE], [("bounded queue and worker loop", TRE + " BatchSpanProcessor.on_end/worker/_export_batch")],
  """history oracle (conservation, exactly-once, order) over executions of the real processor under a randomized
  deterministic scheduler with virtual time""")
p("P02", "Batch span force_flush and shutdown are barriers",
  """When force_flush of a batch span processor (or of its provider) returns True before shutdown began, every span that
  ended before the call has already been through a completed export call. When shutdown returns, every accepted span that
  ended before the call has been exported, the exporter was shut down exactly once and after its last export, no export
  runs afterwards, and spans ended later are never exported.""",
  ["schedules", "inputs", "configurations"],
  "All interleavings of concurrent flushers, producers, the worker and shutdown, with slow and failing exporters.",
  "The tests call flush from one thread with an idle worker; the barrier only matters when flush races an export in progress.",
  [TRE], [("flush request hand-over", TRE + " force_flush/_get_and_unset_flush_request/worker"), ("drain on shutdown", TRE + " shutdown/_drain_queue")],
  "barrier oracle over call/return event histories recorded under the schedule fuzzer")
p("P03", "Ending spans never waits for the exporter; exporter faults never stall export",
  """Ending a span never blocks on a slow or stuck exporter, and force_flush gives up within its timeout. Without any flush,
  a span reaches the exporter within one schedule delay plus the time the exporter itself is busy, and an exporter that
  raises or reports failure never prevents the later spans from being exported or kills the pipeline.""",
  ["schedules", "fault_sequences", "configurations"],
  "All schedules with exporters that block, raise any exception or fail in any sequence; bounded progress in virtual time.",
  "Tests use one well-behaved exporter and wall-clock sleeps; deadlocks, lost wake-ups and dead workers need specific fault/timing sequences.",
  [TRE], [("worker wait/notify", TRE + " worker"), ("exporter fault isolation", TRE + " _export_batch")],
  "deadlock/livelock detection and bounded-progress oracle in virtual time under the schedule fuzzer with exporter fault injection")
LGE = SDK + "_logs/_internal/export/__init__.py"
p("P04", "Batch log export has the same delivery, barrier and liveness guarantees",
  """Every log record emitted before shutdown of a batch log record processor is handed to its exporter exactly once, in
  order, in serial batches no larger than the configured maximum, and is lost only when the queue capacity is exceeded.
  force_flush returning True and shutdown are barriers exactly as for spans (everything emitted before is exported, the
  exporter is shut down once, after its last export, and nothing is exported afterwards). Emitting never waits for the
  exporter, and a raising or failing exporter never stalls later records.""",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "All interleavings of emitters, worker, flushers and shutdown with slow, raising and failing exporters.",
  "Tests cover a handful of real-time schedules of a separate re-implementation of the batching loop.",
  [LGE], [("batch log worker", LGE + " BatchLogRecordProcessor.worker/emit/force_flush/shutdown")],
  "the P01-P03 history oracles over the log pipeline under the schedule fuzzer")
p("P05", "A forked child keeps exporting its own telemetry and none of its parent's",
  """After a process forks while spans, log records or metrics are in flight, the child does not export spans or log records that were
  pending in the parent, everything the child ends, emits or records afterwards is exported exactly once by the child through its own
  worker, and flush and shutdown work in the child without hanging. The parent still exports its own items exactly once, and
  span ids never repeat across the processes.""",
  ["crash_points", "schedules", "configurations"],
  "Forks at any moment relative to producers, the export worker and locks held by other threads.",
  "Tests fork once at a quiescent point.",
  [TRE, LGE, SDK + "metrics/_internal/export/__init__.py"], [("after-fork re-initialisation", TRE + " _at_fork_reinit"), ("log after-fork", LGE + " _at_fork_reinit"), ("reader after-fork", SDK + "metrics/_internal/export/__init__.py PeriodicExportingMetricReader._at_fork_reinit")],
  "real os.fork() runs with per-process event logs merged and checked for conservation and exactly-once")
p("P06", "Synchronous processors and processor fan-out reach every registered processor",
  """With a simple processor every ended sampled span and every emitted log record is exported in its own call before
  ending or emitting returns, and an exporter exception never reaches the application. Every registered span processor
  sees start and end of each span, and every log processor each record, exactly once and in registration order (sequential
  fan-out), including processors added while spans are running. Provider shutdown reaches every
  processor, flush returns True exactly when every processor flushed successfully in time, and the timeout is respected as a total.""",
  ["schedules", "inputs", "fault_sequences"],
  "All numbers of processors, concurrent spans, concurrent registration, failing and slow processors, sequential and concurrent fan-out.",
  "Tests use mocks with two or three processors from a single thread.",
  [SDK + "trace/__init__.py", TRE, LGE, SDK + "_logs/_internal/__init__.py"],
  [("span fan-out", SDK + "trace/__init__.py SynchronousMultiSpanProcessor/ConcurrentMultiSpanProcessor"), ("log fan-out", SDK + "_logs/_internal/__init__.py SynchronousMultiLogRecordProcessor/ConcurrentMultiLogRecordProcessor"), ("simple processors", TRE + " SimpleSpanProcessor")],
  "per-processor event-log oracle under the schedule fuzzer")
p("P07", "Exporters run with instrumentation suppressed and leave the context untouched",
  """While any exporter (span, log or metric; simple, batch or periodic) runs, the current context tells instrumentation to
  stay quiet, so telemetry about telemetry cannot feed back. Afterwards, whatever the exporter did (success, failure,
  exception), the context of the calling or worker thread is exactly what it was before.""",
  ["schedules", "fault_sequences"],
  "Every exporter call on every path (end, emit, batch, flush, shutdown drain, periodic tick), with exporters that raise.",
  "Tests check the flag once on the success path.",
  [TRE, LGE, SDK + "metrics/_internal/export/__init__.py", API + "context/__init__.py"],
  [("attach/detach around export", TRE + " SimpleSpanProcessor.on_end/_export_batch"), ("same for logs", LGE), ("same for metrics", SDK + "metrics/_internal/export/__init__.py _receive_metrics")],
  "context monitor in the exporter and around every call, with exporter fault injection")
TR = SDK + "trace/__init__.py"
p("P08", "An ended span reports exactly what was recorded, and nothing after its end",
  """What processors and exporters read from an ended span is exactly the effect of the calls made on it before end: name,
  kind, identity, parent, resource, scope, attributes (last write wins), events and links in order, timestamps and the
  status under the 'Ok is final, Unset is ignored, description only for errors' rule. Calls after end change nothing, a
  second end is ignored and produces no second export, and end callbacks happen exactly once even if threads race to end it.""",
  ["programs", "schedules", "inputs"],
  "All sequences of span operations with all values, from one or several threads, before and after end.",
  "Tests exercise each setter in isolation and never compose long sequences or race end().",
  [TR, API + "trace/span.py"], [("span state", TR + " Span"), ("read-only view", TR + " ReadableSpan")],
  "reference-model monitor over random span programs, single-threaded and under the schedule fuzzer")
p("P09", "Span limits bound attributes, events and links and count every drop",
  """A span never holds more attributes, events, links, attributes per event or per link, nor longer attribute strings, than
  the configured limits (span-specific limits override general ones, then environment variables, then defaults). The
  newest entries are kept, and held plus reported dropped equals what was recorded. Limits never fail or alter
  the caller's own objects.""",
  ["inputs", "configurations", "histories"],
  "All limit combinations (zero, small, unset, environment-provided) and all operation sequences crossing them.",
  "Tests check each limit with one overflow.",
  [TR, API + "attributes/__init__.py", SDK + "util/__init__.py"], [("limits", TR + " SpanLimits"), ("bounded containers", SDK + "util/__init__.py BoundedList"), ("bounded attributes", API + "attributes/__init__.py BoundedAttributes")],
  "reference-model monitor (bounded map/list with drop counters) over random operation histories")
AT = API + "attributes/__init__.py"
p("P10", "Attribute values are validated, truncated and isolated from the caller",
  """On spans, events, links, log records, resources and scopes, an attribute is kept only if its key is a non-empty string
  and its value a bool, int, float, string, or a same-typed sequence of those (None allowed inside); anything else is
  dropped with a warning and never raises, and the valid attributes next to it survive unchanged. Strings, alone or
  inside sequences, are cut to the length limit, undecodable bytes are dropped, decodable bytes become strings, and later mutation
  of the caller's containers never changes recorded telemetry.""",
  ["inputs", "schedules"],
  "All Python values as keys and values, nested and hostile; concurrent writers on one attribute map.",
  "Tests list a few types.",
  [AT], [("cleaning", AT + " _clean_attribute"), ("bounded map", AT + " BoundedAttributes")],
  "differential oracle against an independent reference cleaner over generated values; map invariants under the schedule fuzzer")
SA = SDK + "trace/sampling.py"
p("P11", "Sampling decisions are deterministic, ratio-faithful and parent-consistent",
  """A trace-id-ratio sampler decides only from the trace id, samples exactly the ids whose low 64 bits lie below
  ratio x 2^64, so a higher ratio keeps every trace a lower one keeps, and a parent-based sampler uses the delegate chosen by
  parent presence, remoteness and sampled flag. The span created from a decision is non-recording for DROP, recording for
  RECORD_ONLY, recording and sampled for RECORD_AND_SAMPLE, and carries the decision's attributes and trace state; only
  sampled spans reach exporters. Sampler configuration by name and argument falls back safely on invalid values.""",
  ["inputs", "configurations"],
  "All trace ids, ratios in [0,1] including extremes, all parent combinations, custom samplers returning any decision.",
  "Tests sample a few ids and ratios.",
  [SA, TR], [("ratio bound", SA + " TraceIdRatioBased"), ("parent-based", SA + " ParentBased"), ("start_span", TR + " Tracer.start_span")],
  "reference decision function evaluated against real tracers over generated ids, ratios and parents")
p("P12", "Parent/child topology and trace identity are preserved",
  """A span started with a valid parent in its context shares the parent's trace id and trace state (unless the sampler changes it) and has the
  parent's context as parent; without one, or with an invalid parent, it starts a new trace. Ids are valid, non-zero,
  within 128/64 bits and unique per span even under concurrency; the remote flag is never inherited by a child, and the
  current span in one thread or task never becomes the parent in another unless the context is passed.""",
  ["schedules", "programs", "inputs"],
  "All programs of nested/explicit-parent spans over threads, asyncio tasks and custom id generators.",
  "Tests check single parent-child pairs.",
  [TR, API + "trace/__init__.py", API + "context/contextvars_context.py"], [("start_span", TR + " Tracer.start_span"), ("current span", API + "trace/propagation/__init__.py"), ("id generator", SDK + "trace/id_generator.py")],
  "reference tree model over random multi-thread and asyncio span programs")
p("P13", "Current-span scopes restore the context and record exceptions exactly once",
  """use_span / start_as_current_span (context manager in any body incl. generators, decorator of sync and async functions) make the span current inside and restore
  the previous context on every exit. An escaping exception propagates unchanged, is recorded as exactly one
  'exception' event with its type, message and stack trace when recording is enabled, sets an error status when enabled,
  unless already Ok, and the span is ended exactly when asked to, whether or not an exception escapes.""",
  ["programs", "inputs", "fault_sequences"],
  "All nestings, exit paths, exception classes (including ones whose str() fails) and flag combinations.",
  "Tests cover each flag with one exception.",
  [API + "trace/__init__.py", TR, API + "util/_decorator.py"], [("use_span", API + "trace/__init__.py use_span"), ("start_as_current_span", TR + " Tracer.start_as_current_span"), ("record_exception", TR + " Span.record_exception/__exit__")],
  "scope-stack monitor over random nested programs with injected exceptions")
CX = API + "context/__init__.py"
p("P14", "Contexts are immutable and isolated between execution units",
  """Setting a value returns a new context and never changes an existing one; a key created by create_key never collides
  with another key. attach makes a context current and detach with its token restores exactly the previous one, in any
  well-nested order; detach with a wrong or foreign token never raises, and what one thread or asyncio task attaches is never visible
  in another. The context runtime named by OTEL_PYTHON_CONTEXT is used, and the default one, with an error logged, if that cannot be found or loaded.""",
  ["programs", "schedules"],
  "All attach/detach programs over threads, asyncio tasks and executors.",
  "Tests run a few linear sequences.",
  [CX, API + "context/context.py", API + "context/contextvars_context.py"], [("context API", CX), ("contextvars runtime", API + "context/contextvars_context.py")],
  "shadow-stack monitor over random attach/detach programs in threads and tasks")
TC = API + "trace/propagation/tracecontext.py"
p("P15", "W3C traceparent propagation round-trips and rejects malformed headers",
  """Injecting any valid span context and extracting the result yields the same trace id, span id, flags and trace state,
  marked remote, and injected headers always match the W3C grammar; an invalid span context injects nothing. Extracting any malformed
  or hostile carrier never raises and leaves the given context unchanged, and a header is accepted only if it is
  well-formed with non-zero ids and a supported version. A bad tracestate never discards a good traceparent.""",
  ["inputs"],
  "All span contexts and all carrier contents, missing, repeated, oversized or mutated.",
  "Tests list a few malformed headers.",
  [TC], [("propagator", TC + " TraceContextTextMapPropagator")],
  "round-trip and grammar oracles (independent W3C parser) over generated and mutated headers")
SP = API + "trace/span.py"
p("P16", "TraceState stays a valid, immutable, ordered W3C list",
  """Every TraceState holds only well-formed, distinct keys with well-formed values, at most 32, whatever it was built from.
  add, update and delete return new objects and leave the original alone; updated or added entries come first, all
  other entries keep their order, and an invalid or impossible operation returns an equal trace state. Serialising and parsing is the identity, and
  parsing arbitrary headers never raises.""",
  ["inputs", "programs"],
  "All operation sequences and all header strings.",
  "Tests cover single operations.",
  [SP], [("trace state", SP + " TraceState")],
  "reference-model monitor (independent ordered list with the W3C grammar) over random operation programs")
p("P17", "Baggage is immutable and round-trips through the W3C header",
  """Setting, removing or clearing baggage returns a new context and never changes an existing one, and the returned
  mapping is read-only. Entries injected into a carrier and extracted again come back equal for every valid name and every
  string value within the documented size limits, non-string values as their string form. Extraction never raises, skips
  malformed or oversized entries without losing the valid ones, and never exceeds 180 pairs, 4096 bytes per pair or 8192
  bytes in total.""",
  ["inputs", "programs"],
  "All names, values (any unicode), carriers and operation sequences.",
  "Tests cover a few literal headers.",
  [API + "baggage/__init__.py", API + "baggage/propagation/__init__.py"], [("baggage API", API + "baggage/__init__.py"), ("propagator", API + "baggage/propagation/__init__.py")],
  "reference-model and round-trip oracle over generated baggage and mutated headers")
p("P18", "B3, Jaeger and composite propagation round-trip and tolerate bad carriers",
  """Injecting a valid span context with the B3 (single or multi header) or Jaeger propagator and extracting it yields the
  same trace id, span id and sampling decision, marked remote, and Jaeger baggage round-trips; an invalid span context injects nothing.
  Hostile or malformed carriers never raise and never install an invalid span context. The composite propagator runs every
  member in order over the same carrier, and every header a propagator writes (except per-key Jaeger baggage) is in its fields.""",
  ["inputs", "configurations"],
  "All span contexts, header mutations, propagator combinations and orders.",
  "Tests list some headers per propagator.",
  ["propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py", "propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py", API + "propagators/composite.py"],
  [("B3", "propagators/b3"), ("Jaeger", "propagators/jaeger"), ("composite", API + "propagators/composite.py")],
  "round-trip, no-op and fields oracles over generated span contexts and mutated carriers")
AG = SDK + "metrics/_internal/aggregation.py"
p("P19", "Sums conserve every measurement across threads, collections and readers",
  """For counters and up-down counters, per attribute set and reader, the delta points of successive collections add up to
  exactly what was recorded, and a cumulative point equals everything recorded so far, however recording threads,
  collections and several readers interleave. Delta intervals are contiguous and do not overlap, cumulative start times
  never move, negative counter measurements are ignored, monotonic flags match the instrument, and no attribute set is
  reported twice or mixed with another.""",
  ["schedules", "histories", "configurations"],
  "All interleavings of recorders and collectors, all temporality configurations and attribute sets.",
  "Tests collect from one thread at fixed points.",
  [AG, SDK + "metrics/_internal/_view_instrument_match.py", SDK + "metrics/_internal/metric_reader_storage.py", SDK + "metrics/_internal/measurement_consumer.py"],
  [("sum aggregation", AG + " _SumAggregation"), ("per-attribute storage", SDK + "metrics/_internal/_view_instrument_match.py")],
  "conservation oracle over recorded add/collect histories under the schedule fuzzer")
p("P20", "Explicit-bucket histograms count every value in the right bucket",
  """For every collection of an explicit-bucket histogram, the bucket counts sum to the count, each recorded value is counted
  exactly once in the bucket whose bounds (lower exclusive, upper inclusive) contain it, and sum, min and max are those of the recorded
  values, per attribute set, for delta and cumulative temporality. Concurrency between recording and collecting never loses,
  duplicates or tears a measurement, and bounds come from the view, else from the instrument's advisory, else the default.""",
  ["schedules", "inputs", "histories", "configurations"],
  "All finite values, boundaries, temporalities, and interleavings of record and collect.",
  "Tests use a few values and no concurrent collection.",
  [AG], [("explicit histogram", AG + " _ExplicitBucketHistogramAggregation")],
  "reference histogram recomputed from the recorded history, single-threaded and under the schedule fuzzer")
EH = SDK + "metrics/_internal/exponential_histogram/"
p("P21", "Exponential histograms keep every value in its bucket within the size limit",
  """For every collection of an exponential histogram, zero count plus all bucket counts equals the count, every value lies in
  the bucket with its index for the reported scale (base-2 exponential bounds), negative values in the negative range, the
  number of buckets per range never exceeds the configured maximum, and scale never exceeds the configured maximum nor is
  needlessly reduced. Sum, min and max equal those of the recorded values, and cumulative points cover everything recorded
  since the start, across any number of collections.""",
  ["inputs", "histories", "configurations"],
  "All finite doubles and ints incl. subnormal, huge, zero, negative; all size/scale configurations; all collect points; delta and cumulative.",
  "Tests compare a few literal value lists.",
  [AG, EH + "buckets.py", EH + "mapping/logarithm_mapping.py", EH + "mapping/exponent_mapping.py"],
  [("exponential aggregation", AG + " _ExponentialBucketHistogramAggregation"), ("mappings", EH + "mapping/"), ("buckets", EH + "buckets.py")],
  "exact rational bucket-index oracle and conservation checks over generated value streams")
p("P22", "Gauges and observable instruments report the values callbacks produced",
  """A gauge reports, per attribute set, the last value set before the collection, and reports nothing when nothing was set since the previous
  collection. At each collection every observable callback is invoked exactly once per reader and
  each observation appears exactly once; an observable counter's cumulative points equal the observed values and its delta points the
  differences. A callback that raises never affects other callbacks, instruments or the application, and the
  collection still reports everything else.""",
  ["histories", "fault_sequences", "configurations"],
  "All sequences of observations, missing and reappearing attribute sets, raising callbacks, several readers and temporalities.",
  "Tests observe a fixed sequence with one reader.",
  [AG, SDK + "metrics/_internal/measurement_consumer.py", SDK + "metrics/_internal/instrument.py"],
  [("last value", AG + " _LastValueAggregation"), ("callbacks", SDK + "metrics/_internal/instrument.py _Asynchronous.callback"), ("async collection", SDK + "metrics/_internal/measurement_consumer.py collect")],
  "reference-model monitor over random observation/collection histories with several readers")
p("P23", "Views select, rename, filter and drop without mixing streams",
  """An instrument feeds exactly the views whose selectors all match it (name wildcard, type, unit, meter name, version and schema URL), and the default stream only if none matches.
  A stream has the view's name, description and aggregation where given, otherwise the instrument's and what its reader prefers for the instrument's class, keeps only the allowed
  attribute keys while conserving the total of merged measurements, and a drop aggregation produces nothing. Other
  instruments and streams are never affected, and no view makes creating or recording raise.""",
  ["configurations", "inputs"],
  "All combinations of view selectors, attribute filters, aggregations, instruments and meters.",
  "Tests cover single views.",
  [SDK + "metrics/_internal/view.py", SDK + "metrics/_internal/metric_reader_storage.py", SDK + "metrics/_internal/_view_instrument_match.py"],
  [("matching", SDK + "metrics/_internal/view.py View._match"), ("storage selection", SDK + "metrics/_internal/metric_reader_storage.py")],
  "independent view-selection model compared with collected streams over generated configurations")
p("P24", "Exemplars are real, recent and bounded measurements of their own data point",
  """Every exemplar of a data point is one measurement actually offered to that point: same value, its filtered-out attributes,
  the trace and span id that were current when it was recorded (none if none), and a timestamp not later than the
  collection. Exemplars appear if and only if the configured filter admits a measurement, their number never exceeds the reservoir's size,
  histogram exemplars fall in distinct buckets, and collection empties the reservoir so an exemplar
  is reported once. With the filter off there are none, and exemplars never change the aggregated values.""",
  ["histories", "schedules", "configurations"],
  "All recording histories under sampled, unsampled and absent spans, all filters and reservoirs, across collections.",
  "Tests offer a few measurements to one reservoir.",
  [SDK + "metrics/_internal/exemplar/exemplar_reservoir.py", SDK + "metrics/_internal/exemplar/exemplar_filter.py", SDK + "metrics/_internal/_view_instrument_match.py"],
  [("reservoirs", SDK + "metrics/_internal/exemplar/exemplar_reservoir.py"), ("filters", SDK + "metrics/_internal/exemplar/exemplar_filter.py")],
  "provenance oracle: unique measurement values traced back to their recording context")
p("P25", "Instruments and meters have one identity, even when created concurrently",
  """Asking a meter again for an instrument with the same name (case-insensitive), kind, unit and description returns the one that
  exists; a different kind, unit or description yields a distinct stream, a different bucket advisory only a warning, and no measurement is lost. Meters, tracers and loggers are identified by
  name, version, schema URL and attributes. Creating them from many threads at once never raises, never duplicates a stream, and
  measurements through any returned handle are collected; invalid names or units are reported, not recorded silently as other instruments.""",
  ["schedules", "inputs"],
  "All interleavings of concurrent creation, recording and collection; all name/unit/description combinations.",
  "Tests create instruments sequentially.",
  [SDK + "metrics/_internal/__init__.py", API + "metrics/_internal/__init__.py"],
  [("instrument registry", API + "metrics/_internal/__init__.py Meter._register_instrument"), ("meter registry", SDK + "metrics/_internal/__init__.py MeterProvider.get_meter")],
  "identity model over creation histories, plus concurrent creation under the schedule fuzzer")
MX = SDK + "metrics/_internal/export/__init__.py"
p("P26", "Periodic metric export delivers every measurement on schedule and at shutdown",
  """A periodic exporting reader exports a collection once per interval, collections and exports never overlap, and force_flush and
  shutdown export everything recorded before the call. Shutdown performs a final export, then shuts the exporter down exactly once, and nothing is exported afterwards.
  An exporter that raises, fails or is slow, or a failing callback, never stops later exports, and with delta temporality the exported deltas add up to what was recorded.""",
  ["schedules", "fault_sequences", "configurations"],
  "All schedules of recorders, ticker, flush and shutdown; exporters that raise, fail or block.",
  "Tests use real time with one quiet exporter.",
  [MX], [("ticker", MX + " PeriodicExportingMetricReader._ticker"), ("export", MX + " _receive_metrics")],
  "history oracle (conservation, serial export, bounded period) in virtual time under the schedule fuzzer")
p("P27", "Provider flush and shutdown reach every reader and are final",
  """Flushing a meter provider collects every registered reader and shutting it down shuts every reader down, each exactly once,
  even if some of them fail, and a failing one is reported to the caller rather than hidden. After shutdown instruments stay safe to use, nothing is recorded or exported any more, and a second shutdown of any
  provider (traces, metrics, logs) is a warning-only no-op; getting a meter, tracer or logger after shutdown never raises.""",
  ["schedules", "fault_sequences"],
  "All numbers of readers/processors, failing members, concurrent shutdown, use after shutdown.",
  "Tests shut down one reader once.",
  [SDK + "metrics/_internal/__init__.py", TR, SDK + "_logs/_internal/__init__.py"],
  [("meter provider", SDK + "metrics/_internal/__init__.py MeterProvider.shutdown/force_flush"), ("tracer provider", TR + " TracerProvider.shutdown")],
  "lifecycle monitor over random programs with failing members under the schedule fuzzer")
OC = EXP + "otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/"
p("P28", "OTLP trace encoding is faithful and grouped by resource and scope",
  """Encoding any batch of ended spans to OTLP and decoding the wire bytes yields every span exactly once with the same ids, parent,
  name, kind, times, attributes, events, links, dropped counts, trace state, remote-parent flags and status, grouped under its own resource and scope with their
  schema URLs. Every representable attribute value decodes to an equal value, and one unencodable attribute never loses the span or its other
  attributes.""",
  ["inputs"],
  "All spans the SDK can produce: any attribute types, unicode, limits, resources, scopes, statuses.",
  "Tests compare two hand-written batches.",
  [OC + "trace_encoder/__init__.py", OC + "__init__.py"], [("span encoder", OC + "trace_encoder/__init__.py"), ("value encoder", OC + "__init__.py _encode_value")],
  "independent decoder over serialized protobuf compared with the source spans, on generated batches")
p("P29", "OTLP log encoding is faithful and grouped by resource and scope",
  """Encoding any batch of emitted log records to OTLP and decoding the wire bytes yields every record exactly once with the same body
  (scalars, bytes, nested lists and maps), attributes, timestamps, severity, trace and span ids, flags and dropped count, grouped
  under its own resource and scope. Absent optional fields are encoded as absent and never fail the batch.""",
  ["inputs"],
  "All log records accepted by the logger, with any body and any subset of fields.",
  "Tests compare a few literal records.",
  [OC + "_log_encoder/__init__.py", OC + "__init__.py"], [("log encoder", OC + "_log_encoder/__init__.py")],
  "independent decoder compared with the source records, on generated batches")
p("P30", "OTLP metric encoding is faithful for every aggregation and temporality",
  """Encoding any collected metrics data to OTLP and decoding the wire bytes yields every metric and data point exactly once, under its own resource and
  scope, with the same name, unit, description, type, temporality, monotonicity, times, attributes, value type and values, bucket bounds and
  counts, exponential scale, offsets and zero count, min/max and exemplars. The exporter's temporality and aggregation
  preferences (constructor or environment) decide what the reader produces.""",
  ["inputs", "configurations"],
  "All metrics data a reader can collect; all preference configurations.",
  "Tests compare one literal message per kind.",
  [OC + "metrics_encoder/__init__.py"], [("metrics encoder", OC + "metrics_encoder/__init__.py"), ("preferences", OC + "metrics_encoder/__init__.py OTLPMetricExporterMixin")],
  "independent decoder compared with the collected data, on generated metrics pipelines")
OH = EXP + "otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/"
p("P31", "OTLP/HTTP exporters report honestly, retry only retryable failures, stop cleanly",
  """An OTLP/HTTP exporter (traces, logs, metrics) posts each batch to the configured endpoint with the configured headers and
  compression so that the decoded body equals the batch, reports success only after a 2xx response, retries retryable responses with
  bounded exponential backoff and reports failure for anything else without raising. After shutdown nothing is sent, and signal-specific
  settings override general ones, constructor arguments override both.""",
  ["fault_sequences", "configurations"],
  "All response/fault sequences, header, endpoint, compression and timeout configurations.",
  "Tests mock one or two responses.",
  [OH + "trace_exporter/__init__.py", OH + "_log_exporter/__init__.py", OH + "metric_exporter/__init__.py"], [("export loop", OH + "trace_exporter/__init__.py OTLPSpanExporter.export")],
  "recording HTTP transport with scripted responses in virtual time; request and verdict oracle")
OG = EXP + "otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/"
p("P32", "OTLP/gRPC exporters report honestly, retry only retryable codes, stop cleanly",
  """An OTLP/gRPC exporter (traces, logs, metrics) sends each batch so that the received message equals the batch, with the
  configured endpoint, metadata, compression and timeout, reports success only after an OK reply, retries exactly the retryable status codes with the
  server's or bounded exponential delay and reports failure for the rest without raising. Metric batches split by size carry every
  data point exactly once within the limit. After shutdown nothing is sent.""",
  ["fault_sequences", "configurations", "inputs"],
  "All status/fault sequences, batch sizes and configurations.",
  "Tests script a few status codes.",
  [OG + "exporter.py", OG + "metric_exporter/__init__.py", OG + "trace_exporter/__init__.py", OG + "_log_exporter/__init__.py"], [("export loop", OG + "exporter.py OTLPExporterMixin._export"), ("batch split", OG + "metric_exporter/__init__.py _split_metrics_data")],
  "real in-process gRPC server and scripted stubs with call logs; delivery, retry and conservation oracle")
PM = EXP + "prometheus/src/opentelemetry/exporter/prometheus/"
p("P33", "Prometheus scrapes expose every data point once in valid exposition format",
  """Every scrape exposes exactly one sample per data point of each counter, up-down counter, gauge and histogram, with the right value, a sanitized valid
  name with unit and type suffixes, all attributes as labels (colliding sanitized keys merged), cumulative
  non-decreasing buckets ending in +Inf equal to the count, plus target info. The text is parseable for any instrument names, units, attribute keys and values, and
  concurrent or repeated scrapes and flushes never lose, duplicate or mix samples.""",
  ["inputs", "schedules", "configurations"],
  "All instrument names, units, attributes and values; all interleavings of recording, scraping and flushing.",
  "Tests compare a few literal exposures.",
  [PM + "__init__.py", PM + "_mapping.py"], [("collector", PM + "__init__.py _CustomCollector"), ("mapping", PM + "_mapping.py")],
  "independent exposition parser compared with the recorded measurements, sequential and concurrent")
ZJ = EXP + "zipkin-json/src/opentelemetry/exporter/zipkin/"
p("P34", "Zipkin encoding is faithful in every format and never drops a span",
  """Every span of a batch appears exactly once in the Zipkin payload (JSON v1, JSON v2, protobuf) with the same ids, parent, name,
  microsecond timestamp and duration, kind, tags for attributes, scope, resource and status, annotations for events, the local endpoint and the sampled/debug flag; attribute values
  are truncated to the configured length. The exporter posts it once to the configured endpoint, reports success only for a success response,
  and exports nothing after shutdown.""",
  ["inputs", "configurations"],
  "All spans the SDK can produce, all formats and value-length limits.",
  "Tests compare a few literal spans.",
  [ZJ + "encoder/__init__.py", ZJ + "json/v1/__init__.py", ZJ + "json/v2/__init__.py", EXP + "zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/v2/__init__.py"],
  [("encoders", ZJ + "encoder/__init__.py"), ("proto encoder", "exporter/zipkin/proto/http/v2")],
  "independent decoders for the three formats compared with the source spans on generated batches")
p("P35", "OpenCensus exporter and shim preserve spans, parents, attributes and status",
  """The OpenCensus exporter translates every span of a batch exactly once with the same ids, name, kind, times, attributes, events, links, status and
  trace state. Spans started through the OpenCensus shim become OpenTelemetry spans with the same name, attributes, annotations, kind, status and
  nesting, and the current-span context stays consistent between both APIs.""",
  ["inputs", "programs"],
  "All spans and all nestings of shim and native spans.",
  "Tests cover one span each.",
  [EXP + "opencensus/src/opentelemetry/exporter/opencensus/trace_exporter/__init__.py", "shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_tracer.py", "shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py"],
  [("exporter", "opencensus/trace_exporter translate_to_collector"), ("shim", "shim/opencensus")],
  "independent decoder and nesting model over generated spans and mixed-API programs")
OS = "shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py"
p("P36", "The OpenTracing shim preserves parents, tags, logs, baggage and scopes",
  """Spans created through the OpenTracing shim become OpenTelemetry spans with the requested parent (explicit parent or first valid reference, else the active
  span unless ignored), links for the other references, tags as attributes, log entries as events, names and timestamps; baggage items stay with their span.
  Activating and closing scopes, nested or mixed with native current spans, makes the innermost span active in both APIs, restores the previously active span,
  finishes the span only if asked and records an exception leaving the scope. Inject followed by extract preserves the span context.""",
  ["programs", "inputs"],
  "All programs of shim and native spans, references, scopes and exceptions.",
  "Tests cover each call once.",
  [OS], [("tracer shim", OS + " TracerShim"), ("scopes", OS + " ScopeShim/ScopeManagerShim")],
  "reference model over random programs mixing both APIs")
RS = SDK + "resources/__init__.py"
p("P37", "Resources merge deterministically and detectors cannot break them",
  """Merging resources returns a new resource with every attribute of both, the updating one winning, and the schema URL
  by the merge rules (empty yields to the other, equal stays, conflict keeps the old resource and reports an error); inputs are never changed, equal resources hash equal. Creation always provides SDK
  identity and a service name, lets environment attributes (percent-decoded, malformed pairs skipped) be overridden by code and
  OTEL_SERVICE_NAME override the rest, and a failing or slow detector never prevents the others from contributing.""",
  ["inputs", "configurations", "fault_sequences"],
  "All attribute sets, environment strings, schema URLs, detector sets and failures.",
  "Tests use a few literal resources.",
  [RS], [("merge", RS + " Resource.merge"), ("create", RS + " Resource.create"), ("aggregation", RS + " get_aggregated_resources")],
  "reference-model oracle over generated resources, environments and faulty detectors")
CF = SDK + "_configuration/__init__.py"
p("P38", "Environment settings apply with the right precedence and bad values are safe",
  """SDK settings read from the environment (batch sizes and delays, span and log limits, samplers, metric intervals, id generators, exporters,
  propagators, the SDK-disabled switch) take effect as documented, explicit constructor arguments win over
  them, and an unparsable value falls back to the default or is rejected with a clear error, never misapplied. Disabling the SDK
  makes every API call a no-op.""",
  ["configurations", "inputs"],
  "All environment values, valid, invalid and combined, against all constructor arguments.",
  "Tests set a few variables each.",
  [CF, TR, TRE, LGE, MX, SA], [("configurator", CF), ("limits", TR + " SpanLimits._from_env_if_absent")],
  "observed-behaviour oracle per setting over generated environments, in fresh processes where import-time matters")
LH = SDK + "_logs/_internal/__init__.py"
p("P39", "Standard-library log records and events become faithful log records",
  """Every logging call at or above the handler's level produces exactly one log record with the formatted message, the mapped severity number and text, the record's
  creation time, extra fields and code location and exception details as attributes, and the trace context current at the call. Hostile arguments and extras
  never raise out of the logging call, and the caller's record is not changed. Events emitted carry their name, body, attributes and trace context.""",
  ["inputs", "schedules"],
  "All levels, messages, args, extras, exceptions and threads; log record limits.",
  "Tests check a few literal records.",
  [LH, SDK + "_events/__init__.py"], [("handler", LH + " LoggingHandler"), ("events", SDK + "_events/__init__.py")],
  "differential oracle between the standard logging record and the emitted log record over generated calls")
p("P40", "Global providers are set once, proxies switch over, the no-op API is inert",
  """The first global tracer, meter, logger or event-logger provider that is set stays, later attempts are rejected with a warning, also under
  concurrent setting. Tracers, meters, instruments and loggers obtained before a provider is set start working once it is: everything
  recorded through them afterwards is exactly as if obtained after, with the same name, version, schema URL and attributes. Without a provider every API call is a
  safe no-op that keeps propagating a valid parent context.""",
  ["schedules", "programs"],
  "All interleavings of getting, creating, setting and recording.",
  "Tests set once from one thread.",
  [API + "trace/__init__.py", API + "metrics/_internal/__init__.py", API + "_logs/_internal/__init__.py", API + "util/_once.py"],
  [("set once", API + "util/_once.py"), ("proxies", API + "metrics/_internal/__init__.py _ProxyMeterProvider"), ("no-op", API + "trace/__init__.py NoOpTracer")],
  "set-once and proxy-equivalence oracles in fresh processes under the schedule fuzzer")
p("P41", "Console and in-memory exporters show exactly what was exported",
  """The console exporters write, for every exported span, log record and metric collection, exactly one JSON document, flushed when export returns, that holds the
  same ids, parent, name, kind, status, attributes, events, links and resource, body, severity and trace flags, scopes, points, bounds, counts, exemplars and
  values, with times to the microsecond in UTC and bytes as base64. Printing (to_json) never raises for anything the SDK produces and never modifies it. The in-memory exporters
  and metric reader hand out exactly what was exported or recorded since the last clear or collection, each item once and in order, also under concurrency;
  a snapshot never changes later, and exporting after shutdown reports failure and stores nothing.""",
  ["inputs", "schedules", "programs"],
  "All spans, log records and metrics, bodies, histories and concurrent exports.",
  "Tests print a handful of literal objects.",
  [TRE, TR, LH, LGE, SDK + "metrics/_internal/point.py", SDK + "trace/export/in_memory_span_exporter.py"],
  [("span JSON", TR + " ReadableSpan.to_json"), ("log JSON", LH + " LogRecord.to_json"), ("metric JSON", SDK + "metrics/_internal/point.py"), ("in memory", SDK + "trace/export/in_memory_span_exporter.py")],
  "differential oracle: printed output parsed again and compared with what processors recorded; list model of the in-memory exporters, also with threads")
EH = SDK + "error_handler/__init__.py"
p("P42", "The global error handler passes each exception to its handlers and no further",
  """An exception leaving a GlobalErrorHandler block is given once, as the same object, to every registered error handler whose class has the exception's
  class as a parent, and to no other; when none of them handled it, the default handler logs it once. The exception is never raised further, and execution continues after the block, even when handlers raise, cannot be
  constructed or cannot be loaded, in which case the other handlers are still called. A block that raises nothing calls and logs nothing; nested blocks, loops, coroutines and
  threads do not affect each other.""",
  ["programs", "fault_sequences", "configurations"],
  "All sets of registered handlers, exception classes, handler failures and nestings.",
  "Tests use two mocked handlers.",
  [EH], [("error handler", EH + " GlobalErrorHandler.__exit__")],
  "call-record oracle over generated handler sets registered through scratch distributions")

p("P43", "Telemetry is released: memory stays bounded and shutdown frees everything",
  """Ended spans, log records, recorded exceptions, exported batches and detached contexts become garbage once they were exported, dropped or discarded, also when
  exporters fail or raise; a pipeline keeps at most its last batch. After shutdown, providers, processors, readers, exporters, instruments and callbacks
  become garbage as soon as the program drops them: no exit hook, fork hook, registry or thread keeps them. Repeating the same operations (spans, log records, measurements on
  known attribute sets, the same tracers, meters, instruments and loggers requested again, collections, scrapes, propagation, encoding) does not
  make memory grow with their number.""",
  ["histories", "programs", "fault_sequences"],
  "All pipelines of all signals, exporter failures, and arbitrarily long runs.",
  "Tests end before anything could accumulate and never look at what stays alive.",
  [TR, TRE, LGE, SDK + "metrics/_internal/__init__.py", SDK + "metrics/_internal/export/__init__.py", PM + "__init__.py", "opentelemetry-api/src/opentelemetry/context/contextvars_context.py"],
  [("fork and exit hooks of traces", TRE + " BatchSpanProcessor"), ("meter provider's readers", SDK + "metrics/_internal/__init__.py MeterProvider.shutdown"), ("scrape queue", PM + "__init__.py _CustomCollector")],
  "weak-reference and allocated-block monitors over random pipelines after garbage collection")

p("P44", "A request crossing services stays one trace with correlated signals",
  """Services calling each other through text carriers (W3C trace context, B3, Jaeger, W3C baggage, in any combination and with custom getters and setters) produce one connected trace per request,
  however many requests run concurrently in threads and tasks: each sampled span is exported once, by its service, as child of the span current in the caller,
  marked remote where the call crossed; services without SDK pass the trace through; parent-based samplers follow the caller and ratio samplers agree;
  consumers that start a new trace link to their producer. Baggage and trace state arrive at everything downstream and nowhere else. Every log record carries the ids of
  the span it was emitted in, every exemplar belongs to a real measurement in a sampled span, and each service's measurements add up, and nothing is left in the context.""",
  ["programs", "schedules", "configurations"],
  "All call graphs, propagation formats, samplers, processors and interleavings of requests.",
  "Tests exercise each component alone; none joins several services and signals.",
  [API + "propagate/__init__.py", TC, API + "baggage/propagation/__init__.py", TR, SDK + "trace/sampling.py", LH, API + "trace/__init__.py"],
  [("propagation", API + "propagate/__init__.py inject/extract"), ("parents", TR + " Tracer.start_span"), ("log correlation", LH + " LoggingHandler"), ("no SDK", API + "trace/__init__.py NoOpTracer")],
  "joins the OTLP payloads of simulated services and compares them with the plan of the requests")


p("P45", "Telemetry produced before a process ends arrives at the collector",
  """Every span a program ended, log record it emitted and value it added before it ends arrives exactly once (sums: with their final value) at the collector over OTLP HTTP or gRPC, with no need for an explicit flush or shutdown,
  whether the SDK was configured in code or by the environment: after the last statement, sys.exit, an uncaught exception, a signal handler that exits, late non-daemon threads, daemon threads, tasks, exit handlers registered later,
  and from forked children that flush or exit, also while their parent exports. Spans still open do not arrive, and every payload can be decoded and carries the program's resource.
  The exit code stays the program's and no traceback of the SDK reaches standard error, also when the collector refuses transiently; without a collector the program still ends with its own exit code.""",
  ["programs", "configurations", "fault_sequences"],
  "All ways a process can end with telemetry pending, for every pipeline configuration.",
  "No test lets an interpreter exit with pending telemetry and looks at what the collector got.",
  [TRE, LGE, TR, LH, MX, OH + "__init__.py", OG + "exporter.py", CF],
  [("exit hooks", TR + " TracerProvider._atexit_handler"), ("drain at shutdown", TRE + " BatchSpanProcessor.shutdown"), ("last collection", SDK + "metrics/_internal/export/__init__.py PeriodicExportingMetricReader.shutdown"), ("forks", LGE + " BatchLogRecordProcessor._at_fork_reinit")],
  "compares what a real collector decoded from real processes with what they reported before they ended")


def main():
    import sys
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d, _ in P:
            f.write(json.dumps(d) + "\n")
    checks = []
    na = []
    for d, tech in P:
        if os.path.exists(os.path.join(ROOT, "mon/checks", d["id"].lower() + ".py")):
            checks.append({"property": d["id"], "quick_cmd": f"./check {d['id']} quick", "thorough_cmd": f"./check {d['id']} thorough",
                           "technique": "runtime monitoring: " + tech, "level": "exploration",
                           "level_note": "held on every execution explored (counts in the evidence file); no claim beyond them"})
        else:
            na.append({"property": d["id"], "reason": "check not built yet"})
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "OTEL_PYTHON_MON (unused: no hooks were needed in /repo)", "enable": "nothing to enable: the checks import /repo's working tree unmodified and instrument it from outside (sys.monitoring, patched threading/time)", "source_commits": []}}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for d, _ in P:
        n = d["statement"].count(". ") + 1
        if n > 3:
            print(d["id"], n, "sentences")
    print(len(checks), "checks,", len(na), "pending")


main()
