from mon import batch
from mon.core import Workload

PROPERTY = "P03"
VENV = "pb5"
SCHED = True
REQUIRED = ["ends_timed", "latencies_checked", "cases_with_exporter_faults", "ends_during_slow_export_cases"]
RULE = (
    "Random producer/flusher/shutdown programs over a real TracerProvider + BatchSpanProcessor, run under a "
    "deterministic schedule fuzzer (preemption at every line of /repo code and every lock operation, virtual time); "
    "distinct = different sequence of context switches; every case exports or drops at least one span."
)
ASSUMPTIONS = [
    "preemption granularity is one source line plus every lock/wait/sleep operation",
    "the queue-overflow oracle uses an upper bound on pending spans, so a loss during real overflow is bounded, not pinned",
]


def scenario(case):
    cfg, hist, s = batch.run_scenario(case, batch.SpanAdapter, "liveness")
    h = batch.Parsed(hist)
    batch.oracle_liveness(case, cfg, hist, h)


WORKLOADS = [Workload("scheduled", scenario, quick=4000, thorough=120000)]
