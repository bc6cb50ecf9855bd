from mon import batch
from mon.core import Workload

PROPERTY = "P02"
VENV = "pb5"
SCHED = True
REQUIRED = ["flush_checked", "flushed_items_checked", "shutdown_checked"]
RULE = (
    "Random producer/flusher/shutdown programs over a real TracerProvider + BatchSpanProcessor, run under a "
    "deterministic schedule fuzzer (preemption at every line of /repo code and every lock operation, virtual time); "
    "distinct = different sequence of context switches; every case exports or drops at least one span."
)
ASSUMPTIONS = [
    "preemption granularity is one source line plus every lock/wait/sleep operation",
    "the queue-overflow oracle uses an upper bound on pending spans, so a loss during real overflow is bounded, not pinned",
]


def scenario(case):
    cfg, hist, s = batch.run_scenario(case, batch.SpanAdapter, "barrier")
    h = batch.Parsed(hist)
    batch.oracle_barrier(case, cfg, hist, h)


WORKLOADS = [Workload("scheduled", scenario, quick=4000, thorough=120000)]
