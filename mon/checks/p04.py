from mon import batch
from mon.core import Workload

PROPERTY = "P04"
VENV = "pb5"
SCHED = True
REQUIRED = ["items_delivered", "exports", "overflow_cases", "schedule_switches", "flush_checked", "shutdown_checked", "ends_timed", "latencies_checked", "cases_with_exporter_faults"]
RULE = (
    "Random emitter/flusher/shutdown programs over a real LoggerProvider + BatchLogRecordProcessor, run under a "
    "deterministic schedule fuzzer (preemption at every line of /repo code and every lock operation, virtual time); "
    "distinct = different sequence of context switches; every case exports or drops at least one record."
)
ASSUMPTIONS = [
    "preemption granularity is one source line plus every lock/wait/sleep operation",
    "the queue-overflow oracle uses an upper bound on pending records, so a loss during real overflow is bounded, not pinned",
]


def delivery(case):
    cfg, hist, s = batch.run_scenario(case, batch.LogAdapter, "delivery")
    batch.oracle_delivery(case, cfg, hist, batch.Parsed(hist))


def barrier(case):
    cfg, hist, s = batch.run_scenario(case, batch.LogAdapter, "barrier")
    batch.oracle_barrier(case, cfg, hist, batch.Parsed(hist))


def liveness(case):
    cfg, hist, s = batch.run_scenario(case, batch.LogAdapter, "liveness")
    batch.oracle_liveness(case, cfg, hist, batch.Parsed(hist))


WORKLOADS = [
    Workload("delivery", delivery, quick=2000, thorough=60000),
    Workload("barrier", barrier, quick=2000, thorough=60000),
    Workload("liveness", liveness, quick=2000, thorough=60000),
]
