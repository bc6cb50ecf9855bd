"""Keeps the SDK's own diagnostics out of the worker's output."""
import logging


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)


def silence():
    lg = logging.getLogger("opentelemetry")
    lg.propagate = False
    if not lg.handlers:
        lg.addHandler(logging.NullHandler())


class capture:
    """with capture() as recs: collects what the SDK logs."""

    def __enter__(self):
        silence()
        self.lg = logging.getLogger("opentelemetry")
        self.h = Capture()
        self.lg.addHandler(self.h)
        return self.h.records

    def __exit__(self, *a):
        self.lg.removeHandler(self.h)
