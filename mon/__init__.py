"""Runtime-monitoring framework for opentelemetry-python (see DESIGN.md)."""
