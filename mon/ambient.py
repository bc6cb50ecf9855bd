"""Propagators given an explicit (often empty) context while another context is current."""

from mon import gen, quiet


def run(case, make, carriers):
    """make() -> propagators; carriers(rng) -> (header mapping, well-formed?) for them."""
    from opentelemetry import baggage, trace
    from opentelemetry import context as ctxapi
    from opentelemetry.context import Context

    rng = case.rng
    quiet.silence()
    amb_span = gen.span_context(rng, remote=False)
    amb = trace.set_span_in_context(trace.NonRecordingSpan(amb_span), Context({"ambient": 1}))
    amb = baggage.set_baggage("amb", "ient", context=amb)
    tok = ctxapi.attach(amb)
    try:
        for prop in make():
            name = type(prop).__name__
            given = Context() if rng.random() < 0.6 else Context({"keep": 1})
            if rng.random() < 0.2:
                given = trace.set_span_in_context(trace.NonRecordingSpan(gen.span_context(rng)), given)
            snap = dict(given)
            # nothing of the current context is written for a context that has nothing
            out = {}
            prop.inject(out, context=Context() if rng.random() < 0.5 else Context({"keep": 1}))
            case.check(out == {}, "ambient-injected", f"{name} wrote {out} for a context without span and baggage")
            hs = carriers(rng)
            got = prop.extract(hs, context=given)
            case.check(dict(given) == snap, "ambient-context", f"{name} changed the given context")
            case.check("ambient" not in got and baggage.get_baggage("amb", got) is None, "ambient-context", f"{name}: the extracted context holds values of the current one: {dict(got)} from {hs!r}"[:700])
            case.check(all(got.get(k) == v for k, v in snap.items() if not isinstance(v, trace.Span)), "ambient-context", f"{name}: given values lost: {dict(got)}")
            sc = trace.get_current_span(got).get_span_context()
            case.check(sc != amb_span or amb_span in (trace.get_current_span(given).get_span_context(),), "ambient-context", f"{name}: the current span became the extracted one")
            if not hs:
                case.check(dict(got) == snap, "ambient-context", f"{name}: no headers gave {dict(got)} want {snap}")
            now = ctxapi.get_current()
            case.check(now is amb, "ambient-context", f"{name} changed the current context")
            case.observe("ambient_extractions")
            case.sig(name, repr(hs), sorted(map(str, snap)))
    finally:
        ctxapi.detach(tok)
