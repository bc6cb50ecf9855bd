From e1d31ca903a4c83dba6e2ae86d7d253b2025afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 01/84] fix: release the periodic reader's export lock in
 forked children

A fork while the ticker thread was exporting left the lock held forever in
the child: its reader never exported again and shutdown/force_flush hung.
---
 .../src/opentelemetry/sdk/metrics/_internal/export/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 52c6833..d009112 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -510,6 +510,9 @@ class PeriodicExportingMetricReader(MetricReader):
             )
 
     def _at_fork_reinit(self):
+        # The lock may have been held by the parent's ticker thread, which does
+        # not exist in the child.
+        self._export_lock = Lock()
         self._daemon_thread = Thread(
             name="OtelPeriodicExportingMetricReader",
             target=self._ticker,
-- 
2.43.0


From 1573010bfcec80cb646379930b819edf3381195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 02/84] fix: detach the suppression context when an exporter
 raises BaseException

A cancellation or KeyboardInterrupt unwinding out of an exporter skipped
detach(), leaving instrumentation suppressed in the caller's context.
---
 .../opentelemetry/sdk/_logs/_internal/export/__init__.py    | 6 ++++--
 .../opentelemetry/sdk/metrics/_internal/export/__init__.py  | 3 ++-
 .../src/opentelemetry/sdk/trace/export/__init__.py          | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index 434dc74..ee3bb46 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -130,7 +130,8 @@ class SimpleLogRecordProcessor(LogRecordProcessor):
             self._exporter.export((log_data,))
         except Exception:  # pylint: disable=broad-exception-caught
             _logger.exception("Exception while exporting logs.")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self):
         self._shutdown = True
@@ -308,7 +309,8 @@ class BatchLogRecordProcessor(LogRecordProcessor):
             self._exporter.export(self._log_records[:idx])  # type: ignore
         except Exception:  # pylint: disable=broad-exception-caught
             _logger.exception("Exception while exporting logs.")
-        detach(token)
+        finally:
+            detach(token)
 
         for index in range(idx):
             self._log_records[index] = None
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index d009112..562127e 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -555,7 +555,8 @@ class PeriodicExportingMetricReader(MetricReader):
                 )
         except Exception:
             _logger.exception("Exception while exporting metrics")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self, timeout_millis: float = 30_000, **kwargs) -> None:
         deadline_ns = time_ns() + timeout_millis * 10**6
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index 47d1769..7021f19 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -114,7 +114,8 @@ class SimpleSpanProcessor(SpanProcessor):
         # pylint: disable=broad-exception-caught
         except Exception:
             logger.exception("Exception while exporting Span.")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self) -> None:
         self.span_exporter.shutdown()
@@ -360,7 +361,8 @@ class BatchSpanProcessor(SpanProcessor):
             self.span_exporter.export(self.spans_list[:idx])  # type: ignore
         except Exception:  # pylint: disable=broad-exception-caught
             logger.exception("Exception while exporting Span batch.")
-        detach(token)
+        finally:
+            detach(token)
 
         # clean up list
         for index in range(idx):
-- 
2.43.0


From 3a455c267807f19d21b9bc527dbd3a2d08e9795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 03/84] fix: report dropped attributes of a log record that
 holds none

With a limit of 0 every attribute is dropped and the record reported 0.
---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 302ca1e..29d189d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -250,7 +250,7 @@ class LogRecord(APILogRecord):
 
     @property
     def dropped_attributes(self) -> int:
-        if self.attributes:
+        if isinstance(self.attributes, BoundedAttributes):
             return self.attributes.dropped
         return 0
 
-- 
2.43.0


From 5c45657a00f40c1eefce6ff7050e0ed7763aac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 04/84] fix: do not modify the caller's Link objects when a
 span is created

A Link passed to two spans was bounded in place by the first one, so the
second one lost attributes and dropped counts. Bound a new Link instead.
---
 .../src/opentelemetry/sdk/trace/__init__.py      | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 3ac4580..f5b2f76 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -829,13 +829,17 @@ class Span(trace_api.Span, ReadableSpan):
         valid_links = []
         for link in links:
             if link and _is_valid_link(link.context, link.attributes):
-                # pylint: disable=protected-access
-                link._attributes = BoundedAttributes(
-                    self._limits.max_link_attributes,
-                    link.attributes,
-                    max_value_len=self._limits.max_attribute_length,
+                # do not modify the caller's link, it may be shared
+                valid_links.append(
+                    trace_api.Link(
+                        context=link.context,
+                        attributes=BoundedAttributes(
+                            self._limits.max_link_attributes,
+                            link.attributes,
+                            max_value_len=self._limits.max_attribute_length,
+                        ),
+                    )
                 )
-                valid_links.append(link)
 
         return BoundedList.from_seq(self._limits.max_links, valid_links)
 
-- 
2.43.0


From 622afc37d9ecbc53c80a6ca0cc88d4bc2578f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 05/84] fix: ignore an out of range OTEL_TRACES_SAMPLER_ARG

A number outside [0, 1], or nan, made creating a TracerProvider raise
although an argument that is not a number falls back to 1.0 with a warning.
---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
index fb6990a..305b7a3 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
@@ -439,6 +439,12 @@ def _get_from_env_or_default() -> Sampler:
         except (ValueError, TypeError):
             _logger.warning("Could not convert TRACES_SAMPLER_ARG to float.")
             rate = 1.0
+        if not 0.0 <= rate <= 1.0:
+            _logger.warning(
+                "TRACES_SAMPLER_ARG must be in range [0.0, 1.0] but got %s.",
+                rate,
+            )
+            rate = 1.0
         return _KNOWN_SAMPLERS[trace_sampler](rate)
 
     return _KNOWN_SAMPLERS[trace_sampler]
-- 
2.43.0


From 8bf9402bca62ad49f91fe1d180b89c328a66f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 06/84] fix: let exceptions that cannot be rendered leave span
 scopes unchanged

str() of the exception failing inside use_span, Span.__exit__ or
record_exception replaced the application's exception. Use a placeholder
message instead.
---
 .../src/opentelemetry/trace/__init__.py              |  6 +++++-
 .../src/opentelemetry/sdk/trace/__init__.py          | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/__init__.py b/opentelemetry-api/src/opentelemetry/trace/__init__.py
index 73087e9..11649a4 100644
--- a/opentelemetry-api/src/opentelemetry/trace/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/trace/__init__.py
@@ -599,10 +599,14 @@ def use_span(
 
             # Set status in case exception was raised
             if set_status_on_exception:
+                try:
+                    message = str(exc)
+                except Exception:  # pylint: disable=broad-exception-caught
+                    message = "<exception str() failed>"
                 span.set_status(
                     Status(
                         status_code=StatusCode.ERROR,
-                        description=f"{type(exc).__name__}: {exc}",
+                        description=f"{type(exc).__name__}: {message}",
                     )
                 )
 
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index f5b2f76..9265952 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -733,6 +733,14 @@ SPAN_ATTRIBUTE_COUNT_LIMIT = SpanLimits._from_env_if_absent(  # pylint: disable=
 )
 
 
+def _exception_message(exception: BaseException) -> str:
+    """The message of an exception, also of one that cannot be rendered."""
+    try:
+        return str(exception)
+    except Exception:  # pylint: disable=broad-exception-caught
+        return "<exception str() failed>"
+
+
 class Span(trace_api.Span, ReadableSpan):
     """See `opentelemetry.trace.Span`.
 
@@ -1006,7 +1014,7 @@ class Span(trace_api.Span, ReadableSpan):
                 self.set_status(
                     Status(
                         status_code=StatusCode.ERROR,
-                        description=f"{exc_type.__name__}: {exc_val}",
+                        description=f"{exc_type.__name__}: {_exception_message(exc_val)}",
                     )
                 )
 
@@ -1035,7 +1043,7 @@ class Span(trace_api.Span, ReadableSpan):
         )
         _attributes: MutableMapping[str, types.AttributeValue] = {
             EXCEPTION_TYPE: exception_type,
-            EXCEPTION_MESSAGE: str(exception),
+            EXCEPTION_MESSAGE: _exception_message(exception),
             EXCEPTION_STACKTRACE: stacktrace,
             EXCEPTION_ESCAPED: str(escaped),
         }
-- 
2.43.0


From f816ffc1d893f27cd9b19f82e9d9a422be64c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 07/84] fix: do not inject any invalid span context as
 traceparent

Only a span context equal to INVALID_SPAN_CONTEXT was skipped; one with a
zero trace id or span id, or with flags set, wrote an invalid header.
---
 .../src/opentelemetry/trace/propagation/tracecontext.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
index af16a08..12180bc 100644
--- a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
+++ b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
@@ -98,7 +98,7 @@ class TraceContextTextMapPropagator(textmap.TextMapPropagator):
         """
         span = trace.get_current_span(context)
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
         traceparent_string = f"00-{format_trace_id(span_context.trace_id)}-{format_span_id(span_context.span_id)}-{span_context.trace_flags:02x}"
         setter.set(carrier, self._TRACEPARENT_HEADER_NAME, traceparent_string)
-- 
2.43.0


From 8745daf25fa43b38194ce57ccf0b2bac692a7ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 08/84] fix: reject a traceparent header that ends with a line
 feed

"$" also matches before a final line feed, so such a header was accepted.
---
 .../src/opentelemetry/trace/propagation/tracecontext.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
index 12180bc..e0ed992 100644
--- a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
+++ b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
@@ -29,7 +29,7 @@ class TraceContextTextMapPropagator(textmap.TextMapPropagator):
     _TRACESTATE_HEADER_NAME = "tracestate"
     _TRACEPARENT_HEADER_FORMAT = (
         "^[ \t]*([0-9a-f]{2})-([0-9a-f]{32})-([0-9a-f]{16})-([0-9a-f]{2})"
-        + "(-.*)?[ \t]*$"
+        + r"(-.*)?[ \t]*\Z"
     )
     _TRACEPARENT_HEADER_FORMAT_RE = re.compile(_TRACEPARENT_HEADER_FORMAT)
 
-- 
2.43.0


From ab3bca6225345f6add23144287fd039650c02be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 09/84] fix: keep the trace state when update would exceed 32
 entries

TraceState.update with a new key on a full trace state returned an empty
one. Return the same trace state, like add does.
---
 opentelemetry-api/src/opentelemetry/trace/span.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opentelemetry-api/src/opentelemetry/trace/span.py b/opentelemetry-api/src/opentelemetry/trace/span.py
index 6e54dfc..5acb807 100644
--- a/opentelemetry-api/src/opentelemetry/trace/span.py
+++ b/opentelemetry-api/src/opentelemetry/trace/span.py
@@ -329,6 +329,13 @@ class TraceState(typing.Mapping[str, str]):
                 "Invalid key/value pair (%s, %s) found.", key, value
             )
             return self
+        # There can be a maximum of 32 pairs
+        if (
+            key not in self._dict
+            and len(self) >= _TRACECONTEXT_MAXIMUM_TRACESTATE_KEYS
+        ):
+            _logger.warning("There can't be more 32 key/value pairs.")
+            return self
         prev_state = self._dict.copy()
         prev_state.pop(key, None)
         new_state = [(key, value), *prev_state.items()]
-- 
2.43.0


From bb5484e10e27b51f97f179ac2a1a5db5e80df96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 10/84] fix: keep encoded whitespace around baggage values when
 extracting

Names and values were stripped after decoding, so whitespace that inject
had encoded was lost. Strip only around the encoded text.
---
 .../src/opentelemetry/baggage/propagation/__init__.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
index 49fb378..2923ff4 100644
--- a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
@@ -93,8 +93,8 @@ class W3CBaggagePropagator(textmap.TextMapPropagator):
                 _logger.warning("Invalid baggage entry: `%s`", entry)
                 continue
 
-            name = unquote_plus(name).strip()
-            value = unquote_plus(value).strip()
+            name = unquote_plus(name.strip())
+            value = unquote_plus(value.strip())
 
             context = set_baggage(
                 name,
-- 
2.43.0


From 8853c204c71b25a0612400f1f2f18a7754d694a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 11/84] fix: do not inject invalid span contexts in the B3 and
 Jaeger formats

A span context with only one of its ids zero is invalid, too.
---
 .../src/opentelemetry/propagators/b3/__init__.py              | 4 ++--
 .../src/opentelemetry/propagators/jaeger/__init__.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
index 1bbc361..875e9cf 100644
--- a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
+++ b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
@@ -136,7 +136,7 @@ class B3MultiFormat(TextMapPropagator):
         span = trace.get_current_span(context=context)
 
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         sampled = (trace.TraceFlags.SAMPLED & span_context.trace_flags) != 0
@@ -175,7 +175,7 @@ class B3SingleFormat(B3MultiFormat):
         span = trace.get_current_span(context=context)
 
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         sampled = (trace.TraceFlags.SAMPLED & span_context.trace_flags) != 0
diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 6b6eb8f..0889951 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -77,7 +77,7 @@ class JaegerPropagator(TextMapPropagator):
     ) -> None:
         span = trace.get_current_span(context=context)
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         # Non-recording spans do not have a parent
-- 
2.43.0


From b5c6e44433275ca46b10a9390d60dc5a04c09e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 12/84] fix: do not extract invalid span contexts in the B3 and
 Jaeger formats

All-zero hexadecimal ids passed the B3 checks, and the Jaeger propagator
accepted negative and oversized ids.
---
 .../opentelemetry/propagators/b3/__init__.py  | 23 ++++++++++---------
 .../propagators/jaeger/__init__.py            | 21 ++++++++---------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
index 875e9cf..11dc8b6 100644
--- a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
+++ b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
@@ -113,18 +113,19 @@ class B3MultiFormat(TextMapPropagator):
         if sampled in self._SAMPLE_PROPAGATE_VALUES or flags == "1":
             options |= trace.TraceFlags.SAMPLED
 
+        span_context = trace.SpanContext(
+            # trace an span ids are encoded in hex, so must be converted
+            trace_id=trace_id,
+            span_id=span_id,
+            is_remote=True,
+            trace_flags=trace.TraceFlags(options),
+            trace_state=trace.TraceState(),
+        )
+        if not span_context.is_valid:
+            return context
+
         return trace.set_span_in_context(
-            trace.NonRecordingSpan(
-                trace.SpanContext(
-                    # trace an span ids are encoded in hex, so must be converted
-                    trace_id=trace_id,
-                    span_id=span_id,
-                    is_remote=True,
-                    trace_flags=trace.TraceFlags(options),
-                    trace_state=trace.TraceState(),
-                )
-            ),
-            context,
+            trace.NonRecordingSpan(span_context), context
         )
 
     def inject(
diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 0889951..9036905 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -53,21 +53,18 @@ class JaegerPropagator(TextMapPropagator):
         context = self._extract_baggage(getter, carrier, context)
 
         trace_id, span_id, flags = _parse_trace_id_header(header)
-        if (
-            trace_id == trace.INVALID_TRACE_ID
-            or span_id == trace.INVALID_SPAN_ID
-        ):
+        span_context = trace.SpanContext(
+            trace_id=trace_id,
+            span_id=span_id,
+            is_remote=True,
+            trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
+        )
+        if not span_context.is_valid:
             return context
 
-        span = trace.NonRecordingSpan(
-            trace.SpanContext(
-                trace_id=trace_id,
-                span_id=span_id,
-                is_remote=True,
-                trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
-            )
+        return trace.set_span_in_context(
+            trace.NonRecordingSpan(span_context), context
         )
-        return trace.set_span_in_context(span, context)
 
     def inject(
         self,
-- 
2.43.0


From 2e9841f2ee9d3bb58b9e7731f8bcbc25864282b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 13/84] fix: extract Jaeger baggage exactly as it was injected

Only the leading prefix belongs to the header name, whitespace that was
encoded belongs to the value, and a header without a value is ignored.
---
 .../src/opentelemetry/propagators/jaeger/__init__.py        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 9036905..5c809f2 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -117,9 +117,11 @@ class JaegerPropagator(TextMapPropagator):
         ]
         for key in baggage_keys:
             value = _extract_first_element(getter.get(carrier, key))
+            if value is None:
+                continue
             context = baggage.set_baggage(
-                key.replace(self.BAGGAGE_PREFIX, ""),
-                urllib.parse.unquote(value).strip(),
+                key[len(self.BAGGAGE_PREFIX) :],
+                urllib.parse.unquote(value.strip()),
                 context=context,
             )
         return context
-- 
2.43.0


From 85ac3b33396a8c5b0d1c4c24b899fb907bf2139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 14/84] fix: keep the attributes of a metric stream when the
 caller reuses the dict

The first measurement's attributes were stored by reference, so changing
that dict later relabelled the existing data point.
---
 .../sdk/metrics/_internal/_view_instrument_match.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
index be81d70..764c16c 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
@@ -98,7 +98,8 @@ class _ViewInstrumentMatch:
                 if key in self._view._attribute_keys:
                     attributes[key] = value
         elif measurement.attributes is not None:
-            attributes = measurement.attributes
+            # the caller may modify its attributes after the measurement
+            attributes = dict(measurement.attributes)
         else:
             attributes = {}
 
-- 
2.43.0


From 6f9f64802e2d98b1585d3e0f5562aafe895686ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 15/84] fix: accept list attribute values in measurements

Sequences are valid attribute values, but a list raised a TypeError in
the application or aborted the whole collection of a callback.
---
 .../sdk/metrics/_internal/_view_instrument_match.py    | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
index 764c16c..a1b3740 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
@@ -103,7 +103,15 @@ class _ViewInstrumentMatch:
         else:
             attributes = {}
 
-        aggr_key = frozenset(attributes.items())
+        try:
+            aggr_key = frozenset(attributes.items())
+        except TypeError:
+            # sequences are valid attribute values, but lists are unhashable
+            attributes = {
+                key: tuple(value) if isinstance(value, list) else value
+                for key, value in attributes.items()
+            }
+            aggr_key = frozenset(attributes.items())
 
         if aggr_key not in self._attributes_aggregation:
             with self._lock:
-- 
2.43.0


From 5a26db880f9879efc6a6d0d1cbcc13dcd06e62fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 16/84] fix: offer and collect exemplars under the
 aggregation's lock

The reservoirs are not thread-safe: an exemplar could mix the value of
one measurement with the context of another one, or be lost.
---
 .../sdk/metrics/_internal/aggregation.py           | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 8443d95..fdc30dd 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -133,7 +133,8 @@ class _Aggregation(ABC, Generic[_DataPointVarT]):
     ) -> None:
         """Offer the measurement to the exemplar reservoir for sampling.
 
-        It should be called within the each :ref:`aggregate` call.
+        It should be called within the each :ref:`aggregate` call, holding
+        the lock, because the reservoirs are not thread-safe.
 
         Args:
             measurement: The new measurement
@@ -193,7 +194,7 @@ class _SumAggregation(_Aggregation[Sum]):
 
             self._value = self._value + measurement.value
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -418,7 +419,7 @@ class _LastValueAggregation(_Aggregation[GaugePoint]):
         with self._lock:
             self._value = measurement.value
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -433,8 +434,7 @@ class _LastValueAggregation(_Aggregation[GaugePoint]):
                 return None
             value = self._value
             self._value = None
-
-        exemplars = self._collect_exemplars()
+            exemplars = self._collect_exemplars()
 
         return NumberDataPoint(
             attributes=self._attributes,
@@ -524,7 +524,7 @@ class _ExplicitBucketHistogramAggregation(_Aggregation[HistogramPoint]):
 
             self._value[bisect_left(self._boundaries, measurement_value)] += 1
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -819,7 +819,7 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
             # in _ExplicitBucketHistogramAggregation.aggregate
             value.increment_bucket(bucket_index)
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
-- 
2.43.0


From b5168686764e323d4f97896e107fe1963f38d054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 17/84] fix: do not report stale or invalid span ids in
 exemplars

A measurement recorded without a span that replaced an earlier one kept
the earlier one's ids, and invalid span contexts were reported.
---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 22d1ee9..4a2ea53 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -28,7 +28,6 @@ from typing import (
 
 from opentelemetry import trace
 from opentelemetry.context import Context
-from opentelemetry.trace.span import INVALID_SPAN
 from opentelemetry.util.types import Attributes
 
 from .exemplar import Exemplar
@@ -109,9 +108,10 @@ class ExemplarBucket:
         self.__value = value
         self.__time_unix_nano = time_unix_nano
         self.__attributes = attributes
-        span = trace.get_current_span(context)
-        if span != INVALID_SPAN:
-            span_context = span.get_span_context()
+        self.__span_id = None
+        self.__trace_id = None
+        span_context = trace.get_current_span(context).get_span_context()
+        if span_context.is_valid:
             self.__span_id = span_context.span_id
             self.__trace_id = span_context.trace_id
 
-- 
2.43.0


From 8714d72b81110c54588b90a9e073a5995049ce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 18/84] fix: keep the attributes of an exemplar when the caller
 reuses the dict

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 4a2ea53..a6652b0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -107,7 +107,8 @@ class ExemplarBucket:
         """
         self.__value = value
         self.__time_unix_nano = time_unix_nano
-        self.__attributes = attributes
+        # the caller may modify its attributes before the collection
+        self.__attributes = dict(attributes) if attributes else attributes
         self.__span_id = None
         self.__trace_id = None
         span_context = trace.get_current_span(context).get_span_context()
-- 
2.43.0


From 47d80c46a79ef4427ac459a2f20bcd8d77c6583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 19/84] fix: respect an empty context passed with a measurement

An empty Context is falsy, so exemplars of measurements that were
explicitly recorded outside of any span took the current span instead.
---
 .../sdk/metrics/_internal/instrument.py              | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
index b01578f..e712df8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
@@ -142,7 +142,9 @@ class _Asynchronous:
                         api_measurement.value,
                         time_unix_nano=time_ns(),
                         instrument=self,
-                        context=api_measurement.context or get_current(),
+                        context=api_measurement.context
+                        if api_measurement.context is not None
+                        else get_current(),
                         attributes=api_measurement.attributes,
                     )
             except Exception:  # pylint: disable=broad-exception-caught
@@ -174,7 +176,7 @@ class Counter(_Synchronous, APICounter):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
@@ -198,7 +200,7 @@ class UpDownCounter(_Synchronous, APIUpDownCounter):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
@@ -266,7 +268,7 @@ class Histogram(_Synchronous, APIHistogram):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
@@ -290,7 +292,7 @@ class Gauge(_Synchronous, APIGauge):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
-- 
2.43.0


From 7d205eca5ba0b37bf2dc47abf2198193584c3753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 20/84] fix: copy only mappings when an exemplar keeps
 attributes

Completes the previous change for offers with stand-in attributes.
---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index a6652b0..3d6e96e 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -108,7 +108,9 @@ class ExemplarBucket:
         self.__value = value
         self.__time_unix_nano = time_unix_nano
         # the caller may modify its attributes before the collection
-        self.__attributes = dict(attributes) if attributes else attributes
+        self.__attributes = (
+            dict(attributes) if isinstance(attributes, Mapping) else attributes
+        )
         self.__span_id = None
         self.__trace_id = None
         span_context = trace.get_current_span(context).get_span_context()
-- 
2.43.0


From 0f72a7bc7e04c0cc0cc2037c41d66fa0c8eae231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 21/84] fix: do not share advisory bucket boundaries between
 instruments

A view with ExplicitBucketHistogramAggregation() kept the boundaries of
the first instrument it matched and used them for all others.
---
 .../opentelemetry/sdk/metrics/_internal/aggregation.py   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index fdc30dd..fff56f4 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1387,8 +1387,11 @@ class ExplicitBucketHistogramAggregation(Aggregation):
                 AggregationTemporality.CUMULATIVE
             )
 
-        if self._boundaries is None:
-            self._boundaries = (
+        # The boundaries of an instrument's advisory are used for that
+        # instrument only, because this object can be shared by many.
+        boundaries = self._boundaries
+        if boundaries is None:
+            boundaries = (
                 instrument._advisory.explicit_bucket_boundaries
                 or _DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES
             )
@@ -1398,7 +1401,7 @@ class ExplicitBucketHistogramAggregation(Aggregation):
             instrument_aggregation_temporality,
             start_time_unix_nano,
             reservoir_factory(_ExplicitBucketHistogramAggregation),
-            self._boundaries,
+            boundaries,
             self._record_min_max,
         )
 
-- 
2.43.0


From b9e3d043062fadd2085763500177812886852e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 22/84] fix: allow histogram views without boundaries on other
 instruments

Only histograms have an advisory: recording with any other instrument
raised an AttributeError. As without a view, empty advisory boundaries
now mean a single bucket.
---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index fff56f4..d6ec701 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1390,11 +1390,8 @@ class ExplicitBucketHistogramAggregation(Aggregation):
         # The boundaries of an instrument's advisory are used for that
         # instrument only, because this object can be shared by many.
         boundaries = self._boundaries
-        if boundaries is None:
-            boundaries = (
-                instrument._advisory.explicit_bucket_boundaries
-                or _DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES
-            )
+        if boundaries is None and isinstance(instrument, Histogram):
+            boundaries = instrument._advisory.explicit_bucket_boundaries
 
         return _ExplicitBucketHistogramAggregation(
             attributes,
-- 
2.43.0


From e70967dd7d3d937e374f2822b5b87fa78dd29517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:47 +0000
Subject: [PATCH 23/84] fix: merge into empty ranges of cumulative exponential
 histograms

When the first negative (or positive) value arrived after a collection,
its index was compared with the unused index 0 of the empty range and
every later collection failed with "Incorrect merge scale".
---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index d6ec701..e42554f 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1155,6 +1155,12 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
 
             index = current_index >> current_change
 
+            if len(previous_buckets) == 0:
+                # Nothing has been counted in this range before.
+                previous_buckets.index_start = index
+                previous_buckets.index_end = index
+                previous_buckets.index_base = index
+
             if index < previous_buckets.index_start:
                 span = previous_buckets.index_end - index
 
-- 
2.43.0


From 69f2fc31f13d42b0dc0596ea687071f779b7e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:18 +0000
Subject: [PATCH 24/84] fix: keep the scale of exponential histograms when only
 zeros are recorded

Zeros use no bucket, but an interval with nothing else reduced the scale
of the cumulative point to 0 for good.
---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index e42554f..bd51db8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -893,6 +893,11 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
                         max=max_,
                     )
 
+                if count == zero_count:
+                    # No bucket was used since the last collection: there is
+                    # nothing that calls for a change of the scale.
+                    scale = None
+
                 # Here collection_temporality is CUMULATIVE.
                 # instrument_temporality is always DELTA for the time being.
                 # Here we need to handle the case where:
-- 
2.43.0


From 80853d3dd8f29d49f628ff456e11e598b78c4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 25/84] fix: respect a negative max_scale when only zeros were
 recorded

---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index bd51db8..c704fac 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -732,7 +732,7 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
                 self._zero_count += 1
 
                 if self._count == self._zero_count:
-                    self._scale = 0
+                    self._scale = min(0, self._max_scale)
 
                 return
 
-- 
2.43.0


From d8b283d97aaf32220c6ddecbd09481a5d14de3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 26/84] fix: keep exponential histogram indexes consistent next
 to powers of two

The logarithm of a value just below or above a power of two rounds to an
integer, which put the value in the neighbouring bucket. The exact
mapping used for scales below 1 disagreed with that, so that after a
rescale the value did not fit the buckets: a count was lost or record()
raised an IndexError.
---
 .../mapping/logarithm_mapping.py                    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/logarithm_mapping.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/logarithm_mapping.py
index e73f3a8..74000ac 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/logarithm_mapping.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/logarithm_mapping.py
@@ -104,14 +104,21 @@ class LogarithmMapping(Mapping):
         if value <= MIN_NORMAL_VALUE:
             return self._min_normal_lower_boundary_index - 1
 
+        exponent = get_ieee_754_exponent(value)
+
         # value is an exact power of two.
         if get_ieee_754_mantissa(value) == 0:
-            exponent = get_ieee_754_exponent(value)
             return (exponent << self._scale) - 1
 
+        # log rounds values next to a power of two, which must not move them
+        # across that boundary: the indexes of different scales would not
+        # correspond to each other then.
         return min(
-            floor(log(value) * self._scale_factor),
-            self._max_normal_lower_boundary_index,
+            max(
+                floor(log(value) * self._scale_factor),
+                exponent << self._scale,
+            ),
+            ((exponent + 1) << self._scale) - 1,
         )
 
     def get_lower_boundary(self, index: int) -> float:
-- 
2.43.0


From 0a946a34267addaa114fd025393248d3bbf9508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 27/84] fix: do not aggregate observations of a collection that
 times out

The measurement consumer fed observations to the storage one instrument at a
time and raised MetricsTimeoutError in the middle when the deadline passed.
The observations already consumed stayed in the storage, unreported, and were
added to those of the next collection, doubling observable sums. Run all the
callbacks first and aggregate only once nothing can time out any more.
---
 .../metrics/_internal/measurement_consumer.py | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index c651033..3ecce01 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -113,6 +113,11 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
 
             default_timeout_ns = 10000 * 1e6
 
+            # Nothing is aggregated before all callbacks are done: what a
+            # collection that times out leaves behind would be added to the
+            # measurements of the next one.
+            measurements = []
+
             for async_instrument in self._async_instruments:
                 remaining_time = deadline_ns - time_ns()
 
@@ -121,24 +126,27 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
                         timeout_millis=remaining_time / 1e6
                     )
 
-                measurements = async_instrument.callback(callback_options)
+                instrument_measurements = async_instrument.callback(
+                    callback_options
+                )
                 if time_ns() >= deadline_ns:
                     raise MetricsTimeoutError(
                         "Timed out while executing callback"
                     )
-
-                for measurement in measurements:
-                    should_sample_exemplar = (
-                        self._sdk_config.exemplar_filter.should_sample(
-                            measurement.value,
-                            measurement.time_unix_nano,
-                            measurement.attributes,
-                            measurement.context,
-                        )
-                    )
-                    metric_reader_storage.consume_measurement(
-                        measurement, should_sample_exemplar
+                measurements.extend(instrument_measurements)
+
+            for measurement in measurements:
+                should_sample_exemplar = (
+                    self._sdk_config.exemplar_filter.should_sample(
+                        measurement.value,
+                        measurement.time_unix_nano,
+                        measurement.attributes,
+                        measurement.context,
                     )
+                )
+                metric_reader_storage.consume_measurement(
+                    measurement, should_sample_exemplar
+                )
 
             result = self._reader_storages[metric_reader].collect()
 
-- 
2.43.0


From fae35422d7a0ff5e3c312bdab15c76a2988b7213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 28/84] fix: match view instrument names case-insensitively

Instrument names are case-insensitive and instruments keep them in lower
case, but View compared them with its instrument_name as written: a view for
"MyCounter" never matched an instrument created as "MyCounter".
---
 .../src/opentelemetry/sdk/metrics/_internal/view.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
index b3fa029..70cdc65 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
@@ -170,7 +170,9 @@ class View:
                 return False
 
         if self._instrument_name is not None:
-            if not fnmatch(instrument.name, self._instrument_name):
+            # Instrument names are case-insensitive, instruments keep them in
+            # lower case.
+            if not fnmatch(instrument.name, self._instrument_name.lower()):
                 return False
 
         if self._instrument_unit is not None:
-- 
2.43.0


From ddbf0ee76dfcb6183e76043e54114691fce67d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 29/84] fix: do not confuse instruments with commas in unit or
 description

Instrument ids were the name, type, unit and description joined with commas,
so that unit "a" with description "b,c" was the same instrument as unit "a,b"
with description "c", and a unit or description of None, which instruments
accept, raised a TypeError. Use a tuple.
---
 .../src/opentelemetry/metrics/_internal/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 2319d8d..ad7f93c 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -46,7 +46,7 @@ from dataclasses import dataclass
 from logging import getLogger
 from os import environ
 from threading import Lock
-from typing import Dict, List, Optional, Sequence, Union, cast
+from typing import Dict, List, Optional, Sequence, Tuple, Union, cast
 
 from opentelemetry.environment_variables import OTEL_PYTHON_METER_PROVIDER
 from opentelemetry.metrics._internal.instrument import (
@@ -183,7 +183,7 @@ class _ProxyMeterProvider(MeterProvider):
 
 @dataclass
 class _InstrumentRegistrationStatus:
-    instrument_id: str
+    instrument_id: Tuple[str, str, str, str]
     already_registered: bool
     conflict: bool
     current_advisory: Optional[_MetricsHistogramAdvisory]
@@ -207,7 +207,7 @@ class Meter(ABC):
         self._version = version
         self._schema_url = schema_url
         self._instrument_ids: Dict[
-            str, Optional[_MetricsHistogramAdvisory]
+            Tuple[str, str, str, str], Optional[_MetricsHistogramAdvisory]
         ] = {}
         self._instrument_ids_lock = Lock()
 
@@ -252,8 +252,11 @@ class Meter(ABC):
         the registered instrument advisory.
         """
 
-        instrument_id = ",".join(
-            [name.strip().lower(), type_.__name__, unit, description]
+        instrument_id = (
+            name.strip().lower(),
+            type_.__name__,
+            unit or "",
+            description or "",
         )
 
         already_registered = False
-- 
2.43.0


From 347ff8eec677e72bfbe84bd1413f9556bbda747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 30/84] fix: do not raise KeyError when one instrument is
 created concurrently

An instrument id was registered before the instrument was created and stored.
Another thread asking for the same instrument in between found the id
registered and the instrument missing, and got a KeyError. So did every
second attempt to create an instrument whose name or unit is invalid.
---
 .../sdk/metrics/_internal/__init__.py         | 99 ++++++++++---------
 1 file changed, 51 insertions(+), 48 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index faa0959..27a6210 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -89,6 +89,29 @@ class Meter(APIMeter):
         self._instrument_id_instrument = {}
         self._instrument_id_instrument_lock = Lock()
 
+    def _registered_instrument(self, status):
+        # An instrument that is registered but not stored is still being
+        # created by another thread, or its creation failed.
+        if not status.already_registered:
+            return None
+        with self._instrument_id_instrument_lock:
+            return self._instrument_id_instrument.get(status.instrument_id)
+
+    def _store_instrument(self, status, instrument):
+        """Stores an instrument, returns the one to use: the first stored."""
+        with self._instrument_id_instrument_lock:
+            return self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
+
+    def _store_asynchronous_instrument(self, status, instrument):
+        stored = self._store_instrument(status, instrument)
+        if stored is instrument:
+            self._measurement_consumer.register_asynchronous_instrument(
+                instrument
+            )
+        return stored
+
     def create_counter(self, name, unit="", description="") -> APICounter:
         status = self._register_instrument(name, _Counter, unit, description)
 
@@ -103,9 +126,9 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+        instrument = self._registered_instrument(status)
+        if instrument is not None:
+            return instrument
 
         instrument = _Counter(
             name,
@@ -115,9 +138,7 @@ class Meter(APIMeter):
             description,
         )
 
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_instrument(status, instrument)
 
     def create_up_down_counter(
         self, name, unit="", description=""
@@ -137,9 +158,9 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+        instrument = self._registered_instrument(status)
+        if instrument is not None:
+            return instrument
 
         instrument = _UpDownCounter(
             name,
@@ -149,9 +170,7 @@ class Meter(APIMeter):
             description,
         )
 
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_instrument(status, instrument)
 
     def create_observable_counter(
         self,
@@ -175,9 +194,9 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+        instrument = self._registered_instrument(status)
+        if instrument is not None:
+            return instrument
 
         instrument = _ObservableCounter(
             name,
@@ -188,11 +207,7 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_asynchronous_instrument(status, instrument)
 
     def create_histogram(
         self,
@@ -242,9 +257,9 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+        instrument = self._registered_instrument(status)
+        if instrument is not None:
+            return instrument
 
         instrument = _Histogram(
             name,
@@ -254,9 +269,7 @@ class Meter(APIMeter):
             description,
             explicit_bucket_boundaries_advisory,
         )
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_instrument(status, instrument)
 
     def create_gauge(self, name, unit="", description="") -> APIGauge:
         status = self._register_instrument(name, _Gauge, unit, description)
@@ -272,9 +285,9 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+        instrument = self._registered_instrument(status)
+        if instrument is not None:
+            return instrument
 
         instrument = _Gauge(
             name,
@@ -284,9 +297,7 @@ class Meter(APIMeter):
             description,
         )
 
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_instrument(status, instrument)
 
     def create_observable_gauge(
         self, name, callbacks=None, unit="", description=""
@@ -306,9 +317,9 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+        instrument = self._registered_instrument(status)
+        if instrument is not None:
+            return instrument
 
         instrument = _ObservableGauge(
             name,
@@ -319,11 +330,7 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_asynchronous_instrument(status, instrument)
 
     def create_observable_up_down_counter(
         self, name, callbacks=None, unit="", description=""
@@ -343,9 +350,9 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+        instrument = self._registered_instrument(status)
+        if instrument is not None:
+            return instrument
 
         instrument = _ObservableUpDownCounter(
             name,
@@ -356,11 +363,7 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_asynchronous_instrument(status, instrument)
 
 
 def _get_exemplar_filter(exemplar_filter: str) -> ExemplarFilter:
-- 
2.43.0


From 500619d01972f3b5da913d5b5310ba0f5f6b7147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:32 +0000
Subject: [PATCH 31/84] fix: keep exporting periodically after a collection
 that failed

Only a timeout was caught in the thread of PeriodicExportingMetricReader. Any
other exception from a collection, such as one caused by an observation that
is not a number, ended the thread, and nothing was exported ever again.
---
 .../sdk/metrics/_internal/export/__init__.py              | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 562127e..989de70 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -531,6 +531,12 @@ class PeriodicExportingMetricReader(MetricReader):
                     interval_secs,
                     exc_info=True,
                 )
+            except Exception:  # pylint: disable=broad-exception-caught
+                # the thread must survive, it is never started again
+                _logger.exception(
+                    "Metric collection failed. Will try again after %s seconds",
+                    interval_secs,
+                )
         # one last collection below before shutting down completely
         try:
             self.collect(timeout_millis=self._export_interval_millis)
@@ -539,6 +545,8 @@ class PeriodicExportingMetricReader(MetricReader):
                 "Metric collection timed out.",
                 exc_info=True,
             )
+        except Exception:  # pylint: disable=broad-exception-caught
+            _logger.exception("Metric collection failed.")
 
     def _receive_metrics(
         self,
-- 
2.43.0


From ba4ea12b038c9d6b3083ec4ca734267d0affdc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 32/84] fix: do not export to a metric exporter that has been
 shut down

PeriodicExportingMetricReader.force_flush still collected and exported after
shutdown, and so did its thread when it outlasted the timeout of shutdown.
---
 .../sdk/metrics/_internal/export/__init__.py      | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 989de70..c42e370 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -484,6 +484,7 @@ class PeriodicExportingMetricReader(MetricReader):
         self._export_interval_millis = export_interval_millis
         self._export_timeout_millis = export_timeout_millis
         self._shutdown = False
+        self._exporter_shutdown = False
         self._shutdown_event = Event()
         self._shutdown_once = Once()
         self._daemon_thread = None
@@ -558,6 +559,9 @@ class PeriodicExportingMetricReader(MetricReader):
         # pylint: disable=broad-exception-caught,invalid-name
         try:
             with self._export_lock:
+                if self._exporter_shutdown:
+                    _logger.warning("Exporter already shutdown, ignoring batch")
+                    return
                 self._exporter.export(
                     metrics_data, timeout_millis=timeout_millis
                 )
@@ -580,7 +584,16 @@ class PeriodicExportingMetricReader(MetricReader):
         self._shutdown_event.set()
         if self._daemon_thread:
             self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)
-        self._exporter.shutdown(timeout=(deadline_ns - time_ns()) / 10**6)
+        # wait for an export that is still running, and let none begin later
+        locked = self._export_lock.acquire(
+            timeout=max(0, (deadline_ns - time_ns()) / 10**9)
+        )
+        self._exporter_shutdown = True
+        try:
+            self._exporter.shutdown(timeout=(deadline_ns - time_ns()) / 10**6)
+        finally:
+            if locked:
+                self._export_lock.release()
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
         super().force_flush(timeout_millis=timeout_millis)
-- 
2.43.0


From bee7110a1aac76bb37617d4d30c9e6341d5d5e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:21 +0000
Subject: [PATCH 33/84] fix: make metric force_flush wait for a collection in
 progress

With delta temporality a measurement collected by the thread of
PeriodicExportingMetricReader is not collected again by force_flush, which
found nothing to export and returned before the thread had exported it.
Likewise a later collection could be exported before an earlier one.
---
 .../sdk/metrics/_internal/export/__init__.py  | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index c42e370..5dc0c15 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -460,6 +460,11 @@ class PeriodicExportingMetricReader(MetricReader):
         # https://github.com/open-telemetry/opentelemetry-specification/blob/main/specification/metrics/sdk.md#exportbatch
         self._export_lock = Lock()
 
+        # This lock is held from the beginning of a collection to the end of
+        # its export: what another thread has collected but not exported yet
+        # is neither missed by force_flush() nor overtaken by later data.
+        self._collect_lock = Lock()
+
         self._exporter = exporter
         if export_interval_millis is None:
             try:
@@ -511,9 +516,10 @@ class PeriodicExportingMetricReader(MetricReader):
             )
 
     def _at_fork_reinit(self):
-        # The lock may have been held by the parent's ticker thread, which does
-        # not exist in the child.
+        # The locks may have been held by the parent's ticker thread, which
+        # does not exist in the child.
         self._export_lock = Lock()
+        self._collect_lock = Lock()
         self._daemon_thread = Thread(
             name="OtelPeriodicExportingMetricReader",
             target=self._ticker,
@@ -525,7 +531,8 @@ class PeriodicExportingMetricReader(MetricReader):
         interval_secs = self._export_interval_millis / 1e3
         while not self._shutdown_event.wait(interval_secs):
             try:
-                self.collect(timeout_millis=self._export_timeout_millis)
+                with self._collect_lock:
+                    self.collect(timeout_millis=self._export_timeout_millis)
             except MetricsTimeoutError:
                 _logger.warning(
                     "Metric collection timed out. Will try again after %s seconds",
@@ -540,7 +547,8 @@ class PeriodicExportingMetricReader(MetricReader):
                 )
         # one last collection below before shutting down completely
         try:
-            self.collect(timeout_millis=self._export_interval_millis)
+            with self._collect_lock:
+                self.collect(timeout_millis=self._export_interval_millis)
         except MetricsTimeoutError:
             _logger.warning(
                 "Metric collection timed out.",
@@ -596,6 +604,13 @@ class PeriodicExportingMetricReader(MetricReader):
                 self._export_lock.release()
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
-        super().force_flush(timeout_millis=timeout_millis)
+        if not self._collect_lock.acquire(timeout=timeout_millis / 10**3):
+            raise MetricsTimeoutError(
+                "Timed out while waiting for an earlier collection"
+            )
+        try:
+            super().force_flush(timeout_millis=timeout_millis)
+        finally:
+            self._collect_lock.release()
         self._exporter.force_flush(timeout_millis=timeout_millis)
         return True
-- 
2.43.0


From 0b1674f918e804ac478461d88ae20ebd808ec9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:07 +0000
Subject: [PATCH 34/84] fix: give the final metric collection the export
 timeout

PeriodicExportingMetricReader collected one last time before shutting down
with the export interval as timeout, while every periodic collection uses the
export timeout. With a short interval and callbacks slower than it, the final
collection timed out and the last measurements were never exported.
---
 .../src/opentelemetry/sdk/metrics/_internal/export/__init__.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 5dc0c15..7ba7b1f 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -548,7 +548,7 @@ class PeriodicExportingMetricReader(MetricReader):
         # one last collection below before shutting down completely
         try:
             with self._collect_lock:
-                self.collect(timeout_millis=self._export_interval_millis)
+                self.collect(timeout_millis=self._export_timeout_millis)
         except MetricsTimeoutError:
             _logger.warning(
                 "Metric collection timed out.",
-- 
2.43.0


From c329dcc1c19c763450fb8f2267fc9293f0f335e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 35/84] fix: report metric readers and exporters that fail to
 flush

MeterProvider.force_flush() ignored what the readers returned and
PeriodicExportingMetricReader.force_flush() what its exporter returned: both
answered True although nothing had been flushed.
---
 .../opentelemetry/sdk/metrics/_internal/__init__.py | 13 +++++++++----
 .../sdk/metrics/_internal/export/__init__.py        |  6 ++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index 27a6210..543c3d3 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -470,6 +470,7 @@ class MeterProvider(APIMeterProvider):
         deadline_ns = time_ns() + timeout_millis * 10**6
 
         metric_reader_error = {}
+        flushed = True
 
         for metric_reader in self._sdk_config.metric_readers:
             current_ts = time_ns()
@@ -478,9 +479,13 @@ class MeterProvider(APIMeterProvider):
                     raise MetricsTimeoutError(
                         "Timed out while flushing metric readers"
                     )
-                metric_reader.force_flush(
-                    timeout_millis=(deadline_ns - current_ts) / 10**6
-                )
+                if (
+                    metric_reader.force_flush(
+                        timeout_millis=(deadline_ns - current_ts) / 10**6
+                    )
+                    is False
+                ):
+                    flushed = False
 
             # pylint: disable=broad-exception-caught
             except Exception as error:
@@ -500,7 +505,7 @@ class MeterProvider(APIMeterProvider):
                 "metric readers failed during collect:\n"
                 f"{metric_reader_error_string}"
             )
-        return True
+        return flushed
 
     def shutdown(self, timeout_millis: float = 30_000):
         deadline_ns = time_ns() + timeout_millis * 10**6
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 7ba7b1f..224c547 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -612,5 +612,7 @@ class PeriodicExportingMetricReader(MetricReader):
             super().force_flush(timeout_millis=timeout_millis)
         finally:
             self._collect_lock.release()
-        self._exporter.force_flush(timeout_millis=timeout_millis)
-        return True
+        return (
+            self._exporter.force_flush(timeout_millis=timeout_millis)
+            is not False
+        )
-- 
2.43.0


From b02add5917eac3d2e1a7b7305cd6b03c776d402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 36/84] fix: encode the trace state of span links

encode_spans() dropped the trace_state of links: the decoded link named
another context than the recorded one.
---
 .../otlp/proto/common/_internal/trace_encoder/__init__.py        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
index 388d229..3d14f51 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
@@ -159,6 +159,7 @@ def _encode_links(links: Sequence[Link]) -> Sequence[PB2SPan.Link]:
             encoded_link = PB2SPan.Link(
                 trace_id=_encode_trace_id(link.context.trace_id),
                 span_id=_encode_span_id(link.context.span_id),
+                trace_state=_encode_trace_state(link.context.trace_state),
                 attributes=_encode_attributes(link.attributes),
                 dropped_attributes_count=link.dropped_attributes,
                 flags=_span_flags(link.context),
-- 
2.43.0


From 4da0ea3e9fb75402e3979a64642379e6a79a8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 37/84] fix: encode log records without ids, flags or severity

A log record may be emitted without trace id, span id, trace flags or severity
number, and none of them is the default. encode_logs() raised for such a
record, losing the whole batch.
---
 .../common/_internal/_log_encoder/__init__.py | 29 +++++++++----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
index 9cd4484..6658b47 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
@@ -38,28 +38,27 @@ def encode_logs(batch: Sequence[LogData]) -> ExportLogsServiceRequest:
 
 
 def _encode_log(log_data: LogData) -> PB2LogRecord:
+    log_record = log_data.log_record
+    # All of these are optional: the record may have been emitted without.
     span_id = (
-        None
-        if log_data.log_record.span_id == 0
-        else _encode_span_id(log_data.log_record.span_id)
+        _encode_span_id(log_record.span_id) if log_record.span_id else None
     )
     trace_id = (
-        None
-        if log_data.log_record.trace_id == 0
-        else _encode_trace_id(log_data.log_record.trace_id)
+        _encode_trace_id(log_record.trace_id) if log_record.trace_id else None
     )
-    body = log_data.log_record.body
     return PB2LogRecord(
-        time_unix_nano=log_data.log_record.timestamp,
-        observed_time_unix_nano=log_data.log_record.observed_timestamp,
+        time_unix_nano=log_record.timestamp,
+        observed_time_unix_nano=log_record.observed_timestamp,
         span_id=span_id,
         trace_id=trace_id,
-        flags=int(log_data.log_record.trace_flags),
-        body=_encode_value(body, allow_null=True),
-        severity_text=log_data.log_record.severity_text,
-        attributes=_encode_attributes(log_data.log_record.attributes),
-        dropped_attributes_count=log_data.log_record.dropped_attributes,
-        severity_number=log_data.log_record.severity_number.value,
+        flags=int(log_record.trace_flags or 0),
+        body=_encode_value(log_record.body, allow_null=True),
+        severity_text=log_record.severity_text,
+        attributes=_encode_attributes(log_record.attributes),
+        dropped_attributes_count=log_record.dropped_attributes,
+        severity_number=log_record.severity_number.value
+        if log_record.severity_number is not None
+        else None,
     )
 
 
-- 
2.43.0


From e62857e6f6336d9103a87bcd9b9e709937b133fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 38/84] fix: keep the batch when the body of a log record
 cannot be encoded

Logging an object, for example an exception, makes it the body of the log
record. encode_logs() raised for a body of a type OTLP does not know (or an
integer beyond 64 bits) and the whole batch was lost. Encode the record
without the body and log the failure, as for attributes.
---
 .../common/_internal/_log_encoder/__init__.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
index 6658b47..7eb906a 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
@@ -11,8 +11,9 @@
 # WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 # See the License for the specific language governing permissions and
 # limitations under the License.
+import logging
 from collections import defaultdict
-from typing import List, Sequence
+from typing import List, Optional, Sequence
 
 from opentelemetry.exporter.otlp.proto.common._internal import (
     _encode_attributes,
@@ -25,18 +26,32 @@ from opentelemetry.exporter.otlp.proto.common._internal import (
 from opentelemetry.proto.collector.logs.v1.logs_service_pb2 import (
     ExportLogsServiceRequest,
 )
+from opentelemetry.proto.common.v1.common_pb2 import AnyValue as PB2AnyValue
 from opentelemetry.proto.logs.v1.logs_pb2 import LogRecord as PB2LogRecord
 from opentelemetry.proto.logs.v1.logs_pb2 import (
     ResourceLogs,
     ScopeLogs,
 )
 from opentelemetry.sdk._logs import LogData
+from opentelemetry.util.types import AnyValue
+
+_logger = logging.getLogger(__name__)
 
 
 def encode_logs(batch: Sequence[LogData]) -> ExportLogsServiceRequest:
     return ExportLogsServiceRequest(resource_logs=_encode_resource_logs(batch))
 
 
+def _encode_body(body: AnyValue) -> Optional[PB2AnyValue]:
+    # pylint: disable=broad-exception-caught
+    try:
+        return _encode_value(body, allow_null=True)
+    except Exception as error:
+        # only this body is lost, not the batch
+        _logger.exception("Failed to encode log body: %s", error)
+        return None
+
+
 def _encode_log(log_data: LogData) -> PB2LogRecord:
     log_record = log_data.log_record
     # All of these are optional: the record may have been emitted without.
@@ -52,7 +67,7 @@ def _encode_log(log_data: LogData) -> PB2LogRecord:
         span_id=span_id,
         trace_id=trace_id,
         flags=int(log_record.trace_flags or 0),
-        body=_encode_value(log_record.body, allow_null=True),
+        body=_encode_body(log_record.body),
         severity_text=log_record.severity_text,
         attributes=_encode_attributes(log_record.attributes),
         dropped_attributes_count=log_record.dropped_attributes,
-- 
2.43.0


From a0d621613e1bfded053a918caf1f133b8baae832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 39/84] fix: encode the trace state of links only when it is a
 mapping

Keeps the encoding of links whose context carries no trace state as it was.
---
 .../otlp/proto/common/_internal/trace_encoder/__init__.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
index 3d14f51..dbedbce 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
@@ -14,7 +14,7 @@
 
 import logging
 from collections import defaultdict
-from typing import List, Optional, Sequence
+from typing import List, Mapping, Optional, Sequence
 
 from opentelemetry.exporter.otlp.proto.common._internal import (
     _encode_attributes,
@@ -180,7 +180,7 @@ def _encode_status(status: Status) -> Optional[PB2Status]:
 
 def _encode_trace_state(trace_state: TraceState) -> Optional[str]:
     pb2_trace_state = None
-    if trace_state is not None:
+    if isinstance(trace_state, Mapping):
         pb2_trace_state = ",".join(
             [f"{key}={value}" for key, value in (trace_state.items())]
         )
-- 
2.43.0


From 0f5afd74b2149751b585b4bf7319a43fab932de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 40/84] fix: do not report a redirect response as a successful
 OTLP/HTTP export

requests' Response.ok is true for 3xx, so an export answered with e.g. 304 or
a redirect without a location was reported as SUCCESS although the collector
did not accept the batch.
---
 .../exporter/otlp/proto/http/_log_exporter/__init__.py         | 3 ++-
 .../exporter/otlp/proto/http/metric_exporter/__init__.py       | 3 ++-
 .../exporter/otlp/proto/http/trace_exporter/__init__.py        | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
index 21b8773..3c9f24c 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
@@ -166,7 +166,8 @@ class OTLPLogExporter(LogExporter):
 
             resp = self._export(serialized_data)
             # pylint: disable=no-else-return
-            if resp.ok:
+            # requests counts 3xx as ok, but the batch was not accepted
+            if resp.ok and resp.status_code not in range(300, 400):
                 return LogExportResult.SUCCESS
             elif self._retryable(resp):
                 _logger.warning(
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index 00f429e..3d3b0c5 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -206,7 +206,8 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
 
             resp = self._export(serialized_data.SerializeToString())
             # pylint: disable=no-else-return
-            if resp.ok:
+            # requests counts 3xx as ok, but the batch was not accepted
+            if resp.ok and resp.status_code not in range(300, 400):
                 return MetricExportResult.SUCCESS
             elif self._retryable(resp):
                 _logger.warning(
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
index 7bcf4b4..1195a69 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
@@ -158,7 +158,8 @@ class OTLPSpanExporter(SpanExporter):
 
             resp = self._export(serialized_data)
             # pylint: disable=no-else-return
-            if resp.ok:
+            # requests counts 3xx as ok, but the batch was not accepted
+            if resp.ok and resp.status_code not in range(300, 400):
                 return SpanExportResult.SUCCESS
             elif self._retryable(resp):
                 _logger.warning(
-- 
2.43.0


From de6b86413e8aad7b46b84d83a9a81be470975775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 41/84] fix: report failure when an OTLP/HTTP request cannot be
 sent

A refused connection, timeout or TLS error escaped from export() as an
exception instead of being reported as FAILURE.
---
 .../exporter/otlp/proto/http/_log_exporter/__init__.py      | 6 +++++-
 .../exporter/otlp/proto/http/metric_exporter/__init__.py    | 6 +++++-
 .../exporter/otlp/proto/http/trace_exporter/__init__.py     | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
index 3c9f24c..7c7e7c2 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
@@ -164,7 +164,11 @@ class OTLPLogExporter(LogExporter):
             if delay == self._MAX_RETRY_TIMEOUT:
                 return LogExportResult.FAILURE
 
-            resp = self._export(serialized_data)
+            try:
+                resp = self._export(serialized_data)
+            except requests.exceptions.RequestException as exc:
+                _logger.error("Failed to export logs batch: %s", exc)
+                return LogExportResult.FAILURE
             # pylint: disable=no-else-return
             # requests counts 3xx as ok, but the batch was not accepted
             if resp.ok and resp.status_code not in range(300, 400):
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index 3d3b0c5..df44f4d 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -204,7 +204,11 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
             if delay == self._MAX_RETRY_TIMEOUT:
                 return MetricExportResult.FAILURE
 
-            resp = self._export(serialized_data.SerializeToString())
+            try:
+                resp = self._export(serialized_data.SerializeToString())
+            except requests.exceptions.RequestException as exc:
+                _logger.error("Failed to export metric batch: %s", exc)
+                return MetricExportResult.FAILURE
             # pylint: disable=no-else-return
             # requests counts 3xx as ok, but the batch was not accepted
             if resp.ok and resp.status_code not in range(300, 400):
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
index 1195a69..4517f5c 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
@@ -156,7 +156,11 @@ class OTLPSpanExporter(SpanExporter):
             if delay == self._MAX_RETRY_TIMEOUT:
                 return SpanExportResult.FAILURE
 
-            resp = self._export(serialized_data)
+            try:
+                resp = self._export(serialized_data)
+            except requests.exceptions.RequestException as exc:
+                _logger.error("Failed to export span batch: %s", exc)
+                return SpanExportResult.FAILURE
             # pylint: disable=no-else-return
             # requests counts 3xx as ok, but the batch was not accepted
             if resp.ok and resp.status_code not in range(300, 400):
-- 
2.43.0


From 44d66916f7cd247c697aef9a37c0db9865da2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 42/84] fix: stop exporting metrics over HTTP after shutdown

OTLPMetricExporter.shutdown() did nothing: batches were still sent after it.
---
 .../otlp/proto/http/metric_exporter/__init__.py       | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index df44f4d..96bf6cc 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -160,6 +160,7 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
             self._session.headers.update(
                 {"Content-Encoding": self._compression.value}
             )
+        self._shutdown = False
 
         self._common_configuration(
             preferred_temporality, preferred_aggregation
@@ -197,6 +198,10 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         timeout_millis: float = 10_000,
         **kwargs,
     ) -> MetricExportResult:
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring batch")
+            return MetricExportResult.FAILURE
+
         serialized_data = encode_metrics(metrics_data)
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
@@ -231,7 +236,11 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         return MetricExportResult.FAILURE
 
     def shutdown(self, timeout_millis: float = 30_000, **kwargs) -> None:
-        pass
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring call")
+            return
+        self._session.close()
+        self._shutdown = True
 
     @property
     def _exporting(self) -> str:
-- 
2.43.0


From 085c467e14b9c250a41075ab5fe4df487e9067bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 43/84] fix: stop retrying OTLP/HTTP exports after shutdown

An export waiting for its next retry kept posting the batch up to a minute
after shutdown() had returned.
---
 .../exporter/otlp/proto/http/_log_exporter/__init__.py          | 2 +-
 .../exporter/otlp/proto/http/metric_exporter/__init__.py        | 2 +-
 .../exporter/otlp/proto/http/trace_exporter/__init__.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
index 7c7e7c2..856feee 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
@@ -161,7 +161,7 @@ class OTLPLogExporter(LogExporter):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return LogExportResult.FAILURE
 
             try:
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index 96bf6cc..20b68bb 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -206,7 +206,7 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return MetricExportResult.FAILURE
 
             try:
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
index 4517f5c..c5718b5 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
@@ -153,7 +153,7 @@ class OTLPSpanExporter(SpanExporter):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return SpanExportResult.FAILURE
 
             try:
-- 
2.43.0


From 347aaf4f2ccd8d16877bded9505cdba41970eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 44/84] fix: release the OTLP/gRPC export lock only if shutdown
 acquired it

When an export was still in progress after the shutdown timeout, shutdown()
released the lock held by the exporting thread, which then failed with
"release unlocked lock".
---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 4be75c5..3a0596c 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -357,10 +357,11 @@ class OTLPExporterMixin(
             logger.warning("Exporter already shutdown, ignoring call")
             return
         # wait for the last export if any
-        self._export_lock.acquire(timeout=timeout_millis / 1e3)
+        acquired = self._export_lock.acquire(timeout=timeout_millis / 1e3)
         self._shutdown = True
         self._channel.close()
-        self._export_lock.release()
+        if acquired:
+            self._export_lock.release()
 
     @property
     @abstractmethod
-- 
2.43.0


From 5d9f254ea944c8c965097635e25f57635be70da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 45/84] fix: do not call a closed gRPC channel after shutdown

An export that waited for the lock held by shutdown() went on to use the
closed channel and raised ValueError instead of reporting FAILURE.
---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 3a0596c..ea27bb0 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -290,10 +290,14 @@ class OTLPExporterMixin(
         # exponentially. Once delay is greater than max_value, the yielded
         # value will remain constant.
         for delay in _create_exp_backoff_generator(max_value=max_value):
-            if delay == max_value or self._shutdown:
+            if delay == max_value:
                 return self._result.FAILURE
 
             with self._export_lock:
+                # shutdown() closes the channel while it holds the lock
+                if self._shutdown:
+                    return self._result.FAILURE
+
                 try:
                     self._client.Export(
                         request=self._translate_data(data),
-- 
2.43.0


From ce3498b70e7671a2260b82268aa74e275c486d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 46/84] fix: survive malformed retry information from an
 OTLP/gRPC server

A retry-info trailer that does not parse, or asks for a negative delay, made
export() raise. The exponential delay is used instead.
---
 .../exporter/otlp/proto/grpc/exporter.py       | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index ea27bb0..5474c74 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -35,6 +35,7 @@ from typing import Sequence as TypingSequence
 from urllib.parse import urlparse
 
 from deprecated import deprecated
+from google.protobuf.message import DecodeError
 from google.rpc.error_details_pb2 import RetryInfo
 
 from grpc import (
@@ -322,11 +323,18 @@ class OTLPExporterMixin(
                         )
                         if retry_info_bin is not None:
                             retry_info = RetryInfo()
-                            retry_info.ParseFromString(retry_info_bin)
-                            delay = (
-                                retry_info.retry_delay.seconds
-                                + retry_info.retry_delay.nanos / 1.0e9
-                            )
+                            try:
+                                retry_info.ParseFromString(retry_info_bin)
+                                delay = max(
+                                    retry_info.retry_delay.seconds
+                                    + retry_info.retry_delay.nanos / 1.0e9,
+                                    0,
+                                )
+                            except DecodeError:
+                                logger.warning(
+                                    "Ignoring malformed retry info from %s",
+                                    self._endpoint,
+                                )
 
                         logger.warning(
                             (
-- 
2.43.0


From 26acae974df3d4178c48fdfe610b6308c150186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 47/84] fix: accept deflate and none as OTLP/gRPC compression
 from the environment

OTEL_EXPORTER_OTLP_COMPRESSION is documented to support deflate, but the gRPC
exporters raised InvalidCompressionValueException for it, and for none.
---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 5474c74..1efc228 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -84,6 +84,8 @@ ExportResultT = TypeVar("ExportResultT")
 
 _ENVIRON_TO_COMPRESSION = {
     None: None,
+    "none": Compression.NoCompression,
+    "deflate": Compression.Deflate,
     "gzip": Compression.Gzip,
 }
 
-- 
2.43.0


From b6db980f23555f3528dadc444b69b8ed34609601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 48/84] fix: skip exponential histograms in Prometheus scrapes

One exponential histogram made every scrape fail with an AttributeError; it
was meant to be skipped with a warning.
---
 .../src/opentelemetry/exporter/prometheus/__init__.py       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index 475cfb1..8f80ffb 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -98,6 +98,7 @@ from opentelemetry.sdk.metrics import (
 from opentelemetry.sdk.metrics import Histogram as HistogramInstrument
 from opentelemetry.sdk.metrics.export import (
     AggregationTemporality,
+    ExponentialHistogram,
     Gauge,
     Histogram,
     HistogramDataPoint,
@@ -221,6 +222,11 @@ class _CustomCollector:
         for resource_metrics in metrics_data.resource_metrics:
             for scope_metrics in resource_metrics.scope_metrics:
                 for metric in scope_metrics.metrics:
+                    if isinstance(metric.data, ExponentialHistogram):
+                        _logger.warning(
+                            "Unsupported metric data. %s", type(metric.data)
+                        )
+                        continue
                     metrics.append(metric)
 
         for metric in metrics:
-- 
2.43.0


From 63a64fd245a7feef847915f0159781903620e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 49/84] fix: give Prometheus labels of empty attribute keys a
 valid name

An empty attribute key became an empty label name, which no Prometheus parser
accepts.
---
 .../src/opentelemetry/exporter/prometheus/_mapping.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/_mapping.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/_mapping.py
index 077d2fb..0b402fb 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/_mapping.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/_mapping.py
@@ -101,7 +101,7 @@ def sanitize_attribute(key: str) -> str:
     # Leading number special case
     if key and key[0].isdigit():
         key = "_" + key[1:]
-    return _SANITIZE_ATTRIBUTE_KEY_RE.sub("_", key)
+    return _SANITIZE_ATTRIBUTE_KEY_RE.sub("_", key) or "_"
 
 
 def map_unit(unit: str) -> str:
-- 
2.43.0


From 92c1296c7a5b5cef69be3e07b792f676ee13060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 50/84] fix: keep all values of attributes that share a
 Prometheus label

When several attribute keys were equal after sanitizing only one value was
exposed. The specification demands that the values are concatenated.
---
 .../exporter/prometheus/__init__.py           | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index 8f80ffb..d8241e5 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -241,12 +241,9 @@ class _CustomCollector:
             metric_unit = map_unit(metric.unit)
 
             for number_data_point in metric.data.data_points:
-                label_keys = []
-                label_values = []
-
-                for key, value in sorted(number_data_point.attributes.items()):
-                    label_keys.append(sanitize_attribute(key))
-                    label_values.append(self._check_value(value))
+                labels = self._create_labels(number_data_point.attributes)
+                label_keys = list(labels.keys())
+                label_values = list(labels.values())
 
                 per_metric_family_ids.append(
                     "|".join(
@@ -369,6 +366,20 @@ class _CustomCollector:
                         "Unsupported metric data. %s", type(metric.data)
                     )
 
+    def _create_labels(self, attributes: Attributes) -> Dict[str, str]:
+        """Convert attributes to labels, in the order of their keys. The values of
+        keys that are equal once sanitized are concatenated, as required by
+        https://github.com/open-telemetry/opentelemetry-specification/blob/v1.33.0/specification/compatibility/prometheus_and_openmetrics.md#metric-attributes
+        """
+        labels: Dict[str, str] = {}
+        for key, value in sorted((attributes or {}).items()):
+            label = sanitize_attribute(key)
+            value = self._check_value(value)
+            labels[label] = (
+                f"{labels[label]};{value}" if label in labels else value
+            )
+        return labels
+
     # pylint: disable=no-self-use
     def _check_value(self, value: Union[int, float, str, Sequence]) -> str:
         """Check the label value and return is appropriate representation"""
@@ -381,10 +392,7 @@ class _CustomCollector:
     ) -> InfoMetricFamily:
         """Create an Info Metric Family with list of attributes"""
         # sanitize the attribute names according to Prometheus rule
-        attributes = {
-            sanitize_attribute(key): self._check_value(value)
-            for key, value in attributes.items()
-        }
+        attributes = self._create_labels(attributes)
         info = InfoMetricFamily(name, description, labels=attributes)
         info.add_metric(labels=list(attributes.keys()), value=attributes)
         return info
-- 
2.43.0


From 0c995d44e8092b496d09f77144d88a3fc6907f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 51/84] fix: expose every series once per Prometheus scrape

A scrape after a flush, or two scrapes at the same time, exposed series twice
or not at all: the collected data was queued and all of it was exposed by
whichever scrape came first. Every scrape now exposes what was collected for
it, each series once with its latest value.
---
 .../exporter/prometheus/__init__.py           | 44 ++++++++++++++-----
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index d8241e5..5ba2255 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -67,7 +67,8 @@ from itertools import chain
 from json import dumps
 from logging import getLogger
 from os import environ
-from typing import Deque, Dict, Iterable, Sequence, Tuple, Union
+from threading import Lock
+from typing import Deque, Dict, Iterable, Sequence, Set, Tuple, Union
 
 from prometheus_client import start_http_server
 from prometheus_client.core import (
@@ -173,6 +174,7 @@ class _CustomCollector:
         self._metrics_datas: Deque[MetricsData] = deque()
         self._disable_target_info = disable_target_info
         self._target_info = None
+        self._lock = Lock()
 
     def add_metrics_data(self, metrics_data: MetricsData) -> None:
         """Add metrics to Prometheus data"""
@@ -184,16 +186,23 @@ class _CustomCollector:
         Collect is invoked every time a ``prometheus.Gatherer`` is run
         for example when the HTTP endpoint is invoked by Prometheus.
         """
-        if self._callback is not None:
-            self._callback()
+        with self._lock:
+            # the data collected for this scrape must not be taken by another
+            # one that runs at the same time
+            if self._callback is not None:
+                self._callback()
+
+            metrics_datas = []
+            while self._metrics_datas:
+                metrics_datas.append(self._metrics_datas.popleft())
 
         metric_family_id_metric_family = {}
 
-        if len(self._metrics_datas):
+        if metrics_datas:
             if not self._disable_target_info:
                 if self._target_info is None:
                     attributes: Attributes = {}
-                    for res in self._metrics_datas[0].resource_metrics:
+                    for res in metrics_datas[0].resource_metrics:
                         attributes = {**attributes, **res.resource.attributes}
 
                     self._target_info = self._create_info_metric(
@@ -203,21 +212,27 @@ class _CustomCollector:
                     self._target_info
                 )
 
-        while self._metrics_datas:
-            self._translate_to_prometheus(
-                self._metrics_datas.popleft(), metric_family_id_metric_family
+        # Data may have been collected before this scrape, e.g. by a flush. The
+        # latest value of every series is exposed, once.
+        exposed = set()
+        for metrics_data in reversed(metrics_datas):
+            exposed.update(
+                self._translate_to_prometheus(
+                    metrics_data, metric_family_id_metric_family, exposed
+                )
             )
 
-            if metric_family_id_metric_family:
-                yield from metric_family_id_metric_family.values()
+        yield from metric_family_id_metric_family.values()
 
     # pylint: disable=too-many-locals,too-many-branches
     def _translate_to_prometheus(
         self,
         metrics_data: MetricsData,
         metric_family_id_metric_family: Dict[str, PrometheusMetric],
-    ):
+        exposed: Set[Tuple[str, ...]],
+    ) -> Set[Tuple[str, ...]]:
         metrics = []
+        translated = set()
 
         for resource_metrics in metrics_data.resource_metrics:
             for scope_metrics in resource_metrics.scope_metrics:
@@ -277,6 +292,11 @@ class _CustomCollector:
                 label_values_data_points,
                 values,
             ):
+                series = (per_metric_family_id, *label_values)
+                if series in exposed:
+                    continue
+                translated.add(series)
+
                 is_non_monotonic_sum = (
                     isinstance(metric.data, Sum)
                     and metric.data.is_monotonic is False
@@ -366,6 +386,8 @@ class _CustomCollector:
                         "Unsupported metric data. %s", type(metric.data)
                     )
 
+        return translated
+
     def _create_labels(self, attributes: Attributes) -> Dict[str, str]:
         """Convert attributes to labels, in the order of their keys. The values of
         keys that are equal once sanitized are concatenated, as required by
-- 
2.43.0


From ccffbca9a715f3720f15e9fed3ec94e0c2ff77ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 52/84] fix: export Zipkin JSON v1 without a maximum tag value
 length

The exporter passes None by default, so every export with a tag raised.
---
 .../src/opentelemetry/exporter/zipkin/json/v1/__init__.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
index c44a2dd..5014c21 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
@@ -27,7 +27,11 @@ class V1Encoder(Encoder):
     ) -> List[Dict]:
         binary_annotations = []
         for tag_key, tag_value in self._extract_tags_from_span(span).items():
-            if isinstance(tag_value, str) and self.max_tag_value_length > 0:
+            if (
+                isinstance(tag_value, str)
+                and self.max_tag_value_length is not None
+                and self.max_tag_value_length > 0
+            ):
                 tag_value = tag_value[: self.max_tag_value_length]
             binary_annotations.append(
                 {
-- 
2.43.0


From 73773c53994c274f4d3132d0022047ae17174fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 53/84] fix: do not lose a Zipkin protobuf batch to a span that
 ends before it starts

---
 .../opentelemetry/exporter/zipkin/proto/http/v2/__init__.py  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/v2/__init__.py b/exporter/opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/v2/__init__.py
index d7ca3b8..29e8bbb 100644
--- a/exporter/opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/v2/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/v2/__init__.py
@@ -66,7 +66,10 @@ class ProtobufEncoder(Encoder):
             id=self._encode_span_id(context.span_id),
             name=span.name,
             timestamp=self._nsec_to_usec_round(span.start_time),
-            duration=self._nsec_to_usec_round(span.end_time - span.start_time),
+            # the field is unsigned: a span may end before it starts
+            duration=max(
+                0, self._nsec_to_usec_round(span.end_time - span.start_time)
+            ),
             local_endpoint=encoded_local_endpoint,
             kind=self.SPAN_KIND_MAP[span.kind],
         )
-- 
2.43.0


From 53270edbc173c05c6b6e42a7065769be84fd6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 54/84] fix: count escapes when cutting Zipkin sequence tags at
 an element boundary

---
 .../src/opentelemetry/exporter/zipkin/encoder/__init__.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
index bb90daa..5360105 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
@@ -180,8 +180,10 @@ class Encoder(abc.ABC):
                 if tag_value_element is None:
                     running_string_length += 4  # null with no quotes
                 else:
-                    # + 2 accounts for string quotation marks
-                    running_string_length += len(tag_value_element) + 2
+                    # as serialized, with quotation marks and escapes
+                    running_string_length += len(
+                        json.dumps(tag_value_element)
+                    )
 
                 if tag_value_elements:
                     # accounts for ',' item separator
-- 
2.43.0


From f5e7c957c7e265ff91964c5f4d288fec786a7a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 55/84] fix: do not lose an OpenCensus batch to an integer
 beyond 64 bits

Such a value is exported as a string, like other values without a type.
---
 .../src/opentelemetry/exporter/opencensus/util.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/util.py b/exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/util.py
index 77eed6f..9c35353 100644
--- a/exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/util.py
+++ b/exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/util.py
@@ -69,7 +69,7 @@ def add_proto_attribute_value(pb_attributes, key, value):
 
     if isinstance(value, bool):
         pb_attributes.attribute_map[key].bool_value = value
-    elif isinstance(value, int):
+    elif isinstance(value, int) and -(2**63) <= value < 2**63:
         pb_attributes.attribute_map[key].int_value = value
     elif isinstance(value, str):
         pb_attributes.attribute_map[key].string_value.value = value
-- 
2.43.0


From 3be1bfc2a00a635be3d93e94d2e902159dd8f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 56/84] fix: read times of OpenCensus message events as UTC

They were taken as local times, and lost precision as floats.
---
 .../src/opentelemetry/shim/opencensus/_shim_span.py  | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
index 2012035..a067260 100644
--- a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
+++ b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 import logging
-from datetime import datetime
+from datetime import datetime, timedelta, timezone
 from typing import TYPE_CHECKING
 
 import wrapt
@@ -30,6 +30,8 @@ if TYPE_CHECKING:
 
 _logger = logging.getLogger(__name__)
 
+_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
 # Copied from Java
 # https://github.com/open-telemetry/opentelemetry-java/blob/0d3a04669e51b33ea47b29399a7af00012d25ccb/opencensus-shim/src/main/java/io/opentelemetry/opencensusshim/SpanConverter.java#L24-L27
 _MESSAGE_EVENT_ATTRIBUTE_KEY_TYPE = "message.event.type"
@@ -53,10 +55,10 @@ def _opencensus_time_to_nanos(timestamp: str) -> int:
     # https://github.com/census-instrumentation/opencensus-python/blob/c38c71b9285e71de94d0185ff3c5bf65ee163345/opencensus/common/utils/__init__.py#L76
     #
     # datetime.fromisoformat() does not work with the added "Z" until python 3.11
-    seconds_float = datetime.strptime(
-        timestamp, "%Y-%m-%dT%H:%M:%S.%fZ"
-    ).timestamp()
-    return round(seconds_float * 1e9)
+    utc = datetime.strptime(timestamp, "%Y-%m-%dT%H:%M:%S.%fZ").replace(
+        tzinfo=timezone.utc
+    )
+    return (utc - _EPOCH) // timedelta(microseconds=1) * 1000
 
 
 # pylint: disable=abstract-method
-- 
2.43.0


From 91c648188a8ad859f8ab81e63192faf9c57b9fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 57/84] fix: start OpenTracing spans under the requested parent

The active span became the parent even if it was to be ignored or if
references were given.
---
 .../shim/opentracing_shim/__init__.py            | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 8f4935e..f17af82 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -598,6 +598,8 @@ class TracerShim(Tracer):
 
         if (
             child_of is None
+            and not references
+            and not ignore_active_span
             and current_span.get_span_context() is not INVALID_SPAN_CONTEXT
         ):
             child_of = SpanShim(None, None, current_span)
@@ -646,8 +648,14 @@ class TracerShim(Tracer):
             An already-started :class:`SpanShim` instance.
         """
 
+        valid_links = []
+        if references:
+            for ref in references:
+                if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT:
+                    valid_links.append(Link(ref.referenced_context.unwrap()))
+
         # Use active span as parent when no explicit parent is specified.
-        if not ignore_active_span and not child_of:
+        if not ignore_active_span and not child_of and not valid_links:
             child_of = self.active_span
 
         # Use the specified parent or the active span if possible. Otherwise,
@@ -656,12 +664,6 @@ class TracerShim(Tracer):
         if isinstance(parent, OtelSpanContext):
             parent = NonRecordingSpan(parent)
 
-        valid_links = []
-        if references:
-            for ref in references:
-                if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT:
-                    valid_links.append(Link(ref.referenced_context.unwrap()))
-
         if valid_links and parent is None:
             parent = NonRecordingSpan(valid_links[0].context)
 
-- 
2.43.0


From 2d788be531fa07c79510e91b32dd7132d6c85479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 58/84] fix: see spans activated with OpenTelemetry in the
 OpenTracing scope manager

No span or an outer one was returned: get_value() does not raise.
---
 .../shim/opentracing_shim/__init__.py              | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index f17af82..777684b 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -497,12 +497,14 @@ class ScopeManagerShim(ScopeManager):
         if span.get_span_context() == INVALID_SPAN_CONTEXT:
             return None
 
-        try:
-            return get_value(_SHIM_KEY)
-        except KeyError:
-            span_context = SpanContextShim(span.get_span_context())
-            wrapped_span = SpanShim(self._tracer, span_context, span)
-            return ScopeShim(self, span=wrapped_span)
+        scope = get_value(_SHIM_KEY)
+        if scope is not None and scope.span.unwrap() is span:
+            return scope
+
+        # The span was activated with the OpenTelemetry API.
+        span_context = SpanContextShim(span.get_span_context())
+        wrapped_span = SpanShim(self._tracer, span_context, span)
+        return ScopeShim(self, span=wrapped_span)
 
     @property
     def tracer(self) -> "TracerShim":
-- 
2.43.0


From 0c8a2a1e350c55c3483a39adf0e875bd832ecbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 59/84] fix: keep the baggage of an OpenTracing span when it is
 activated

---
 .../src/opentelemetry/shim/opentracing_shim/__init__.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 777684b..5abb832 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -474,7 +474,8 @@ class ScopeManagerShim(ScopeManager):
         """
 
         span_cm = use_span(span.unwrap(), end_on_exit=finish_on_close)
-        return ScopeShim.from_context_manager(self, span_cm=span_cm)
+        span_cm.__enter__()
+        return ScopeShim(self, span, span_cm)
 
     @property
     def active(self) -> "ScopeShim":
-- 
2.43.0


From 5be782e20c63d1fffd86b54e7ea5763221e86d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 60/84] fix: hash equal resources equally

---
 opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index 752b906..e1a4c44 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -293,9 +293,7 @@ class Resource:
         )
 
     def __hash__(self) -> int:
-        return hash(
-            f"{dumps(self._attributes.copy(), sort_keys=True)}|{self._schema_url}"  # type: ignore
-        )
+        return hash((frozenset(self._attributes.items()), self._schema_url))
 
     def to_json(self, indent: Optional[int] = 4) -> str:
         attributes: MutableMapping[str, AttributeValue] = dict(
-- 
2.43.0


From 3b48de61bcaf77726112812b4d9bc25c824cf041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 61/84] fix: run resource detectors in the configured order

---
 .../src/opentelemetry/sdk/resources/__init__.py        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index e1a4c44..95a832e 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -189,14 +189,16 @@ class Resource:
         if not attributes:
             attributes = {}
 
-        otel_experimental_resource_detectors = {"otel"}.union(
-            {
+        # A dict keeps the configured order, which decides what detector wins
+        otel_experimental_resource_detectors = dict.fromkeys(
+            [
                 otel_experimental_resource_detector.strip()
                 for otel_experimental_resource_detector in environ.get(
                     OTEL_EXPERIMENTAL_RESOURCE_DETECTORS, ""
                 ).split(",")
-                if otel_experimental_resource_detector
-            }
+                if otel_experimental_resource_detector.strip()
+            ]
+            + ["otel"]
         )
 
         resource_detectors: List[ResourceDetector] = []
-- 
2.43.0


From b9cc0e8405f4baab7b36043f7ce250b92e53df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 62/84] fix: always create resources with a service name

---
 opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index 95a832e..e88f9b8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -233,9 +233,9 @@ class Resource:
                 resource.attributes.get(PROCESS_EXECUTABLE_NAME, None),
             )
             if process_executable_name:
-                default_service_name += ":" + process_executable_name
+                default_service_name += f":{process_executable_name}"
             resource = resource.merge(
-                Resource({SERVICE_NAME: default_service_name}, schema_url)
+                Resource({SERVICE_NAME: default_service_name})
             )
         return resource
 
-- 
2.43.0


From 858e50c1ca68a34fdfce3ee5e7b15408592048e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 63/84] fix: keep bad or slow resource detectors from breaking
 the others

---
 .../opentelemetry/sdk/resources/__init__.py    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index e88f9b8..d136b19 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -511,13 +511,19 @@ def get_aggregated_resources(
     """
     detectors_merged_resource = initial_resource or Resource.create()
 
-    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as executor:
+    # One worker for each detector and no waiting for the ones that timed out,
+    # a detector that hangs must not keep back the others
+    executor = concurrent.futures.ThreadPoolExecutor(
+        max_workers=max(len(detectors), 1)
+    )
+    try:
         futures = [executor.submit(detector.detect) for detector in detectors]
         for detector_ind, future in enumerate(futures):
             detector = detectors[detector_ind]
-            detected_resource: Resource = _EMPTY_RESOURCE
             try:
-                detected_resource = future.result(timeout=timeout)
+                detectors_merged_resource = detectors_merged_resource.merge(
+                    future.result(timeout=timeout)
+                )
             except concurrent.futures.TimeoutError as ex:
                 if detector.raise_on_error:
                     raise ex
@@ -533,9 +539,7 @@ def get_aggregated_resources(
                 logger.warning(
                     "Exception %s in detector %s, ignoring", ex, detector
                 )
-            finally:
-                detectors_merged_resource = detectors_merged_resource.merge(
-                    detected_resource
-                )
+    finally:
+        executor.shutdown(wait=False)
 
     return detectors_merged_resource
-- 
2.43.0


From c04f1aee87809c90a8b5e28a74c19bdf26d2212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 64/84] fix: reject NaN as the metric export interval

---
 .../src/opentelemetry/sdk/metrics/_internal/export/__init__.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 224c547..120e209 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -509,7 +509,7 @@ class PeriodicExportingMetricReader(MetricReader):
                 os.register_at_fork(
                     after_in_child=lambda: weak_at_fork()()  # pylint: disable=unnecessary-lambda, protected-access
                 )
-        elif self._export_interval_millis <= 0:
+        elif self._export_interval_millis != math.inf:
             raise ValueError(
                 f"interval value {self._export_interval_millis} is invalid \
                 and needs to be larger than zero."
-- 
2.43.0


From 1e674e6c261465a1e1181ce774ed764e4c295a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 65/84] fix: apply the limits of the environment to log records

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py  | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 29d189d..54f7c68 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -157,12 +157,6 @@ class LogLimits:
         return value
 
 
-_UnsetLogLimits = LogLimits(
-    max_attributes=LogLimits.UNSET,
-    max_attribute_length=LogLimits.UNSET,
-)
-
-
 class LogRecord(APILogRecord):
     """A LogRecord instance represents an event being logged.
 
@@ -183,8 +177,10 @@ class LogRecord(APILogRecord):
         body: AnyValue | None = None,
         resource: Resource | None = None,
         attributes: Attributes | None = None,
-        limits: LogLimits | None = _UnsetLogLimits,
+        limits: LogLimits | None = None,
     ):
+        if limits is None:
+            limits = LogLimits()
         super().__init__(
             **{
                 "timestamp": timestamp,
-- 
2.43.0


From aa3da5a3424ca8d60d0ecfc8f56df9b18d6c02a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 66/84] fix: do not raise out of the logging call from
 LoggingHandler

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 54f7c68..58c46f2 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -550,9 +550,14 @@ class LoggingHandler(logging.Handler):
 
         The record is translated to OTel format, and then sent across the pipeline.
         """
-        logger = get_logger(record.name, logger_provider=self._logger_provider)
-        if not isinstance(logger, NoOpLogger):
-            logger.emit(self._translate(record))
+        try:
+            logger = get_logger(
+                record.name, logger_provider=self._logger_provider
+            )
+            if not isinstance(logger, NoOpLogger):
+                logger.emit(self._translate(record))
+        except Exception:  # pylint: disable=broad-exception-caught
+            self.handleError(record)
 
     def flush(self) -> None:
         """
-- 
2.43.0


From 96168a1d9e6d1506cbf71c6698499d9fa8904c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 67/84] fix: let LoggingHandler log before a logger provider is
 set

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 58c46f2..3210be2 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -540,7 +540,8 @@ class LoggingHandler(logging.Handler):
             severity_text=level_name,
             severity_number=severity_number,
             body=body,
-            resource=logger.resource,
+            # a proxy logger has no resource until a provider is set
+            resource=getattr(logger, "resource", None),
             attributes=attributes,
         )
 
-- 
2.43.0


From ad9276098c2e017417270ea6ea662e763fc8a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 68/84] fix: log objects that are not an AnyValue as their
 string

---
 .../sdk/_logs/_internal/__init__.py           | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 3210be2..5156cd1 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -24,7 +24,14 @@ import warnings
 from os import environ
 from threading import Lock
 from time import time_ns
-from typing import Any, Callable, Tuple, Union  # noqa
+from typing import (  # noqa
+    Any,
+    Callable,
+    Mapping,
+    Sequence,
+    Tuple,
+    Union,
+)
 
 from opentelemetry._logs import Logger as APILogger
 from opentelemetry._logs import LoggerProvider as APILoggerProvider
@@ -458,6 +465,16 @@ _RESERVED_ATTRS = frozenset(
 )
 
 
+def _is_any_value(value: Any) -> bool:
+    if value is None or isinstance(value, (bool, int, float, str, bytes)):
+        return True
+    if isinstance(value, Mapping):
+        return all(_is_any_value(val) for val in value.values())
+    if isinstance(value, Sequence):
+        return all(_is_any_value(val) for val in value)
+    return False
+
+
 class LoggingHandler(logging.Handler):
     """A handler class which writes logging records, in OTLP format, to
     a network destination or file. Supports signals from the `logging` module.
@@ -521,6 +538,9 @@ class LoggingHandler(logging.Handler):
             if not record.args and not isinstance(record.msg, str):
                 # no args are provided so it's *mostly* safe to use the message template as the body
                 body = record.msg
+                if not _is_any_value(body):
+                    # e.g. an exception, which no exporter can represent
+                    body = record.getMessage()
             else:
                 body = record.getMessage()
 
-- 
2.43.0


From 9bd052e5b88564798aa7420ae098134f56229ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 69/84] fix: return the result of
 EventLoggerProvider.force_flush

---
 opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
index ae16302..1180c7d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
@@ -86,4 +86,4 @@ class EventLoggerProvider(APIEventLoggerProvider):
         self._logger_provider.shutdown()
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:
-        self._logger_provider.force_flush(timeout_millis)
+        return self._logger_provider.force_flush(timeout_millis)
-- 
2.43.0


From 0038b31c6d49d5ddf05d28a7107bb75a4f94b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 70/84] fix: keep the trace flags of an event that is not
 sampled

---
 opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
index 1180c7d..28a2160 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
@@ -55,7 +55,11 @@ class EventLogger(APIEventLogger):
             observed_timestamp=None,
             trace_id=event.trace_id or span_context.trace_id,
             span_id=event.span_id or span_context.span_id,
-            trace_flags=event.trace_flags or span_context.trace_flags,
+            trace_flags=(
+                span_context.trace_flags
+                if event.trace_flags is None
+                else event.trace_flags
+            ),
             severity_text=None,
             severity_number=event.severity_number or SeverityNumber.INFO,
             body=event.body,
-- 
2.43.0


From c5dfe48262a9ed2217e4b2290c03a7b1c5f16bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 71/84] fix: give early event loggers the resource of a late
 provider

---
 .../src/opentelemetry/sdk/_events/__init__.py              | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
index 28a2160..b8bbcd5 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
@@ -20,6 +20,7 @@ from opentelemetry._events import Event
 from opentelemetry._events import EventLogger as APIEventLogger
 from opentelemetry._events import EventLoggerProvider as APIEventLoggerProvider
 from opentelemetry._logs import NoOpLogger, SeverityNumber, get_logger_provider
+from opentelemetry._logs._internal import ProxyLogger
 from opentelemetry.sdk._logs import Logger, LoggerProvider, LogRecord
 from opentelemetry.util.types import Attributes
 
@@ -41,11 +42,17 @@ class EventLogger(APIEventLogger):
             schema_url=schema_url,
             attributes=attributes,
         )
+        self._logger_provider = logger_provider
         self._logger: Logger = logger_provider.get_logger(
             name, version, schema_url, attributes
         )
 
     def emit(self, event: Event) -> None:
+        if isinstance(self._logger, ProxyLogger):
+            # the provider may have been set since
+            self._logger = self._logger_provider.get_logger(
+                self._name, self._version, self._schema_url, self._attributes
+            )
         if isinstance(self._logger, NoOpLogger):
             # Do nothing if SDK is disabled
             return
-- 
2.43.0


From 4f331d7b9cd8d92e643061dde30cdc08acf89f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 72/84] fix: keep the attributes of meters obtained before the
 provider

---
 .../metrics/_internal/__init__.py             | 37 ++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index ad7f93c..c8e7a71 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -151,6 +151,18 @@ class NoOpMeterProvider(MeterProvider):
         return NoOpMeter(name, version=version, schema_url=schema_url)
 
 
+def _get_real_meter(
+    meter_provider: MeterProvider,
+    name: str,
+    version: Optional[str],
+    schema_url: Optional[str],
+    attributes: Optional[Attributes],
+) -> "Meter":
+    if attributes is None:
+        return meter_provider.get_meter(name, version, schema_url)
+    return meter_provider.get_meter(name, version, schema_url, attributes)
+
+
 class _ProxyMeterProvider(MeterProvider):
     def __init__(self) -> None:
         self._lock = Lock()
@@ -166,11 +178,20 @@ class _ProxyMeterProvider(MeterProvider):
     ) -> "Meter":
         with self._lock:
             if self._real_meter_provider is not None:
-                return self._real_meter_provider.get_meter(
-                    name, version, schema_url
+                return _get_real_meter(
+                    self._real_meter_provider,
+                    name,
+                    version,
+                    schema_url,
+                    attributes,
                 )
 
-            meter = _ProxyMeter(name, version=version, schema_url=schema_url)
+            meter = _ProxyMeter(
+                name,
+                version=version,
+                schema_url=schema_url,
+                attributes=attributes,
+            )
             self._meters.append(meter)
             return meter
 
@@ -508,8 +529,10 @@ class _ProxyMeter(Meter):
         name: str,
         version: Optional[str] = None,
         schema_url: Optional[str] = None,
+        attributes: Optional[Attributes] = None,
     ) -> None:
         super().__init__(name, version=version, schema_url=schema_url)
+        self._attributes = attributes
         self._lock = Lock()
         self._instruments: List[_ProxyInstrumentT] = []
         self._real_meter: Optional[Meter] = None
@@ -520,8 +543,12 @@ class _ProxyMeter(Meter):
         Creates a real backing meter for this instance and notifies all created
         instruments so they can create real backing instruments.
         """
-        real_meter = meter_provider.get_meter(
-            self._name, self._version, self._schema_url
+        real_meter = _get_real_meter(
+            meter_provider,
+            self._name,
+            self._version,
+            self._schema_url,
+            self._attributes,
         )
 
         with self._lock:
-- 
2.43.0


From b8f0f8711e2fd7f3ee114d2929a31159bfb0df95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 73/84] fix: let no-op spans carry the context of their parent

---
 .../src/opentelemetry/trace/__init__.py              | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/__init__.py b/opentelemetry-api/src/opentelemetry/trace/__init__.py
index 11649a4..bebe631 100644
--- a/opentelemetry-api/src/opentelemetry/trace/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/trace/__init__.py
@@ -469,7 +469,14 @@ class NoOpTracer(Tracer):
         record_exception: bool = True,
         set_status_on_exception: bool = True,
     ) -> "Span":
-        return INVALID_SPAN
+        # no span is created, but the trace of the parent goes on
+        parent = get_current_span(context)
+        parent_context = parent.get_span_context()
+        if parent_context is None or not parent_context.is_valid:
+            return INVALID_SPAN
+        if isinstance(parent, NonRecordingSpan):
+            return parent
+        return NonRecordingSpan(parent_context)
 
     @_agnosticcontextmanager
     def start_as_current_span(
@@ -484,7 +491,8 @@ class NoOpTracer(Tracer):
         set_status_on_exception: bool = True,
         end_on_exit: bool = True,
     ) -> Iterator["Span"]:
-        yield INVALID_SPAN
+        with use_span(self.start_span(name, context)) as span:
+            yield span
 
 
 @deprecated(version="1.9.0", reason="You should use NoOpTracer")  # type: ignore
-- 
2.43.0


From 1343680ffb13ca14927ac183ecfa615ed6ae206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 74/84] fix: set the meter provider although an early
 instrument is invalid

---
 .../src/opentelemetry/metrics/_internal/__init__.py        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index c8e7a71..dbc53f9 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -556,7 +556,12 @@ class _ProxyMeter(Meter):
             # notify all proxy instruments of the new meter so they can create
             # real instruments to back themselves
             for instrument in self._instruments:
-                instrument.on_meter_set(real_meter)
+                try:
+                    instrument.on_meter_set(real_meter)
+                except Exception:  # pylint: disable=broad-exception-caught
+                    # e.g. a name the real meter rejects: this instrument
+                    # stays a no-op, the others must not
+                    _logger.exception("Failed to create an instrument")
 
     def create_counter(
         self,
-- 
2.43.0


From fba9a50bd31de8382624bdf01e196ee6f45d5c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:16 +0000
Subject: [PATCH 75/84] fix: print log records without a timestamp as JSON

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 5156cd1..f30a81a 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -233,7 +233,11 @@ class LogRecord(APILogRecord):
                     dict(self.attributes) if bool(self.attributes) else None
                 ),
                 "dropped_attributes": self.dropped_attributes,
-                "timestamp": ns_to_iso_str(self.timestamp),
+                "timestamp": (
+                    ns_to_iso_str(self.timestamp)
+                    if self.timestamp is not None
+                    else None
+                ),
                 "observed_timestamp": ns_to_iso_str(self.observed_timestamp),
                 "trace_id": (
                     f"0x{format_trace_id(self.trace_id)}"
-- 
2.43.0


From 7d82de3e4f0e4d1339a59f772664939955c3651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:16 +0000
Subject: [PATCH 76/84] fix: print log records with bytes in the body as JSON

---
 .../opentelemetry/sdk/_logs/_internal/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index f30a81a..415a56b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -15,6 +15,7 @@ from __future__ import annotations
 
 import abc
 import atexit
+import base64
 import concurrent.futures
 import json
 import logging
@@ -164,6 +165,19 @@ class LogLimits:
         return value
 
 
+def _encode_json_value(value: Any) -> Any:
+    """Represents the values of a body that JSON does not know"""
+    if isinstance(value, bytes):
+        return base64.b64encode(value).decode("ascii")
+    if isinstance(value, Mapping):
+        return dict(value)
+    if isinstance(value, Sequence):
+        return list(value)
+    raise TypeError(
+        f"Object of type {type(value).__name__} is not JSON serializable"
+    )
+
+
 class LogRecord(APILogRecord):
     """A LogRecord instance represents an event being logged.
 
@@ -253,6 +267,7 @@ class LogRecord(APILogRecord):
                 "resource": json.loads(self.resource.to_json()),
             },
             indent=indent,
+            default=_encode_json_value,
         )
 
     @property
-- 
2.43.0


From 3a7d16baf763ffac8bd137e479a6cea01eca0777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:16 +0000
Subject: [PATCH 77/84] fix: print span times at the epoch as JSON

---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 9265952..39177a7 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -489,11 +489,11 @@ class ReadableSpan:
             parent_id = f"0x{trace_api.format_span_id(self.parent.span_id)}"
 
         start_time = None
-        if self._start_time:
+        if self._start_time is not None:
             start_time = util.ns_to_iso_str(self._start_time)
 
         end_time = None
-        if self._end_time:
+        if self._end_time is not None:
             end_time = util.ns_to_iso_str(self._end_time)
 
         status = {
-- 
2.43.0


From 19dfd4c18ab9f858580a73f112c0b1c3f404e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:51 +0000
Subject: [PATCH 78/84] fix: handle errors although an error handler cannot be
 loaded

---
 .../sdk/error_handler/__init__.py             | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py
index 3e0e778..e34ee7e 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py
@@ -120,22 +120,21 @@ class GlobalErrorHandler:
         )
 
         for error_handler_entry_point in error_handler_entry_points:
-            error_handler_class = error_handler_entry_point.load()
-
-            if issubclass(error_handler_class, exc_value.__class__):
-                try:
+            try:
+                error_handler_class = error_handler_entry_point.load()
+                if issubclass(error_handler_class, exc_value.__class__):
                     error_handler_class()._handle(exc_value)
                     plugin_handled = True
 
-                # pylint: disable=broad-exception-caught
-                except Exception as error_handling_error:
-                    logger.exception(
-                        "%s error while handling error"
-                        " %s by error handler %s",
-                        error_handling_error.__class__.__name__,
-                        exc_value.__class__.__name__,
-                        error_handler_class.__name__,
-                    )
+            # pylint: disable=broad-exception-caught
+            except Exception as error_handling_error:
+                logger.exception(
+                    "%s error while handling error"
+                    " %s by error handler %s",
+                    error_handling_error.__class__.__name__,
+                    exc_value.__class__.__name__,
+                    error_handler_entry_point.name,
+                )
 
         if not plugin_handled:
             _DefaultErrorHandler()._handle(exc_value)
-- 
2.43.0


From 8b82ba1645c607ac1b813f7bcf8383e662193bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:31 +0000
Subject: [PATCH 79/84] fix: let batch span processors be collected after
 shutdown

---
 .../src/opentelemetry/sdk/trace/export/__init__.py    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index 7021f19..b0a5f10 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -19,6 +19,7 @@ import os
 import sys
 import threading
 import typing
+import weakref
 from enum import Enum
 from os import environ, linesep
 from time import time_ns
@@ -201,7 +202,15 @@ class BatchSpanProcessor(SpanProcessor):
         self.spans_list = [None] * self.max_export_batch_size  # type: typing.List[typing.Optional[Span]]
         self.worker_thread.start()
         if hasattr(os, "register_at_fork"):
-            os.register_at_fork(after_in_child=self._at_fork_reinit)  # pylint: disable=protected-access
+            # the hook cannot be unregistered: it must not keep the processor
+            weak_reinit = weakref.WeakMethod(self._at_fork_reinit)
+
+            def reinit_if_alive():
+                reinit = weak_reinit()
+                if reinit is not None:
+                    reinit()
+
+            os.register_at_fork(after_in_child=reinit_if_alive)  # pylint: disable=protected-access
         self._pid = os.getpid()
 
     def on_start(
-- 
2.43.0


From 5c21c294d5e8554ff4a3a49c0b2f74dd2fc2e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:31 +0000
Subject: [PATCH 80/84] fix: let batch log record processors be collected after
 shutdown

---
 .../sdk/_logs/_internal/export/__init__.py            | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index ee3bb46..6fe273b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -20,6 +20,7 @@ import logging
 import os
 import sys
 import threading
+import weakref
 from os import environ, linesep
 from time import time_ns
 from typing import IO, Callable, Deque, List, Optional, Sequence
@@ -217,7 +218,15 @@ class BatchLogRecordProcessor(LogRecordProcessor):
         self._log_records = [None] * self._max_export_batch_size
         self._worker_thread.start()
         if hasattr(os, "register_at_fork"):
-            os.register_at_fork(after_in_child=self._at_fork_reinit)  # pylint: disable=protected-access
+            # the hook cannot be unregistered: it must not keep the processor
+            weak_reinit = weakref.WeakMethod(self._at_fork_reinit)
+
+            def reinit_if_alive():
+                reinit = weak_reinit()
+                if reinit is not None:
+                    reinit()
+
+            os.register_at_fork(after_in_child=reinit_if_alive)  # pylint: disable=protected-access
         self._pid = os.getpid()
 
     def _at_fork_reinit(self):
-- 
2.43.0


From e11fbeffc1f63577b4a358547c410f7909dcacf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:31 +0000
Subject: [PATCH 81/84] fix: do not fail in forked children of collected metric
 readers

---
 .../sdk/metrics/_internal/export/__init__.py             | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 120e209..5206b38 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -506,9 +506,12 @@ class PeriodicExportingMetricReader(MetricReader):
             if hasattr(os, "register_at_fork"):
                 weak_at_fork = weakref.WeakMethod(self._at_fork_reinit)
 
-                os.register_at_fork(
-                    after_in_child=lambda: weak_at_fork()()  # pylint: disable=unnecessary-lambda, protected-access
-                )
+                def reinit_if_alive():
+                    at_fork_reinit = weak_at_fork()
+                    if at_fork_reinit is not None:
+                        at_fork_reinit()
+
+                os.register_at_fork(after_in_child=reinit_if_alive)
         elif self._export_interval_millis != math.inf:
             raise ValueError(
                 f"interval value {self._export_interval_millis} is invalid \
-- 
2.43.0


From c3e79de9464f819ee51ee5f486b0fff453c11bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:32 +0000
Subject: [PATCH 82/84] fix: let concurrent multi processors work in forked
 children

---
 .../sdk/_logs/_internal/__init__.py           | 20 +++++++++++++++++++
 .../src/opentelemetry/sdk/trace/__init__.py   | 20 +++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 415a56b..bf159e8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -19,9 +19,11 @@ import base64
 import concurrent.futures
 import json
 import logging
+import os
 import threading
 import traceback
 import warnings
+import weakref
 from os import environ
 from threading import Lock
 from time import time_ns
@@ -393,9 +395,27 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         # iterating through it on "emit".
         self._log_record_processors = ()  # type: Tuple[LogRecordProcessor, ...]
         self._lock = threading.Lock()
+        self._max_workers = max_workers
         self._executor = concurrent.futures.ThreadPoolExecutor(
             max_workers=max_workers
         )
+        if hasattr(os, "register_at_fork"):
+            # the hook cannot be unregistered: it must not keep the processor
+            weak_reinit = weakref.WeakMethod(self._at_fork_reinit)
+
+            def reinit_if_alive():
+                reinit = weak_reinit()
+                if reinit is not None:
+                    reinit()
+
+            os.register_at_fork(after_in_child=reinit_if_alive)
+
+    def _at_fork_reinit(self):
+        # the threads of the executor do not exist in the child
+        self._lock = threading.Lock()
+        self._executor = concurrent.futures.ThreadPoolExecutor(
+            max_workers=self._max_workers
+        )
 
     def add_log_record_processor(
         self, log_record_processor: LogRecordProcessor
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 39177a7..1ac5873 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -18,9 +18,11 @@ import atexit
 import concurrent.futures
 import json
 import logging
+import os
 import threading
 import traceback
 import typing
+import weakref
 from os import environ
 from time import time_ns
 from types import MappingProxyType, TracebackType
@@ -223,9 +225,27 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         # iterating through it on "on_start" and "on_end".
         self._span_processors = ()  # type: Tuple[SpanProcessor, ...]
         self._lock = threading.Lock()
+        self._num_threads = num_threads
         self._executor = concurrent.futures.ThreadPoolExecutor(
             max_workers=num_threads
         )
+        if hasattr(os, "register_at_fork"):
+            # the hook cannot be unregistered: it must not keep the processor
+            weak_reinit = weakref.WeakMethod(self._at_fork_reinit)
+
+            def reinit_if_alive():
+                reinit = weak_reinit()
+                if reinit is not None:
+                    reinit()
+
+            os.register_at_fork(after_in_child=reinit_if_alive)
+
+    def _at_fork_reinit(self):
+        # the threads of the executor do not exist in the child
+        self._lock = threading.Lock()
+        self._executor = concurrent.futures.ThreadPoolExecutor(
+            max_workers=self._num_threads
+        )
 
     def add_span_processor(self, span_processor: SpanProcessor) -> None:
         """Adds a SpanProcessor to the list handled by this instance."""
-- 
2.43.0


From 3287c65348c2700ac5341aeb2b80c812c6f70c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:32 +0000
Subject: [PATCH 83/84] fix: let concurrent multi processors shut down at
 interpreter exit

---
 .../sdk/_logs/_internal/__init__.py              | 16 ++++++++++++++--
 .../src/opentelemetry/sdk/trace/__init__.py      | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index bf159e8..4fea1c3 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -423,6 +423,18 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         with self._lock:
             self._log_record_processors += (log_record_processor,)
 
+    def _submit(self, func: Callable[..., Any], *args: Any, **kwargs: Any):
+        try:
+            return self._executor.submit(func, *args, **kwargs)
+        except RuntimeError:
+            # executors take no more work when the interpreter exits
+            future = concurrent.futures.Future()
+            try:
+                future.set_result(func(*args, **kwargs))
+            except Exception as exc:  # pylint: disable=broad-exception-caught
+                future.set_exception(exc)
+            return future
+
     def _submit_and_wait(
         self,
         func: Callable[[LogRecordProcessor], Callable[..., None]],
@@ -431,7 +443,7 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
     ):
         futures = []
         for lp in self._log_record_processors:
-            future = self._executor.submit(func(lp), *args, **kwargs)
+            future = self._submit(func(lp), *args, **kwargs)
             futures.append(future)
         for future in futures:
             future.result()
@@ -455,7 +467,7 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         """
         futures = []
         for lp in self._log_record_processors:
-            future = self._executor.submit(lp.force_flush, timeout_millis)
+            future = self._submit(lp.force_flush, timeout_millis)
             futures.append(future)
 
         done_futures, not_done_futures = concurrent.futures.wait(
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 1ac5873..bcdf595 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -252,6 +252,18 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         with self._lock:
             self._span_processors += (span_processor,)
 
+    def _submit(self, func: Callable[..., Any], *args: Any, **kwargs: Any):
+        try:
+            return self._executor.submit(func, *args, **kwargs)
+        except RuntimeError:
+            # executors take no more work when the interpreter exits
+            future = concurrent.futures.Future()
+            try:
+                future.set_result(func(*args, **kwargs))
+            except Exception as exc:  # pylint: disable=broad-exception-caught
+                future.set_exception(exc)
+            return future
+
     def _submit_and_await(
         self,
         func: Callable[[SpanProcessor], Callable[..., None]],
@@ -260,7 +272,7 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
     ):
         futures = []
         for sp in self._span_processors:
-            future = self._executor.submit(func(sp), *args, **kwargs)
+            future = self._submit(func(sp), *args, **kwargs)
             futures.append(future)
         for future in futures:
             future.result()
@@ -294,7 +306,7 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         """
         futures = []
         for sp in self._span_processors:  # type: SpanProcessor
-            future = self._executor.submit(sp.force_flush, timeout_millis)
+            future = self._submit(sp.force_flush, timeout_millis)
             futures.append(future)
 
         timeout_sec = timeout_millis / 1e3
-- 
2.43.0


From feadb82d86d639f308b2d98e251df0d036d80b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:54 +0000
Subject: [PATCH 84/84] fix: do not share the connections of OTLP HTTP
 exporters with forked children

---
 .../exporter/otlp/proto/http/__init__.py      | 29 +++++++++++++++++++
 .../otlp/proto/http/_log_exporter/__init__.py |  2 ++
 .../proto/http/metric_exporter/__init__.py    |  2 ++
 .../proto/http/trace_exporter/__init__.py     |  2 ++
 4 files changed, 35 insertions(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/__init__.py
index b8f92bd..332f412 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/__init__.py
@@ -70,7 +70,12 @@ API
 ---
 """
 
+import copy
 import enum
+import os
+import weakref
+
+import requests
 
 from .version import __version__
 
@@ -84,3 +89,27 @@ class Compression(enum.Enum):
     NoCompression = "none"
     Deflate = "deflate"
     Gzip = "gzip"
+
+
+def _renew_connections_after_fork(session: requests.Session) -> None:
+    """Gives forked children connections of their own.
+
+    A connection that is shared with the parent mixes up the requests and
+    responses of both processes.
+    """
+    if not hasattr(os, "register_at_fork"):
+        return
+    # the hook cannot be unregistered: it must not keep the session
+    weak_session = weakref.ref(session)
+
+    def renew_connections():
+        child_session = weak_session()
+        if child_session is None:
+            return
+        # the copy of an adapter has an empty connection pool
+        for prefix, adapter in list(child_session.adapters.items()):
+            child_session.mount(prefix, copy.copy(adapter))
+        # the lock of the cookies may have been held when the process forked
+        child_session.cookies = child_session.cookies.copy()
+
+    os.register_at_fork(after_in_child=renew_connections)
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
index 856feee..256a70f 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
@@ -29,6 +29,7 @@ from opentelemetry.exporter.otlp.proto.common._log_encoder import encode_logs
 from opentelemetry.exporter.otlp.proto.http import (
     _OTLP_HTTP_HEADERS,
     Compression,
+    _renew_connections_after_fork,
 )
 from opentelemetry.sdk._logs import LogData
 from opentelemetry.sdk._logs.export import (
@@ -115,6 +116,7 @@ class OTLPLogExporter(LogExporter):
         )
         self._compression = compression or _compression_from_env()
         self._session = session or requests.Session()
+        _renew_connections_after_fork(self._session)
         self._session.headers.update(self._headers)
         self._session.headers.update(_OTLP_HTTP_HEADERS)
         if self._compression is not Compression.NoCompression:
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index 20b68bb..303834b 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -43,6 +43,7 @@ from opentelemetry.exporter.otlp.proto.common.metrics_encoder import (
 from opentelemetry.exporter.otlp.proto.http import (
     _OTLP_HTTP_HEADERS,
     Compression,
+    _renew_connections_after_fork,
 )
 from opentelemetry.proto.collector.metrics.v1.metrics_service_pb2 import (  # noqa: F401
     ExportMetricsServiceRequest,
@@ -154,6 +155,7 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         )
         self._compression = compression or _compression_from_env()
         self._session = session or requests.Session()
+        _renew_connections_after_fork(self._session)
         self._session.headers.update(self._headers)
         self._session.headers.update(_OTLP_HTTP_HEADERS)
         if self._compression is not Compression.NoCompression:
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
index c5718b5..3fe64b4 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
@@ -31,6 +31,7 @@ from opentelemetry.exporter.otlp.proto.common.trace_encoder import (
 from opentelemetry.exporter.otlp.proto.http import (
     _OTLP_HTTP_HEADERS,
     Compression,
+    _renew_connections_after_fork,
 )
 from opentelemetry.sdk.environment_variables import (
     OTEL_EXPORTER_OTLP_CERTIFICATE,
@@ -112,6 +113,7 @@ class OTLPSpanExporter(SpanExporter):
         )
         self._compression = compression or _compression_from_env()
         self._session = session or requests.Session()
+        _renew_connections_after_fork(self._session)
         self._session.headers.update(self._headers)
         self._session.headers.update(_OTLP_HTTP_HEADERS)
         if self._compression is not Compression.NoCompression:
-- 
2.43.0

