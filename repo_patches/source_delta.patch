From 89153c3bf8f1021827143743f7ad0c888056e696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 01/37] fix: fail client streams whose response ends without
 completion information

---
 src/connectrpc/_envelope.py         |  4 ++++
 src/connectrpc/_protocol_connect.py | 14 ++++++++++++++
 src/connectrpc/_protocol_grpc.py    |  9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index 5ee8a35..c39ca73 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -83,6 +83,10 @@ class EnvelopeReader(Generic[_RES]):
 
             self._next_message_length = int.from_bytes(self._buffer[1:5], "big")
 
+    def has_incomplete_message(self) -> bool:
+        """Returns True if data fed so far ends in the middle of a message."""
+        return bool(self._buffer)
+
     def handle_end_message(
         self, prefix_byte: int, message_data: bytes | bytearray
     ) -> bool:
diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 4997daf..cf2b103 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -25,6 +25,7 @@ if TYPE_CHECKING:
     from collections.abc import Mapping
 
     import pyqwest
+    from pyqwest import Response, SyncResponse
 
     from ._codec import Codec
     from ._compression import Compression
@@ -314,12 +315,15 @@ class ConnectClientProtocol:
 
 
 class ConnectEnvelopeReader(EnvelopeReader[RES]):
+    _end_received = False
+
     def handle_end_message(
         self, prefix_byte: int, message_data: bytes | bytearray
     ) -> bool:
         end_stream = prefix_byte & 0b10 != 0
         if not end_stream:
             return False
+        self._end_received = True
         end_stream_message: dict = json.loads(message_data)
         metadata = end_stream_message.get("metadata")
         if metadata:
@@ -330,3 +334,13 @@ class ConnectEnvelopeReader(EnvelopeReader[RES]):
             # and streaming.
             raise ConnectWireError.from_dict(error, 500, Code.UNKNOWN).to_exception()
         return True
+
+    def handle_response_complete(
+        self, response: Response | SyncResponse, e: ConnectError | None = None
+    ) -> None:
+        # Without the end-of-stream message, we cannot know whether the server
+        # completed the response or it was truncated.
+        if not self._end_received:
+            raise e or ConnectError(
+                Code.INTERNAL, "protocol error: missing end stream message"
+            )
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index a781f17..f8ac228 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -369,6 +369,11 @@ class GRPCEnvelopeReader(EnvelopeReader[RES]):
             )
             raise ConnectError(connect_code, urllib.parse.unquote(message))
 
+        if e is None and self.has_incomplete_message():
+            raise ConnectError(
+                Code.INTERNAL, "protocol error: incomplete message at end of response"
+            )
+
 
 class GRPCWebEnvelopeReader(GRPCEnvelopeReader):
     def __init__(
@@ -395,6 +400,10 @@ class GRPCWebEnvelopeReader(GRPCEnvelopeReader):
             self._trailers.add(key.decode().strip(), value.decode().strip())
         return True
 
+    def has_incomplete_message(self) -> bool:
+        # Trailers come in the last message.
+        return not self._trailers and super().has_incomplete_message()
+
     def get_response_trailers(self, response: Response | SyncResponse) -> HTTPHeaders:
         return self._trailers
 
-- 
2.43.0


From b196fd33b8ea731e8496507867c72ac334f6a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 02/37] fix: reject request streams that end in the middle of a
 message

---
 src/connectrpc/_server_async.py | 5 +++++
 src/connectrpc/_server_sync.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index c7ed9e4..1976e1d 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -573,6 +573,11 @@ async def _request_stream(
                 # Check for cancellation each message. While this seems heavyweight,
                 # conformance tests require it.
                 await sleep(0)
+        if reader.has_incomplete_message():
+            raise ConnectError(
+                Code.INVALID_ARGUMENT,
+                "protocol error: incomplete message at end of request",
+            )
     except CancelledError as e:
         raise ConnectError(Code.CANCELED, "Request was cancelled") from e
 
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 4a19b83..5134cd5 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -575,6 +575,11 @@ def _request_stream(
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
     for chunk in _read_body(environ):
         yield from reader.feed(chunk)
+    if reader.has_incomplete_message():
+        raise ConnectError(
+            Code.INVALID_ARGUMENT,
+            "protocol error: incomplete message at end of request",
+        )
 
 
 def _response_stream(
-- 
2.43.0


From 3cb06155b05e5cd12eb2dcf36b7cca2385c9c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 03/37] fix: do not end a cancelled response stream as
 successful

---
 src/connectrpc/_server_async.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 1976e1d..1c70f8c 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -455,7 +455,8 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 if aclose is not None:
                     await aclose()
         except CancelledError as e:
-            raise ConnectError(Code.CANCELED, "Request was cancelled") from e
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise error from e
         except Exception as e:
             error = e
         finally:
-- 
2.43.0


From cfcc6d4337172fa15c598380d784de9a9ce47939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 04/37] fix: never send response headers twice when sending
 them is interrupted

---
 src/connectrpc/_server_async.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 1c70f8c..b87e18e 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -433,10 +433,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                     # Don't send headers until the first message to allow logic a chance to add
                     # response headers.
                     if not sent_headers:
+                        # Set before awaiting, headers must not be sent again even
+                        # if sending them is interrupted.
+                        sent_headers = True
                         await _send_stream_response_headers(
                             send, protocol, codec, resp_compression.name(), ctx
                         )
-                        sent_headers = True
 
                     body = writer.write(message)
                     await send(
-- 
2.43.0


From e4159e94934c1b2c8d8d70cfce13b3a8630ae31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 05/37] fix: do not cancel the caller's code when a response
 stream times out

---
 src/connectrpc/_client_async.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 9de08d9..c1e7e17 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -374,7 +374,7 @@ class ConnectClient:
             )
 
             async with (
-                asyncio_timeout(timeout_s),
+                asyncio_timeout(timeout_s) as timeout,
                 self._http_client.stream(
                     "POST", url, headers=request_headers, content=request_data
                 ) as resp,
@@ -395,7 +395,12 @@ class ConnectClient:
                     )
                     async for chunk in resp.content:
                         for message in reader.feed(bytes(chunk)):
+                            # The timeout must not cancel the caller's code while it is
+                            # processing a message, only our own.
+                            deadline = timeout.when()
+                            timeout.reschedule(None)
                             yield message
+                            timeout.reschedule(deadline)
                             # Check for cancellation each message. While this seems heavyweight,
                             # conformance tests require it.
                             await sleep(0)
-- 
2.43.0


From 24565175ea6ad13523453d8911410557556dfd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 06/37] fix: apply read_max_bytes to GET requests

---
 src/connectrpc/_server_async.py | 6 ++++++
 src/connectrpc/_server_sync.py  | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index b87e18e..a62c50c 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -329,6 +329,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         if message:  # Don't decompress empty messages
             message = compression.decompress(message)
 
+        if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
+            raise ConnectError(
+                Code.RESOURCE_EXHAUSTED,
+                f"message is larger than configured max {self._read_max_bytes}",
+            )
+
         # Get the appropriate decoder for the endpoint
         return codec.decode(message, endpoint.method.input)
 
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 5134cd5..1b3203a 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -387,6 +387,15 @@ class ConnectWSGIApplication(ABC):
                     )
                 message = compression.decompress(message)
 
+            if (
+                self._read_max_bytes is not None
+                and len(message) > self._read_max_bytes
+            ):
+                raise ConnectError(
+                    Code.RESOURCE_EXHAUSTED,
+                    f"message is larger than configured max {self._read_max_bytes}",
+                )
+
             codec_name = params.get("encoding", ("",))[0]
             codec = self._codecs.get(codec_name)
             if not codec:
-- 
2.43.0


From 586714591b14645522a24a345250031724717823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 07/37] fix: close response streams wrapped by metadata
 interceptors

---
 src/connectrpc/_interceptor_async.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_interceptor_async.py b/src/connectrpc/_interceptor_async.py
index 34c8f61..fba52cc 100644
--- a/src/connectrpc/_interceptor_async.py
+++ b/src/connectrpc/_interceptor_async.py
@@ -200,8 +200,16 @@ class MetadataInterceptorInvoker(Generic[T]):
         token = await self._delegate.on_start(ctx)
         error: Exception | None = None
         try:
-            async for response in call_next(request, ctx):
-                yield response
+            stream = call_next(request, ctx)
+            try:
+                async for response in stream:
+                    yield response
+            finally:
+                # Async generators are not closed when iteration stops early, do it
+                # explicitly so the RPC really has ended when calling on_end.
+                aclose = getattr(stream, "aclose", None)
+                if aclose is not None:
+                    await aclose()
         except Exception as e:
             error = e
             raise
@@ -217,8 +225,16 @@ class MetadataInterceptorInvoker(Generic[T]):
         token = await self._delegate.on_start(ctx)
         error: Exception | None = None
         try:
-            async for response in call_next(request, ctx):
-                yield response
+            stream = call_next(request, ctx)
+            try:
+                async for response in stream:
+                    yield response
+            finally:
+                # Async generators are not closed when iteration stops early, do it
+                # explicitly so the RPC really has ended when calling on_end.
+                aclose = getattr(stream, "aclose", None)
+                if aclose is not None:
+                    await aclose()
         except Exception as e:
             error = e
             raise
-- 
2.43.0


From 77ad4168a716106977d2b3ad86a281e25ad25614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 08/37] fix: report cancellation to metadata interceptors

---
 src/connectrpc/_interceptor_async.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/connectrpc/_interceptor_async.py b/src/connectrpc/_interceptor_async.py
index fba52cc..feddda9 100644
--- a/src/connectrpc/_interceptor_async.py
+++ b/src/connectrpc/_interceptor_async.py
@@ -1,7 +1,11 @@
 from __future__ import annotations
 
+from asyncio import CancelledError
 from typing import TYPE_CHECKING, Generic, Protocol, TypeVar, runtime_checkable
 
+from .code import Code
+from .errors import ConnectError
+
 if TYPE_CHECKING:
     from collections.abc import AsyncIterator, Awaitable, Callable, Iterable, Sequence
 
@@ -169,6 +173,9 @@ class MetadataInterceptorInvoker(Generic[T]):
         error: Exception | None = None
         try:
             return await call_next(request, ctx)
+        except CancelledError:
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise
         except Exception as e:
             error = e
             raise
@@ -185,6 +192,9 @@ class MetadataInterceptorInvoker(Generic[T]):
         error: Exception | None = None
         try:
             return await call_next(request, ctx)
+        except CancelledError:
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise
         except Exception as e:
             error = e
             raise
@@ -210,6 +220,9 @@ class MetadataInterceptorInvoker(Generic[T]):
                 aclose = getattr(stream, "aclose", None)
                 if aclose is not None:
                     await aclose()
+        except CancelledError:
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise
         except Exception as e:
             error = e
             raise
@@ -235,6 +248,9 @@ class MetadataInterceptorInvoker(Generic[T]):
                 aclose = getattr(stream, "aclose", None)
                 if aclose is not None:
                     await aclose()
+        except CancelledError:
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise
         except Exception as e:
             error = e
             raise
-- 
2.43.0


From 41a0eae14ed43a2217f081d7a75e352003f9586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 09/37] fix: map stream resets of unary Connect calls

---
 src/connectrpc/_client_async.py | 2 ++
 src/connectrpc/_client_sync.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index c1e7e17..97db467 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -342,6 +342,8 @@ class ConnectClient:
         except CancelledError as e:
             raise ConnectError(Code.CANCELED, "Request was cancelled") from e
         except Exception as e:
+            if rst_err := _client_shared.maybe_map_stream_reset(e, ctx):
+                raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
     async def _send_request_client_stream(
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index abdfe88..30db8aa 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -337,6 +337,8 @@ class ConnectClientSync:
         except ConnectError:
             raise
         except Exception as e:
+            if rst_err := _client_shared.maybe_map_stream_reset(e, ctx):
+                raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
     def _send_request_client_stream(
-- 
2.43.0


From bca35f38d5692180e5709f22f1bccb03982170b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 10/37] fix: never answer a unary call twice when sending the
 response fails

---
 src/connectrpc/_server_async.py | 42 ++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index a62c50c..1f1c23c 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -221,15 +221,8 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 )
 
             if is_unary and isinstance(protocol, ConnectServerProtocol):
-                return await self._handle_unary_connect(
-                    http_method,
-                    headers,
-                    codec,
-                    query_params,
-                    endpoint,
-                    receive,
-                    send,
-                    ctx,
+                response_headers, res_bytes = await self._handle_unary_connect(
+                    http_method, headers, codec, query_params, endpoint, receive, ctx
                 )
         except Exception as e:
             await self._handle_error(e, ctx, send)
@@ -237,6 +230,22 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 raise
             return None
 
+        if is_unary and isinstance(protocol, ConnectServerProtocol):
+            # Once we start sending, a failure to send must not lead to sending another
+            # response, so move out of the try block.
+            await send(
+                {
+                    "type": "http.response.start",
+                    "status": 200,
+                    "headers": response_headers,
+                    "trailers": False,
+                }
+            )
+            await send(
+                {"type": "http.response.body", "body": res_bytes, "more_body": False}
+            )
+            return None
+
         # Streams have their own error handling so move out of the try block.
         return await self._handle_stream(
             receive, send, protocol, endpoint, codec, headers, ctx
@@ -250,9 +259,8 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         query_params: dict[str, list[str]],
         endpoint: EndpointUnary[_REQ, _RES],
         receive: ASGIReceiveCallable,
-        send: ASGISendCallable,
         ctx: RequestContext,
-    ) -> None:
+    ) -> tuple[list[tuple[bytes, bytes]], bytes]:
         accept_encoding = headers.get("accept-encoding", "")
         compression = negotiate_compression(accept_encoding, self._compressions)
 
@@ -276,17 +284,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
         _add_context_headers(response_headers, ctx)
 
-        await send(
-            {
-                "type": "http.response.start",
-                "status": 200,
-                "headers": response_headers,
-                "trailers": False,
-            }
-        )
-        await send(
-            {"type": "http.response.body", "body": res_bytes, "more_body": False}
-        )
+        return response_headers, res_bytes
 
     async def _read_get_request(
         self,
-- 
2.43.0


From f8581165f297adc325fd33183ad5167f8e653f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 11/37] fix: do not send Connect timeouts longer than the
 protocol allows

---
 src/connectrpc/_protocol_connect.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index cf2b103..1f62340 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -224,7 +224,11 @@ class ConnectClientProtocol:
             f"{CONNECT_STREAMING_CONTENT_TYPE_PREFIX if stream else CONNECT_UNARY_CONTENT_TYPE_PREFIX}{codec.name()}"
         )
         if timeout_ms is not None:
-            headers["connect-timeout-ms"] = str(timeout_ms)
+            timeout_header = str(timeout_ms)
+            # The protocol limits timeouts to 10 digits. Longer ones are effectively
+            # unbounded for the server, we still enforce them ourselves.
+            if len(timeout_header) <= 10:
+                headers["connect-timeout-ms"] = timeout_header
 
         server_address = url_to_server_address(url)
 
-- 
2.43.0


From fafc26d97ca9eab2d3863f0138f347e4da72f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 12/37] fix: send the accept-post header with a lower-case name
 from ASGI, as ASGI requires

---
 src/connectrpc/_server_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 1f1c23c..eb89545 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -217,7 +217,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             if not codec:
                 raise HTTPException(
                     HTTPStatus.UNSUPPORTED_MEDIA_TYPE,
-                    [("Accept-Post", "application/json, application/proto")],
+                    [("accept-post", "application/json, application/proto")],
                 )
 
             if is_unary and isinstance(protocol, ConnectServerProtocol):
-- 
2.43.0


From d8fe2e8d30f900136d6017171418db7e30fad0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:02 +0000
Subject: [PATCH 13/37] fix: propagate the client span's trace context, not
 that of its parent

---
 connectrpc-otel/connectrpc_otel/_interceptor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index d4908f4..1037612 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -150,8 +150,6 @@ class OpenTelemetryInterceptor:
         parent_otel_ctx = None
         if self._client:
             span_kind = SpanKind.CLIENT
-            carrier = ctx.request_headers
-            self._propagator.inject(carrier, setter=_DEFAULT_TEXTMAP_SETTER)
         else:
             span_kind = SpanKind.SERVER
             parent_span = get_current_span()
@@ -169,6 +167,10 @@ class OpenTelemetryInterceptor:
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
         ) as span:
+            if self._client:
+                # Inject with the span active so it becomes the parent of the server's.
+                carrier = ctx.request_headers
+                self._propagator.inject(carrier, setter=_DEFAULT_TEXTMAP_SETTER)
             yield span
 
     def _get_error_attributes(
-- 
2.43.0


From 79b3aafc1b7a51adcefd1a272799a3bceac4bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 14/37] fix: reject data after the end-of-stream message of a
 response

Whether it was noticed depended on how the network split the response: data
in the same chunk as the end message was ignored, later data was parsed and
delivered to the application as further messages.
---
 src/connectrpc/_envelope.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index c39ca73..164fd42 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -38,6 +38,7 @@ class EnvelopeReader(Generic[_RES]):
         self._read_max_bytes = read_max_bytes
 
         self._next_message_length = None
+        self._end_handled = False
 
     def feed(self, data: bytes | memoryview | bytearray) -> Iterator[_RES]:
         self._buffer.extend(data)
@@ -45,6 +46,11 @@ class EnvelopeReader(Generic[_RES]):
 
     def _read_messages(self) -> Iterator[_RES]:
         while self._buffer:
+            if self._end_handled:
+                raise ConnectError(
+                    Code.INTERNAL, "protocol error: unexpected data after end of stream"
+                )
+
             if self._next_message_length is not None:
                 if len(self._buffer) < self._next_message_length + 5:
                     return
@@ -73,7 +79,8 @@ class EnvelopeReader(Generic[_RES]):
                     )
 
                 if self.handle_end_message(prefix_byte, message_data):
-                    return
+                    self._end_handled = True
+                    continue
 
                 res = self._codec.decode(message_data, self._message_class)
                 yield res
-- 
2.43.0


From f176571649ed2e5e9c38424cab813a07a4e74d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 15/37] fix: reject stream messages with unknown envelope flags

Frames with reserved flags, or with another protocol's end-of-stream flag, were
decoded and delivered as ordinary messages.
---
 src/connectrpc/_envelope.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index 164fd42..1d3a872 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -82,6 +82,12 @@ class EnvelopeReader(Generic[_RES]):
                     self._end_handled = True
                     continue
 
+                if prefix_byte & ~0b01:
+                    raise ConnectError(
+                        Code.INTERNAL,
+                        f"protocol error: invalid envelope flags {prefix_byte}",
+                    )
+
                 res = self._codec.decode(message_data, self._message_class)
                 yield res
 
-- 
2.43.0


From 69afa029687d5111109cb0924dcb0111a4c75e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 16/37] fix: treat an empty error in the Connect end-of-stream
 message as an error

An "error" member that is present but empty was taken for success.
---
 src/connectrpc/_protocol_connect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 1f62340..3dd7bd4 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -333,7 +333,7 @@ class ConnectEnvelopeReader(EnvelopeReader[RES]):
         if metadata:
             handle_response_trailers(metadata)
         error = end_stream_message.get("error")
-        if error:
+        if error is not None:
             # Most likely a bug in the protocol, handling of unknown code is different for unary
             # and streaming.
             raise ConnectWireError.from_dict(error, 500, Code.UNKNOWN).to_exception()
-- 
2.43.0


From c4546c4b8f98187ee21440a34f803f0436504162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 17/37] fix: raise a ConnectError for a stream reset with
 malformed trailers

Decoding the trailers that came with the reset could raise any exception out of
the client's own exception handler.
---
 src/connectrpc/_client_async.py | 8 +++++++-
 src/connectrpc/_client_sync.py  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 97db467..8410bb4 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -429,7 +429,13 @@ class ConnectClient:
                 # It is possible for a reset to come with trailers which should
                 # be used.
                 if reader and resp:
-                    reader.handle_response_complete(resp, rst_err)
+                    try:
+                        reader.handle_response_complete(resp, rst_err)
+                    except ConnectError:
+                        raise
+                    except Exception:
+                        # Malformed trailers, all we know is the reset.
+                        raise rst_err from e
                 raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 30db8aa..7234fb1 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -433,7 +433,13 @@ class ConnectClientSync:
                 # It is possible for a reset to come with trailers which should
                 # be used.
                 if reader and resp:
-                    reader.handle_response_complete(resp, rst_err)
+                    try:
+                        reader.handle_response_complete(resp, rst_err)
+                    except ConnectError:
+                        raise
+                    except Exception:
+                        # Malformed trailers, all we know is the reset.
+                        raise rst_err from e
                 raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
-- 
2.43.0


From d5429da76614ae6cc99b4ec18fef3ef63c6f2432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 18/37] fix: reject Connect end-of-stream metadata that is not
 an object

It was ignored, or failed the call, depending on whether the caller had opened a
response metadata scope.
---
 src/connectrpc/_protocol_connect.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 3dd7bd4..2f11037 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -330,6 +330,10 @@ class ConnectEnvelopeReader(EnvelopeReader[RES]):
         self._end_received = True
         end_stream_message: dict = json.loads(message_data)
         metadata = end_stream_message.get("metadata")
+        if metadata is not None and not isinstance(metadata, dict):
+            raise ConnectError(
+                Code.INTERNAL, "protocol error: invalid end stream metadata"
+            )
         if metadata:
             handle_response_trailers(metadata)
         error = end_stream_message.get("error")
-- 
2.43.0


From 727b1ed00fe58ec589801d13470cb2ef92decb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 19/37] fix: close the response when a single-response call is
 given several messages

The stream generator was left suspended, holding the HTTP response open for as
long as the application kept the exception.
---
 src/connectrpc/_client_async.py | 20 +++++++++++---------
 src/connectrpc/_client_sync.py  | 20 +++++++++++---------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 8410bb4..4deba1a 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -4,6 +4,7 @@ import asyncio
 import functools
 import sys
 from asyncio import CancelledError, sleep, wait_for
+from contextlib import aclosing
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -36,7 +37,7 @@ else:
     from ._asyncio_timeout import timeout as asyncio_timeout
 
 if TYPE_CHECKING:
-    from collections.abc import AsyncIterator, Iterable, Mapping
+    from collections.abc import AsyncGenerator, AsyncIterator, Iterable, Mapping
     from types import TracebackType
 
     from ._envelope import EnvelopeReader
@@ -360,7 +361,7 @@ class ConnectClient:
 
     async def _send_request_bidi_stream(
         self, request: AsyncIterator[REQ], ctx: RequestContext[REQ, RES]
-    ) -> AsyncIterator[RES]:
+    ) -> AsyncGenerator[RES, None]:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
@@ -452,14 +453,15 @@ async def _yield_single_message(message: REQ) -> AsyncIterator[REQ]:
     yield message
 
 
-async def _consume_single_response(stream: AsyncIterator[RES]) -> RES:
+async def _consume_single_response(stream: AsyncGenerator[RES, None]) -> RES:
     res = None
-    async for message in stream:
-        if res is not None:
-            raise ConnectError(
-                Code.UNIMPLEMENTED, "unary response has multiple messages"
-            )
-        res = message
+    async with aclosing(stream):
+        async for message in stream:
+            if res is not None:
+                raise ConnectError(
+                    Code.UNIMPLEMENTED, "unary response has multiple messages"
+                )
+            res = message
     if res is None:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 7234fb1..240323d 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import functools
+from contextlib import closing
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -29,7 +30,7 @@ from .protocol import ProtocolType
 
 if TYPE_CHECKING:
     import sys
-    from collections.abc import Iterable, Iterator, Mapping
+    from collections.abc import Generator, Iterable, Iterator, Mapping
     from types import TracebackType
 
     from ._envelope import EnvelopeReader
@@ -353,7 +354,7 @@ class ConnectClientSync:
 
     def _send_request_bidi_stream(
         self, request: Iterator[REQ], ctx: RequestContext[REQ, RES]
-    ) -> Iterator[RES]:
+    ) -> Generator[RES, None, None]:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
@@ -452,14 +453,15 @@ def _streaming_request_content(
         yield writer.write(msg)
 
 
-def _consume_single_response(stream: Iterator[RES]) -> RES:
+def _consume_single_response(stream: Generator[RES, None, None]) -> RES:
     res = None
-    for message in stream:
-        if res is not None:
-            raise ConnectError(
-                Code.UNIMPLEMENTED, "unary response has multiple messages"
-            )
-        res = message
+    with closing(stream):
+        for message in stream:
+            if res is not None:
+                raise ConnectError(
+                    Code.UNIMPLEMENTED, "unary response has multiple messages"
+                )
+            res = message
     if res is None:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
-- 
2.43.0


From 9e8844cbf016319d0739fa12b2d62914a5e0940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 20/37] fix: close the service's response stream when encoding
 a message fails under WSGI

---
 src/connectrpc/_server_sync.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 1b3203a..3759d0c 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -608,6 +608,14 @@ def _response_stream(
             yield body
     except Exception as e:
         error = e
+        # Explicitly close the stream so that any generator finally-blocks run
+        # before the response ends, the exception keeps them alive otherwise.
+        close = getattr(response_stream, "close", None)
+        if close is not None:
+            try:
+                close()
+            except Exception as close_error:
+                error = close_error
         _drain_request_body(environ)
 
     yield _end_response(
-- 
2.43.0


From f809037b3eb3f2461833dd9cb8fa17f72537de0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 21/37] fix: give the server address of an IPv6 host without a
 port the default port

---
 src/connectrpc/_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index f261c4f..8c41728 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -284,7 +284,8 @@ class HTTPException(Exception):
 def host_to_server_address(host: str | None, http_scheme: str) -> str | None:
     if host is None:
         return None
-    if ":" not in host:
+    # The colons within the brackets of an IPv6 address do not separate a port.
+    if ":" not in host.rpartition("]")[2]:
         match http_scheme:
             case "https":
                 host += ":443"
-- 
2.43.0


From e80e96a985c086864dbc9f7c54e7b5ca94ade1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 22/37] fix: leave the path of the client's base URL out of the
 server address

---
 src/connectrpc/_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index 8c41728..91383a7 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -302,4 +302,5 @@ def url_to_server_address(address: str) -> str | None:
         scheme = "http"
         address = address[len("http://") :]
 
-    return host_to_server_address(address, scheme)
+    # The URL may have a path, such as the prefix a server is mounted at.
+    return host_to_server_address(address.partition("/")[0], scheme)
-- 
2.43.0


From d82b777632f01fb7bb163629508647b67e7bce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 23/37] fix: do not fail calls with a malformed Host header
 when tracing

---
 .../connectrpc_otel/_interceptor.py            | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index 1037612..cabc52f 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -46,6 +46,14 @@ Token: TypeAlias = tuple[AbstractContextManager, Span, float, dict[str, Attribut
 _DEFAULT_TEXTMAP_SETTER = cast("Setter[MutableMapping[str, str]]", default_setter)
 
 
+def _split_address(address: str) -> tuple[str, int | None]:
+    """Splits an "address:port" string. A server's comes from the client and may be malformed."""
+    host, _, port = address.rpartition(":")
+    if port.isascii() and port.isdigit() and len(port) <= 5:
+        return host, int(port)
+    return host or address, None
+
+
 class OpenTelemetryInterceptor:
     """Interceptor to generate telemetry for RPC server and client requests."""
 
@@ -109,9 +117,10 @@ class OpenTelemetryInterceptor:
         }
 
         if sa := ctx.server_address:
-            addr, port = sa.rsplit(":", 1)
+            addr, port = _split_address(sa)
             shared_attrs[SERVER_ADDRESS] = addr
-            shared_attrs[SERVER_PORT] = int(port)
+            if port is not None:
+                shared_attrs[SERVER_PORT] = port
 
         cm = self._start_span(ctx, rpc_method, shared_attrs)
         span = cm.__enter__()
@@ -160,9 +169,10 @@ class OpenTelemetryInterceptor:
         attrs: dict[str, AttributeValue] = shared_attrs.copy()
 
         if ca := ctx.client_address:
-            addr, port = ca.rsplit(":", 1)
+            addr, port = _split_address(ca)
             attrs[CLIENT_ADDRESS] = addr
-            attrs[CLIENT_PORT] = int(port)
+            if port is not None:
+                attrs[CLIENT_PORT] = port
 
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
-- 
2.43.0


From 37bb030406f658cf10571d5d55c991a48e096abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 24/37] fix: report the deadline when interceptors of a sync
 call used up its timeout

---
 src/connectrpc/_client_sync.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 240323d..1aa8ea4 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -284,7 +284,9 @@ class ConnectClientSync:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
-            timeout_s = timeout_ms / 1000.0
+            # Interceptors may have used up all of the time, the HTTP client does not
+            # accept a negative timeout.
+            timeout_s = max(timeout_ms / 1000.0, 0.0)
         else:
             timeout_s = None
 
@@ -358,7 +360,9 @@ class ConnectClientSync:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
-            timeout_s = timeout_ms / 1000.0
+            # Interceptors may have used up all of the time, the HTTP client does not
+            # accept a negative timeout.
+            timeout_s = max(timeout_ms / 1000.0, 0.0)
         else:
             timeout_s = None
 
-- 
2.43.0


From a1380a68cb752f446fd78a1e986ce1a6fe5e56d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 25/37] fix: do not treat a timeout of zero as no timeout

---
 src/connectrpc/_client_async.py | 8 ++++----
 src/connectrpc/_client_sync.py  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 4deba1a..065da3d 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -205,7 +205,7 @@ class ConnectClient:
             url=self._address,
             http_method="GET" if use_get else "POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=self._timeout_ms if timeout_ms is None else timeout_ms,
             codec=self._codec,
             stream=False,
             accept_compression=self._accept_compression_header,
@@ -226,7 +226,7 @@ class ConnectClient:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=self._timeout_ms if timeout_ms is None else timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
@@ -247,7 +247,7 @@ class ConnectClient:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=self._timeout_ms if timeout_ms is None else timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
@@ -268,7 +268,7 @@ class ConnectClient:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=self._timeout_ms if timeout_ms is None else timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 1aa8ea4..8ace98f 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -204,7 +204,7 @@ class ConnectClientSync:
             url=self._address,
             http_method="GET" if use_get else "POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=self._timeout_ms if timeout_ms is None else timeout_ms,
             codec=self._codec,
             stream=False,
             accept_compression=self._accept_compression_header,
@@ -225,7 +225,7 @@ class ConnectClientSync:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=self._timeout_ms if timeout_ms is None else timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
@@ -246,7 +246,7 @@ class ConnectClientSync:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=self._timeout_ms if timeout_ms is None else timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
@@ -267,7 +267,7 @@ class ConnectClientSync:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=self._timeout_ms if timeout_ms is None else timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
-- 
2.43.0


From a90104afabfde7796cda94000c8c39faa6f8306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:15 +0000
Subject: [PATCH 26/37] fix: refuse Connect streaming requests in an
 unsupported encoding

---
 src/connectrpc/_protocol_connect.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 2f11037..e1a5efb 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -146,13 +146,11 @@ class ConnectServerProtocol:
 
     def negotiate_stream_compression(
         self, headers: Headers, compressions: dict[str, Compression]
-    ) -> tuple[Compression, Compression]:
+    ) -> tuple[Compression | None, Compression]:
         req_compression_name = headers.get(
             CONNECT_STREAMING_HEADER_COMPRESSION, "identity"
         )
-        req_compression = (
-            compressions.get(req_compression_name) or IdentityCompression()
-        )
+        req_compression = compressions.get(req_compression_name)
         accept_compression = headers.get(
             CONNECT_STREAMING_HEADER_ACCEPT_COMPRESSION, ""
         )
-- 
2.43.0


From 385e5ac09bfeab48196321274751cbd13d33e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 27/37] fix: do not decompress empty request bodies under WSGI

---
 src/connectrpc/_server_sync.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 3759d0c..8819216 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -318,13 +318,14 @@ class ConnectWSGIApplication(ABC):
                         Code.UNIMPLEMENTED,
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
-                try:
-                    req_body = compression.decompress(req_body)
-                except Exception as e:
-                    raise ConnectError(
-                        Code.INVALID_ARGUMENT,
-                        f"Failed to decompress request body: {e!s}",
-                    ) from e
+                if req_body:  # Don't decompress empty body
+                    try:
+                        req_body = compression.decompress(req_body)
+                    except Exception as e:
+                        raise ConnectError(
+                            Code.INVALID_ARGUMENT,
+                            f"Failed to decompress request body: {e!s}",
+                        ) from e
 
             if (
                 self._read_max_bytes is not None
@@ -385,7 +386,8 @@ class ConnectWSGIApplication(ABC):
                         Code.UNIMPLEMENTED,
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
-                message = compression.decompress(message)
+                if message:  # Don't decompress empty messages
+                    message = compression.decompress(message)
 
             if (
                 self._read_max_bytes is not None
-- 
2.43.0


From 6646b68e2cd0029ff75015b40bf87f67c5d94d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:25 +0000
Subject: [PATCH 28/37] fix: apply interceptors given as an iterator to every
 ASGI endpoint

---
 src/connectrpc/_server_async.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index eb89545..264bfd9 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -110,7 +110,8 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         super().__init__()
         self._service = service
         self._endpoints = endpoints
-        self._interceptors = interceptors
+        # Resolve only once, it may not be possible to iterate again for each endpoint.
+        self._interceptors = resolve_interceptors(interceptors)
         self._resolved_endpoints = None
         self._read_max_bytes = read_max_bytes
         self._compressions = resolve_compressions(compressions)
@@ -533,9 +534,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         resolved_endpoints = self._endpoints(service)
         if self._interceptors:
             resolved_endpoints = {
-                path: _apply_interceptors(
-                    endpoint, resolve_interceptors(self._interceptors)
-                )
+                path: _apply_interceptors(endpoint, self._interceptors)
                 for path, endpoint in resolved_endpoints.items()
             }
         return resolved_endpoints
-- 
2.43.0


From d35c64c0b031a2fdb2e0469fbb94d9e68b69b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 29/37] fix: refuse WSGI request streams shorter than their
 declared length

---
 src/connectrpc/_server_sync.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 8819216..e7c5f18 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -584,13 +584,23 @@ def _request_stream(
     read_max_bytes: int | None = None,
 ) -> Iterator[_REQ]:
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
+    bytes_read = 0
     for chunk in _read_body(environ):
+        bytes_read += len(chunk)
         yield from reader.feed(chunk)
     if reader.has_incomplete_message():
         raise ConnectError(
             Code.INVALID_ARGUMENT,
             "protocol error: incomplete message at end of request",
         )
+    # Streams usually have no length, but when it is known a body can be cut short
+    # right between two messages.
+    content_length = environ.get("CONTENT_LENGTH")
+    if content_length and bytes_read < int(content_length):
+        raise ConnectError(
+            Code.INVALID_ARGUMENT,
+            f"request truncated, expected {content_length} bytes but only received {bytes_read} bytes",
+        )
 
 
 def _response_stream(
-- 
2.43.0


From 4c39eda2888119a5162365a095ecab46c3407612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 30/37] fix: do not report success for an ASGI stream ended by
 a non-Exception

---
 src/connectrpc/_server_async.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 264bfd9..4f9064e 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -466,6 +466,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             raise error from e
         except Exception as e:
             error = e
+        except BaseException as e:
+            # Such as SystemExit, which is not ours to handle but is not success either.
+            error = ConnectError(Code.UNKNOWN, str(e))
+            raise
         finally:
             end_message = writer.end(
                 ctx.response_trailers,
-- 
2.43.0


From f8ac17e7833c425abca21af00aa35a582c690dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 31/37] fix: drop the metadata of failed attempts when a call
 is retried

An interceptor that retries a failed call got the trailers of the earlier
attempts mixed into the ResponseMetadata of the last one.
---
 src/connectrpc/_response_metadata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_response_metadata.py b/src/connectrpc/_response_metadata.py
index 56fc099..edff1a2 100644
--- a/src/connectrpc/_response_metadata.py
+++ b/src/connectrpc/_response_metadata.py
@@ -31,10 +31,10 @@ def handle_response_headers(headers: HTTPHeaders) -> None:
             normalized_key = key
             obj = response_headers
         obj.add(normalized_key, value)
-    if response_headers:
-        response._headers = response_headers  # noqa: SLF001
-    if response_trailers:
-        response._trailers = response_trailers  # noqa: SLF001
+    # Replace what an earlier attempt at the call may have left, for example if an
+    # interceptor retried it.
+    response._headers = response_headers  # noqa: SLF001
+    response._trailers = response_trailers  # noqa: SLF001
 
 
 def handle_response_trailers(
-- 
2.43.0


From d3bf90f1c6b3f20ff57839e43b9c1471226ed3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 32/37] fix: report gRPC errors whose message is not valid
 unicode

Encoding the message of an error, for example one naming a file with surrogate
escapes, raised while the trailers were written, so the response ended without any.
---
 src/connectrpc/_protocol_grpc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index f8ac228..cdbbaf5 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -163,14 +163,15 @@ class GRPCEnvelopeWriter(EnvelopeWriter):
         if error:
             status = _connect_status_to_grpc[error.code]
             trailers["grpc-status"] = status
-            message = error.message
+            # Not every string is valid unicode, for example one naming a file may contain
+            # surrogate escapes. The error itself still has to be reported.
+            message = error.message.encode(errors="replace").decode()
             if message:
-                message = urllib.parse.quote(message, safe="")
-                trailers["grpc-message"] = message
+                trailers["grpc-message"] = urllib.parse.quote(message, safe="")
             if error.details:
                 grpc_status = Status(
                     code=int(status),
-                    message=error.message,
+                    message=message,
                     details=[d._any for d in error.details],  # noqa: SLF001
                 )
                 grpc_status_bin = (
-- 
2.43.0


From 2fe0c39209706c99d262e067af24eb69911c03ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 33/37] fix: serve ASGI requests with header values that are
 not UTF-8

Decoding any one of them failed the request with a 500, also for headers such as
cookies that have nothing to do with the RPC. WSGI applications served them.
---
 src/connectrpc/_server_async.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 4f9064e..1318429 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -630,7 +630,13 @@ async def _yield_single_response(response: _RES) -> AsyncIterator[_RES]:
 def _process_headers(iterable: Iterable[tuple[bytes, bytes]]) -> Headers:
     result = Headers()
     for key, value in iterable:
-        result.add(key.decode(), value.decode())
+        try:
+            value_str = value.decode()
+        except UnicodeDecodeError:
+            # Header values are opaque bytes, a single one, even of a header that has nothing to do
+            # with the RPC such as a cookie, must not fail the request.
+            value_str = value.decode("latin-1")
+        result.add(key.decode(), value_str)
     return result
 
 
-- 
2.43.0


From 62478ddfd254be2d2eb74d57693796cb4506185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:45 +0000
Subject: [PATCH 34/37] fix: keep interceptors given as an iterator when the
 instrumentor has nothing to add

Looking for an OpenTelemetry interceptor among them used up the iterator that was
then passed on.
---
 connectrpc-otel/connectrpc_otel/_instrumentor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/connectrpc-otel/connectrpc_otel/_instrumentor.py b/connectrpc-otel/connectrpc_otel/_instrumentor.py
index 7aa7a75..50b8812 100644
--- a/connectrpc-otel/connectrpc_otel/_instrumentor.py
+++ b/connectrpc-otel/connectrpc_otel/_instrumentor.py
@@ -84,11 +84,12 @@ class ConnectInstrumentor(BaseInstrumentor):
         interceptors: list[Interceptor | InterceptorSync] | None = kwargs.get(
             "interceptors"
         )
+        # Interceptors may be given as an iterator, so from here on only the list can be used.
         interceptors = [] if interceptors is None else [*interceptors]
+        kwargs["interceptors"] = interceptors
         if any(isinstance(i, OpenTelemetryInterceptor) for i in interceptors):
             return wrapped(*args, **kwargs)
 
-        kwargs["interceptors"] = interceptors
         # OpenTelemetry interceptor should be first so i.e. logging interceptors
         # have trace IDs.
         interceptors.insert(
-- 
2.43.0


From e3ed6e6e04ba8ce8d215c250903c799ef7034eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:12 +0000
Subject: [PATCH 35/37] fix: quote the message of gRPC errors where it was
 quoted before

---
 src/connectrpc/_protocol_grpc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index cdbbaf5..3f0fcff 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -161,17 +161,19 @@ class GRPCEnvelopeWriter(EnvelopeWriter):
     def end(self, user_trailers: Headers, error: ConnectWireError | None) -> Headers:
         trailers = Headers(list(user_trailers.allitems()))
         if error:
-            status = _connect_status_to_grpc[error.code]
-            trailers["grpc-status"] = status
             # Not every string is valid unicode, for example one naming a file may contain
             # surrogate escapes. The error itself still has to be reported.
-            message = error.message.encode(errors="replace").decode()
+            error_message = error.message.encode(errors="replace").decode()
+            status = _connect_status_to_grpc[error.code]
+            trailers["grpc-status"] = status
+            message = error_message
             if message:
-                trailers["grpc-message"] = urllib.parse.quote(message, safe="")
+                message = urllib.parse.quote(message, safe="")
+                trailers["grpc-message"] = message
             if error.details:
                 grpc_status = Status(
                     code=int(status),
-                    message=message,
+                    message=error_message,
                     details=[d._any for d in error.details],  # noqa: SLF001
                 )
                 grpc_status_bin = (
-- 
2.43.0


From 165033d16c24df2727ece5a060858732d69d0e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:02 +0000
Subject: [PATCH 36/37] fix: keep the bytes of GET messages that are not base64
 encoded

They may be any percent-encoded bytes, for example compressed ones, but bytes that
are not UTF-8 were replaced.
---
 src/connectrpc/_server_async.py | 7 +++++--
 src/connectrpc/_server_sync.py  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 1318429..3c8b6c1 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -207,7 +207,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
             if http_method == "GET":
                 query_string = scope.get("query_string", b"").decode("utf-8")
-                query_params = parse_qs(query_string, keep_blank_values=True)
+                # A message that is not base64 encoded may be any bytes, keep them.
+                query_params = parse_qs(
+                    query_string, keep_blank_values=True, errors="surrogateescape"
+                )
                 codec_name = query_params.get("encoding", ("",))[0]
             else:
                 query_params = _UNSET_QUERY_PARAMS
@@ -313,7 +316,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                     Code.INVALID_ARGUMENT, "Invalid base64 encoding"
                 ) from e
         else:
-            message = message.encode("utf-8")
+            message = message.encode("utf-8", "surrogateescape")
 
         # Handle compression
         compression_name = params.get("compression", ["identity"])[0]
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index e7c5f18..f90973a 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -357,7 +357,10 @@ class ConnectWSGIApplication(ABC):
         """Handle GET request with query parameters."""
         try:
             query_string = environ.get("QUERY_STRING", "")
-            params = parse_qs(query_string, keep_blank_values=True)
+            # A message that is not base64 encoded may be any bytes, keep them.
+            params = parse_qs(
+                query_string, keep_blank_values=True, errors="surrogateescape"
+            )
 
             if "message" not in params:
                 raise ConnectError(
@@ -375,7 +378,7 @@ class ConnectWSGIApplication(ABC):
                         Code.INVALID_ARGUMENT, f"Invalid base64 encoding: {e!s}"
                     ) from e
             else:
-                message = message.encode("utf-8")
+                message = message.encode("utf-8", "surrogateescape")
 
             # Handle compression if specified
             if "compression" in params:
-- 
2.43.0


From 9ddb49d47db82e808d646cd9d05347d0d067cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:18 +0000
Subject: [PATCH 37/37] fix: reject truncated zstd data

---
 src/connectrpc/compression/zstd.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/compression/zstd.py b/src/connectrpc/compression/zstd.py
index 3923ebb..9813096 100644
--- a/src/connectrpc/compression/zstd.py
+++ b/src/connectrpc/compression/zstd.py
@@ -27,5 +27,12 @@ class ZstdCompression(Compression):
     def decompress(self, data: bytes | bytearray | memoryview) -> bytes:
         # Support clients sending frames without length by using
         # stream API.
-        with zstandard.ZstdDecompressor().stream_reader(data) as reader:
-            return reader.read()
+        chunks: list[bytes] = []
+        while data:
+            decompressor = zstandard.ZstdDecompressor().decompressobj()
+            chunks.append(decompressor.decompress(data))
+            if not decompressor.eof:
+                msg = "zstd data ended before the end of the frame"
+                raise zstandard.ZstdError(msg)
+            data = decompressor.unused_data
+        return b"".join(chunks)
-- 
2.43.0

