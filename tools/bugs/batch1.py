A = "src/connectrpc/_client_async.py"
S = "src/connectrpc/_server_async.py"
COMMON = '''
import asyncio, sys, time
from pyqwest import Client, Response, Headers, HTTPVersion, Transport
from pyqwest.testing import ASGITransport
from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.protocol import ProtocolType
from connectrpc.client import ResponseMetadata
from test.haberdasher_connect import Haberdasher as Svc, HaberdasherASGIApplication, HaberdasherClient
from test.haberdasher_pb import Hat, Size

def fail(msg):
    print("BROKEN:", msg)
    sys.exit(1)

def enveloped(*parts):
    import struct
    return b"".join(struct.pack(">BI", f, len(d)) + d for f, d in parts)
'''
BUGS = [
 dict(id="wallclock", property="C06",
  needs="the wall clock of the server (or client) machine stepping while a call is in progress",
  breaks="The remaining time of a call is measured with the wall clock, so a clock step changes what handlers and interceptors see.",
  edits=[("src/connectrpc/request.py", "self._end_time = time.monotonic() + (timeout_ms / 1000.0)", "self._end_time = time.time() + (timeout_ms / 1000.0)"),
         ("src/connectrpc/request.py", "return (self._end_time - time.monotonic()) * 1000.0", "return (self._end_time - time.time()) * 1000.0")],
  demo=COMMON + '''
real = time.time
off = 0.0
time.time = lambda: real() + off
class H(Svc):
    async def make_hat(self, request, ctx):
        global off
        off = -3600.0
        self.seen = ctx.timeout_ms
        return Hat(size=1)
async def main():
    svc = H()
    c = HaberdasherClient("http://localhost", http_client=Client(ASGITransport(HaberdasherASGIApplication(svc))))
    await c.make_hat(Size(inches=1), timeout_ms=5000)
    if not 0 < svc.seen <= 5000:
        fail(f"remaining time {svc.seen} after a clock step")
asyncio.run(main())
'''),
 dict(id="unary-leak", property="C07",
  needs="a unary Connect call that is cancelled, or whose deadline passes, while the server is not answering",
  breaks="The HTTP request behind a unary call keeps running after the call was cancelled or timed out.",
  edits=[(A, '''                resp = await wait_for(
                    self._http_client.post(
                        url=url, headers=request_headers, content=request_data
                    ),
                    timeout_s,
                )
''', '''                post = ensure_future(
                    self._http_client.post(
                        url=url, headers=request_headers, content=request_data
                    )
                )
                done, _ = await wait({post}, timeout=timeout_s)
                if not done:
                    raise TimeoutError
                resp = post.result()
'''), (A, "from asyncio import CancelledError, sleep, wait_for", "from asyncio import CancelledError, ensure_future, sleep, wait, wait_for")],
  demo=COMMON + '''
state = {"open": 0, "finished": 0}
class T(Transport):
    async def execute(self, request):
        state["open"] += 1
        try:
            await asyncio.sleep(30)
        finally:
            state["finished"] += 1
async def main():
    c = HaberdasherClient("http://localhost", http_client=Client(T()))
    try:
        await c.make_hat(Size(inches=1), timeout_ms=50)
    except ConnectError as e:
        if e.code is not Code.DEADLINE_EXCEEDED:
            fail(e)
    await asyncio.sleep(0.05)
    if state["finished"] != 1:
        fail("the request is still running after the call ended")
    t = asyncio.ensure_future(c.make_hat(Size(inches=1)))
    await asyncio.sleep(0.05)
    t.cancel()
    try:
        await t
    except (asyncio.CancelledError, ConnectError):
        pass
    await asyncio.sleep(0.05)
    if state["finished"] != 2:
        fail("the request is still running after the call was cancelled")
asyncio.run(main())
'''),
 dict(id="canceled-noend", property="C09",
  needs="a streaming service method that itself fails with code CANCELED while its client is still connected",
  breaks="The response is abandoned without its end marker because CANCELED is taken to mean that the client has gone.",
  edits=[(S, '''        finally:
            end_message = writer.end(
''', '''        finally:
            if isinstance(error, ConnectError) and error.code is Code.CANCELED:
                if sent_headers:
                    # Nobody is listening anymore, no need to finish the response.
                    return  # noqa: B012
            end_message = writer.end(
''')],
  demo=COMMON + '''
class H(Svc):
    async def make_similar_hats(self, request, ctx):
        yield Hat(size=1)
        raise ConnectError(Code.CANCELED, "upstream was canceled")
async def main():
    app = HaberdasherASGIApplication(H())
    events = []
    body = enveloped((0, Size(inches=1).to_binary()))
    sent = False
    async def receive():
        nonlocal sent
        if not sent:
            sent = True
            return {"type": "http.request", "body": body, "more_body": False}
        await asyncio.sleep(60)
    async def send(m):
        events.append(m)
    scope = {"type": "http", "method": "POST", "scheme": "http", "path": "/connectrpc.example.Haberdasher/MakeSimilarHats", "query_string": b"",
             "root_path": "", "headers": [(b"content-type", b"application/connect+proto")], "http_version": "1.1", "extensions": {}}
    try:
        await app(scope, receive, send)
    except ConnectError:
        pass
    bodies = [m for m in events if m["type"] == "http.response.body"]
    if not bodies or bodies[-1].get("more_body"):
        fail("the response has no final body part")
asyncio.run(main())
'''),
 dict(id="early-limit", property="C14",
  needs="a compressed stream message that is within the limit but whose compressed form is larger than the limit (incompressible or tiny data)",
  breaks="Messages within the limit are rejected because the limit is also applied to the compressed size.",
  edits=[("src/connectrpc/_envelope.py", '''            self._next_message_length = int.from_bytes(self._buffer[1:5], "big")
''', '''            self._next_message_length = int.from_bytes(self._buffer[1:5], "big")
            # Don't buffer messages that are going to be rejected.
            if (
                self._read_max_bytes is not None
                and self._next_message_length > self._read_max_bytes
                and self._buffer[0] <= 1
            ):
                raise ConnectError(
                    Code.RESOURCE_EXHAUSTED,
                    f"message is larger than configured max {self._read_max_bytes}",
                )
''')],
  demo=COMMON + '''
class H(Svc):
    async def make_flexible_hat(self, request, ctx):
        n = 0
        async for r in request:
            n += r.inches
        return Hat(size=n)
async def main():
    async def reqs():
        yield Size(inches=5)
        yield Size(inches=6)
    limit = len(Size(inches=5).to_binary())
    app = HaberdasherASGIApplication(H(), read_max_bytes=limit)
    c = HaberdasherClient("http://localhost", http_client=Client(ASGITransport(app)), protocol=ProtocolType.GRPC)
    try:
        h = await c.make_flexible_hat(reqs())
    except ConnectError as e:
        fail(f"a message exactly at the limit was rejected: {e}")
    if h.size != 11:
        fail(h)
asyncio.run(main())
'''),
 dict(id="retry-once", property="C16",
  needs="the connection failing with an I/O error after the server has received a unary request",
  breaks="A unary call whose connection broke is sent a second time, so the service method may run twice.",
  edits=[(A, '''                resp = await wait_for(
                    self._http_client.post(
                        url=url, headers=request_headers, content=request_data
                    ),
                    timeout_s,
                )
''', '''                try:
                    resp = await wait_for(
                        self._http_client.post(
                            url=url, headers=request_headers, content=request_data
                        ),
                        timeout_s,
                    )
                except ConnectionResetError:
                    # The pooled connection had gone stale.
                    resp = await wait_for(
                        self._http_client.post(
                            url=url, headers=request_headers, content=request_data
                        ),
                        timeout_s,
                    )
''')],
  demo=COMMON + '''
n = 0
class T(Transport):
    async def execute(self, request):
        global n
        n += 1
        raise ConnectionResetError("connection reset by peer")
async def main():
    c = HaberdasherClient("http://localhost", http_client=Client(T()))
    try:
        await c.make_hat(Size(inches=1))
        fail("no error")
    except ConnectError as e:
        pass
    if n != 1:
        fail(f"{n} requests for one call")
asyncio.run(main())
'''),
 dict(id="quote-space", property="C04",
  needs="an error message with leading or trailing blanks over gRPC-Web (or an HTTP stack that trims field values)",
  breaks="Blanks in gRPC error messages are no longer percent-encoded, so those at the ends are trimmed on the way.",
  edits=[("src/connectrpc/_protocol_grpc.py", 'message = urllib.parse.quote(message, safe="")', 'message = urllib.parse.quote(message, safe=" /:,")')],
  demo=COMMON + '''
class H(Svc):
    async def make_similar_hats(self, request, ctx):
        yield Hat(size=1)
        raise ConnectError(Code.ABORTED, "  indented  ")
async def main():
    app = HaberdasherASGIApplication(H())
    c = HaberdasherClient("http://localhost", http_client=Client(ASGITransport(app)), protocol=ProtocolType.GRPC_WEB)
    try:
        async for _ in c.make_similar_hats(Size(inches=1)):
            pass
        fail("no error")
    except ConnectError as e:
        if e.message != "  indented  ":
            fail(repr(e.message))
asyncio.run(main())
'''),
]
