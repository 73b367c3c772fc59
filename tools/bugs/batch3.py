import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch2.py"))
COMMON, ASGI = _b2["COMMON"], _b2["ASGI"]
A = "src/connectrpc/_client_async.py"
C = "src/connectrpc/_client_sync.py"
S = "src/connectrpc/_server_async.py"
W = "src/connectrpc/_server_sync.py"
G = "src/connectrpc/_protocol_grpc.py"
P = "src/connectrpc/_protocol_connect.py"
SH = "src/connectrpc/_client_shared.py"
E = "src/connectrpc/_envelope.py"

BUGS = [
 dict(id="request-readahead", property="C25",
  needs="a service method that is slow to ask for the messages of a long request stream",
  breaks="The server reads the whole request stream into memory as fast as the client sends it.",
  edits=[(S, '''        async for chunk in _read_body(receive):
            for message in reader.feed(chunk):
                yield message
                # Check for cancellation each message. While this seems heavyweight,
                # conformance tests require it.
                await sleep(0)
''', '''        chunks: Queue[bytes | Exception | None] = Queue()

        async def read_ahead() -> None:
            try:
                async for chunk in _read_body(receive):
                    chunks.put_nowait(chunk)
                chunks.put_nowait(None)
            except Exception as e:
                chunks.put_nowait(e)

        task = create_task(read_ahead())
        try:
            while (chunk := await chunks.get()) is not None:
                if isinstance(chunk, Exception):
                    raise chunk
                for message in reader.feed(chunk):
                    yield message
                    # Check for cancellation each message. While this seems heavyweight,
                    # conformance tests require it.
                    await sleep(0)
        finally:
            task.cancel()
'''), (S, "from asyncio import CancelledError, Event, create_task, sleep", "from asyncio import CancelledError, Event, Queue, create_task, sleep")],
  demo=COMMON + ASGI + '''
pulled = []
class H(Svc):
    async def make_flexible_hat(self, request, ctx):
        it = request.__aiter__()
        await it.__anext__()
        await asyncio.sleep(0.3)
        pulled.append(state["n"])
        n = 1
        async for _ in it:
            n += 1
        return Hat(size=n)
state = {"n": 0}
async def main():
    app = HaberdasherASGIApplication(H())
    async def receive():
        state["n"] += 1
        await asyncio.sleep(0)
        return {"type": "http.request", "body": enveloped((0, Size(inches=1).to_binary())), "more_body": state["n"] < 500}
    out = []
    async def send(m):
        out.append(m)
    scope = {"type": "http", "method": "POST", "path": "/connectrpc.example.Haberdasher/MakeFlexibleHat", "root_path": "", "scheme": "http",
             "query_string": b"", "http_version": "2", "client": ("127.0.0.1", 1), "server": ("localhost", 80),
             "headers": [(b"content-type", b"application/connect+proto")], "extensions": {}}
    await asyncio.wait_for(app(scope, receive, send), 20)
    if Hat.from_binary(frames(body(out))[0][1]).size != 500:
        fail("the service did not get all messages")
    if pulled[0] > 50:
        fail(f"{pulled[0]} messages were read while the service was busy with the first")
asyncio.run(main())
'''),
 dict(id="source-pumped", property="C25",
  needs="a client-streaming call whose transport is slower than its message source",
  breaks="The client drains the application's message source into memory at once, however slowly the transport takes the messages.",
  edits=[(A, '''    writer = ConnectEnvelopeWriter(codec, compression)
    async for msg in msgs:
        yield writer.write(msg)
''', '''    writer = ConnectEnvelopeWriter(codec, compression)
    encoded: deque[bytes] = deque()
    ready = Event()
    done = False
    error: Exception | None = None

    async def pump() -> None:
        # Encode while the transport is busy sending.
        nonlocal done, error
        try:
            async for msg in msgs:
                encoded.append(writer.write(msg))
                ready.set()
        except Exception as e:
            error = e
        done = True
        ready.set()

    task = create_task(pump())
    try:
        while True:
            while encoded:
                yield encoded.popleft()
            if done:
                if error is not None:
                    raise error
                return
            ready.clear()
            await ready.wait()
    finally:
        task.cancel()
        with suppress(CancelledError):
            await task
'''), (A, "from asyncio import CancelledError, sleep, wait_for\n", "from asyncio import CancelledError, Event, create_task, sleep, wait_for\nfrom collections import deque\n"),
   (A, "from contextlib import aclosing\n", "from contextlib import aclosing, suppress\n")],
  demo=COMMON + '''
asked = 0
early = []
class T(Transport):
    async def execute(self, request):
        n = 0
        async for chunk in request.content:
            n += 1
            if n == 1:
                await asyncio.sleep(0.3)
                early.append(asked)
        end = b"{}"
        return Response(status=200, headers=Headers({"content-type": "application/connect+proto"}),
                        content=enveloped((0, Hat(size=n).to_binary()), (2, end)))
async def source():
    global asked
    for i in range(500):
        asked += 1
        await asyncio.sleep(0)
        yield Size(inches=i)
async def main():
    c = HaberdasherClient("http://localhost", send_compression=None, http_client=Client(T()))
    hat = await c.make_flexible_hat(source())
    if hat.size != 500:
        fail(f"{hat.size} messages arrived")
    if early[0] > 50:
        fail(f"{early[0]} messages were taken from the application before the transport asked for its second")
asyncio.run(main())
'''),
 dict(id="mirror-encoding", property="C24",
  needs="a client that compresses its stream requests but does not accept that encoding in responses",
  breaks="Streaming responses are compressed with the encoding of the request even if the client does not accept it.",
  edits=[(P, '''        resp_compression = negotiate_compression(accept_compression, compressions)
        return req_compression, resp_compression
''', '''        if accept_compression and req_compression_name in compressions:
            # The client evidently supports it, no need to negotiate.
            resp_compression = compressions[req_compression_name]
        else:
            resp_compression = negotiate_compression(accept_compression, compressions)
        return req_compression, resp_compression
''')],
  demo=COMMON + ASGI + '''
import gzip
class H(Svc):
    async def make_similar_hats(self, request, ctx):
        yield Hat(size=request.inches)
async def main():
    app = HaberdasherASGIApplication(H())
    async def run(accept):
        out = []
        q = [{"type": "http.request", "body": enveloped((1, gzip.compress(Size(inches=3).to_binary()))), "more_body": False}]
        async def receive():
            if q:
                return q.pop()
            await asyncio.sleep(3600)
        async def send(m):
            out.append(m)
        scope = {"type": "http", "method": "POST", "path": "/connectrpc.example.Haberdasher/MakeSimilarHats", "root_path": "", "scheme": "http",
                 "query_string": b"", "http_version": "2", "client": ("127.0.0.1", 1), "server": ("localhost", 80),
                 "headers": [(b"content-type", b"application/connect+proto"), (b"connect-content-encoding", b"gzip"),
                             (b"connect-accept-encoding", accept)], "extensions": {}}
        await asyncio.wait_for(app(scope, receive, send), 20)
        return dict(out[0]["headers"])[b"connect-content-encoding"], frames(body(out))
    enc, fs = await run(b"gzip")
    if enc != b"gzip" or Hat.from_binary(gzip.decompress(fs[0][1])).size != 3:
        fail("gzip was accepted but the response is wrong")
    enc, fs = await run(b"identity")
    if enc != b"identity" or fs[0][0] & 1:
        fail(f"only identity is accepted, the response is in {enc}")
asyncio.run(main())
'''),
 dict(id="get-encoding-left", property="C26",
  needs="a GET request of a client that compresses its requests",
  breaks="GET requests, which have no body, still carry a content-encoding header.",
  edits=[(SH, '''        params["compression"] = headers.pop("content-encoding")
''', '''        params["compression"] = headers["content-encoding"]
''')],
  demo=COMMON + '''
import urllib.parse
seen = []
class T(Transport):
    def __init__(self, inner):
        self.inner = inner
    async def execute(self, request):
        seen.append((request.method, request.url, list(request.headers.items())))
        return await self.inner.execute(request)
class H(Svc):
    async def make_hat(self, request, ctx):
        return Hat(size=request.inches)
async def main():
    c = HaberdasherClient("http://localhost", http_client=Client(T(ASGITransport(HaberdasherASGIApplication(H())))))
    hat = await c.make_hat(Size(inches=4), use_get=True)
    method, url, headers = seen[0]
    if method != "GET" or hat.size != 4:
        fail(f"{method} {hat}")
    q = dict(urllib.parse.parse_qsl(urllib.parse.urlsplit(url).query))
    if q.get("compression") != "gzip":
        fail(f"the request is not compressed: {q}")
    if any(k.lower() in ("content-encoding", "content-type") for k, _ in headers):
        fail(f"a GET request with the headers {headers}")
asyncio.run(main())
'''),
 dict(id="timeout-nine-digits", property="C26",
  needs="a gRPC call whose timeout is exactly at the boundary between two units of the timeout header",
  breaks="Such a timeout is sent with nine digits, which the gRPC protocol does not allow and servers refuse.",
  edits=[(G, '''    if timeout_ms < _GRPC_TIMEOUT_MAX_VALUE:
''', '''    if timeout_ms <= _GRPC_TIMEOUT_MAX_VALUE:
''')],
  demo=COMMON + '''
import re
seen = []
class T(Transport):
    def __init__(self, inner):
        self.inner = inner
    async def execute(self, request):
        seen.append(request.headers.get("grpc-timeout"))
        return await self.inner.execute(request)
class H(Svc):
    async def make_hat(self, request, ctx):
        return Hat(size=request.inches)
async def main():
    c = HaberdasherClient("http://localhost", protocol=ProtocolType.GRPC_WEB, http_client=Client(T(ASGITransport(HaberdasherASGIApplication(H())))))
    for ms in (1, 1000, 99_999_999, 100_000_000, 100_000_001):
        try:
            await c.make_hat(Size(inches=4), timeout_ms=ms)
        except ConnectError as e:
            if ms > 1:
                fail(f"timeout {ms}: {e.code} {e.message}, header {seen[-1]}")
        if not re.fullmatch("[0-9]{1,8}[HMSmun]", seen[-1]):
            fail(f"timeout {ms} was sent as {seen[-1]}")
asyncio.run(main())
'''),
 dict(id="deadline-restarted", property="C05",
  needs="a streaming call with a timeout whose consumer spends time between messages",
  breaks="Time the application spends on a message is added to the deadline, so the call outlives its timeout.",
  edits=[(A, '''                            timeout.reschedule(None)
                            yield message
                            timeout.reschedule(deadline)
''', '''                            paused = get_running_loop().time()
                            timeout.reschedule(None)
                            yield message
                            if deadline is not None:
                                deadline += get_running_loop().time() - paused
                            timeout.reschedule(deadline)
'''), (A, "from asyncio import CancelledError, sleep, wait_for\n", "from asyncio import CancelledError, get_running_loop, sleep, wait_for\n")],
  demo=COMMON + '''
class H(Svc):
    async def make_similar_hats(self, request, ctx):
        yield Hat(size=1)
        yield Hat(size=2)
        await asyncio.sleep(30)
class T(Transport):
    async def execute(self, request):
        async def content():
            yield enveloped((0, Hat(size=1).to_binary()))
            await asyncio.sleep(20)
        return Response(status=200, headers=Headers({"content-type": "application/connect+proto"}), content=content())
async def main():
    c = HaberdasherClient("http://localhost", http_client=Client(T()))
    t0 = time.monotonic()
    try:
        async for h in c.make_similar_hats(Size(inches=1), timeout_ms=600):
            await asyncio.sleep(0.5)
        fail("no error")
    except ConnectError as e:
        if e.code is not Code.DEADLINE_EXCEEDED:
            fail(e)
    took = time.monotonic() - t0
    if not 0.55 < took < 0.9:
        fail(f"a call with a timeout of 0.6 s ended after {took:.2f} s")
asyncio.run(main())
'''),
 dict(id="scratch-buffer", property="C11",
  needs="two threads encoding stream messages at the same time, one of them pre-empted in the middle",
  breaks="Stream messages are put together in a buffer that all calls share, so concurrent calls of different threads mix up their bytes.",
  edits=[(E, '''        data = self._codec.encode(message)
        if self._compression:
            data = self._compression.compress(data)
        # This copies data into the final envelope, but it is still better than issuing
        # I/O multiple times for small prefix / length elements.
        return struct.pack(">BI", self._prefix, len(data)) + data
''', '''        data = self._codec.encode(message)
        if self._compression:
            data = self._compression.compress(data)
        # This copies data into the final envelope, but it is still better than issuing
        # I/O multiple times for small prefix / length elements.
        scratch = self._scratch
        del scratch[:]
        scratch += struct.pack(">BI", self._prefix, len(data))
        scratch += data
        return bytes(scratch)
'''), (E, '''class EnvelopeWriter(ABC, Generic[_T]):
''', '''class EnvelopeWriter(ABC, Generic[_T]):
    # Reused to not allocate for each message.
    _scratch = bytearray()

''')],
  demo=COMMON + '''
import threading
from connectrpc._protocol_connect import ConnectEnvelopeWriter
inside = threading.Event()
go = threading.Event()
class Codec:
    def name(self):
        return "x"
    def encode(self, m):
        return m
class Slow(bytes):
    """Encoded data; taking its length lets the other thread run."""
def write(data, out):
    out.append(ConnectEnvelopeWriter(Codec(), None).write(data))
bad = []
sys.setswitchinterval(1e-6)
stop = time.monotonic() + 12
def hammer(k):
    w = ConnectEnvelopeWriter(Codec(), None)
    data = bytes([k]) * (k * 40000)
    want = enveloped((0, data))
    while time.monotonic() < stop and not bad:
        try:
            if w.write(data) != want:
                bad.append(k)
        except Exception as e:
            bad.append(repr(e))
ts = [threading.Thread(target=hammer, args=(k,)) for k in (1, 2, 3, 4, 5, 6)]
[t.start() for t in ts]
[t.join() for t in ts]
if bad:
    fail(f"messages of concurrent calls were mixed up: {bad[:3]}")
'''),
]
