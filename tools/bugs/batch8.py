import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch2.py"))
COMMON, ASGI = _b2["COMMON"], _b2["ASGI"]
A = "src/connectrpc/_client_async.py"
C = "src/connectrpc/_client_sync.py"
SA = "src/connectrpc/_server_async.py"
SS = "src/connectrpc/_server_sync.py"
EN = "src/connectrpc/_envelope.py"
PG = "src/connectrpc/_protocol_grpc.py"

BUGS = [
 dict(id="long-prefix", property="C01",
  needs="an enveloped message of 16 MiB or more",
  breaks="The first byte of a message's length is not read: a long message is taken apart wrongly and the call fails or yields other messages.",
  edits=[(EN, '            self._next_message_length = int.from_bytes(self._buffer[1:5], "big")\n',
              '            _, high, low = struct.unpack_from(">HBH", self._buffer)\n            self._next_message_length = high << 16 | low\n')],
  demo=COMMON + '''
from connectrpc.protocol import ProtocolType
class H(Svc):
    async def make_flexible_hat(self, request, ctx):
        n = [len(s.description) async for s in request]
        return Hat(size=len(n), color=str(n))
async def main():
    from connectrpc._codec import ProtoBinaryCodec as B
    from connectrpc._envelope import EnvelopeReader
    from connectrpc._compression import IdentityCompression
    import struct
    class Raw:
        def decode(self, data, cls):
            return bytes(data)
        def name(self):
            return "raw"
    for n in (10, 70000, (1 << 24) - 1, 1 << 24, (1 << 24) + 77):
        r = EnvelopeReader(bytes, Raw(), IdentityCompression(), None)
        data = struct.pack(">BI", 0, n) + bytes(n)
        got = []
        try:
            for i in range(0, len(data), 1 << 20):
                got += [len(m) for m in r.feed(data[i:i + (1 << 20)])]
        except ConnectError as e:
            got.append(e)
        if got != [n]:
            fail(f"a message of {n} bytes is read as {got[:5]}")
asyncio.run(main())
'''),
 dict(id="plain-accepted", property="C27",
  needs="a unary Connect request said to be compressed whose body is not",
  breaks="A body that is not what its content-encoding says is taken as it is, and the service method runs.",
  edits=[(SA, """        if req_body:  # Don't decompress empty body
            req_body = compression.decompress(req_body)

        if self._read""", """        if req_body:  # Don't decompress empty body
            try:
                req_body = compression.decompress(req_body)
            except OSError:
                # Some proxies decompress bodies and leave the header in place.
                pass

        if self._read""")],
  demo=COMMON + ASGI + '''
import gzip
got = []
class H(Svc):
    async def make_hat(self, request, ctx):
        got.append(request.inches)
        return Hat(size=1)
async def main():
    app = HaberdasherASGIApplication(H())
    async def wrapped(scope, receive, send):
        scope["headers"].append((b"content-encoding", b"gzip"))
        await app(scope, receive, send)
    plain = Size(inches=12).to_binary()
    for data, want in ((gzip.compress(plain), [12]), (plain, [])):
        got.clear()
        try:
            await serve(wrapped, "MakeHat", [{"type": "http.request", "body": data, "more_body": False}], "application/proto")
        except Exception:
            pass
        if got != want:
            fail(f"content-encoding gzip, body {data!r}: the service got {got}")
asyncio.run(main())
'''),
 dict(id="details-capped", property="C04",
  needs="an error with more than three details, over gRPC",
  breaks="Only the first three details of an error reach the caller.",
  edits=[(PG, "                    details=[d._any for d in error.details],", "                    # Keep trailers small.\n                    details=[d._any for d in error.details][:3],")],
  demo=COMMON + '''
class H(Svc):
    async def make_hat(self, request, ctx):
        raise ConnectError(Code.ABORTED, "no", details=[Size(inches=i) for i in range(request.inches)])
async def main():
    for proto in (ProtocolType.CONNECT, ProtocolType.GRPC, ProtocolType.GRPC_WEB):
        c = HaberdasherClient("http://localhost", protocol=proto, http_client=Client(ASGITransport(HaberdasherASGIApplication(H()))))
        for n in range(9):
            try:
                await c.make_hat(Size(inches=n))
            except ConnectError as e:
                got = [Size.from_binary(d.message_bytes).inches for d in e.details]
                if got != list(range(n)):
                    fail(f"{proto}: {n} details were sent, {got} arrived")
            else:
                fail("no error")
asyncio.run(main())
'''),
 dict(id="get-again", property="C26",
  needs="a compressing client whose interceptor makes a GET call again",
  breaks="The headers of the call itself are changed when its GET request is prepared: made again, it does not say that its message is compressed.",
  edits=[(C, """                self._send_request_bidi_stream(iter([request]), ctx)
            )

        request_headers = HTTPHeaders(ctx.request_headers.allitems())
        url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
""", """                self._send_request_bidi_stream(iter([request]), ctx)
            )

        request_headers = ctx.request_headers
        url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
"""),
  (C, "url=url, headers=request_headers, timeout=timeout_s", "url=url,\n                    headers=HTTPHeaders(request_headers.allitems()),\n                    timeout=timeout_s"),
  (C, """                resp = self._http_client.post(
                    url=url,
                    headers=request_headers,""", """                resp = self._http_client.post(
                    url=url,
                    headers=HTTPHeaders(request_headers.allitems()),""")],
  demo='''
import sys, urllib.parse
from pyqwest import Headers, SyncClient, SyncResponse, SyncTransport
from connectrpc.code import Code
from connectrpc.compression.gzip import GzipCompression
from connectrpc.errors import ConnectError
from test.haberdasher_connect import HaberdasherClientSync
from test.haberdasher_pb import Hat, Size
urls = []
class T:
    def execute_sync(self, request):
        urls.append(urllib.parse.parse_qs(urllib.parse.urlsplit(request.url).query))
        return SyncResponse(status=200, headers=Headers({"content-type": "application/proto"}), content=Hat(size=1).to_binary())
class Again:
    def intercept_unary_sync(self, call_next, request, ctx):
        call_next(request, ctx)
        return call_next(request, ctx)
c = HaberdasherClientSync("http://localhost", http_client=SyncClient(T()), send_compression=GzipCompression(), interceptors=[Again()])
c.make_hat(Size(inches=3), use_get=True)
if [u.get("compression") for u in urls] != [["gzip"], ["gzip"]]:
    print("BROKEN:", urls)
    sys.exit(1)
'''),
]
