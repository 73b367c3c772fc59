import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch2.py"))
COMMON, ASGI = _b2["COMMON"], _b2["ASGI"]
SS = "src/connectrpc/_server_sync.py"
GZ = "src/connectrpc/compression/gzip.py"
PC = "src/connectrpc/_protocol_connect.py"

BUGS = [
 dict(id="gzip-cut", property="C27",
  needs="a message in gzip whose data was cut short before it was put into a whole frame or body, and what is left of it decoding",
  breaks="A message whose gzip data is incomplete is taken for the part of it that is there, often an empty message, and the service "
         "method runs with it.",
  edits=[(GZ, "        return gzip.decompress(data)", "        # Messages are small, skip the file object machinery of the gzip module.\n"
              "        return zlib.decompressobj(wbits=31).decompress(data)"),
         (GZ, "import gzip\n", "import gzip\nimport zlib\n")],
  demo=COMMON + ASGI + '''
import gzip
got = []
class H(Svc):
    async def make_flexible_hat(self, request, ctx):
        async for size in request:
            got.append(size.inches)
        return Hat(size=sum(got))
    async def make_hat(self, request, ctx):
        got.append(request.inches)
        return Hat(size=1)
async def main():
    app = HaberdasherASGIApplication(H())
    whole = gzip.compress(Size(inches=12).to_binary())
    scope_headers = [(b"connect-content-encoding", b"gzip")]
    for data in (whole, whole[:-4], whole[:12]):
        got.clear()
        inner = app
        async def wrapped(scope, receive, send):
            scope["headers"] += [(b"connect-content-encoding", b"gzip"), (b"content-encoding", b"gzip")]
            await inner(scope, receive, send)
        for path, ct, body_ in (("MakeFlexibleHat", "application/connect+proto", enveloped((1, data))), ("MakeHat", "application/proto", data)):
            try:
                await serve(wrapped, path, [{"type": "http.request", "body": body_, "more_body": False}], ct)
            except Exception:
                pass
        if got != ([12, 12] if data is whole else []):
            fail(f"{len(data)} of {len(whole)} bytes: the service got {got}")
asyncio.run(main())
'''),
 dict(id="extra-message", property="C27",
  needs="a gRPC or streaming Connect request with more than one message for a method that takes one, on the sync server",
  breaks="A request with several messages is served with the first one, instead of being refused.",
  edits=[(SS, """        if req is not None:
            raise ConnectError(
                Code.UNIMPLEMENTED, "unary request has multiple messages"
            )
        req = message
    if req is None:
        raise ConnectError(Code.UNIMPLEMENTED, "unary request has zero messages")
    return req
""", """        # Read on to the end even though the message is known, to see a truncated request.
        req = message if req is None else req
    if req is None:
        raise ConnectError(Code.UNIMPLEMENTED, "unary request has zero messages")
    return req
""")],
  demo=COMMON + '''
import io
from test.haberdasher_connect import HaberdasherSync, HaberdasherWSGIApplication
got = []
class H(HaberdasherSync):
    def make_similar_hats(self, request, ctx):
        got.append(request.inches)
        yield Hat(size=request.inches)
def call(data):
    got.clear()
    app = HaberdasherWSGIApplication(H())
    env = {"REQUEST_METHOD": "POST", "PATH_INFO": "/connectrpc.example.Haberdasher/MakeSimilarHats", "SCRIPT_NAME": "", "QUERY_STRING": "",
           "SERVER_NAME": "localhost", "SERVER_PORT": "80", "SERVER_PROTOCOL": "HTTP/1.1", "CONTENT_TYPE": "application/connect+proto",
           "CONTENT_LENGTH": str(len(data)), "HTTP_HOST": "localhost", "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(data),
           "wsgi.errors": sys.stderr, "wsgi.version": (1, 0), "wsgi.multithread": True, "wsgi.multiprocess": False, "wsgi.run_once": False}
    b"".join(app(env, lambda *a: None))
    return list(got)
one = (0, Size(inches=3).to_binary())
if call(enveloped(one)) != [3]:
    fail(f"a good request: {got}")
if call(enveloped(one, one)):
    fail(f"two messages for a method that takes one: the service got {got}")
'''),
 dict(id="get-unsafe", property="C27",
  needs="a GET request, as any web page can cause, for a unary method that has side effects",
  breaks="Unary methods with side effects run for GET requests, instead of answering 405.",
  edits=[(PC, """        if method.idempotency_level == IdempotencyLevel.NO_SIDE_EFFECTS:
            if http_method not in ("GET", "POST"):
                raise HTTPException(
                    HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "GET, POST")]
                )
        elif http_method != "POST":
            raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
""", """        if http_method not in ("GET", "POST"):
            allow = (
                "GET, POST"
                if method.idempotency_level == IdempotencyLevel.NO_SIDE_EFFECTS
                else "POST"
            )
            raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", allow)])
""")],
  demo=COMMON + ASGI + '''
got = []
class H(Svc):
    async def do_nothing(self, request, ctx):
        got.append(1)
        return request
    async def make_hat(self, request, ctx):
        got.append(2)
        return Hat(size=request.inches)
async def main():
    app = HaberdasherASGIApplication(H())
    async def get(scope, receive, send):
        scope["method"], scope["query_string"] = "GET", b"connect=v1&encoding=proto&base64=1&message="
        await app(scope, receive, send)
    for path, allowed in (("MakeHat", True), ("DoNothing", False)):
        got.clear()
        ev = await serve(get, path, [{"type": "http.request", "body": b"", "more_body": False}], "application/proto")
        st = ev[0]["status"]
        if (st, bool(got)) != ((200, True) if allowed else (405, False)):
            fail(f"GET {path}: {st}, the service ran: {got}")
asyncio.run(main())
'''),
]
