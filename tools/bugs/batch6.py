import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch2.py"))
COMMON, ASGI = _b2["COMMON"], _b2["ASGI"]
SA = "src/connectrpc/_server_async.py"

BUGS = [
 dict(id="yield-per-chunk", property="C08",
  needs="many request messages arriving in one chunk, and the request being cancelled while the service reads them",
  breaks="The loop gets to run once per chunk and no longer once per message: a service method whose request is cancelled goes on "
         "through everything that has arrived, as if nothing had happened.",
  edits=[(SA, "                await sleep(0)\n        if reader", "            await sleep(0)\n        if reader"),
         (SA, "                # Check for cancellation each message. While this seems heavyweight,\n                # conformance tests require it.\n",
              "            # Check for cancellation each chunk. While this seems heavyweight,\n            # conformance tests require it.\n")],
  demo=COMMON + ASGI + '''
got, ends = [], []
class H(Svc):
    async def make_flexible_hat(self, request, ctx):
        try:
            async for size in request:
                got.append(size.inches)
                if len(got) == 2:
                    asyncio.get_running_loop().call_soon(task.cancel)
        except ConnectError as e:
            ends.append(e.code)
            raise
        ends.append("complete")
        return Hat(size=sum(got))
task = None
async def main():
    global task
    app = HaberdasherASGIApplication(H())
    data = enveloped(*((0, Size(inches=i).to_binary()) for i in range(1, 41)))
    task = asyncio.ensure_future(serve(app, "MakeFlexibleHat", [{"type": "http.request", "body": data, "more_body": False}]))
    await asyncio.wait([task])
    if len(got) > 3 or ends != [Code.CANCELED]:
        fail(f"read {len(got)} messages, ended {ends}")
asyncio.run(main())
'''),
]
