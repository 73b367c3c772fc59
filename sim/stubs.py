"""Loads connectrpc from the working tree and generates the service stubs with its own plugin."""
from __future__ import annotations

import os
import subprocess
import sys
import types

from . import vclock

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
GEN = os.path.join(HERE, "gen")

vclock.install()
for _p in (f"{REPO}/connectrpc-otel", f"{REPO}/src"):
    if _p not in sys.path:
        sys.path.insert(0, _p)
sys.dont_write_bytecode = True

import connectrpc  # noqa: E402

if not os.path.abspath(connectrpc.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise RuntimeError(f"connectrpc was imported from {connectrpc.__file__}, not from {REPO}")


def _generate(flavour: str) -> str:
    from google.protobuf.compiler import plugin_pb2

    env = dict(os.environ)
    env["PYTHONPATH"] = os.pathsep.join(
        [f"{REPO}/protoc-gen-connectrpc", f"{REPO}/src", env.get("PYTHONPATH", "")]
    )
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    with open(os.path.join(GEN, f"request_{flavour}.bin"), "rb") as f:
        res = subprocess.run(
            [sys.executable, "-c", "import sys; from protoc_gen_connectrpc import main; sys.exit(main())"],
            stdin=f, capture_output=True, env=env, timeout=60, check=False,
        )
    if res.returncode != 0:
        raise RuntimeError("stub generation failed: " + res.stderr.decode()[-2000:])
    out = plugin_pb2.CodeGeneratorResponse.FromString(res.stdout)
    if out.error:
        raise RuntimeError("stub generation failed: " + out.error)
    for f in out.file:
        if f.name.endswith("simsvc_connect.py"):
            return f.content
    raise RuntimeError("stub generation produced no service module")


def _load(pkg: str, pb_file: str, pb_name: str, source: str):
    p = types.ModuleType(pkg)
    p.__path__ = []
    sys.modules[pkg] = p
    pb = types.ModuleType(f"{pkg}.{pb_name}")
    sys.modules[pb.__name__] = pb
    with open(pb_file) as f:
        exec(compile(f.read(), pb_file, "exec"), pb.__dict__)
    m = types.ModuleType(f"{pkg}.simsvc_connect")
    sys.modules[m.__name__] = m
    exec(compile(source, f"<generated {pkg}>", "exec"), m.__dict__)
    return pb, m


py_pb, py_svc = _load("simgen_py", f"{GEN}/simsvc_pb.py", "simsvc_pb", _generate("py"))
g_pb, g_svc = _load("simgen_google", f"{GEN}/google_compat/simsvc_pb2.py", "simsvc_pb2", _generate("google"))
