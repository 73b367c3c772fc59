#!/bin/bash
# Regenerates the committed message modules and code generator requests from sim/proto/simsvc.proto.
set -e
cd "$(dirname "$0")/../sim"
. /opt/vp/env.sh
PY=/opt/venv/bin/python
mkdir -p gen/google_compat
$PY -m grpc_tools.protoc -Iproto --py_out=gen --plugin=protoc-gen-py=/opt/venv/bin/protoc-gen-py proto/simsvc.proto
$PY -m grpc_tools.protoc -Iproto --python_out=gen/google_compat proto/simsvc.proto
$PY -m grpc_tools.protoc -Iproto --include_imports --descriptor_set_out=/tmp/simsvc.fds proto/simsvc.proto
$PY - <<'PY'
from google.protobuf.compiler import plugin_pb2
from google.protobuf import descriptor_pb2
fds = descriptor_pb2.FileDescriptorSet.FromString(open('/tmp/simsvc.fds','rb').read())
for name, param in (("py", ""), ("google", "protobuf=google")):
    r = plugin_pb2.CodeGeneratorRequest(file_to_generate=["simsvc.proto"], parameter=param)
    r.proto_file.extend(fds.file)
    r.source_file_descriptors.extend(fds.file)
    r.compiler_version.major = 5
    open(f'gen/request_{name}.bin','wb').write(r.SerializeToString())
PY
rm -f /tmp/simsvc.fds
