# -*- coding: utf-8 -*-
# Generated by the protocol buffer compiler.  DO NOT EDIT!
# NO CHECKED-IN PROTOBUF GENCODE
# source: simsvc.proto
# Protobuf Python Version: 6.33.5
"""Generated protocol buffer code."""
from google.protobuf import descriptor as _descriptor
from google.protobuf import descriptor_pool as _descriptor_pool
from google.protobuf import runtime_version as _runtime_version
from google.protobuf import symbol_database as _symbol_database
from google.protobuf.internal import builder as _builder
_runtime_version.ValidateProtobufRuntimeVersion(
    _runtime_version.Domain.PUBLIC,
    6,
    33,
    5,
    '',
    'simsvc.proto'
)
# @@protoc_insertion_point(imports)

_sym_db = _symbol_database.Default()


from google.protobuf import any_pb2 as google_dot_protobuf_dot_any__pb2


DESCRIPTOR = _descriptor_pool.Default().AddSerializedFile(b'\n\x0csimsvc.proto\x12\x06sim.v1\x1a\x19google/protobuf/any.proto\"\x97\x02\n\x03Req\x12\x0c\n\x04\x63\x61ll\x18\x01 \x01(\x03\x12\x0b\n\x03seq\x18\x02 \x01(\x05\x12\x0c\n\x04text\x18\x03 \x01(\t\x12\x0c\n\x04\x62lob\x18\x04 \x01(\x0c\x12\x0c\n\x04nums\x18\x05 \x03(\x12\x12#\n\x04tags\x18\x06 \x03(\x0b\x32\x15.sim.v1.Req.TagsEntry\x12\x0b\n\x03num\x18\x07 \x01(\x01\x12\x1a\n\x05\x63hild\x18\x08 \x01(\x0b\x32\x0b.sim.v1.Req\x12\r\n\x03\x61lt\x18\t \x01(\tH\x00\x12\r\n\x03\x62ig\x18\n \x01(\x04H\x00\x12\x0c\n\x04\x66lag\x18\x0b \x01(\x08\x12\x1a\n\x04kind\x18\x0c \x01(\x0e\x32\x0c.sim.v1.Kind\x1a+\n\tTagsEntry\x12\x0b\n\x03key\x18\x01 \x01(\t\x12\r\n\x05value\x18\x02 \x01(\t:\x02\x38\x01\x42\x08\n\x06\x63hoice\"\xe4\x01\n\x03Rep\x12\x0c\n\x04text\x18\x01 \x01(\t\x12\x0c\n\x04\x62lob\x18\x02 \x01(\x0c\x12\x0c\n\x04\x63\x61ll\x18\x03 \x01(\x03\x12\x0b\n\x03seq\x18\x04 \x01(\x05\x12\x0c\n\x04nums\x18\x05 \x03(\x05\x12#\n\x04tags\x18\x06 \x03(\x0b\x32\x15.sim.v1.Rep.TagsEntry\x12\x1d\n\x08\x63hildren\x18\x07 \x03(\x0b\x32\x0b.sim.v1.Rep\x12\x0b\n\x03\x62ig\x18\x08 \x01(\x06\x12\x1a\n\x04kind\x18\t \x01(\x0e\x32\x0c.sim.v1.Kind\x1a+\n\tTagsEntry\x12\x0b\n\x03key\x18\x01 \x01(\t\x12\r\n\x05value\x18\x02 \x01(\x03:\x02\x38\x01\"\x1f\n\x04Note\x12\x0c\n\x04text\x18\x01 \x01(\t\x12\t\n\x01n\x18\x02 \x01(\x03\"Q\n\tRpcStatus\x12\x0c\n\x04\x63ode\x18\x01 \x01(\x05\x12\x0f\n\x07message\x18\x02 \x01(\t\x12%\n\x07\x64\x65tails\x18\x03 \x03(\x0b\x32\x14.google.protobuf.Any*4\n\x04Kind\x12\x14\n\x10KIND_UNSPECIFIED\x10\x00\x12\n\n\x06KIND_A\x10\x01\x12\n\n\x06KIND_B\x10\x02\x32\xd8\x01\n\nSimService\x12!\n\x05Unary\x12\x0b.sim.v1.Req\x1a\x0b.sim.v1.Rep\x12)\n\x08UnaryGet\x12\x0b.sim.v1.Req\x1a\x0b.sim.v1.Rep\"\x03\x90\x02\x01\x12*\n\x0c\x43lientStream\x12\x0b.sim.v1.Req\x1a\x0b.sim.v1.Rep(\x01\x12*\n\x0cServerStream\x12\x0b.sim.v1.Req\x1a\x0b.sim.v1.Rep0\x01\x12$\n\x04\x42idi\x12\x0b.sim.v1.Req\x1a\x0b.sim.v1.Rep(\x01\x30\x01\x62\x06proto3')

_globals = globals()
_builder.BuildMessageAndEnumDescriptors(DESCRIPTOR, _globals)
_builder.BuildTopDescriptorsAndMessages(DESCRIPTOR, 'simsvc_pb2', _globals)
if not _descriptor._USE_C_DESCRIPTORS:
  DESCRIPTOR._loaded_options = None
  _globals['_REQ_TAGSENTRY']._loaded_options = None
  _globals['_REQ_TAGSENTRY']._serialized_options = b'8\001'
  _globals['_REP_TAGSENTRY']._loaded_options = None
  _globals['_REP_TAGSENTRY']._serialized_options = b'8\001'
  _globals['_SIMSERVICE'].methods_by_name['UnaryGet']._loaded_options = None
  _globals['_SIMSERVICE'].methods_by_name['UnaryGet']._serialized_options = b'\220\002\001'
  _globals['_KIND']._serialized_start=680
  _globals['_KIND']._serialized_end=732
  _globals['_REQ']._serialized_start=52
  _globals['_REQ']._serialized_end=331
  _globals['_REQ_TAGSENTRY']._serialized_start=278
  _globals['_REQ_TAGSENTRY']._serialized_end=321
  _globals['_REP']._serialized_start=334
  _globals['_REP']._serialized_end=562
  _globals['_REP_TAGSENTRY']._serialized_start=519
  _globals['_REP_TAGSENTRY']._serialized_end=562
  _globals['_NOTE']._serialized_start=564
  _globals['_NOTE']._serialized_end=595
  _globals['_RPCSTATUS']._serialized_start=597
  _globals['_RPCSTATUS']._serialized_end=678
  _globals['_SIMSERVICE']._serialized_start=735
  _globals['_SIMSERVICE']._serialized_end=951
# @@protoc_insertion_point(module_scope)
