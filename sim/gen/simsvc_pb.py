# Generated from simsvc.proto. DO NOT EDIT.
# Generated by protoc-gen-py v0.1.1 with parameter "".
# ruff: noqa: PGH004
# ruff: noqa
# fmt: off

from __future__ import annotations

from typing import Literal, TYPE_CHECKING, TypeAlias

from protobuf import Enum, Message
from protobuf._codegen import file_desc
from protobuf.wkt import any_pb

if TYPE_CHECKING:
    from protobuf import DescFile, Oneof
    from protobuf.wkt import Any


_ReqFields: TypeAlias = Literal["call", "seq", "text", "blob", "nums", "tags", "num", "child", "alt", "big", "flag", "kind"]

class Req(Message[_ReqFields]):
    """
    ```proto
    message sim.v1.Req
    ```

    Attributes:
        call:
            ```proto
            int64 call = 1;
            ```
        seq:
            ```proto
            int32 seq = 2;
            ```
        text:
            ```proto
            string text = 3;
            ```
        blob:
            ```proto
            bytes blob = 4;
            ```
        nums:
            ```proto
            repeated sint64 nums = 5 [packed = true];
            ```
        tags:
            ```proto
            map<string, string> tags = 6;
            ```
        num:
            ```proto
            double num = 7;
            ```
        child:
            ```proto
            optional sim.v1.Req child = 8;
            ```
        choice:
            ```proto
            oneof choice
            ```
        flag:
            ```proto
            bool flag = 11;
            ```
        kind:
            ```proto
            sim.v1.Kind kind = 12;
            ```
    """

    __slots__ = ("call", "seq", "text", "blob", "nums", "tags", "num", "child", "flag", "kind", "choice")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            call: int = 0,
            seq: int = 0,
            text: str = "",
            blob: bytes = b"",
            nums: list[int] | None = None,
            tags: dict[str, str] | None = None,
            num: float = 0,
            child: Req | None = None,
            choice: Oneof[Literal["alt"], str] | Oneof[Literal["big"], int] | None = None,
            flag: bool = False,
            kind: Kind | None = None,
        ) -> None:
            pass

        call: int
        seq: int
        text: str
        blob: bytes
        nums: list[int]
        tags: dict[str, str]
        num: float
        child: Req | None
        choice: Oneof[Literal["alt"], str] | Oneof[Literal["big"], int] | None
        flag: bool
        kind: Kind

_RepFields: TypeAlias = Literal["text", "blob", "call", "seq", "nums", "tags", "children", "big", "kind"]

class Rep(Message[_RepFields]):
    """
    ```proto
    message sim.v1.Rep
    ```

    Attributes:
        text:
            ```proto
            string text = 1;
            ```
        blob:
            ```proto
            bytes blob = 2;
            ```
        call:
            ```proto
            int64 call = 3;
            ```
        seq:
            ```proto
            int32 seq = 4;
            ```
        nums:
            ```proto
            repeated int32 nums = 5 [packed = true];
            ```
        tags:
            ```proto
            map<string, int64> tags = 6;
            ```
        children:
            ```proto
            repeated sim.v1.Rep children = 7;
            ```
        big:
            ```proto
            fixed64 big = 8;
            ```
        kind:
            ```proto
            sim.v1.Kind kind = 9;
            ```
    """

    __slots__ = ("text", "blob", "call", "seq", "nums", "tags", "children", "big", "kind")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            text: str = "",
            blob: bytes = b"",
            call: int = 0,
            seq: int = 0,
            nums: list[int] | None = None,
            tags: dict[str, int] | None = None,
            children: list[Rep] | None = None,
            big: int = 0,
            kind: Kind | None = None,
        ) -> None:
            pass

        text: str
        blob: bytes
        call: int
        seq: int
        nums: list[int]
        tags: dict[str, int]
        children: list[Rep]
        big: int
        kind: Kind

_NoteFields: TypeAlias = Literal["text", "n"]

class Note(Message[_NoteFields]):
    """
    ```proto
    message sim.v1.Note
    ```

    Attributes:
        text:
            ```proto
            string text = 1;
            ```
        n:
            ```proto
            int64 n = 2;
            ```
    """

    __slots__ = ("text", "n")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            text: str = "",
            n: int = 0,
        ) -> None:
            pass

        text: str
        n: int

_RpcStatusFields: TypeAlias = Literal["code", "message", "details"]

class RpcStatus(Message[_RpcStatusFields]):
    """
    Same wire format as google.rpc.Status; used by the independent decoder only.

    ```proto
    message sim.v1.RpcStatus
    ```

    Attributes:
        code:
            ```proto
            int32 code = 1;
            ```
        message:
            ```proto
            string message = 2;
            ```
        details:
            ```proto
            repeated google.protobuf.Any details = 3;
            ```
    """

    __slots__ = ("code", "message", "details")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            code: int = 0,
            message: str = "",
            details: list[Any] | None = None,
        ) -> None:
            pass

        code: int
        message: str
        details: list[Any]

class Kind(Enum):
    """
    ```proto
    enum sim.v1.Kind
    ```

    Attributes:
        UNSPECIFIED:
            ```proto
            KIND_UNSPECIFIED = 0
            ```
        A:
            ```proto
            KIND_A = 1
            ```
        B:
            ```proto
            KIND_B = 2
            ```
    """

    UNSPECIFIED = 0
    A = 1
    B = 2


_DESC = file_desc(
    b'\n\x0csimsvc.proto\x12\x06sim.v1\x1a\x19google/protobuf/any.proto"\xe8\x02\n\x03Req\x12\x12\n\x04call\x18\x01 \x01(\x03R\x04call\x12\x10\n\x03seq\x18\x02 \x01(\x05R\x03seq\x12\x12\n\x04text\x18\x03 \x01(\tR\x04text\x12\x12\n\x04blob\x18\x04 \x01(\x0cR\x04blob\x12\x12\n\x04nums\x18\x05 \x03(\x12R\x04nums\x12)\n\x04tags\x18\x06 \x03(\x0b2\x15.sim.v1.Req.TagsEntryR\x04tags\x12\x10\n\x03num\x18\x07 \x01(\x01R\x03num\x12!\n\x05child\x18\x08 \x01(\x0b2\x0b.sim.v1.ReqR\x05child\x12\x12\n\x03alt\x18\t \x01(\tH\x00R\x03alt\x12\x12\n\x03big\x18\n \x01(\x04H\x00R\x03big\x12\x12\n\x04flag\x18\x0b \x01(\x08R\x04flag\x12 \n\x04kind\x18\x0c \x01(\x0e2\x0c.sim.v1.KindR\x04kind\x1a7\n\tTagsEntry\x12\x10\n\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n\x05value\x18\x02 \x01(\tR\x05value:\x028\x01B\x08\n\x06choice"\xa8\x02\n\x03Rep\x12\x12\n\x04text\x18\x01 \x01(\tR\x04text\x12\x12\n\x04blob\x18\x02 \x01(\x0cR\x04blob\x12\x12\n\x04call\x18\x03 \x01(\x03R\x04call\x12\x10\n\x03seq\x18\x04 \x01(\x05R\x03seq\x12\x12\n\x04nums\x18\x05 \x03(\x05R\x04nums\x12)\n\x04tags\x18\x06 \x03(\x0b2\x15.sim.v1.Rep.TagsEntryR\x04tags\x12\'\n\x08children\x18\x07 \x03(\x0b2\x0b.sim.v1.RepR\x08children\x12\x10\n\x03big\x18\x08 \x01(\x06R\x03big\x12 \n\x04kind\x18\t \x01(\x0e2\x0c.sim.v1.KindR\x04kind\x1a7\n\tTagsEntry\x12\x10\n\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01"(\n\x04Note\x12\x12\n\x04text\x18\x01 \x01(\tR\x04text\x12\x0c\n\x01n\x18\x02 \x01(\x03R\x01n"i\n\tRpcStatus\x12\x12\n\x04code\x18\x01 \x01(\x05R\x04code\x12\x18\n\x07message\x18\x02 \x01(\tR\x07message\x12.\n\x07details\x18\x03 \x03(\x0b2\x14.google.protobuf.AnyR\x07details*4\n\x04Kind\x12\x14\n\x10KIND_UNSPECIFIED\x10\x00\x12\n\n\x06KIND_A\x10\x01\x12\n\n\x06KIND_B\x10\x022\xd8\x01\n\nSimService\x12!\n\x05Unary\x12\x0b.sim.v1.Req\x1a\x0b.sim.v1.Rep\x12)\n\x08UnaryGet\x12\x0b.sim.v1.Req\x1a\x0b.sim.v1.Rep"\x03\x90\x02\x01\x12*\n\x0cClientStream\x12\x0b.sim.v1.Req\x1a\x0b.sim.v1.Rep(\x01\x12*\n\x0cServerStream\x12\x0b.sim.v1.Req\x1a\x0b.sim.v1.Rep0\x01\x12$\n\x04Bidi\x12\x0b.sim.v1.Req\x1a\x0b.sim.v1.Rep(\x010\x01b\x06proto3',
    [
        any_pb.desc(),
    ],
    {
        "Req": Req,
        "Rep": Rep,
        "Note": Note,
        "RpcStatus": RpcStatus,
        "Kind": Kind,
    },
)


def desc() -> DescFile:
    """Returns the descriptor for the file `simsvc.proto`."""
    return _DESC
