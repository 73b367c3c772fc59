"""Plain-data messages and their mapping to both protobuf runtimes.

A plain message is a dict of the set fields.  It is the unit of comparison of every oracle, so
nothing here uses connectrpc.
"""
from __future__ import annotations

import base64
import json
import random

from google.protobuf import json_format
from protobuf import Oneof

from .stubs import g_pb, py_pb

TEXTS = ["", "a", "hello world", "ünïcødé ☃", "😀 emoji", "quote\" back\\slash", "line1\nline2\r\n", "tab\tnul\x00end",
         "</script>", "100% %41", "[1,2,{\"a\":", "\u2028sep"]


def gen_req(call: int, seq: int, cls: str, salt: int) -> dict:
    r = random.Random(f"req{call}/{seq}/{cls}/{salt}")
    return _fill({"call": call + 1, "seq": seq + 1}, cls, r, True)


def gen_rep(call: int, seq: int, cls: str, salt: int) -> dict:
    r = random.Random(f"rep{call}/{seq}/{cls}/{salt}")
    return _fill({"call": call + 1, "seq": seq + 1}, cls, r, False)


def _fill(d: dict, cls: str, r: random.Random, req: bool) -> dict:
    if cls == "empty":
        return {}
    if cls == "tiny":
        return d
    if cls == "small":
        d["text"] = r.choice(TEXTS) + str(r.randrange(1000))
        return d
    if cls == "rich":
        d["text"] = r.choice(TEXTS)
        if not d["text"]:
            del d["text"]
        d["blob"] = r.randbytes(r.choice((1, 5, 40, 127, 128, 300)))
        d["nums"] = [r.choice((0, 1, -1, 2**31 - 1, -(2**31), r.randrange(1000))) for _ in range(r.randrange(1, 6))]
        if req:
            d["tags"] = {f"k{r.randrange(3)}{r.choice(TEXTS[:5])}": r.choice(TEXTS)}   # one entry: protobuf orders maps by address
            d["num"] = r.choice((1.5, -2.25e300, 5e-324, 0.1, float("inf")))
            d["choice"] = r.choice((("alt", "x"), ("alt", ""), ("big", 2**64 - 1), ("big", 0)))
            d["flag"] = True
            d["child"] = {"text": "inner", "seq": 5} if r.random() < 0.7 else {}
        else:
            d["tags"] = {f"t{r.randrange(3)}": r.choice((0, -1, 2**62, 7))}
            d["big"] = r.choice((1, 2**64 - 1))
            d["children"] = [{"seq": i + 1} if i else {} for i in range(r.randrange(1, 4))]
        d["kind"] = r.choice((1, 2))
        return d
    if cls.startswith("blob"):
        d["blob"] = r.randbytes(int(cls[4:]))
        return d
    if cls.startswith("text"):
        n = int(cls[4:])
        d["text"] = (f"abc{r.randrange(100)} " * (n // 4 + 1))[:n]
        return d
    raise AssertionError(cls)


# ---- building ---------------------------------------------------------------------------


def make(kind: str, d: dict, flavour: str):
    """kind: 'Req' or 'Rep'."""
    if flavour == "py":
        return _make_py(kind, d)
    return _make_g(kind, d)


def _make_py(kind: str, d: dict):
    kw = {}
    for k, v in d.items():
        if k == "choice":
            kw[k] = Oneof(*v)
        elif k == "child":
            kw[k] = _make_py("Req", v)
        elif k == "children":
            kw[k] = [_make_py("Rep", c) for c in v]
        elif k == "kind":
            kw[k] = py_pb.Kind(v)
        elif k == "nums":
            kw[k] = list(v)
        elif k == "tags":
            kw[k] = dict(v)
        else:
            kw[k] = v
    return getattr(py_pb, kind)(**kw)


def _make_g(kind: str, d: dict):
    m = getattr(g_pb, kind)()
    for k, v in d.items():
        if k == "choice":
            setattr(m, v[0], v[1])
        elif k == "child":
            m.child.CopyFrom(_make_g("Req", v))
        elif k == "children":
            for c in v:
                m.children.append(_make_g("Rep", c))
        elif k == "nums":
            m.nums.extend(v)
        elif k == "tags":
            for a, b in v.items():
                m.tags[a] = b
        else:
            setattr(m, k, v)
    return m


_FIELDS = {
    "Req": ("call", "seq", "text", "blob", "nums", "tags", "num", "child", "choice", "flag", "kind"),
    "Rep": ("text", "blob", "call", "seq", "nums", "tags", "children", "big", "kind"),
}


class BadMessage(Exception):
    pass


def plain(kind: str, m, flavour: str) -> dict:
    cls = getattr(py_pb if flavour == "py" else g_pb, kind)
    if not isinstance(m, cls):
        raise BadMessage(f"expected a {kind} ({flavour}), got {type(m).__module__}.{type(m).__qualname__}")
    return _plain_py(kind, m) if flavour == "py" else _plain_g(kind, m)


def _plain_py(kind: str, m) -> dict:
    d = {}
    for k in _FIELDS[kind]:
        v = getattr(m, k)
        if k == "choice":
            if v is not None:
                d[k] = (v.field, v.value)
        elif k == "child":
            if v is not None:
                d[k] = _plain_py("Req", v)
        elif k == "children":
            if v:
                d[k] = [_plain_py("Rep", c) for c in v]
        elif k == "nums":
            if v:
                d[k] = list(v)
        elif k == "tags":
            if v:
                d[k] = dict(v)
        elif k == "kind":
            if int(v):
                d[k] = int(v)
        elif k == "blob":
            if v:
                d[k] = bytes(v)
        elif v:
            d[k] = v
    return d


def _plain_g(kind: str, m) -> dict:
    d = {}
    for k in _FIELDS[kind]:
        if k == "choice":
            w = m.WhichOneof("choice")
            if w is not None:
                d[k] = (w, getattr(m, w))
        elif k == "child":
            if m.HasField("child"):
                d[k] = _plain_g("Req", m.child)
        elif k == "children":
            if len(m.children):
                d[k] = [_plain_g("Rep", c) for c in m.children]
        elif k == "nums":
            if len(m.nums):
                d[k] = list(m.nums)
        elif k == "tags":
            if len(m.tags):
                d[k] = dict(m.tags)
        elif getattr(m, k):
            d[k] = getattr(m, k)
    return d


# ---- independent encoding (google runtime only) ----------------------------------------


def encode(kind: str, d: dict, codec: str, style: int = 0) -> bytes:
    m = _make_g(kind, d)
    if codec == "proto":
        return m.SerializeToString()
    v = json_format.MessageToDict(m, preserving_proto_field_name=bool(style & 1))
    if style & 2:
        return json.dumps(v, indent=2).encode()
    if style & 4:
        return json.dumps(v, ensure_ascii=False, separators=(",", ":")).encode()
    return json.dumps(v).encode()


def decode(kind: str, data: bytes, codec: str) -> dict:
    cls = getattr(g_pb, kind)
    try:
        if codec == "proto":
            m = cls.FromString(bytes(data))
        else:
            m = cls()
            json_format.Parse(bytes(data).decode("utf-8"), m)
    except Exception as e:
        raise BadMessage(f"undecodable {kind}: {e}") from e
    return _plain_g(kind, m)


def field_ends(data: bytes) -> list:
    """Where the top-level fields of a binary message end, the last excepted; [] if it is none."""
    out, i = [], 0

    def varint(i):
        v = sh = 0
        while True:
            b = data[i]
            v |= (b & 127) << sh
            sh += 7
            i += 1
            if b < 128:
                return v, i

    try:
        while i < len(data):
            tag, i = varint(i)
            t = tag & 7
            if t == 0:
                _, i = varint(i)
            elif t == 2:
                n, i = varint(i)
                i += n
            elif t in (1, 5):
                i += 8 if t == 1 else 4
            else:
                return []
            out.append(i)
    except IndexError:
        return []
    return out[:-1] if out and out[-1] == len(data) else []


def note_bytes(text: str, n: int) -> bytes:
    return g_pb.Note(text=text, n=n).SerializeToString()


def b64d(s: str) -> bytes:
    return base64.b64decode(s + "=" * (-len(s) % 4))
