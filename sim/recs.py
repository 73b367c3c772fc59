"""What a run records.  Oracles judge these records only."""
from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any


@dataclass
class CallRec:
    """One application call, seen from the client application."""

    spec: Any
    cfg: Any
    t_start: float = -1.0
    t_end: float | None = None
    sent: list = field(default_factory=list)     # (t, plain) handed to the library
    src_state: str = "idle"                      # idle/running/ended/failed/closed
    src_starts: int = 0
    asked: list = field(default_factory=list)
    recv: list = field(default_factory=list)     # (t, plain)
    outcome: tuple | None = None
    cancel_t: float | None = None
    cancel_stage: str = ""
    outer_cancel: bool = False                    # cancelled with the code that made the call
    close_t: float | None = None
    close_done_t: float | None = None
    close_exc: str | None = None
    end_seq: int = 0
    start_seq: int = 0
    bad: list = field(default_factory=list)
    md_headers: list | None = None
    md_trailers: list | None = None
    hung: bool = False
    app_busy: list = field(default_factory=list)  # (from, to) the consumer was in its own code
    aborted: bool = False                         # the driver gave up at the horizon
    fake: bool = False
    inner: Any = None                             # the call its consumer is making
    wire_problems: list = field(default_factory=list)
    raw: Any = None                               # parsed response of a fake client

    @property
    def timeout(self) -> float | None:
        ms = self.cfg.timeout_ms if self.spec.timeout_ms is None else self.spec.timeout_ms
        return None if ms is None else ms / 1000.0

    @property
    def deadline(self) -> float | None:
        return None if self.timeout is None else self.t_start + self.timeout


@dataclass
class HandlerRec:
    """One execution of a service method."""

    call: int
    conn: Any
    t_start: float
    reqs: list = field(default_factory=list)      # (t, plain)
    req_seqs: list = field(default_factory=list)
    asked: list = field(default_factory=list)
    req_end: tuple | None = None                  # ("eof",) | ("error", type, code)
    req_end_t: float | None = None
    sends: list = field(default_factory=list)     # (t, plain)
    end: tuple | None = None                      # ("ended",) ("raised", err) ("closed",) ("cancelled",)
    end_t: float | None = None
    cleanup_done: bool = False
    cleanup_t: float | None = None
    start_seq: int = 0
    end_seq: int = 0
    cleanup_seq: int = 0
    ctx: list = field(default_factory=list)       # (t, timeout_ms)
    headers_set: list = field(default_factory=list)   # before the first message
    trailers_set: list = field(default_factory=list)
    req_headers: list = field(default_factory=list)
    late_headers: list = field(default_factory=list)
    bad: list = field(default_factory=list)
    bad_message: bool = False                     # it answered with something that is no message
    service: Any = None
    fake: bool = False
    rctx: Any = None
    ident: tuple | None = None                    # what the request context said at the start and at the end
    ident_end: tuple | None = None


@dataclass
class ConnRec:
    """One HTTP request."""

    call: int
    attempt: int
    plan: Any
    t_open: float
    slack: float = 0.0            # by how much the HTTP client's own timer is late
    method: str = ""
    url: str = ""
    headers: list = field(default_factory=list)
    content_kind: str = ""
    up_bytes: bytearray = field(default_factory=bytearray)     # produced by the client
    up_log: list = field(default_factory=list)                 # (t, total bytes)
    up_end: str | None = None                                  # eof / error / aborted
    up_delivered: bytearray = field(default_factory=bytearray)  # handed to the application
    up_delivered_end: str | None = None                        # eof / disconnect
    up_full: bool = False                                      # everything incl. EOF was handed over
    app_started: bool = False
    app_start_t: float | None = None
    app_done_t: float | None = None
    app_done_seq: int = 0
    send_return_t: float = 0.0
    disconnect_seq: int = 0
    app_cancel_seq: int = 0
    cancel_app: Any = None
    cancel_due_seq: int = 0
    close_seq: int = 0
    app_exc: str | None = None
    events: list = field(default_factory=list)                 # (t, message) from the application
    recv_events: list = field(default_factory=list)
    disconnect_t: float | None = None
    disconnect_seen: bool = False
    app_cancel_t: float | None = None
    crashed: bool = False
    crash_t: float | None = None
    down_emitted: bytearray = field(default_factory=bytearray)
    down_log: list = field(default_factory=list)
    head: tuple | None = None                                  # (status, headers) given to the client
    head_t: float | None = None
    down_delivered: bytearray = field(default_factory=bytearray)
    deliver_log: list = field(default_factory=list)            # (t, total)
    down_end: str | None = None                                # eof / err:<mode>
    down_end_t: float | None = None
    trailers: list = field(default_factory=list)               # delivered
    client_close_t: float | None = None
    client_done_t: float | None = None
    execute_exc: str | None = None
    server_open: bool = False
    tail_dropped: bool = False
    pipes: Any = None
    faults: list = field(default_factory=list)                 # fired fault kinds
    app_gone: bool = False
    fake: bool = False
    inner: Any = None                                          # the call its service method is making
    leaked: list = field(default_factory=list)
    unread_at_end: Any = None

    @property
    def faulty(self) -> bool:
        return bool(self.faults)
