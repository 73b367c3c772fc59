"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
"C01": "Seeded search over calls x network fragmentation/delay schedules; sent and received message lists compared exactly (prefix under faults), bytes checked with an independent wire decoder.",
"C02": "Seeded cuts, resets, clean EOFs at every kind of offset of the response; an independent decoder of the delivered bytes decides whether the response was complete.",
"C03": "Seeded request cuts, disconnects, source failures; bytes delivered to the application decide what the service may see.",
"C04": "Scripted errors at every point of scripted conversations, against ASGI and fake (spec-model) servers.",
"C05": "Virtual-time deadlines against stalled connections, servers, handlers; exact comparison of the instant and kind of the outcome.",
"C06": "Virtual clocks per machine with offsets and wall steps; remaining time sampled inside handlers and interceptors.",
"C07": "Cancellation/early close/deadline/fault at seeded instants; ledger of tasks, responses and uploads after each call.",
"C08": "Client departures and request cancellations at seeded instants; ledger of handler life-cycles and server tasks.",
"C09": "State machine over raw ASGI/WSGI events plus frame decoder, under faults, hostile requests and interrupted sends.",
"C10": "Status on the wire against how the handler ended, under cancellation, disconnects and failures.",
"C11": "Busy run of overlapping calls compared with a solo re-run of each call under the same draws; request-context checks inside handlers.",
"C12": "Header/trailer multisets set by handlers against those seen in the caller's metadata scope.",
"C13": "Invocation-log automaton of seeded interceptor chains, for every ending of a call.",
"C14": "Limits set next to real message sizes; acceptance and rejection checked both ways.",
"C15": "Ping-pong conversations and hand-over instants in virtual time.",
"C16": "Counters of requests, executions and source pulls under transport failures.",
"C17": "Virtual-time lifespan server around the real application: seeded delays, failures and cancellation inside start-up and clean-up, overlapping requests, event-order automaton.",
"C18": "Spans and measurements of the real interceptor, gathered by the real OpenTelemetry SDK, against the recorded calls and their virtual durations.",
"C19": "Exception type and code against tables written from the specifications, under transport failures and corrupt or malformed responses.",
"C24": "Encoding headers and bytes at the transport against the compressions configured on each side, over seeded mismatched configurations and malformed requests.",
"C25": "Messages taken by each side against messages accepted by the next, at every virtual instant, with small windows and slow or stalled peers.",
"C26": "Every request recorded at the simulated transport checked against the protocol specifications, under clashing headers, odd timeouts and source or network failures.",
"C27": "Malformed and well-formed requests against the real servers; an independent reading of each request decides whether the service may run and which messages it may be given.",
"C20": "What the application read of wsgi.input against what had been sent, whenever a response was finished.",
}
CLAIMED = sorted(NOTE)
PENDING = {p: "Check not built yet." for p in ()}
NA = {
"C21": "A pure function of its input: no schedule, clock, I/O fault or interleaving affects encoding; a simulator could only dress up input generation.",
"C22": "The code generator is a pure function from a request to files; nothing nondeterministic or faulty is involved.",
"C23": "A data structure used from one task at a time; its behaviour is a pure function of the operation sequence, with no schedule, clock or fault.",
**{k: v for k, v in PENDING.items() if k not in NOTE},
}
import sys
doc = {
 "version": 1,
 "setup_cmd": "bash ./check --setup",
 "checks": [{
   "property": p, "quick_cmd": f"./check {p} --tier quick", "thorough_cmd": f"./check {p} --tier thorough",
   "evidence_file": f"evidence/{p}.json", "technique": "deterministic simulation with fault injection (seeded search)",
   "level": "exploration",
   "level_note": NOTE[p] + " Samples, does not enumerate: a clean run is evidence, not proof. Trusts the simulated transport/"
                 "ASGI-server/WSGI-server models, the independent wire decoder, pyqwest's client wrapper, protobuf and the compression libraries.",
 } for p in CLAIMED],
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
 "notes": "No hooks in /repo: the simulator plugs into pyqwest Transport/SyncTransport, ASGI/WSGI callables and the time module. "
          "./check --replay FILE replays a violation.",
}
json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
