#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MODEL = "model-based property testing: generated histories and thread schedules against a reference model, with shrinking"
CLAIMED = {
 "C02": (MODEL, "Random exploration of call histories of a real client against a scripted server (frames built by the harness); receive memory is sized for the unfetched responses generated."),
 "C06": (MODEL + " (arbitrary segmentation of the byte stream)", "Random exploration of cut positions and receiver scheduling on local sockets."),
 "C07": ("structured fuzzing of wire input (malformed frames, datagrams, control messages) interleaved with model-checked well-behaved clients, address sanitizer, with shrinking", "Random exploration of malformed input; handlers of generated code are not involved (deserialisation of payloads is out of scope of this property)."),
 "C10": (MODEL, "Random exploration of waiters, response orders, connection loss and schedules on the real client under a deterministic scheduler."),
 "C11": (MODEL + " (direct on the pool, and end to end)", "Direct part uses the internal pool interface while it exists; end-to-end part always runs."),
 "C12": (MODEL + " (direct on the containers, and end to end)", "Direct part uses the internal container interfaces while they exist; end-to-end part always runs."),
 "C13": (MODEL, "Random exploration over UDP loopback and local datagram sockets, with queue lengths kept below the kernel's limits so that no datagram is dropped by the system."),
 "C14": (MODEL + " (complete accounting of threads, descriptors and memory)", "Random exploration of the moment and origin of the request; handlers terminate and clients keep reading."),
 "C15": (MODEL + " (metamorphic: repeating rounds must not grow resources)", "Random exploration; reusable message buffers up to what can be in use at once are allowed."),
 "C20": (MODEL, "Random exploration of 2-4 threads sharing one client under a deterministic scheduler with preemption at memory accesses."),
 "C03": (MODEL, "Random exploration of request histories, worker counts and interleavings on the real library under a deterministic scheduler with address sanitizer; trusts the frame-level reference model and this kernel's local sockets."),
 "C04": (MODEL, "As C03, over histories of arrivals, departures, deferred answers and targeted events; a targeted event to a handle that was reused counts for the client now holding it."),
 "C05": (MODEL, "As C03, over histories of subscriptions and broadcasts on all service ids; subscription changes are ordered against broadcasts by quiescence except for concurrent ones, which may go either way."),
 "C08": (MODEL + " (fault injection: disconnects at arbitrary byte positions)", "Random exploration of disconnect points; requests still in the socket when the connection closes may be dropped."),
 "C09": (MODEL, "Random exploration of registration histories and calls over all ids; errors are observed on the wire by raw clients."),
 "C19": (MODEL, "Random exploration of deferral and answer orders."),
 "C01": ("generative round-trip testing: random protocol definitions and random values through the generated client and server code, compared field by field, with shrinking of the definition", "Random exploration of definitions (up to a few structs, variants, enums, functions and events each) and values (boundaries, empty and long strings and arrays); one worker, local stream connection; definitions the generator refuses or that do not compile are left to C16."),
 "C16": ("grammar-based fuzzing of the generator: random valid definitions must be accepted and compile, single mutations that make them invalid must be refused", "Random exploration; names reserved by C or by the generated interface and string arrays are outside the documented format and not generated."),
 "C17": ("model-based property testing of the generated helpers: random definitions, values and helper sequences, with complete accounting of allocations, address sanitizer and shrinking", "Random exploration; a variant is cleared before another alternative is set, as the generated interface requires."),
 "C18": ("metamorphic testing of the generator: random definitions under meaning-preserving rewrites and option changes must give the same code", "Random exploration of definitions and rewrites (white space, comments, number base, import of shared types, include selection, separate runs)."),
 "C27": ("differential testing of generated code against an independent encoder: random protocol definitions and random values, every byte sent compared, with shrinking of the definition", "Random exploration of definitions and values; the message id and the unused bytes of types declared in C headers are not compared (the ids are, by C02 and others, on the wire)."),
 "C25": (MODEL + " (links with injected failures as monitors)", "Random exploration of histories over links written for the check; up to 4 links and 8 clients; client handles are unique among the links of a server except within a link that tells its senders apart."),
 "C26": (MODEL, "Random exploration of histories in which refused operations are mixed with others; only refusals the interface defines are generated (other invalid use, such as operations on a client that was shut down, is not)."),
 "C24": (MODEL, "Random exploration of schedules and histories with up to 63 services; memory reordering is not explored."),
 "C23": (MODEL + " (fault injection: allocations, threads and descriptors)", "Random exploration of server and client histories in which 1/2 to 1/40 of the library's requests for memory, threads and descriptors fail, over stream and packet links."),
 "C22": (MODEL + " (fault injection: interrupted system calls)", "Random exploration of the histories of the other properties with a third of the waiting system calls ending early and accepts failing; connect is not interrupted."),
 "C21": (MODEL, "Random exploration of connection histories with callbacks installed; departures caused by server shutdown are not reported by the library and not required."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 vf.py build",
 "checks": [{"property": p["id"], "quick_cmd": "python3 vf.py check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 vf.py check " + p["id"],
   "technique": CLAIMED[p["id"]][0], "level": "exploration", "level_note": CLAIMED[p["id"]][1]} for p in props if p["id"] in CLAIMED],
 "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in CLAIMED]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "claimed")
