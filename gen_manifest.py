#!/usr/bin/env python3
# Generator of MANIFEST.json (kept so that the wording stays in one place).
import json
T={
"C01":("differential trace monitor: argument values logged by the real handler vs. values the caller passed",
 "Explored inputs only: random entry-point shapes and argument tuples biased to reserved, escaped, non-ASCII, control and boundary values, by the real client and by raw requests with equivalent encodings. Trusts the harness' own encoder and its definition of what a URL path can carry."),
"C02":("differential trace monitor: query values logged by the real handler vs. values sent",
 "Explored inputs only: random query schemas and values, permuted and extended with unknown parameters. Trusts the harness' form encoder."),
"C03":("differential trace monitor on both ends plus wire monitor for injected headers",
 "Explored inputs only, both directions. Trusts the harness' strict HTTP parser; blanks around values and framing headers are outside the property; header sections beyond the HTTP library's own limits (8 KB, 32 fields) are not generated."),
"C04":("byte-exact transfer monitor under fragmentation, slow peers and injected truncation",
 "Explored sizes (0 to several MB), fragmentations and truncation points (k of n bytes, FIN/RST, both directions). Length-delimited bodies only: chunked bodies are decoded by a dependency."),
"C05":("differential trace monitor: handler's response vs. status line on the wire vs. caller's value",
 "All 57 statuses in every response shape of the generator are covered on each run; headers and bodies are sampled."),
"C06":("reference-model monitor: which handler ran / status vs. an independent matcher",
 "Random overlapping route tables (up to 16 entry points) and derived request paths; the reference matcher (50 lines, brute force over all registrations) is trusted."),
"C07":("handler-invocation monitor over raw requests with exactly one injected argument fault",
 "Explored schemas and faults only; the harness decides by construction whether a request is valid."),
"C08":("panic/liveness monitor with canary calls under hostile byte streams",
 "Explored byte sequences (grammar-aware mutations, garbage, truncations, resets); liveness is judged by canary requests with generous, reproduced time-outs."),
"C09":("online checker of the request/response trace of a connection",
 "Explored request sequences, one in flight at a time (pipelining is unsupported by the HTTP library)."),
"C10":("offline exactly-once checker joining handler log and call results by unique id",
 "Explored schedules: random concurrency, handler delays, abandoned calls and a proxy that cuts connections after the handler ran; no schedule enumeration."),
"C11":("server-side connection/request log checker (one call at a time, address affinity, conservation of connections)",
 "Explored schedules only. The in-flight bound is computed from the calls' start and end at the caller, i.e. an upper bound of what the pool saw."),
"C12":("reference-model monitor: connections open at the servers vs. a least-recently-released list after every step",
 "Explored histories with controlled completion order; calls complete one by one so that the release order is defined."),
"C13":("server-side connection log checker under injected faults",
 "Explored faults (close, reset, truncation, garbage, undecodable, unsendable arguments, abandoned call) x histories."),
"C14":("timed trace checker: accept log of the servers vs. suspension windows",
 "Explored failure/recovery histories in real time; a window counts only when it certainly (not possibly) applies, so that machine load cannot cause alarms."),
"C15":("wire and round-trip monitor of problem responses",
 "All 57 statuses on each run x kinds x embeddings; the title of 422 is not compared (reason phrase misspelt in a dependency)."),
"C16":("call-outcome monitor against a fault-injecting peer",
 "Explored behaviours: cut at every kind of point, resets, garbage, mutated responses; hangs are judged by generous, reproduced time-outs after the peer's last action."),
"C17":("round-trip monitor of embedded values in real calls and serializers",
 "Explored values only; f64 restricted to those which the JSON library decodes exactly."),
"C18":("ThreadSanitizer and AddressSanitizer builds of library, dependencies and workload, plus a handler access monitor and a string-validity monitor",
 "Races and memory errors on the executed schedules; the access monitor detects overlapping access in the normal build too. TSan build has an instrumented standard library. If a sanitizer cannot start in the environment it decides nothing and the evidence says so."),
"C19":("wire monitor of HEAD responses interleaved with other requests, and caller-side monitor",
 "Explored statuses, headers, body sizes and interleavings."),
"C20":("progress monitor: canary calls while others are deliberately stalled",
 "Explored sets of stalled connections, unfinished handlers and waiting pooled calls; lack of progress is judged by generous, reproduced time-outs."),
"C21":("reference-model monitor of registration results and subsequent dispatch",
 "Random registration sequences; conflict is decided by the definition (same method, same sequence of constant/variable segments)."),
"C22":("independent strict HTTP/1.1 parser over the complete byte streams of both sides",
 "Explored messages only; trusts the parser in the harness."),
"C23":("resource monitor: counting allocator, descriptor counts and end-of-stream observation",
 "Explored ways of giving up a connection and work mixes; growth is judged over hundreds of calls with slack (a fifth of a block per call), so a slower leak is not seen. Time-outs are generous and reproduced."),
"C24":("call-outcome and server-side connection monitor around the drop of a pool",
 "Explored moments and sets of calls; lack of progress is judged by generous, reproduced time-outs."),
}
json.dump(dict(version=1,setup_cmd="bash setup.sh",checks=[dict(property=k,quick_cmd=f"bash check.sh {k} quick",
 thorough_cmd=f"bash check.sh {k} thorough",technique=t,level="exploration",level_note=n) for k,(t,n) in sorted(T.items())],
 not_applicable=[],notes="No hooks in /repo: every monitor observes the public API, the handlers it registers and the bytes on loopback connections."),
 open("MANIFEST.json","w"),indent=1)
