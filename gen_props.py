#!/usr/bin/env python3
# One-off generator for properties.jsonl (kept so that ids/titles/statements stay in one place).
import json
def p(id,title,statement,over,qtext,why,files,mech,observe):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
S="src/"
L=[
p("C01","Path arguments reach the handler exactly as the caller passed them",
 "For every entry point and every tuple of path arguments (strings of any Unicode text, booleans, integers of every width, floats), a completed call delivers exactly those values, in order, to the handler of that entry point. A value that a URL path cannot carry (dot segments, raw tab/CR/LF, an empty leading segment) makes the call fail on the caller's side; it is never altered, dropped, shifted into another position or delivered elsewhere. A path written by any other HTTP client is percent-decoded as UTF-8, and a malformed escape is refused. (A request whose head exceeds what the HTTP library accepts, 8 KiB or 32 headers, fails as a whole.)",
 ["inputs","configurations"],"all entry-point shapes x all argument tuples x all equivalent percent-encodings",
 "The unit tests encode and decode one ASCII path; the guarantee is over all Unicode strings, all numeric values and all entry-point shapes.",
 [S+"serializers/url_path.rs",S+"deserializers/url_path.rs",S+"misc.rs",S+"serializers/rpc_request.rs",S+"deserializers/rpc_request.rs"],
 [("percent-encoding of each variable as one segment","UrlPathSerializer::bind_next_var"),("per-segment percent-decoding and typed parsing","UrlPathDeserializer::next_value, misc::percent_decode")],
 ["handler arguments","call result"]),
p("C02","Query arguments reach the handler exactly as the caller passed them",
 "Every query argument of a call (struct fields or map entries; optional or required; Unicode strings, booleans, integers, floats) reaches the handler with the same name and value, an absent optional stays absent and an empty string stays an empty string. The order of parameters and the presence of parameters the procedure does not know never change the values received. (A request whose head exceeds what the HTTP library accepts, 8 KiB or 32 headers, fails as a whole.)",
 ["inputs","configurations"],"all query schemas x all values x all orderings and unknown extras",
 "The unit tests cover two fixed structs of ASCII values without unknown or reordered parameters.",
 [S+"serializers/url_query.rs",S+"deserializers/url_query.rs",S+"serializers/rpc_request.rs",S+"deserializers/rpc_request.rs"],
 [("form-urlencoded pairs written per field","UrlQuerySerializer::append"),("key/value alternation while decoding","UrlQueryDeserializer::next_str")],
 ["handler arguments","call result"]),
p("C03","Headers arrive exactly as set, in both directions, and cannot be injected",
 "Every header field of a request or response (struct fields, optional fields or map entries; message-framing headers aside) is received with the value it was sent with (surrounding blanks, which HTTP ignores, aside), matched without regard to letter case and unaffected by order or by unknown headers. A name or value that cannot legally appear in a header makes sending fail; it never produces additional headers, a different header or body bytes on the other side. (A message whose head exceeds what the HTTP library accepts, 8 KiB or 32 headers, fails as a whole.)",
 ["inputs","configurations"],"all header schemas x all values x all letter cases, orders and unknown extras, for requests and responses",
 "No test exercises headers at all beyond a fixed content type.",
 [S+"serializers/http_header.rs",S+"deserializers/http_header.rs",S+"serializers/rpc_request.rs",S+"serializers/rpc_response.rs",S+"deserializers/rpc_response.rs"],
 [("one validated header line per field","HttpHeaderSerializer::append"),("lower-cased key/value alternation","HttpHeaderDeserializer::next_bytes")],
 ["handler arguments","caller's response","bytes on the wire"]),
p("C04","Bodies are transferred byte-exactly and completely, or not at all",
 "Request and response bodies of any length and content, sent with a declared length or in any number of chunks, arrive byte for byte, however the network splits them and however slowly the peer reads or writes. If a peer disappears before the declared length or the last chunk has been transferred, the receiving side never treats the part it got as the body: the handler is not run, and the caller gets an error.",
 ["inputs","fault_sequences"],"all body lengths and contents x all fragmentations x all truncation points, in both directions",
 "Tests send no body larger than a few bytes and never fragment or truncate one.",
 [S+"server.rs",S+"client.rs",S+"body.rs",S+"serializers/rpc_request.rs",S+"serializers/rpc_response.rs"],
 [("declared length from the actual body","RpcRequestSerializer::finish, RpcResponseSerializer::finish"),("complete-body check before the handler / the result","server register closure, CallInner phase C")],
 ["handler arguments","caller's response"]),
p("C05","The caller observes exactly the response the handler returned",
 "For every response the handler can return - any known HTTP status given as a number or as a named alternative, with or without headers and body - the status code on the wire is the one that status denotes and the caller obtains the same alternative or number, headers and body. A response whose status the caller's type does not provide for is an error, never a different alternative.",
 ["inputs","configurations"],"all statuses x all response shapes (numeric, named alternatives with/without fields, nested) x headers x bodies",
 "Tests never check more than one status; the name/code mapping has 57 entries on each side.",
 [S+"serializers/rpc_response.rs",S+"deserializers/rpc_response.rs",S+"client.rs",S+"procedure.rs"],
 [("status name to code","status_from_str"),("code to status name","status_code_to_str")],
 ["caller's response","status line on the wire"]),
p("C06","Each request is dispatched to the one matching procedure, else 404 or 405",
 "A request runs the handler registered for its method at an entry point matching all its path segments, where a constant segment takes precedence over a variable one at the leftmost position where candidates differ; no other handler runs. If no registered entry point matches the path the answer is 404, and if some match but none with that method it is 405; in both cases no handler runs.",
 ["inputs","configurations"],"all sets of registered entry points and methods x all request methods and paths",
 "Tests register at most a couple of non-overlapping routes; overlap, prefixes, encodings and missing methods need generated tables.",
 [S+"router.rs",S+"misc.rs",S+"procedure.rs",S+"server.rs"],
 [("segment trie with constant-first search","TrieNode::find"),("request-target parsing","misc::parse_relative_url")],
 ["which handler ran","status on the wire"]),
p("C07","Malformed arguments are refused with 400 and never reach the handler",
 "If a path, query or header argument of a request is missing, duplicated, not parseable or out of range for its declared type, the server answers 400 with a problem description and the handler is not run. The refusal consumes exactly that request: the next request on the same connection is served normally.",
 ["inputs","configurations"],"all argument types x all invalid encodings x position in path, query or header",
 "Tests decode only well-formed arguments.",
 [S+"server.rs",S+"deserializers/rpc_request.rs",S+"deserializers/url_path.rs",S+"deserializers/url_query.rs",S+"deserializers/http_header.rs"],
 [("decode before invoking the handler; 400 on error","RpcServerBuilder::register closure")],
 ["handler invocations","response on the wire","next response on the connection"]),
p("C08","No client input can stop or disable the server",
 "Whatever bytes clients send on their connections - garbage, malformed or oversized requests, strange request targets, abrupt closes - and however many connections they open, the server neither panics nor terminates, and well-formed requests on other connections, existing or new (once the process can open descriptors again), are still answered correctly.",
 ["inputs","histories","fault_sequences"],"all byte sequences and disconnect points on any number of connections",
 "Tests send only well-formed requests.",
 [S+"server.rs",S+"router.rs",S+"misc.rs",S+"deserializers/rpc_request.rs"],
 [("errors end only the connection's own fiber","HandleHttpRequest::poll"),("request-target parsing and routing return errors","misc::parse_relative_url, Router::route")],
 ["panics","server future","canary calls"]),
p("C09","On a kept-alive connection every request gets exactly one response, in order",
 "For any sequence of requests over one connection, each sent after the response to the previous one - successful, refused, unrouted, with bodies of any size and framing (declared length or chunked), including bodies the procedure does not read - the server sends exactly one response per request, in order, each belonging to its own request. Bytes of one request's body are never interpreted as another request.",
 ["histories","inputs"],"all request sequences over one connection, mixing outcomes, methods and body handling",
 "Tests issue a single request per connection.",
 [S+"server.rs",S+"router.rs"],
 [("request/response phase loop per connection","HandleHttpRequest::poll_impl"),("unread body discarded before the next request","RpcServerBuilder::register closure")],
 ["bytes received by the client","handler invocations"]),
p("C10","Concurrent calls run their handler exactly once and get their own response",
 "However many clients call concurrently, over single-use or pooled connections and with handlers that finish in any order, every successful call runs the handler of its procedure exactly once and returns the response to that very call. A call that fails or is abandoned runs it at most once.",
 ["schedules","histories"],"all interleavings of concurrent calls, handler delays and abandoned calls",
 "Tests issue one call at a time from one client.",
 [S+"server.rs",S+"client.rs",S+"pool.rs"],
 [("one fiber per connection, one call per connection at a time","RpcServer::poll, CallInner, pool::Call")],
 ["handler event log","call results"]),
p("C11","A pooled connection serves one call at a time and is reused when idle",
 "A connection of the client pool never carries a second request before the response to the previous one has been received completely, and a call only ever travels over a connection to the address it was made for. Connections are reused: for each address the pool opens no more connections than calls were simultaneously in flight to it, as long as nothing fails and the pool size is not exceeded.",
 ["schedules","histories"],"all interleavings of pooled calls to any number of addresses",
 "There is no test of the pool.",
 [S+"pool.rs",S+"client.rs"],
 [("idle connection removed on acquire, returned after the full response","acquire_connection/release_connection, pool::Call::poll")],
 ["accept and request log of the servers"]),
p("C12","The pool never keeps more idle connections than its size, evicting the oldest",
 "Once calls have completed, the client pool holds at most the configured number of idle connections over all addresses and closes the excess. The connections it closes are those that have been idle the longest; the most recently used ones stay usable.",
 ["histories","configurations"],"all pool sizes x all sequences of acquisitions and releases over several addresses",
 "There is no test of the pool.",
 [S+"pool.rs"],
 [("eviction by release order","drop_exceeded_lru_connections")],
 ["connection closes seen by the servers","which connection serves the next call"]),
p("C13","A connection whose call failed or was abandoned, or that the peer ends, is never reused",
 "If a pooled call ends in any way other than a complete, accepted response - peer closes early, malformed or truncated or undecodable response, the arguments cannot be sent, the caller drops the call - its connection is closed and never carries another call; the same holds after a successful call whose response announced the end of the connection (Connection: close, HTTP/1.0 without keep-alive, a body delimited by the end of the connection), and once the peer has closed or reset an idle connection or sent something on it that nobody asked for. Later calls to a healthy peer succeed over another connection and never see data from the failed one.",
 ["fault_sequences","histories","schedules"],"all failure points and kinds x subsequent call sequences",
 "There is no test of the pool.",
 [S+"pool.rs",S+"client.rs"],
 [("release only after a fully decoded response","pool::Call::poll")],
 ["connection and request log of the servers","call results"]),
p("C14","Unreachable addresses are suspended for the configured time and then retried",
 "After a connection attempt of the pool fails or exceeds the configured connect timeout, calls to that address fail immediately without any connection attempt until the suspension time has passed, and are attempted again afterwards, also when the wall clock is changed meanwhile. Calls to other addresses are unaffected.",
 ["fault_sequences","histories","configurations"],"all orders of failures, recoveries and calls over several addresses; all timeout and suspension settings",
 "There is no test of the pool; needs controlled failures and time.",
 [S+"pool.rs"],
 [("per-address suspension deadline","handle_command, AddToBlacklist"),("connect timeout","acquire_connection")],
 ["accept log of the servers","call results and their timing"]),
p("C15","Problem responses follow RFC 7807 and survive the round trip",
 "Every problem response - built in by the server (400, 404, 405) or built by a handler from any status or tracked error - is sent with the problem's own status code, the problem media type, and a JSON body whose type, title and status agree with it. A caller whose response type is or contains a problem response recovers the same problem.",
 ["inputs","configurations"],"all statuses x problem kinds x ways of embedding the problem in the response type",
 "Two doc examples print one problem each; nothing is sent or decoded.",
 [S+"rfc7807.rs",S+"server.rs",S+"serializers/rpc_response.rs",S+"deserializers/rpc_response.rs"],
 [("problem serialization with status and media type","ProblemResponse, ProblemHeader"),("body decoding","ProblemResponse::set_body")],
 ["response on the wire","caller's response"]),
p("C16","A misbehaving server yields an error, never a hang, a panic or a wrong success",
 "Whatever a peer does in place of answering properly - refuses, closes or resets at any point, sends garbage, a malformed or truncated response - the call ends with an error promptly after the peer's last action, without panicking and without reporting success. A correct response, however fragmented and with whichever framing of its body HTTP/1.1 allows, always succeeds.",
 ["fault_sequences","inputs"],"all prefixes and corruptions of a response and all disconnect points",
 "Tests only talk to the library's own well-behaved server.",
 [S+"client.rs",S+"error.rs",S+"deserializers/rpc_response.rs"],
 [("every phase error ends the call","CallInner::poll")],
 ["call results"]),
p("C17","Values embedded through the codec modules survive the round trip",
 "A field encoded with the JSON, pretty JSON or MessagePack helper is decoded to an equal value, for every value the format can represent, in every position of a request or response where its encoding is representable. Text that is not a valid encoding is refused.",
 ["inputs"],"all serializable values x helper modules x positions",
 "No test covers the helper modules.",
 [S+"json.rs",S+"json_pretty.rs",S+"msgpack.rs"],
 [("encode to text/bytes then delegate","json::serialize/deserialize etc.")],
 ["handler arguments","caller's response"]),
p("C18","No data race or memory error for any handler type the API accepts",
 "Running the server, clients and pool on any number of threads involves no data race, use-after-free or other undefined behaviour, for every handler type the registration API accepts - including handlers that may be sent to another thread but not shared between threads, which the library never accesses from two threads at once.",
 ["schedules","inputs"],"all thread counts, interleavings and handler types",
 "Tests run one request on one thread and no sanitizer.",
 [S+"router.rs",S+"server.rs",S+"misc.rs",S+"pool.rs"],
 [("handler stored behind a lock and cloned per request","RpcServerBuilder::register"),("lifetime-extended segment lookup","TrieNode::get_child"),("lazily initialised base URL","misc::parse_relative_url")],
 ["sanitizer reports","handler access monitor"]),
p("C19","HEAD procedures transfer no body and leave the connection in step",
 "A response to a HEAD request carries the status and headers the handler returned and no body bytes, whatever body the handler supplies, and the next request on the connection is answered correctly. A caller of a HEAD procedure gets status and headers with an empty body.",
 ["inputs","histories"],"all HEAD responses (statuses, headers, body sizes, refused and unrouted) x following requests",
 "No test uses HEAD.",
 [S+"server.rs",S+"client.rs"],
 [("body skipped for HEAD","HandleHttpRequest::poll_impl phase C, CallInner phase C")],
 ["bytes received by the client","caller's response"]),
p("C20","A stalled client or slow handler delays nobody else",
 "While any number of other connections are stalled - half-sent requests, unread responses, handlers that have not finished - requests on other connections are accepted, handled and answered. The same holds on the client side: a pooled call that is waiting does not keep other pooled calls from completing.",
 ["schedules","histories"],"all sets of stalled connections x all later requests",
 "Tests never have two connections at once.",
 [S+"server.rs",S+"pool.rs",S+"client.rs"],
 [("one fiber per connection; accept loop independent of them","RpcServer::poll"),("pool commands never wait for I/O","RpcClientPool::handle_command")],
 ["call results while others are stalled"]),
p("C21","A conflicting registration is refused and leaves existing routes intact",
 "Registering a procedure with the same method and the same entry-point shape as an earlier one fails with an error, whatever the order and number of registrations, and the server still dispatches every earlier registration to its original handler. Registrations that differ in method, length or any constant segment never conflict.",
 ["configurations","histories"],"all sequences of registrations",
 "No test registers two procedures that conflict.",
 [S+"router.rs",S+"server.rs"],
 [("leaf occupancy check on insertion","Trie::insert")],
 ["registration results","which handler ran"]),
p("C22","Messages on the wire are well-formed HTTP/1.1 with correct framing",
 "Every request a client emits and every response the server emits is a syntactically valid HTTP/1.1 message: proper start line with the procedure's method and an origin-form target, valid header lines, exactly one content length, equal to the number of body bytes that follow (none after a response to HEAD), provided the application itself does not set message-framing headers. Nothing else is written to the connection.",
 ["inputs","configurations"],"all procedures, arguments, responses and error responses",
 "Tests only check the library against itself.",
 [S+"serializers/rpc_request.rs",S+"serializers/rpc_response.rs",S+"server.rs",S+"client.rs"],
 [("request and response construction","RpcRequestSerializer, RpcResponseSerializer")],
 ["bytes on the wire"]),
p("C23","Connections and memory are released when they are no longer needed",
 "When a client closes its connection, whatever state that connection is in (idle, half-sent request, request being handled, refused or malformed request), the server closes its side; it also closes a connection after the response to a request which announced to be the last one (Connection: close, HTTP/1.0 without keep-alive); a single-use client connection is closed once its call has ended or been abandoned. Serving and making ever more calls among the same addresses - successful, failed, refused, abandoned, pooled or not - does not keep ever more memory or descriptors.",
 ["histories","fault_sequences"],"all states in which a connection can be given up x all histories of calls",
 "Tests make one call per process; leaks and half-closed connections never show.",
 [S+"server.rs",S+"client.rs",S+"pool.rs"],
 [("connection fiber ends with its connection","HandleHttpRequest::poll_impl"),("connection dropped with the call","CallInner::poll"),("pool keeps at most its size","ConnectionPool")],
 ["end of stream seen by the peer","live heap blocks and descriptors of the process"]),
p("C24","Dropping a connection pool strands no call and no connection",
 "When a pool is dropped, calls already in flight through it still complete with their own responses; calls issued through a remaining handle while or after it is dropped end promptly with an error (or, while racing with the drop, possibly their own response), later ones without being sent; and all connections of the pool are closed when no call uses them any more. Before that, the pool never ends by itself.",
 ["schedules","histories"],"all moments of dropping x sets of idle connections, calls in flight and racing calls",
 "No test uses the pool.",
 [S+"pool.rs"],
 [("reply channel closed with the pool","RpcClientPoolHandle::call, Call::poll"),("connection returned to a pool that is gone","PooledConnection::drop")],
 ["call results","requests and connection ends at the server"]),
]
with open("properties.jsonl","w") as f:
    for x in L: f.write(json.dumps(x)+"\n")
