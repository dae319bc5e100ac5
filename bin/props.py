#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import TABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = state
    return d


REQ, RQR, RESP, RSPR, HDR = "src/http/request.rs", "src/http/requester.rs", "src/http/response.rs", "src/http/responser.rs", "src/http/header/header.rs"
SRV, CTX, NODE, ROUT, EXT, LIM = "src/server/server.rs", "src/server/context.rs", "src/server/node.rs", "src/server/router.rs", "src/server/extend.rs", "src/server/limit.rs"
POOL, VAL, URL, LOC, TIME = "src/utils/concurrent/thread_pool.rs", "src/http/values.rs", "src/http/url/url.rs", "src/http/url/location.rs", "src/utils/time.rs"

PROPS = [
 P("C01", "A request reaches exactly the handler of the matching route",
   "A request is handled by the handler registered for its method on the route pattern that matches its path segment by segment, where a parameter segment matches any one segment and its name gives the handler exactly that segment's text. If several patterns match, the alternative introduced first wins at the first segment where they differ; if no pattern matches the answer is 404 and no handler runs.",
   ["inputs", "configurations"], "all sets of route patterns and all request paths",
   "The tests register a handful of fixed routes and print; no test sends arbitrary paths against overlapping literal and parameter routes.",
   [NODE, ROUT, SRV], [("route tree insertion and lookup", NODE), ("router groups and path joining", ROUT), ("dispatch", SRV)], ["response of the server", "parameters and pattern seen by the handler"]),
 P("C02", "A handler runs only for a well-formed request line with a known method",
   "A request is dispatched only if its first line is method, target and version separated by single spaces, with a method the library knows and the version written exactly HTTP/1.0 or HTTP/1.1; the handler registered for exactly that method runs, and a known method without a handler for the path is answered 404. Every other request line is refused with an error status (405 for an unknown method, 505 for an unknown version) and no handler runs.",
   ["inputs"], "all byte strings as request line",
   "Tests only ever parse well-formed request lines.",
   [REQ, RQR, SRV, "src/http/method.rs", "src/http/version.rs"], [("request line parsing", REQ), ("method table", "src/http/method.rs"), ("version table", "src/http/version.rs"), ("method lookup", SRV)], ["response status", "handler executed"]),
 P("C03", "A handler sees exactly the header fields that were sent",
   "For every well-formed header block a lookup of a field name, in any letter case, yields the value that was sent for it with surrounding blanks removed, absent names yield nothing, and of a repeated field the last value counts. This does not depend on the size of the head, the number of fields, or how the bytes are split over network segments.",
   ["inputs", "schedules"], "all header blocks and all segmentations of their arrival",
   "No test delivers a request over more than one segment or with a head larger than one read buffer.",
   [RQR, HDR, VAL], [("head reading and field splitting", RQR), ("field storage", HDR), ("multi-value map", VAL)], ["header values seen by the handler"]),
 P("C04", "The request body is exactly the declared number of bytes after the head",
   "The body a handler works on is exactly the Content-Length bytes that follow the header block, however the stream is segmented; bytes after them are not part of the body. If the stream ends before the declared length the request is refused and its handler does not run.",
   ["inputs", "schedules", "fault_sequences"], "all bodies, declared lengths, segmentations and stream ends",
   "Tests never split a body over segments nor truncate it.",
   [RQR, REQ], [("body reading", RQR)], ["form fields seen by the handler", "response status"]),
 P("C05", "No connection can take the server down",
   "Whatever bytes a client sends, and whenever it closes, resets or stops reading, the server neither crashes nor loops forever on it: the connection is answered with a client error, or handled, or closed, and later connections are served as before. A handler that panics costs at most its own connection.",
   ["inputs", "fault_sequences"], "all byte streams, all points of disconnection and all points at which sending fails",
   "Tests never feed malformed or truncated input to the server.",
   [SRV, RQR, REQ, "src/http/body.rs", POOL], [("accept loop and connection task", SRV), ("request parsing", RQR), ("worker isolation", POOL)], ["response to a well-formed follow-up connection"]),
 P("C06", "Query parameters are exactly those in the request target",
   "For every request target the handler sees as path the part before the first question mark and as parameters exactly the name and value pairs of the query: pieces separated by ampersands, each split at its first equals sign, the last of equal names winning, a fragment never included. A name that does not occur yields nothing.",
   ["inputs"], "all request targets",
   "Tests parse one or two fixed targets.",
   [LOC, REQ, CTX], [("target splitting", LOC)], ["path and query parameters seen by the handler"]),
 P("C07", "Urlencoded form fields are exactly those in the body",
   "For a request whose content type is application/x-www-form-urlencoded, in any letter case and with any parameters, a field lookup yields the text after the first equals sign of the last body piece with that name, and nothing if the name does not occur. Requests with another content type do not yield urlencoded fields.",
   ["inputs"], "all urlencoded bodies and content types",
   "No test reads a form through the server.",
   ["src/http/body.rs", REQ, CTX], [("urlencoded parsing", "src/http/body.rs"), ("content type of the request", REQ)], ["form fields seen by the handler"]),
 P("C08", "Multipart parts are delivered with name, file name and exact content",
   "For every well-formed multipart body, fields and files are delivered under their names with file name and exactly the bytes sent, including contents that resemble delimiters or contain line ends. A multipart body with a malformed part header or without its closing delimiter is refused and not partially delivered.",
   ["inputs", "schedules"], "all multipart bodies, boundaries and segmentations",
   "The only multipart test parses one fixed body.",
   ["src/http/body.rs", RQR, VAL, CTX], [("multipart parsing", "src/http/body.rs"), ("multipart store", VAL)], ["multipart fields seen by the handler"]),
 P("C09", "A response on the wire is exactly what the handler set",
   "Every response is a status line with the version, the code and the standard reason phrase, followed by exactly the header fields the handler left set, a Content-Length equal to the body length, an empty line and exactly the body the handler gave last. A handler's answer is sent at most once, and partial acceptance of data by the network neither loses nor repeats bytes.",
   ["inputs", "fault_sequences"], "all statuses, header operations and bodies, and all patterns of short sends",
   "Tests print responses and never compare wire bytes.",
   [RESP, RSPR, CTX, "src/http/status.rs", HDR], [("serialisation", RESP), ("writing and compression choice", RSPR), ("status table", "src/http/status.rs")], ["bytes sent on the connection"]),
 P("C10", "Requests on one connection are answered in order, one answer each",
   "On a connection whose requests ask for it to be kept alive (Connection: keep-alive), requests sent one after another, each after the answer to the one before, each get exactly one answer, in order, computed from that request alone. A request that does not ask for keep-alive, or is refused, is answered and the connection closed, so no later bytes are treated as a request.",
   ["histories", "schedules"], "all sequences of requests on a connection and all segmentations",
   "Tests use one request per connection and never check a second answer.",
   [SRV, RQR, RSPR], [("connection loop", SRV), ("keep-alive decision", SRV)], ["bytes sent on the connection", "connection closed"]),
 P("C15", "Connections served at the same time do not affect each other",
   "While several connections are served at once, by as many workers, each handler sees the path, parameters, header, cookies, credentials, form and peer address of its own request only, and each connection gets exactly the status, header, cookies and body its own handler set, however the pieces of the requests interleave and whatever becomes of the other connections (refusal, panic, end, reset, failing writes).",
   ["schedules", "inputs", "fault_sequences"], "all interleavings of arrivals and of the handlers' steps, all contents",
   "Tests never have two connections open at once.",
   [SRV, "src/server/node.rs", "src/http/requester.rs", "src/server/context.rs", "src/utils/concurrent/thread_pool.rs"], [("connection task", SRV), ("route table shared by the workers", "src/server/node.rs"), ("request state of a connection", "src/http/requester.rs")], ["bytes sent on each connection"]),
 P("C11", "Cookies survive between wire and handler unchanged",
   "Every well-formed Cookie field gives the handler exactly the names and values sent, a malformed one is refused, and every cookie a handler sets appears as one Set-Cookie field from which its name, value and attributes can be read back unchanged.",
   ["inputs"], "all cookie names, values and attribute combinations",
   "Tests build two fixed cookies and print them.",
   ["src/http/header/cookie.rs", REQ, RESP, CTX], [("cookie parsing and formatting", "src/http/header/cookie.rs"), ("request cookies", REQ), ("response cookies", RESP)], ["cookies seen by the handler", "Set-Cookie fields"]),
 P("C12", "Basic credentials reach the handler exactly as sent",
   "A well-formed Basic Authorization field gives the handler the user name before the first colon and the password after it; a field that is not valid Basic credentials never yields credentials; a request without one has none.",
   ["inputs"], "all credentials and all Authorization field values",
   "No test sends an Authorization field.",
   ["src/http/url/authority/userinfo.rs", "src/utils/cryptos/base64.rs", REQ], [("credential parsing", "src/http/url/authority/userinfo.rs"), ("base64", "src/utils/cryptos/base64.rs")], ["credentials seen by the handler", "response status"]),
 P("C13", "The client sends the request its URL denotes, to the host it denotes",
   "For every valid http URL the client connects to the URL's host and port (80 by default) and sends a GET whose target is the URL's path and query and whose Host field is the URL's authority; user information becomes Basic credentials. A URL that is not valid is refused without connecting.",
   ["inputs", "fault_sequences"], "all URLs and all patterns of short sends",
   "Tests need a live server or only print parsed URLs.",
   [URL, LOC, "src/http/url/authority/addr.rs", "src/http/url/authority/userinfo.rs", REQ, "src/client/client.rs"], [("URL parsing", URL), ("request writing", RQR)], ["address connected to", "bytes sent"]),
 P("C14", "The client returns exactly the response the server sent",
   "For every well-formed response with a status the library knows the client's result has exactly the status, header fields and body that were sent, however the bytes are segmented and whether the body is delimited by its length or by the end of the stream; every Set-Cookie is kept, of another repeated field the last value counts. A response whose status line or length is malformed or that is cut short is an error, never a shortened or altered result, and whatever a server sends and then closes neither crashes nor hangs the client.",
   ["inputs", "schedules", "fault_sequences"], "all responses, segmentations and points of disconnection",
   "Tests need a live server.",
   [RESP, RSPR, "src/http/status.rs", "src/client/client.rs"], [("response parsing", RSPR)], ["result of the client call"]),
 P("C16", "Filters guard every request of their scope, in order",
   "Before a handler runs, the filters of its route and then those of its group run in the order they were registered; as soon as one of them answers, neither later filters nor the handler run and that answer is the response. Filters of one route or group never run for requests of another.",
   ["inputs", "configurations"], "all filter configurations and all answers of filters",
   "One test registers one filter and prints.",
   [EXT, ROUT, NODE, SRV], [("filter lists", EXT), ("dispatch through filters", SRV)], ["order of executed filters and handlers", "response"]),
 P("C17", "Rate limits are never exceeded and never lose a request",
   "With a limit of n (at least 1) requests per period and a minimum gap on a route or a group, no more than n requests for it are let through to their filters and handler in any period and consecutive ones are at least the gap apart, whatever the arrival times. Every request is eventually let through.",
   ["histories", "schedules"], "all arrival time sequences and limit settings",
   "The test uses real sleeps and one setting.",
   [LIM, EXT, SRV], [("limit bookkeeping", LIM)], ["times at which handlers run"]),
 P("C18", "Every task accepted by the thread pool runs exactly once",
   "Each task the pool accepted is run exactly once, by some worker, whatever the interleaving of submitters and workers and whether or not other tasks panic or the pool's owner goes away; a task is refused only when the queue is full. No more than the configured number of tasks run at the same time.",
   ["schedules", "fault_sequences"], "all interleavings of submitting and working threads, all panicking tasks",
   "Tests run one schedule.",
   [POOL, "src/utils/concurrent/thread.rs", "src/utils/channel.rs"], [("queueing and worker start", POOL), ("worker loop", "src/utils/concurrent/thread.rs")], ["task executions"]),
 P("C19", "Times convert, add and format without loss",
   "For every representable time, formatting and parsing with a full format, conversion to and from Unix numbers, and adding then subtracting a duration give back the same time; conversions between units agree with each other. Durations of years to milliseconds move the clock by exactly that amount.",
   ["inputs"], "all times and durations",
   "Tests print a few values.",
   [TIME], [("time arithmetic", TIME)], ["results of the time functions"]),
 P("C20", "Hex and base64 coding round-trips and rejects what is not code",
   "Decoding what was encoded gives back exactly the original bytes, in every representation offered; encoded text uses only the code's alphabet. Text that contains a character outside that alphabet, or has an impossible length, is reported as an error, never decoded to something and never a crash; misplaced padding and the blanks and end marks the base64 codec skips around a text are left open.",
   ["inputs"], "all byte strings and all texts",
   "Tests encode one fixed string.",
   ["src/utils/cryptos/hex.rs", "src/utils/cryptos/base64.rs"], [("hex", "src/utils/cryptos/hex.rs"), ("base64", "src/utils/cryptos/base64.rs")], ["results of the coding functions"]),
 P("C21", "A compressed response is one the client asked for and decodes to the body",
   "A response body is compressed only with an encoding named in the request's Accept-Encoding, which the response then declares, and decoding it gives exactly the body the handler set; without a match the body is sent as is and no encoding is declared. Compression and decompression are inverse for every body and every encoding; packed data that was cut short, or whose checksum does not fit, is refused.",
   ["inputs", "configurations"], "all Accept-Encoding values and all bodies",
   "Tests compress one fixed string.",
   ["src/utils/compress.rs", "src/http/header/encode_type.rs", RSPR], [("encoding choice", "src/http/header/encode_type.rs"), ("compression", "src/utils/compress.rs")], ["Content-Encoding and body of the response"]),
 P("C22", "Value maps behave as ordered multimaps",
   "A value map returns for each name exactly the values stored under it in order of addition; setting replaces, adding appends, removing removes, and operations on one name never affect another. Counting and membership agree with lookup.",
   ["histories", "inputs"], "all sequences of operations",
   "Tests call each operation once.",
   [VAL], [("multi-value map", VAL)], ["results of lookups"]),
 P("C23", "Media types map to their names and back",
   "Every media type is written under its standard name and a standard name, in any letter case and with parameters, is read as that media type; any other name is treated as arbitrary binary data and never confused with a known one.",
   ["inputs"], "all media type texts",
   "Tests cover three types.",
   ["src/http/header/content_type.rs"], [("media type table", "src/http/header/content_type.rs")], ["Content-Type of responses", "parsed media type"]),
 P("C24", "Statuses, methods and versions map one to one to their texts",
   "Every status code of the standard registry, every method and version the library knows is written as its standard text and read back as itself, any other number or nonempty text is refused, and the predicates are right: the safe methods are GET, HEAD, OPTIONS and TRACE, the cacheable ones GET, HEAD and POST, PUT and DELETE are idempotent, POST, CONNECT and PATCH are not. Each ready-made response carries the status it is named after. A status, method, version, media type or content coding compares equal exactly to itself and to its own text.",
   ["inputs"], "all numbers and texts",
   "Tests try a few constants.",
   ["src/http/status.rs", "src/http/method.rs", "src/http/version.rs", "src/http/header/content_type.rs", "src/http/header/encode_type.rs"], [("status table", "src/http/status.rs"), ("method table", "src/http/method.rs"), ("version table", "src/http/version.rs")], ["results of the conversion functions"]),
 P("C25", "An idle kept-alive connection is closed when its timeout has passed",
   "A kept-alive connection is closed once the configured idle time has passed since its last completed request, and not before; a request that has arrived within that time is answered, however long its handler takes.",
   ["schedules", "histories"], "all arrival times of requests on a connection",
   "Tests never let a connection idle.",
   [SRV], [("keep-alive check", SRV)], ["time at which the connection is closed"]),
 P("C26", "Peer address and websocket wish are reported truthfully",
   "The client address reported to a handler is the peer's address and port for every peer; a request is reported as a websocket upgrade exactly if its Connection and Upgrade fields ask for one, in any letter case.",
   ["inputs"], "all peer addresses and header values",
   "Tests use loopback only.",
   [CTX, REQ, "src/http/url/authority/addr.rs"], [("client address", REQ), ("websocket detection", REQ)], ["values seen by the handler"]),
 P("C27", "Log settings are in force exactly as they were made",
   "Once log settings are made, a message of a package reaches exactly the log files they name for it: its most specific module's file if it is at or above that module's level, and the main log as well if the module shares with it; other messages go to the main log by its level. Each log lies in the directory set, is continued if it exists, and has the size and number of old files set, a module taking from the main log what it leaves empty. Later settings replace earlier ones; refused ones change nothing.",
   ["inputs", "histories"], "all names, levels, sizes, counts and sequences of settings",
   "The only test prints a few messages and looks at nothing.",
   ["src/utils/log.rs", SRV], [("log configuration", "src/utils/log.rs"), ("server log settings", SRV)], ["configuration handed to the logging back end", "files a message would reach"]),
]

NA_LATER = "check under construction"
NA = {}

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

m = {"version": 1, "setup_cmd": "bash bin/build.sh",
     "hooks": {"guard": "cfg starry_verif", "enable": "RUSTFLAGS=--cfg starry_verif (set by bin/build.sh)", "source_commits": ["af09da4"]},
     "checks": [], "not_applicable": [],
     "notes": "All checks: bin/check PROPERTY TIER; the table of entries and bounds is bin/table.py. One guarded hook in /repo (a read-only view of a received response); otherwise the harness uses the public interface and models libc's socket calls."}
for p in PROPS:
    i = p["id"]
    if i in TABLE:
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
            "technique": "bounded symbolic execution of the compiled crate's LLVM IR (own engine, SMT: z3 bit-vectors), counterexamples replayed natively",
            "level": "model_checking", "level_note": TABLE[i]["bounds"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, NA_LATER)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
