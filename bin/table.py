"""Which harness entries decide which property, with their bounds."""

COMMON = [
    "the network is a scripted model behind the libc socket calls (arrival segments, end of stream, silence, reset, short and failing sends); kernel TCP itself is outside",
    "memory exhaustion, signals and file I/O of the logger are outside; the openssl and log4rs crates are replaced by small shims (TLS is not exercised; of logging, the configuration handed to log4rs is, its file output is not)",
    "time is a virtual clock: it advances by 1 us per reading and 1 ms per yield or sleep, plus what the entry scripts",
    "the compiled program analysed is the optimised LLVM IR rustc produces for x86_64 from /repo's current tree; allocation sizes and pointers are concrete on each path, HashMap iteration order is that of one fixed hasher key in the symbolic run (random in the native replay)",
    "bounded claim: nothing is said about inputs longer than the stated sizes",
]

R = lambda *l: {"reach": list(l)}

TABLE = {
    "C01": {
        "entries": {"h_route_pair": R("404", "200"), "h_route_triple": R("404", "200"), "h_route_path": R("404", "200"), "h_route_again": R("404", "200"), "h_route_method": R("404", "200"), "h_scale_routes": {}},
        "bounds": "1-3 routes out of literal/parameter patterns of up to 3 segments; requested paths of up to 3 segments of symbolic bytes; two (thorough three) requests by GET or POST, symbolic single-character segments, to one server with two groups and six routes; two overlapping routes of any two of the 12 methods asked by any method; 9-150 literal routes, two overlapping 12-segment ones with six parameters, routes of 12-70 segments",
    },
    "C02": {
        "entries": {"h_line_any": {}, "h_line_method": R("known", "unknown"), "h_line_version": R("known", "unknown"), "h_line_seps": {}},
        "bounds": "request lines of up to 6 (thorough 7) arbitrary bytes, method tokens of up to 8 bytes, version tokens of up to 9 bytes, separators of the full line symbolic",
    },
    "C03": {
        "entries": {"h_head_field": {}, "h_head_layout": {}, "h_head_dup": R("repeated", "distinct"), "h_head_case": {}, "h_head_long": {}, "h_scale_fields": {}},
        "bounds": "field names of up to 3 and values of up to 4 symbolic bytes, up to 4 fields, the head cut into up to 3 segments at every position, heads up to several read buffers long; 12-300 fields, and names or values of 70-5000 bytes, with one symbolic byte at the ends and inside",
    },
    "C04": {
        "entries": {"h_body_cut": {}, "h_body_extra": {}, "h_body_short": {}, "h_body_declared": R("less", "whole"), "h_body_long": {}, "h_body_nobody": {}},
        "bounds": "urlencoded bodies of up to a few symbolic bytes and bodies of up to 66000 bytes over several read buffers, cut into up to 3 segments at every position; any declared length of up to 6 (thorough 8) digits with 0-5 bytes sent",
    },
    "C05": {
        "entries": {"h_rob_first": {}, "h_rob_line": {}, "h_rob_target": {}, "h_rob_head": {}, "h_rob_field": {}, "h_rob_form": {}, "h_rob_multi": {}, "h_rob_length": {}, "h_rob_panic": {"panics": True}, "h_rob_send": {}, "h_rob_cut": {}, "h_rob_accept": {}, "h_rob_fault": {}},
        "bounds": "streams of up to 5-6 arbitrary bytes, arbitrary bytes at every place of an otherwise valid request, end of stream/reset/silence after every prefix, send failures after every byte; accepting a connection failing 1-3 times with 8 errors; the address of either end unknown and the n-th duplication of a handle failing",
    },
    "C06": {
        "entries": {"h_query": {}, "h_query_pairs": {}, "h_query_absent": {}, "h_scale_query": {}},
        "bounds": "query strings of up to 6 symbolic bytes; up to 3 pairs of symbolic names and values; 12-300 pairs, and names or values of 70-5000 bytes, with one symbolic byte",
    },
    "C07": {
        "entries": {"h_form": {}, "h_form_pairs": {}, "h_form_type": {}, "h_scale_form": {}},
        "bounds": "urlencoded bodies of up to 6 symbolic bytes; up to 3 pairs of symbolic names and values; 12-300 pairs, and names or values of 70-5000 bytes, with one symbolic byte",
    },
    "C08": {
        "entries": {"h_multi_one": {}, "h_multi_many": {}, "h_multi_names": {}, "h_multi_bad": {}, "h_multi_bound": {}, "h_multi_cut": {}, "h_multi_partial": {}, "h_scale_parts": {}},
        "bounds": "1-3 parts, contents of up to 4 symbolic bytes, symbolic names, the body cut at every position; any boundary of up to 3 (thorough 4) permitted bytes; 9-120 parts mixed of fields and files, and contents of 300-70000 bytes holding line ends and a shortened delimiter, with one symbolic byte; 1-2 well-formed parts before each of 7 malformed endings, looked into two or three times",
    },
    "C09": {
        "entries": {"h_resp_status": R("refused", "end"), "h_resp_body": {}, "h_resp_headers": {}, "h_resp_twice": {}, "h_resp_errors": {}, "h_resp_long": {}},
        "bounds": "every 16-bit status code; bodies of up to 2 (thorough 4) symbolic bytes and of up to 70000 bytes with one symbolic byte; up to 3 header operations on 3-4 names with symbolic 2-byte values; sends accepted in pieces of 1-8 bytes and 1-4 KiB; up to 4 (thorough 5) operations before and after answering",
    },
    "C10": {
        "entries": {"h_conn_two": {}, "h_conn_keep": R("kept", "closed", "end"), "h_conn_seq": R("closed", "end"), "h_conn_after": {}, "h_scale_conn": {}},
        "bounds": "two requests with each of 9 and 7 (thorough 32 and 32) subsets of parameter, query, header, cookie, form and credentials, contents symbolic, form body in the same or its own segment, read or not read by the first handler; Connection values of up to 8 (13) printable bytes and keep-alive with one character replaced or inserted; sequences of 3 (4) requests of 6 kinds, whole or cut at 4 places; 4 (8) arbitrary bytes or a whole request after a request that closes; 20, 110 and 270 (thorough 1100) requests on one connection, the handles held on it staying bounded",
        "assumptions": ["keep-alive in other than small letters is left open", "a refused request (404, 400) is answered and the connection closed", "the next request arrives after the answer (no pipelining)", "the clock stands still"],
    },
    "C25": {
        "entries": {"h_idle": dict(R("answered", "jump", "late", "end"), sched=True), "h_idle_busy": dict(R("answered", "jump", "late", "end"), sched=True), "h_idle_long": dict(R("answered", "jump", "late", "end"), sched=True)},
        "bounds": "idle times of 0, 1, 100 and 255 ms (busy handler: 100 and 0; thorough all); sequences of up to 3 (thorough 4; busy handler 2 and 3) events, each a symbolic 0-255 ms after the one before: time alone, or a request; the handler takes a symbolic 0-255 ms; idle times of 40 s, 100 s and an hour (thorough also 32 767 and 65 537 ms and 5 000 000 s); time passing right after an answer; the timer thread overtaken before or after it reads the clock",
        "assumptions": ["a scripted wall clock, moved by the harness alone; between events all threads run until they wait", "a request that arrives only in part is left out"],
    },
    "C15": {
        "entries": {"h_iso_meet": {}, "h_iso_parts": {}, "h_iso_other": {"panics": True}},
        "bounds": "two connections at work in their handlers at the same time, requests of 4 kinds, every schedule with at most one deviation from round robin (at a voluntary switch or before an atomic read-modify-write); two (thorough three) requests each cut in up to 3 pieces (5 ways of cutting, quick 3) arriving in every order, with a further request on one connection; another connection that panics, is refused, sends garbage, stops half way, ends, is reset or cannot be written to, at every point of this one; marks of each request symbolic",
        "assumptions": ["as many workers as connections", "sequentially consistent memory"],
    },
    "C11": {
        "entries": {"h_cookie_req": {}, "h_cookie_raw": R("pairs", "refused"), "h_set_cookie": {}, "h_set_cookies": {}, "h_set_cookie_read": {}, "h_set_cookie_raw": {}, "h_scale_cookies": {}},
        "bounds": "names of 1 and values of up to 2 symbolic bytes (request cookies: see entries), all 128 combinations of attributes with symbolic text, paths of up to 3 and domains of 1-3 symbolic characters, every 8-bit Max-Age and 256 around each of 7 far ones up to the limits of 64 bits, 7 dates; up to 3 cookies; arbitrary Set-Cookie text of up to 3 bytes after 5 prefixes; 9-190 cookies, and values of 70-5000 bytes with one symbolic byte",
    },
    "C12": {
        "entries": {"h_auth": {}, "h_auth_raw": R("good", "bad"), "h_auth_other": {}, "h_scale_auth": {}},
        "bounds": "user names and passwords of up to 4 symbolic bytes; arbitrary credentials text of up to 8 bytes; user names and passwords of 20-700 bytes with one symbolic byte",
    },
    "C13": {
        "entries": {"h_url_tail": R("end", "refused"), "h_url_target": {}, "h_url_host": {}, "h_url_name": R("end", "refused"), "h_url_port": R("end", "refused"), "h_url_user": R("end", "refused"), "h_url_scheme": R("end", "refused"), "h_url_send": R("pieces", "broken", "nobody"), "h_scale_url": {}},
        "bounds": "after http://1.2.3.4 any text of up to 4 (thorough 5) ASCII bytes; paths and queries of up to 2 (thorough 3) and fragments of up to 1 printable bytes; any one (thorough two adjoining) octets of numeric hosts; ports of up to 3 digits and every port after the prefixes 65, 10, 000, 99, 655, 6553; user names and passwords of up to 2 (thorough 3) bytes; scheme texts of up to 5 bytes; sends accepted in pieces of 1-5 bytes, failing after up to 40 bytes; paths and queries of 70-5000 bytes with one symbolic byte, up to 500 parameters, user information of up to 250 bytes",
        "assumptions": ["names are resolved by a scripted resolver (getaddrinfo) that knows three names", "URLs with an empty port, leading zeros in a numeric host, letters outside ASCII, or a scheme in capital letters: nothing is said about them"],
    },
    "C14": {
        "entries": {"h_cli_status": R("end", "unknown"), "h_cli_line": R("end", "bad"), "h_cli_field": {}, "h_cli_fields": {}, "h_cli_cookies": {}, "h_cli_body": R("end", "short"), "h_cli_segs": {}, "h_cli_cut": {}, "h_cli_any": {}, "h_cli_window": R("fine", "error"), "h_cli_length": R("end", "error"), "h_cli_long": {}},
        "bounds": "every three-digit status; phrases of up to 2 (thorough 4) bytes; status lines with up to 2 (thorough 3) bytes inserted or replaced anywhere; field names of up to 2 (3) and values of up to 3 (4) bytes with 4 kinds of blanks; up to 3 Set-Cookie fields; bodies of up to 4 (5) symbolic bytes, and of up to 70000 bytes with one symbolic byte; one or two cuts at every position; end of stream and reset after every prefix; length texts of up to 3 (4) printable bytes; streams of up to 6 (7) arbitrary bytes",
        "assumptions": ["chunked bodies, 1xx responses and content codings are not decoded by the client and are left out", "length texts with a sign that the library reads as a number or as 'unknown' (-1) are left out", "status and fields of the result are read through the guarded hook Response::verif_view"],
    },
    "C16": {
        "entries": {"h_filter_scope": {}, "h_filter_method": {}, "h_filter_shape": {}, "h_scale_filters": {}},
        "bounds": "two groups and up to three routes, each with one of 6 lists of up to 3 filters (with repetitions) or none, registered in either order; 12 methods; every pair of 5 overlapping patterns with symbolic one-character path segments; each filter passes, prepares a header field or answers, as symbolic bytes of the request say; two requests on one server; 24 filters divided between route and scope, each able to answer",
    },
    "C17": {
        "entries": {"h_limit_one": dict(R("arrived", "end"), sched=True, val=6), "h_limit_group": dict(R("arrived", "end"), sched=True, val=6), "h_limit_burst": dict(R("arrived", "end"), sched=True, val=6), "h_limit_quiet": dict(R("arrived", "end"), sched=True, val=6), "h_limit_long": dict(R("arrived", "end"), sched=True, val=6)},
        "bounds": "4 (thorough 5) settings of period, count and gap; 3 (thorough 4) requests, each a symbolic 0-127 ms after the one before, to one route or two routes of one group; bursts of 4 (6) requests each 0-1 ms apart; a stretch without requests before one; periods of up to 100 000 s, gaps of up to 70 s, gaps longer than the period, and 6 requests a period, with symbolic arrivals; filters that follow the limit start as spaced as handlers do; the limiting thread overtaken before or after it reads the clock",
        "assumptions": ["a scripted wall clock, moved by the harness alone; between its steps all threads run until they wait or have looked at the clock several times", "settings with a count of 0 are left out (Limit::new panics)", "'let through' is measured where the handler starts"],
    },
    "C18": {
        "entries": {"h_pool_run": {"sched": True}, "h_pool_full": dict(R("refused", "end"), sched=True), "h_pool_panic": {"sched": True, "panics": True}, "h_pool_two": {"sched": True}, "h_pool_gone": {"sched": True}, "h_pool_start": {"sched": True}, "h_scale_tasks": {"panics": True}, "h_scale_queue": {}},
        "bounds": "pools of 1-2 workers; up to 3 (thorough 4) tasks, 3 (4) into queues of 1-2 places, up to 3 (4) of which up to two panic, 4 (5) from two threads, up to 2 (3) with the pool dropped while they wait; every schedule with at most 2 (thorough 3 for up to two tasks and while the pool starts) deviations from round robin, each at a voluntary switch or before an atomic read-modify-write; 70 and 150 (thorough 600) tasks in bursts of 1-40 on 1-5 workers, every third panicking or none; queues with room for 10-130 tasks filled to the brim, pools made in each of the four ways (default thread order)",
        "assumptions": ["sequentially consistent memory", "threads are otherwise switched round robin where they block or yield", "a queue of 0 places is left out (panics)"],
    },
    "C19": {
        "entries": {"h_time_units": {}, "h_time_far": {}, "h_time_add": {}, "h_time_day": {}, "h_time_date": {}, "h_time_text": R("end", "ok", "err")},
        "bounds": "numbers of 16 bits of either sign , also around +-1700000000 (thorough: and +-4100000000) in every unit, and 1024 values around the last nanosecond of 64 bits (year 2262) and around the end of year 9999 in seconds to microseconds; times in whole seconds of that size moved by as many seconds to weeks, six fixed times moved by as many nano-, micro- and milliseconds; formatting and parsing: every second of 3 (thorough 4) days in 4 formats, every day of 4 windows of 256 days in 2 formats (thorough: 9 windows, 3 formats, years 1 to 9999); texts with one field of two arbitrary digits around 7 years",
        "assumptions": ["a sixtieth second, texts with fractions of a second, and fractional times before 1970 are left out"],
    },
    "C20": {
        "entries": {"h_hex_roundtrip": {}, "h_hex_any": R("good", "bad"), "h_b64_roundtrip": {}, "h_b64_any": R("good", "bad"), "h_b64_long": {}},
        "bounds": "round trips of up to 4 (hex; thorough 6) and 6 (base64; thorough 9) symbolic bytes and of 47-200 bytes with one symbolic byte; decoding any ASCII text of up to 5 (thorough 7 and 8) bytes",
        "assumptions": ["base64 is openssl's EVP_EncodeBlock/EVP_DecodeBlock behind a shim with the same behaviour (compared with the library once, see DESIGN.md)"],
    },
    "C22": {
        "entries": {"h_val_ops": {}, "h_val_keys": {}, "h_val_files": {}, "h_scale_vals": {}},
        "bounds": "sequences of up to 5 (thorough 6) operations on two names differing in letter case with symbolic values, of 3 (thorough 4) additions under symbolic names of up to 2 bytes; file maps: up to 3 (thorough 4) operations; 20-300 names and values",
    },
    "C23": {
        "entries": {"h_type_known": {}, "h_type_any": R("binary", "known"), "h_type_near": R("binary", "known"), "h_type_multi": R("end", "custom")},
        "bounds": "all 14 names in any letter case (quick: 6 adjoining letters at a time) with blanks and up to 2 (3) symbolic bytes of parameters; arbitrary texts of up to 10 (13) printable bytes; every known name with up to 2 characters removed and up to 1 (2) symbolic ones inserted anywhere; boundaries of up to 3 (4) bytes",
    },
    "C24": {
        "entries": {"h_tab_status": R("known", "unknown"), "h_tab_const": {}, "h_tab_method": R("known", "unknown"), "h_tab_near": R("known", "unknown"), "h_tab_version": R("known", "unknown"), "h_tab_ready": {}, "h_tab_equal": R("same", "end")},
        "bounds": "every 16-bit number; texts of up to 8 (9) arbitrary ASCII bytes; every method name and version with up to 2 characters replaced by up to 2 symbolic ones; all 60 named statuses; the 11 ready-made responses and Response::custom of every status; every pair of methods, versions, media types and codings, and pairs of 20 statuses, and their names changed in one byte, cut or lengthened by one",
    },
    "C21": {
        "entries": {"h_comp_list": R("plain", "packed", "end"), "h_comp_raw": R("plain", "packed", "end"), "h_comp_again": R("plain", "packed", "end"), "h_comp_big": R("plain", "packed", "end"), "h_comp_round": {}, "h_comp_broken": R("cut", "spoilt")},
        "bounds": "Accept-Encoding of up to 5 (thorough 8) arbitrary printable bytes and of up to 2 (thorough 3) listed tokens; three concrete bodies through four operations; bodies of 1500-70000 bytes that pack well or not at all; compression round trips of bodies of up to 50 bytes with one symbolic byte (thorough: two bytes, both symbolic) at 4 levels; packed data of 4 (5) bodies at 2 levels cut at every place or with any one byte of its checksum replaced",
        "assumptions": ["a processor without optional features (std_detect) is assumed, so the portable CRC code is what is analysed"],
    },
    "C26": {
        "entries": {"h_client_addr": {}, "h_client_any": {}, "h_client_v6": {}, "h_client_claim": {}, "h_websocket": {}, "h_websocket_raw": R("yes", "no")},
        "bounds": "every IPv4 address and port; four IPv6 addresses with any one of 8 bytes symbolic; 16 fields by which a request claims to come from elsewhere, in two spellings; header values of up to 9 symbolic bytes",
    },
    "C27": {
        "entries": {"h_log_route": R("written", "dropped", "end"), "h_log_files": R("module", "end"), "h_log_again": dict(R("refused", "end"), panics=True), "h_log_server": R("written", "dropped", "end")},
        "bounds": "up to 3 modules over 4 nested or similar package names, messages from 8 packages, every combination of levels and of sharing with the main log; names and directories of up to 2-3 symbolic letters, every 64-bit size and 32-bit count; 4 kinds of refused settings between valid ones; a server set once or twice",
        "assumptions": ["log4rs is replaced by a stand-in that records the configuration it is given and follows log4rs' documented rule of which logger decides a message; writing and rolling files is outside"],
    },
}
