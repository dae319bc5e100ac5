import re
d='''# Solver-based checking of aberic/starry

## The method

`bin/build.sh` compiles a harness crate (`harness/`, path dependency on
`/repo`, everything linked into one program with fat LTO) and takes the
optimised LLVM IR rustc produced for the *whole program*: starry, the standard
library, flate2, chrono, serde_json, crossbeam ... are all in it.  `engine/` is our own
symbolic executor for that IR (a small KLEE written in Rust on top of the z3
C library): bytes of input are SMT bit-vector variables, every branch on them
is decided by z3, both feasible directions are explored, assertions become
queries "path condition and not assertion".  The engine also models threads
(mutexes, condvars/futexes, spawn/join, yield) so that schedules are explored
as branch decisions up to a deviation budget, a virtual clock, and unwinding.
The network is `harness/src/net.rs`: the harness *defines* the libc socket
functions, so std::net and all of starry's server and client run unmodified on
top of a scripted network whose bytes, segmentation, stream end, reset and
short/failing sends are inputs of the exploration.

For every property `bin/check ID TIER`

1. rebuilds engine, harness and IR from `/repo`'s current tree,
2. runs the property's entries (table in `bin/table.py`) to exhaustion of all
   paths within the entry's bounds,
3. replays every counterexample on the natively compiled program (same harness
   source, `se_*` primitives reading the model); only confirmed ones are
   reported (`VIOLATION`, with input and rerun command in
   `evidence/replay-ID.json`).  For schedule entries, where the native scheduler
   cannot be forced, the confirmation is a deterministic re-execution of the
   compiled code along the recorded schedule,
4. re-runs a sample of the explored paths natively and compares everything the
   entry observed (translation validation of the engine); a run that differs is
   repeated alone, so that a busy machine is not taken for a defect,
5. demands that the labels the entry is expected to reach were reached
   (no vacuous pass),
6. writes `evidence/ID.json` (functions encoded per source file, bounds,
   queries, solver time, paths, assumptions).

A path the engine cannot follow (unsupported operation, solver gave up) is
reported as a note, counted in the evidence, and its model is run natively.

Verdicts are bounded: nothing is claimed for larger inputs than the entry
states.  Bounds per property are in `bin/table.py`, `MANIFEST.json` and the
evidence.

### Why our own engine

Kani was tried first: code with threads, sockets, `HashMap`, `RwLock`,
trait-object handlers and chrono does not get through CBMC in useful time, and
its goto model has no threads.  No KLEE is installed.  Executing the LLVM IR of
the finished program keeps the encoding honest: nothing of starry is
re-modelled, the encoding is regenerated from the source on every run, and an
edit anywhere (a dependency's use, a helper extracted, a loop rewritten) is
seen as what it does rather than how it is written.

### Parts of the engine worth knowing

* `ir.rs`/`low.rs` parse the textual IR and lower it to a register machine;
  `patch.rs` rewrites what the optimiser may not see through (hashing keys,
  CPU feature detection, `se_*` intrinsics).
* `expr.rs` is a hash-consed expression arena with an arithmetic simplifier
  (linear normal forms, ranges, known bits, table lookups kept as piecewise
  tables: `tabulate/table/pieces`), unit-tested against direct evaluation
  (`cargo test` in `engine/`).  Only what it cannot decide goes to z3.
* A concolic scheme: each path runs with concrete values for its model, branch
  conditions are collected, and each untaken side is solved for.  Independent
  constraints are split into components and cached.
* Delay-bounded scheduling: threads run round robin and switch where they block
  or yield; every other choice there, and a switch before an atomic
  read-modify-write or futex call, costs one of `se_sched(n)` deviations.  All
  schedules with at most n deviations are explored, together with all inputs.
* A scripted wall clock (`net::clock`): time stands still except where the
  harness moves it, by symbolic amounts.
* Memory is checked (bounds of the heap, freed memory, overflow checks and
  debug assertions are compiled in), panics are violations unless the entry
  says otherwise, endless loops and deadlocks are reported.

### What is replaced

* libc sockets, `getaddrinfo`, the clock: scripted (see above).
* `openssl` (base64 block coding only is used by starry) and `log4rs`: shims in
  `shims/` (that of log4rs keeps the configuration it is given, for C27).  The base64 shim was compared with the real openssl crate in a
  scratch program: 1.9 million decodings of arbitrary, near-base64 and all
  4-letter texts over 21 letters, 3 million encodings, no difference.
* The hasher's random keys are fixed in the symbolic run (random natively).
* CPU feature detection says "none", so the portable CRC and memchr are what is
  analysed.

### Assumptions common to all checks

Kernel TCP, TLS, the log files, memory exhaustion and signals are outside;
atomics are sequentially consistent; allocation sizes and pointers are concrete
on each path.

## Properties: oracle, reach and cost

The oracles are reference implementations written in the harness from the HTTP
standards and the crate's documentation; none is a copy of the code.  Times are
those of the quick tier on 8 cores, build included (about 1 s warm, 40 s cold).

'''
P={
'C01':('a list of routes and a 20-line matcher (literal beats nothing, parameters bind any one segment, the alternative introduced first wins); the handler answers with its own number and its parameters','10 s','tests register one route per server and never two that overlap; the defects found (parameters bound under the names of another route, no backtracking into inner nodes) need two patterns and one particular path'),
'C02':('the grammar of the request line: handler runs iff method, target and version are known tokens, separated and terminated properly','4 s','all 2^48 lines of 6 bytes cannot be sampled; methods that differ by one byte from a known one can'),
'C03':('the list of fields sent, looked up by the handler under every name sent and one that was not','5 s','every cut of the head into segments, every letter of names and values, fields on buffer borders'),
'C04':('the bytes after the head up to Content-Length; the handler must see exactly them, whatever segments they come in','4 s','depends on where TCP cuts the stream'),
'C05':('a second, well-formed connection must be answered after any first one; no panic outside a handler, no hang, no deadlock','50 s','hostile input is unbounded; the solver finds the byte that crashes a parser'),
'C06':('a reference splitter for queries','4 s','edge cases are combinations of few bytes (&&, =, trailing #), all of which are covered'),
'C07':('the same splitter over the body, under every spelling of the media type','3 s','same'),
'C08':('the parts are built by the harness and must come back byte for byte; bodies with damaged delimiters must be refused','20 s','contents that look like delimiters, CR and LF in every position'),
'C09':('a strict response parser; status, fields, cookies and body must be those set, Content-Length exact, one answer per request','25 s','sends accepted by the network in pieces, repeated answers, every status'),
'C10':('each answer must be computed from its own request: the handler reports all it can see, the harness knows what was sent','12 s','histories on one connection, never tested; state left from the request before shows only in the second answer'),
'C11':('cookies as sent; Set-Cookie text written by a reference printer and read back','4 s','attribute combinations, values that contain separators'),
'C12':('reference base64 and the first colon','4 s','arbitrary credential bytes and malformed base64'),
'C13':('a reference URL splitter; the scripted network records who was connected to and what was sent','5 s','tests need the Internet'),
'C14':('a reference response parser','60 s','same; cut streams and odd status lines'),
'C15':('each connection carries its own marks; every answer must consist of the marks of its own request','60 s','interleavings of two handlers and of arriving pieces; tests open one connection at a time'),
'C16':('a filter list per route and group, a reference walk over it','12 s','combinations of groups, routes, order of registration and which filter answers'),
'C17':('times at which handlers start, in a scripted clock: in no period more than the configured number, gaps kept, nothing lost','25 s','timing; every arrival time within the bounds is symbolic'),
'C18':('counters per task: each accepted task exactly once, never more at a time than workers, refused exactly when the queue is full, nobody waits for ever','95-110 s','schedules; the three lost-wakeup and lost-worker defects found need a particular interleaving'),
'C19':('calendar arithmetic (days from civil), independent of chrono','50-80 s','all days of the windows, all offsets; carries at month, leap year and sign changes'),
'C20':('reference coding','12 s','round trip over all inputs of a length, refusal of everything else'),
'C21':('inflate of the sent body must give the body, the coding must be in the list the client sent','45 s','every Accept-Encoding text of the bounds'),
'C22':('an association list with one entry per name','10-16 s','sequences of operations under symbolic names'),
'C23':('the table of the media types','2 s','near misses of every name'),
'C24':('the IANA tables','1 s','every number and every near miss'),
'C25':('the scripted clock: closed as soon as the time has passed and not before','20-30 s','timing, races between timer and request'),
'C27':('the rule which logger decides a message, and the settings themselves','1 s','combinations of nested packages, levels and sharing; extreme sizes; a refused setting between two valid ones'),
'C26':('peer address of the scripted connection; the grammar of Connection and Upgrade','5 s','all 2^48 peers'),
}
import json,sys
sys.path.insert(0,'/verif/bin'); import table
T={json.loads(l)['id']:json.loads(l)['title'] for l in open('/verif/properties.jsonl')}
for k in sorted(T):
    o,c,w=P[k]; t=table.TABLE[k]
    d+='### %s %s\n\n'%(k,T[k])
    d+='* Oracle: %s.\n* Entries: %s.\n* Bounds: %s.\n'%(o,', '.join('`%s`'%e for e in list(t['entries'])+list(t.get('deep',{}))),t['bounds'])
    if t.get('assumptions'): d+='* Assumed: %s.\n'%'; '.join(t['assumptions'])
    d+='* Cost: %s. Beyond tests: %s.\n\n'%(c,w)
d+=open('/verif/design/tail.md').read()
import os
first={'accept-error':'`h_rob_accept`','boundary-dash':'`h_multi_bound`','forwarded-for':'`h_client_claim`','length-i16':'`h_body_declared`','head-as-get':'`h_route_method`','micros-overflow':'`h_time_far`'}
if os.path.isdir('/verif/seeded'):
    d+='| bug | what it breaks | needs | caught by |\n|---|---|---|---|\n'
    for b in sorted(os.listdir('/verif/seeded')):
        m=json.load(open('/verif/seeded/%s/meta.json'%b))
        d+='| %s | %s | %s | %s%s |\n'%(b,m['what_it_breaks'],m['needs'],m['property'],', since '+first[b]+' was added' if b in first else '')
open('/verif/DESIGN.md','w').write(d)
