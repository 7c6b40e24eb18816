#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so they stay in step.
usage: tools/gen_props.py   (run by hand after editing; the outputs are committed)"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append((d, technique, note))

prop("C01", "Stream framing does not depend on how the bytes arrive",
 "For every length-field layout and every way a byte stream is cut into reads, the frame decoder returns exactly the frames of the stream, each once, in order, with the configured leading bytes stripped, and each on the read that brings its last byte. A frame longer than the configured maximum is dropped whole without losing, delaying or altering the frames around it, and a length that cannot be a frame (negative, shorter than its header, or shorter than the bytes to strip) is rejected, never delivered and never loops. A returned frame does not change when later bytes arrive or when the caller reuses its read buffer.",
 ["inputs", "configurations"], "every layout (offset, width 1/2/3/4/8, byte order, adjustment, strip, maximum), every sequence of well-formed, oversize and malformed frames, every chunking",
 "the existing tests never feed the frame decoder a stream cut into arbitrary reads; the space is layouts x frames x cut points",
 ["zinterceptor/framedecoder.go", "zinterceptor/interceptor.go", "ziface/ilengthfield.go", "zdecoder/tlvdecoder.go", "zdecoder/ltvdecoder_little.go", "zdecoder/htlvcrcdecoder.go"],
 [("accumulate, measure, cut", "zinterceptor/framedecoder.go Decode/decode"), ("oversize discard mode", "zinterceptor/framedecoder.go exceededFrameLength, discardingTooLongFrameFunc")],
 "property-based testing (rapid): generated layouts, frame sequences and chunkings against a one-pass reference splitter; shrinking",
 "every layout family of the documentation plus the three built-in decoders' layouts; frames up to 70 kB; streams of up to 11 frames",
 ["NewFrameDecoder(...).Decode return values"])

prop("C02", "A packed message decodes to the same id, length and payload",
 "For both built-in packet formats, packing any message id and payload and passing the bytes through the matching framing and decoding steps gives back the same id, length and payload, however the bytes are cut. The packed bytes follow the documented layout and byte order, and reading a header returns the id and length it carries. A header that declares more data than the configured maximum packet size is refused, and every other header is accepted.",
 ["inputs", "configurations"], "every message id, payload and cut of the byte stream, for both formats, and every configured maximum packet size",
 "tests pack a handful of fixed messages; ids, lengths and limits at boundaries are not sampled",
 ["zpack/datapack_tlv_bigendian.go", "zpack/datapack_ltv_littleendian.go", "zpack/packfactory.go", "zpack/message.go", "zdecoder/tlvdecoder.go", "zdecoder/ltvdecoder_little.go"],
 [("pack and unpack", "zpack/datapack_*.go Pack/Unpack"), ("decode inside the interceptor chain", "zdecoder/*.go Intercept")],
 "property-based testing (rapid): round trip and independent byte-layout oracle over generated messages, limits and chunkings",
 "payloads up to 200 kB, all 32-bit ids, both formats")

prop("C03", "Checksummed frames: intact ones are delivered, corrupt ones never",
 "With the header/type/length/value+CRC decoder, every frame whose Modbus CRC-16 is right reaches the handler registered for its function code exactly once with its bytes intact. A frame with a wrong checksum reaches no handler. No byte sequence a peer sends can crash the process or disturb other connections.",
 ["inputs", "fault_sequences"], "every sequence of frames, corruption of any bits, any chunking and several concurrent connections",
 "there is no test of the CRC decoder at all; corruption is a fault the tests never inject",
 ["zdecoder/htlvcrcdecoder.go", "zdecoder/crc.go", "znet/connection.go"],
 [("CRC check before dispatch", "zdecoder/htlvcrcdecoder.go decode/Intercept"), ("table-driven CRC", "zdecoder/crc.go GetCrC")],
 "property-based testing (rapid) with fault injection: generated frames and bit corruptions against a bitwise CRC reference, on the decoder alone and on a live server",
 "decoder level: frames of every body length 0-255; network level: up to 4 concurrent TCP connections")

prop("C04", "Each request is handled exactly once, per connection in order",
 "Every well-formed request with a registered id that a peer sends on a live connection reaches that id's handler exactly once, with the id and payload that were sent and the connection they came from, over TCP, TLS, WebSocket and KCP. Requests with an unregistered id reach no handler and disturb nothing. In every mode that uses a worker pool, the requests of one connection are handled one at a time, in the order they were sent.",
 ["schedules", "inputs", "configurations"], "every number of connections and interleaving of their requests, chunking, payload size, transport and worker mode",
 "tests send one or two messages on one connection; they do not vary the interleaving, mode or transport",
 ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/msghandler.go", "znet/server.go"],
 [("read loop, framing, interceptor chain", "znet/*connection.go StartReader"), ("queue per worker", "znet/msghandler.go SendMsgToTaskQueue, StartOneWorker")],
 "stateful property-based testing (rapid) on a live server: generated per-connection request scripts, transports, worker modes, chunkings and schedule perturbation against a per-connection sequence model",
 "up to 6 connections x 40 requests per case; loopback network",
 ["handler invocations"])

prop("C05", "A worker bound to a connection serves it alone and is given back",
 "In the modes that bind a worker to a connection, no two live connections share a bound worker while dedicated workers are available, and a handler that blocks on one live connection does not delay the requests of another. When a connection ends, its worker becomes available again, so any number of connections can come and go without workers running out. Requests already accepted keep being handled when connections come and go.",
 ["schedules", "histories", "configurations"], "every history of connects, requests, blocked handlers and disconnects, in both binding modes and every pool size",
 "tests never run the binding modes across connection churn",
 ["znet/msghandler.go", "znet/connection.go", "znet/server.go", "zconf/zconf.go"],
 [("free-worker sets", "znet/msghandler.go useWorker/freeWorker"), ("worker goroutines", "znet/msghandler.go StartOneWorker/StopOneWorker")],
 "stateful property-based testing (rapid): generated connect/request/block/disconnect histories on a live server against a worker-ownership model",
 "pool sizes 1-6, up to 12 simultaneous connections, up to 60 operations per history")

prop("C06", "The classic router runs its phases in order and contains panics",
 "For a request with a registered id the three phases run once each, in the order before, handle, after, on that id's router only. Aborting a request prevents the phases that have not started, and a request can be redirected to another phase as documented. A panic in any phase loses at most that request: the connection, the other requests and the process go on; registering an id twice is refused.",
 ["programs", "inputs", "schedules"], "every set of routers, every placement of abort, redirect and panic in their phases, every request sequence",
 "tests use one router that does nothing special in its phases",
 ["znet/router.go", "znet/request.go", "znet/msghandler.go"],
 [("phase stepping", "znet/request.go Call/next/Abort/Goto"), ("recover in the dispatcher", "znet/msghandler.go doMsgHandler")],
 "property-based testing (rapid): generated router programs and request sequences against a reference interpreter",
 "up to 6 routers, scripts over {abort, goto, panic, none} per phase")

prop("C07", "Handler slices run in registration order, with groups and middleware",
 "A request runs exactly the global middleware registered before its route, then the group middleware, then its own handlers, in that order and each at most once. Calling next inside a handler runs the rest before it returns, and aborting prevents every handler that has not started, whatever the number of handlers. Registering an id twice, or outside its group's id range, is refused, and a panic in a handler loses at most that request.",
 ["programs", "inputs"], "every sequence of middleware, group and route registrations, every placement of next, abort and panic, every number of handlers",
 "tests register two or three handlers; nesting, long chains and registration order are not varied",
 ["znet/router.go", "znet/request.go", "znet/msghandler.go"],
 [("registration", "znet/router.go RouterSlices/GroupRouter"), ("handler stepping", "znet/request.go RouterSlicesNext/Abort")],
 "property-based testing (rapid): generated registration programs and handler scripts against a reference interpreter",
 "up to 200 handlers per route")

prop("C08", "Interceptors run in order, once, and can short-circuit",
 "Each request passes through every interceptor in the order they were added, exactly once, after decoding and before routing. An interceptor that does not proceed prevents everything behind it, a replaced request or message is what everything behind it sees, and the response of each stage is returned to the stage before it. No mix of requests on concurrent connections mixes their chains.",
 ["programs", "schedules"], "every list of interceptors with arbitrary pass, stop, replace and wrap behaviour, and concurrent requests",
 "one test adds one interceptor",
 ["zinterceptor/chain.go", "zinterceptor/interceptor.go", "znet/chainbuilder.go", "znet/msghandler.go"],
 [("position-indexed chain", "zinterceptor/chain.go Proceed"), ("head/body/tail", "znet/chainbuilder.go")],
 "property-based testing (rapid): generated interceptor programs against a reference interpreter, run through the public chain and a live dispatcher",
 "up to 8 interceptors, concurrent requests")

prop("C09", "Sent messages arrive whole, once and in order",
 "Every message whose send call reported success on a connection that stays open arrives at the peer exactly once with its bytes intact, and messages sent one after another by the same goroutine with the same method arrive in that order. Messages sent at the same time by several goroutines, through the direct, buffered and queued send methods, never interleave their bytes. While the connection is open and the peer reads, a direct send is not refused, and a buffered or queued one is refused only when its queue stays full for its time limit. This holds for TCP, WebSocket and KCP, and for servers and clients.",
 ["schedules", "inputs", "configurations"], "every interleaving of senders and methods, message sizes around every buffer boundary, queue sizes",
 "tests send a few small messages from one goroutine",
 ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
 [("write locks and flush ticker", "znet/*connection.go Send*, StartWriter")],
 "stateful property-based testing (rapid) on live connections: generated concurrent send scripts; the peer's byte stream is checked against a per-sender sequence model",
 "up to 5 senders x 40 messages, sizes 0-70 kB")

prop("C10", "A connection starts once, ends once, and cleans up",
 "For every connection the start hook runs once before its requests are handled, and when it ends for any reason, however many parties end it at once, the stop hook runs once, its close callbacks still registered run once each, its context ends, it leaves the connection manager and the socket is closed. Afterwards it reports itself closed, and every send method returns an error promptly instead of blocking or panicking, and its other methods return too. A failure of one connection never ends another or the process.",
 ["schedules", "fault_sequences", "histories"], "every way and moment of ending a connection: peer close or reset, local stop from any goroutine or hook, manager clear, garbage input, concurrent sends",
 "tests close one idle connection",
 ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/callbacks.go", "znet/connmanager.go"],
 [("finalizer guarded by the closed flag", "znet/*connection.go finalizer"), ("callback list", "znet/callbacks.go")],
 "stateful property-based testing (rapid) with fault injection on live connections: generated end-of-life scenarios with concurrent actors, history invariants",
 "TCP, WebSocket and KCP; up to 6 connections and 5 concurrent actors per case")

prop("C11", "Never more connections than the limit, and slots are reused",
 "At no moment are more connections than the configured maximum live in the connection manager and handed to the start hook, whatever the order of arrivals and departures. A connection above the limit waits or is refused, and is never served while the limit is reached; once a connection ends its slot is used again. Connections under the limit are always served, those that came while the process could open no descriptor included.",
 ["schedules", "histories", "configurations"], "every history of concurrent dials and disconnects for every limit and transport",
 "no test reaches the limit",
 ["znet/server.go", "znet/connmanager.go"],
 [("limit test before accept handling", "znet/server.go ListenTcpConn/ListenWebsocketConn/ListenKcpConn")],
 "stateful property-based testing (rapid): generated bursts of dials and closes on a live server, invariant over the start/stop history",
 "limits 1-8, bursts up to 3x the limit")

prop("C12", "Connection registry and connection properties behave as maps",
 "Connection ids are unique within a server, and the connection manager's lookups, length, listings and iteration agree at every quiet moment with the set of live connections, under any concurrent adds, removals, stops and clears. Clearing ends every registered connection. Properties set on a connection are read back with the last value, and removed ones are absent, independently per connection.",
 ["schedules", "histories"], "every history of add, remove, get, range, clear and property operations, sequential and concurrent",
 "tests do not exercise the manager concurrently",
 ["znet/connmanager.go", "znet/connection.go", "znet/server.go", "zutils/shard_lock_map.go"],
 [("sharded map of connections", "znet/connmanager.go"), ("id counter", "znet/server.go newConnID")],
 "stateful property-based testing (rapid): generated operation histories against a map model; concurrent histories checked for agreement at quiescence",
 "up to 200 operations, 8 goroutines")

prop("C13", "Requests never see each other's data",
 "A handler sees only its own request's connection, message and stored keys: nothing a previous or concurrent request stored is visible, whether or not request objects are pooled and reused. A copy of a request keeps the id, payload, decoded response and keys it had when it was copied, after the original has been recycled or changed, and changing the copy does not change the original. Key storage on one request is safe under concurrent use.",
 ["histories", "schedules", "configurations"], "every history of acquire, set, get, copy, recycle and reuse, with pooling on and off, sequential and concurrent",
 "tests never reuse a pooled request after copying it",
 ["znet/request.go", "znet/request_func.go", "znet/msghandler.go"],
 [("request pool and reset", "znet/request.go GetRequest/PutRequest/Reset/Copy")],
 "stateful property-based testing (rapid): generated acquire/set/copy/recycle histories against a value model, and live traffic with pooling on",
 "up to 80 operations per history")

prop("C14", "Heartbeats keep healthy connections and end dead ones",
 "With heartbeat detection on, a connection on which data (or, over WebSocket, a ping) arrives within every allowed idle interval is never ended by it, and heartbeats are sent on it at the configured interval. A connection on which nothing arrives for longer than the allowed interval has the not-alive action run for it, by default ending it, within two detection intervals. Custom message, sender and not-alive actions replace the defaults; each heartbeat that arrives is given to the heartbeat's handlers once; when the connection ends the heartbeats stop.",
 ["histories", "configurations", "fault_sequences"], "every pattern of activity and silence, interval, custom action and transport, on servers and clients",
 "tests start one heartbeat and wait",
 ["znet/heartbeat.go", "znet/connection.go", "znet/server.go", "znet/client.go"],
 [("ticker and idle test", "znet/heartbeat.go start/check"), ("activity stamp", "znet/*connection.go updateActivity/IsAlive")],
 "property-based testing (rapid): generated activity timelines against the interval model, on a scripted connection and on live sockets",
 "intervals of 60-400 ms; up to 6 connections")

prop("C15", "Servers and clients start and stop cleanly from any state",
 "Stopping a server or client, at any moment, any number of times and from any goroutine, its own hooks and handlers included, never panics and never blocks forever, whatever the transport, and whether or not it was started or its dial succeeded; afterwards it can be started again and works as before. Once a server's stop has returned no connection is accepted, and those it had are closed with start and stop hooks run in pairs. After a client's stop its connection is closed and a dial in progress comes to nothing; a failed dial is reported on the error channel. Serve serves until an interrupt or termination signal, and then returns.",
 ["histories", "schedules", "configurations", "fault_sequences"], "every order of start, stop, dial failure, peer loss and restart, for each transport",
 "tests start a server and leave it running",
 ["znet/server.go", "znet/client.go"],
 [("exit channel and listener close", "znet/server.go Stop, Listen*"), ("client start goroutine", "znet/client.go Start/Stop/Restart")],
 "stateful property-based testing (rapid): generated start/stop/dial histories on live servers and clients with a hang and crash oracle",
 "TCP, WebSocket, KCP servers; TCP, TLS and WebSocket clients; up to 8 operations")

prop("C16", "The sharded map behaves like one atomic map",
 "Every history of single-key operations on the sharded map, sequential or concurrent, is explained by one ordinary map in which each operation takes effect at one moment, including the conditional insert, remove-by-callback and pop operations. At quiet moments the count, keys, items, iterations and JSON form list exactly the live entries. Encoding to JSON and decoding gives back an equal map.",
 ["schedules", "histories", "inputs"], "every key, every sequential history, every interleaving of concurrent operations",
 "tests check single operations from one goroutine",
 ["zutils/shard_lock_map.go", "zutils/hash.go"],
 [("lock per shard", "zutils/shard_lock_map.go")],
 "stateful property-based testing (rapid): sequential histories against a map model; concurrent histories checked for linearizability with porcupine",
 "up to 120 sequential operations; concurrent: 2-6 goroutines on 1-4 keys")

prop("C17", "Generated ids are unique and increasing",
 "Ids drawn from one generator are distinct and strictly increasing in the order of the draws, from any number of goroutines. Generators with different worker ids never produce the same id, and an id carries its worker's number and the time it was drawn. Worker numbers outside the allowed range are refused.",
 ["schedules", "inputs"], "every number of drawing goroutines and draws, every worker number",
 "tests draw ids once from one goroutine",
 ["zutils/snowflake_uuid.go"],
 [("mutex, sequence and wait for the next millisecond", "zutils/snowflake_uuid.go NextID")],
 "property-based testing (rapid): generated worker numbers and concurrent draw counts; uniqueness, order and field invariants",
 "up to 40000 draws per case, 8 goroutines")

prop("C18", "A timer fires once, on time, unless cancelled",
 "A timer created with a delay or an absolute time runs its function exactly once, with its arguments, no earlier than its time less one scheduling tick and no later than a few ticks after it, whatever other timers exist. A timer cancelled well before its time never runs, and cancelling one timer affects no other. A function that panics or blocks does not disturb other timers.",
 ["histories", "schedules", "inputs"], "every set of delays up to hours, every creation and cancellation time, any functions",
 "tests start a few timers with fixed delays and look at the log",
 ["ztimer/timewheel.go", "ztimer/timerscheduler.go", "ztimer/timer.go", "ztimer/delayfunc.go"],
 [("hierarchical time wheel", "ztimer/timewheel.go"), ("scheduler loop", "ztimer/timerscheduler.go")],
 "stateful property-based testing (rapid) in virtual time: generated create/cancel/advance histories against a deadline model",
 "delays up to 30 hours of virtual time, up to 60 timers per history")

prop("C19", "Asynchronous operations run once and complete exactly once",
 "Every asynchronous operation runs exactly once, and operations submitted with the same id run one at a time in the order submitted. The completion callback of a result runs exactly once, on the worker bound to the request's connection, with the returned object in place, whether it is set before or after the result. A panicking operation does not stop later ones.",
 ["schedules", "inputs"], "every set of ids, submitters, interleavings of result and callback registration",
 "there are no tests of this package",
 ["zasync_op/async_op.go", "zasync_op/async_worker.go", "zasync_op/async_op_result.go"],
 [("worker per hashed id", "zasync_op/async_op.go Process"), ("completion flags", "zasync_op/async_op_result.go")],
 "stateful property-based testing (rapid): generated concurrent submissions and result/callback orders; exactly-once and per-id order invariants",
 "up to 8 submitters x 60 operations")

prop("C20", "Notifications reach exactly the connection registered for the id",
 "The notifier's registry agrees with a map from ids to connections after every sequence of set, delete and lookup, setting an id again replaces its connection. A notification to an id is sent on that id's connection only, once, with its message id and payload, by both the direct and buffered methods, and a broadcast is sent once for every registered id, failing connections or not. Unknown ids and failing connections give an error and disturb nothing else.",
 ["histories", "schedules", "fault_sequences"], "every history of set, delete, notify and broadcast, with failing connections, sequential and concurrent",
 "tests register a few connections and call each method once",
 ["znotify/notify.go", "ziface/inotify.go"],
 [("connection map", "znotify/notify.go")],
 "stateful property-based testing (rapid): generated operation histories on recording connections against a map model",
 "up to 100 operations per history")

prop("C21", "Rotated log files lose, reorder and duplicate nothing",
 "Every line written to the rotating log file before a flush or close is found exactly once, whole, in the files of its directory, in the order written, across every rotation by size or day, restart, crash and recoverable fault. No file exceeds its size limit by more than one write or mixes days, or is rotated while its day lasts and less than half its limit is reached; rotated files never overwrite each other, and only this log's files older than the retention period are deleted. Closing twice, writing after close and concurrent writers do not corrupt or lose what was written.",
 ["histories", "configurations", "schedules", "fault_sequences"], "every sequence of writes, flushes, closes and restarts under every size, line and retention configuration",
 "no test reads back what rotation produced",
 ["zutils/witer.go", "zlog/logger_core.go"],
 [("rotation and retention", "zutils/witer.go rotate/delete")],
 "stateful property-based testing (rapid): generated write/flush/close/reopen histories in a scratch directory against the concatenation model",
 "up to 300 writes per history, files of a few hundred bytes to a few kB")

prop("C22", "Loggers write whole lines at or above their level",
 "A logger emits every call at or above its isolation level as one whole line carrying its message, prefix and level and drops every call below it, from any number of goroutines, without mixing the bytes of different lines. The hook sees each emitted line, and changing the log file loses none. A panic-level call panics with its message, and a fatal one exits, after everything logged is written. A custom logger set globally receives exactly the calls made through it.",
 ["inputs", "schedules", "configurations"], "every flag set, level, prefix, message and interleaving of concurrent calls",
 "tests print lines and do not check them",
 ["zlog/logger_core.go", "zlog/stdzlog.go", "zlog/default.go"],
 [("mutex around header and write", "zlog/logger_core.go OutPut")],
 "property-based testing (rapid): generated flag/level/message/call histories against a line-format model",
 "up to 8 goroutines x 60 calls")

prop("C23", "Configuration: set options override, unset keep, files reload",
 "Every option a user sets takes effect and every option left unset keeps its previous value, in every combination: a configuration file sets exactly the options it names, when it is loaded first and when it is loaded again, and a configuration object those that are not empty (its KcpStreamMode, on by default, is taken as it is). A file that does not exist changes nothing. The options have their effect: the log goes to the configured file, level, size and age limit, and the server listens where and in the mode configured. Server and client options given at construction replace what they name and nothing else.",
 ["configurations", "inputs"], "every subset of options with every value, in objects and files",
 "tests load one file",
 ["zconf/zconf.go", "zconf/userconf.go", "zconf/env.go", "znet/options.go"],
 [("field-by-field merge", "zconf/userconf.go UserConfToGlobal"), ("file reload", "zconf/zconf.go Reload")],
 "property-based testing (rapid): generated subsets of options against a field-by-field reference merge",
 "all configuration fields, any subset")

prop("C24", "Grid areas of interest: exact neighbours, consistent views",
 "In the demo game's grid, every grid's surrounding set is exactly the grid and its existing neighbours, and a position inside the area belongs to the grid that covers it (what the division leaves over, and what lies outside, to the nearest grid). After any sequence of adds, moves and removals a query around a position returns exactly the players in the surrounding grids. A player who moves is shown to those who come into view and hidden from those who leave it. The game server does this for the players connected to it, and players who come, move, talk and leave at the same time never fail because of one another.",
 ["inputs", "histories"], "every area size and grid count, every sequence of player adds, moves and removals",
 "tests print one 5x5 grid",
 ["zinx_app_demo/mmo_game/core/aoi.go", "zinx_app_demo/mmo_game/core/grid.go", "zinx_app_demo/mmo_game/core/player.go", "zinx_app_demo/mmo_game/core/world_manager.go", "zinx_app_demo/mmo_game/server.go"],
 [("grid numbering and neighbours", "zinx_app_demo/mmo_game/core/aoi.go"), ("crossing grids", "zinx_app_demo/mmo_game/core/player.go OnExchangeAoiGrID")],
 "stateful property-based testing (rapid): generated areas and player histories against a coordinate model",
 "grids up to 12x12, up to 30 players")

prop("C25", "WebSocket peers are admitted on their own terms",
 "Every WebSocket upgrade request on the server's path is shown once to the authentication function, if one is set, and becomes a connection exactly when that returns no error; a refused request is answered with status 401 and no hook or handler runs for it. What the authentication attached to the request's context is found on that peer's connection and on no other. A peer that offers subprotocols is answered with the first one it offers, and one that offers none with none, however many peers ask at once. Requests that are no upgrade, or for another path, become no connection and disturb nothing.",
 ["schedules", "inputs", "configurations"], "every mix of concurrent upgrade requests with their own subprotocols, tokens and verdicts, every path, and plain or malformed requests among them",
 "the tests have no authentication and dial one peer at a time; what peers asking at the same moment do to each other is not sampled",
 ["znet/server.go", "znet/ws_connection.go", "ziface/iserver.go"],
 [("authenticate, choose the subprotocol, upgrade", "znet/server.go ListenWebsocketConn"), ("the request's context on the connection", "znet/ws_connection.go newWebsocketConn")],
 "property-based testing (rapid): generated concurrent upgrade requests on a live server against a per-request reference verdict; shrinking",
 "up to 14 peers at once, up to 3 subprotocols each, up to 4 refusals per case")

def built(i): return os.path.exists(os.path.join(V, "harness/cmd", i.lower(), "main.go"))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _ in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], []
for d, tech, note in P:
    i = d["id"]
    if built(i):
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet (work in progress); generated-input search applies to it"))
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks: every check drives the public API of the unmodified tree", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="check.sh builds harness/cmd/<id> against /repo's working tree (go.mod replace) into a temporary directory; VERIF_SEED varies the generated cases.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "pending")
