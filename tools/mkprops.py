#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
R = "postgresql/"

p("P01", "Incoming message boundaries survive any fragmentation",
  "However the bytes coming from the server are cut into reads, and however writes and reads of the message buffer interleave, the buffer yields exactly the messages contained in the concatenated bytes, in order and each once, and keeps the unconsumed tail intact. Counting, peeking and extracting the raw remainder always agree with that sequence, and a header announcing an impossible size is reported as an error. The compiled and the pure-Python implementation behave identically.",
  ["inputs", "histories"], "every byte stream, every segmentation into writes, every interleaving of write/read(n)/next/has/len/getvalue/truncate",
  "The tests feed a few fixed strings with a few cuts to one implementation; the property ranges over all segmentations and operation histories and over both implementations.",
  [R+"port/_optimized/buffer.c", R+"protocol/pbuffer.py", R+"protocol/buffer.py", R+"protocol/message_types.py"],
  [("linked list of chunks with a (chunk, offset) position", "port/_optimized/buffer.c p_seek/p_memcpy/p_build_tuple"), ("seek/tell/truncate over BytesIO", "protocol/pbuffer.py pq_message_stream")],
  [("unconsumed bytes", "bytes written and not yet returned as messages", "pq_message_stream")], ["read", "next_message", "has_message", "len", "getvalue"])

p("P02", "Messages are encoded and decoded exactly as the wire protocol defines",
  "Every protocol message built by the library is laid out byte for byte as protocol version 3 prescribes, batches of row and copy data included, and parsing what was serialized gives back an equal message. A malformed row or message body is rejected with an error instead of yielding made-up or truncated values. The compiled and the pure-Python codecs agree on every input.",
  ["inputs"], "every message kind with every combination of field values (empty, NULL, maximum counts), every mixed batch, every truncation or extension of a row message",
  "The tests round-trip a handful of samples; nothing enumerates field combinations, mixed batches, malformed bodies or compares the two codecs.",
  [R+"protocol/element3.py", R+"port/_optimized/element3.c", R+"protocol/version.py", R+"python/structlib.py"],
  [("element serialize/parse pairs", "protocol/element3.py"), ("cat_messages / parse_tuple_message / pack_tuple_data", "port/_optimized/element3.c")],
  None, ["bytes of cat_messages and of each element", "parse() results"])

p("P03", "Requests and responses stay in step with the server",
  "For every legal sequence of server responses to a batch of requests, each response is attributed to the request that caused it, the batch completes exactly at the server's ready signal, and nothing beyond it is consumed. After an error the remaining requests up to the next synchronization point are skipped, the error is kept, and the connection stays usable; an illegal response or a fatal error marks the connection dead. Results do not depend on how responses are grouped into reads.",
  ["histories", "inputs", "fault_sequences"], "every request batch within bounds, every legal response sequence with errors at any request, every grouping of responses, every single illegal response",
  "test_xact3 and the live tests walk a few happy paths and a couple of errors; the guarantee is over all interleavings of errors, async traffic, grouping and protocol violations.",
  [R+"protocol/xact3.py", R+"protocol/client3.py", R+"protocol/element3.py"],
  [("per-command state hooks and error-to-sync skipping", "protocol/xact3.py Instruction"), ("push/step/complete loop", "protocol/client3.py Connection")],
  [("progress", "which request of the batch responses are attributed to", "xact3.Instruction")], ["messages_received / completed", "transaction.fatal", "connection.state"])

p("P04", "Asynchronous server messages are delivered once, in order, without side effects",
  "Notices, notifications and parameter reports may arrive between any two server messages; each is delivered exactly once, in arrival order, to its consumer and never disturbs, drops or duplicates the results of the running operation. An exception raised by a consumer does not break the operation. Message hooks are consulted from the originating object outward and propagation stops at the first hook that returns true.",
  ["histories", "schedules"], "every position of asynchronous messages in every operation (execute, prepare, fetch, COPY in/out, close), every hook outcome",
  "A live server rarely emits asynchronous messages mid-result, so the tests never see them inside COPY streams, between rows, or while synchronizing.",
  [R+"protocol/xact3.py", R+"driver/pq3.py", R+"message.py", R+"python/element.py", R+"sys.py"],
  [("asynchook dispatch", "protocol/xact3.py Instruction / driver/pq3.py _receive_async"), ("hook chain", "driver/pq3.py emit_server_message, message.py")],
  None, ["results of the running call", "msghook calls", "iternotifies", "settings subscriptions"])

p("P05", "Connection establishment obeys the security and authentication policy",
  "With security required no start-up data or credential is ever sent over an unencrypted channel, with it disabled or preferred the documented order of encrypted and plain attempts over all addresses is made, and the first attempt that succeeds is used. Authentication answers exactly what the server asked for with the configured secret, and refuses any method it does not support. Whatever the server replies or fails to reply, the outcome is either a usable connection or an error that lists every failed attempt, with all other sockets closed.",
  ["configurations", "fault_sequences", "inputs"], "every security mode, address list, server answer to the security request, authentication method, error, refusal or disconnect at each step",
  "The tests only connect to cooperative trust/md5 servers; unreachable combinations (server refusing TLS, errors between attempts, unsupported methods, early disconnects) are never run.",
  [R+"driver/pq3.py", R+"protocol/client3.py", R+"protocol/xact3.py", R+"resolved/crypt.py", R+"python/socket.py"],
  [("attempt sequence by security mode", "driver/pq3.py Connection._establish"), ("SSL request and negotiation state machine", "protocol/client3.py negotiate_ssl, protocol/xact3.py Negotiation")],
  None, ["bytes written per socket", "connect() result", "sockets left open"])

p("P06", "Loss of the connection is always surfaced",
  "Whenever the transport fails, ends early or accepts only part of the data, at any byte of any operation, the running operation either finishes correctly or raises a database error that reports the failure: it never hangs, never returns a truncated result as complete and never raises an unrelated exception. After a fatal failure the connection reports itself closed and every later operation on it is refused. Short writes and short reads alone never change an outcome.",
  ["crash_points", "fault_sequences"], "every byte position of every exchange at which the peer closes, a reset is raised or I/O is partial",
  "Tests cannot place a failure at an arbitrary byte of an exchange; only one or two orderly disconnects are sampled.",
  [R+"protocol/client3.py", R+"protocol/xact3.py", R+"driver/pq3.py", R+"python/socket.py"],
  [("read_into / send_message_data fault handling", "protocol/client3.py"), ("fatal state propagation", "driver/pq3.py _pq_complete/_pq_step")],
  None, ["exception class and code", "connection.closed", "rows returned"])

p("P07", "Transactions and savepoints take effect exactly as nested",
  "For every history of starting, committing, rolling back and leaving nested transaction contexts, with or without exceptions and database errors, the data that survives is exactly the data written in scopes whose every enclosing scope was committed. Leaving a scope normally while the server is in a failed transaction raises an error and never silently loses writes, exceptions leaving a scope are never swallowed, and each transaction object's state and misuse errors match its history.",
  ["histories", "programs"], "every bounded history of begin/commit/rollback/enter/exit/exit-with-exception/failing statement/insert on nested transaction objects",
  "The tests run a dozen hand-written nestings; failures inside inner scopes combined with handled exceptions, reuse and explicit calls form a space they sample only at points.",
  [R+"driver/pq3.py", R+"api.py"],
  [("block vs savepoint selection and exit rules", "driver/pq3.py Transaction")],
  [("transaction stack", "open scopes on the connection", "driver/pq3.py Transaction/Connection.pq.state")], ["surviving rows", "raised errors", "transaction.state", "connection.state"])

p("P08", "Server-side statements and cursors are released exactly when unreferenced",
  "A statement or cursor created by the client is deallocated on the server exactly once, at the latest with the next operation after its last reference is dropped or it is closed, and never while it or a result stream depending on it is still referenced, whatever errors, rollbacks or interleavings occur. Objects opened from an existing identifier are released only by an explicit close. A closed object refuses further use and closing is idempotent.",
  ["histories", "schedules"], "every bounded history of prepare, open stream/cursor, read, close, drop reference, error, rollback over several objects",
  "Garbage-driven releases depend on the order of drops, errors and operations; tests check one drop of one object.",
  [R+"driver/pq3.py", R+"protocol/client3.py"],
  [("garbage lists flushed before the next request", "protocol/client3.py take_out_trash; driver/pq3.py close()/_del")],
  [("garbage", "identifiers to be closed", "client3.Connection garbage_cursors/garbage_statements")], ["pg_prepared_statements", "pg_cursors", "Close messages on the wire"])

p("P09", "Every way of running a statement yields the same complete rows",
  "For any result size, the one-shot, row-wise, chunk-wise, column-wise, first-value and cursor interfaces all give the same values in the server's order, each exactly once, and end exactly at the end of the result. This holds inside and outside transaction blocks, while several results are consumed in any interleaving with each other and with other commands on the same connection. Bulk loading executes every given parameter row exactly once in order, or fails as a whole with an error.",
  ["histories", "inputs", "schedules"], "result sizes around fetch boundaries, every interleaving of consumption of several open results with other operations",
  "Tests read results of one or two sizes to the end, one at a time; batch boundaries and interleaved consumption are where streams break.",
  [R+"driver/pq3.py", R+"protocol/xact3.py", R+"python/functools.py", R+"port/_optimized/functools.c"],
  [("portal streams", "driver/pq3.py FetchAll/MultiXactStream"), ("tuple processing", "functools.c process_chunk")],
  None, ["sequences of rows", "StopIteration", "table contents after load"])

p("P10", "Scrollable cursor positioning follows the documented arithmetic",
  "For every result and every sequence of reads, single-row steps, absolute, relative and from-end seeks, forward or backward and with either default direction, the rows returned and the resulting position are those of an index moving over the result, clamped just before the first and just after the last row. A cursor with backward default direction behaves as a forward cursor over the reversed result. Invalid directions, quantities and seek modes are refused without moving.",
  ["histories"], "every bounded operation sequence over results of length 0..N",
  "Tests check selected seeks on one cursor; the arithmetic must hold for every position/operation pair, particularly at both ends and after direction changes.",
  [R+"driver/pq3.py"],
  [("seek/fetch command synthesis", "driver/pq3.py Cursor, Output._pq_xp_fetch/_pq_xp_move")],
  [("position", "row index the server-side cursor stands on", "server portal")], ["rows of read()/next()", "seek() return value"])

p("P11", "COPY transfers every row exactly once and never half-way silently",
  "Rows copied out arrive complete, in order and on row boundaries however they are grouped or the stream is fragmented; rows copied in are stored exactly once and in order. If the source of a copy-in raises, a row is rejected or another operation interrupts the copy, then nothing of that copy is stored, an error tells the user, and the connection is back in step for the next operation. An interrupted copy-out leaves later operations unaffected and loses none of its rows.",
  ["histories", "inputs", "fault_sequences"], "every size and chunking of copy data, every point of source exception, bad row or interruption",
  "Tests run complete copies and one failure; the guarantee is about every interruption point and chunking.",
  [R+"driver/pq3.py", R+"protocol/xact3.py", R+"protocol/client3.py"],
  [("copy fast paths and CopyFail on interruption", "protocol/xact3.py put_copydata/standard_put; driver/pq3.py _load_copy_chunks")],
  None, ["table contents", "rows returned", "raised errors", "success of the next operation"])

p("P12", "Managed copies give each receiver exactly the producer's data",
  "A managed copy delivers to every receiver that stays in the operation exactly the producer's messages, once and in order, whatever the fragmentation of the source stream, asynchronous messages in it, and faults of other receivers. A receiver that faults is removed and reported with its exception, can be reconciled without losing or repeating data, and the operation as a whole succeeds only if the producer was exhausted; otherwise a failure naming every fault is raised. Afterwards all surviving connections are on a message boundary and usable.",
  ["histories", "fault_sequences", "inputs"], "every fragmentation of the copy stream, every assignment of faults to receivers and cycles, every reconciliation choice and abort point",
  "The tests transfer whole tables with one fault at a fixed place; alignment depends on every cut of the byte stream and every order of faults.",
  [R+"copyman.py", R+"port/_optimized/wirestate.c"],
  [("wire state tracking", "copyman.py WireState / wirestate.c"), ("fault bookkeeping and realign", "copyman.py CopyManager, ProtocolProducer.realign")],
  None, ["bytes per receiver", "faults raised", "usability of connections"])

p("P13", "Notifications are delivered exactly once in order to the watcher",
  "Every notification received on a watched connection is emitted exactly once, in arrival order per connection, by the notification iterators, whatever timeouts, idle events, additions, removals, connection failures or other operations happen meanwhile; with zero timeout everything already pending is emitted and the iteration ends. A failing connection is moved to the failed set without affecting others, and notifications it received before are still emitted. Channel names and payloads sent, listened to and stopped listening to are passed on exactly as given.",
  ["histories", "schedules"], "every interleaving of arrival, polling, timeouts, set changes and connection loss over several connections; every channel name and payload",
  "Tests deliver a few notifications in fixed order on live connections; arrival/timeouts/failure interleavings are not reachable by them.",
  [R+"notifyman.py", R+"driver/pq3.py"],
  [("event queue and polling", "notifyman.py NotificationManager"), ("channel quoting", "driver/pq3.py listen/unlisten/notify")],
  None, ["iterator output", "garbage/connections sets", "pg_listening_channels()"])

p("P14", "Advisory locks are re-entrant and all-or-nothing",
  "A lock object holds the server-side locks of all its identifiers, in the mode chosen, exactly while it has been acquired more often than released; nested acquisitions only count and the locks are given up at the matching last release. A non-blocking acquisition either obtains all identifiers or leaves none held. Releasing an unheld lock is refused, and after the connection is closed the object reports itself unlocked.",
  ["histories", "schedules"], "every bounded history of acquire/try/release/close by several lock objects and sessions over overlapping identifiers and modes",
  "Tests cover single acquire/release pairs and one contention; nesting, partial failures and overlapping objects are not enumerated.",
  [R+"alock.py", R+"lib/libsys.sql"],
  [("count and partial release", "alock.py ALock.acquire/release")],
  [("count", "number of outstanding acquisitions", "alock.ALock")], ["pg_locks", "return values", "locked()"])

p("P15", "The settings mapping reflects the server's configuration",
  "Reading a setting through the connection gives the value in effect on the server, assigning or updating makes it take effect, unknown names raise a key error, and a settings context restores the previous values on exit, whatever the history of reads, assignments, contexts, transactions and commands that change settings. Subscribers are called once for each reported change of a setting they subscribed to and not after unsubscribing.",
  ["histories"], "every bounded history of get/set/update/delete/context/execute(SET)/transaction end/subscribe over several settings",
  "Caching makes the answer depend on history; tests read back after a single assignment.",
  [R+"driver/pq3.py"],
  [("settings cache and subscriptions", "driver/pq3.py Settings/SettingsCM")],
  [("cache", "values remembered by the client", "driver/pq3.py Settings.cache")], ["settings[...]", "current_setting() on the server"])

p("P16", "The DB-API layer keeps its cursor and transaction contract",
  "Fetching one, many or all rows in any order partitions the result of the last executed query exactly, descriptions and row counts match it, and parameters given by position or by name, with literal percent signs around them, reach the server as exactly the given values. Work becomes durable exactly at commit, rollback discards exactly the work since the last transaction end, auto-commit makes each statement durable, and closed cursors or connections refuse use.",
  ["histories", "inputs"], "every bounded sequence of execute/executemany/fetch*/commit/rollback/close/autocommit switches, every parameter style and query text with percent signs",
  "The generic DB-API test-suite checks each call in isolation with fixed data.",
  [R+"driver/dbapi20.py"],
  [("portal buffering and query conversion", "driver/dbapi20.py Portal/Cursor"), ("implicit transaction", "driver/dbapi20.py Connection")],
  None, ["fetch results", "table contents seen by another session"])

p("P17", "Binary values round-trip exactly between client and server",
  "For every supported type, the bytes sent for a value denote the same value to the server, and the value built from the server's bytes equals the server's value, including extreme, special, zero, negative, infinite, empty and NULL values. Values the type cannot represent are refused with a parameter error rather than altered. The compiled and pure-Python number codecs agree.",
  ["inputs"], "every value of every built-in type with binary support, in particular all digit/scale/weight shapes of numerics, boundaries of integers and of date/time ranges, and nested arrays, records and NULLs",
  "Tests use a fixed list of samples per type, which misses digit-group boundaries, trailing zeros, signs and extreme scales.",
  [R+"types/io/lib.py", R+"types/io/builtins.py", R+"types/io/pg_network.py", R+"types/io/pg_bitwise.py", R+"types/io/pg_geometry.py", R+"types/io/pg_time.py", R+"types/io/stdlib_decimal.py", R+"types/io/stdlib_datetime.py", R+"port/_optimized/structlib.c", R+"driver/pq3.py"],
  [("pack/unpack pairs", "types/io/*.py"), ("resolution of arrays, records and domains", "driver/pq3.py TypeIO")],
  None, ["SELECT $1::type round trips and textual rendering by the server", "pack/unpack functions"])

p("P18", "Array and row containers behave as the sequences they denote",
  "An array built from nested lists, from elements with bounds, or received from the server has the stated dimensions and bounds, and indexing, slicing, iterating, nesting and element enumeration all agree with those; ragged or ill-sized input is refused. A row gives the same value by position, by name and in every mapping or sequence view, out-of-range or unknown keys are refused or give the stated default, and transforming a row changes exactly the named columns.",
  ["inputs", "histories"], "every shape up to three dimensions with arbitrary lower bounds, every index/slice, every row width and key",
  "Tests check a few shapes; boundary indexes, empty arrays, shifted bounds and ragged nests are combinatorial.",
  [R+"types/__init__.py"],
  [("Array construction and item access", "types/__init__.py Array"), ("Row access", "types/__init__.py Row")],
  None, ["Array attributes and items", "Row access results"])

p("P19", "Editing a configuration file changes exactly the requested settings",
  "After setting, changing or removing settings in a server configuration file, parsing the file gives the requested values for those settings and unchanged values for all others; every comment and unrelated line is preserved in place. Values that need quoting are quoted so that the server reads back the same value, and the dictionary-like view agrees with the file before and after every operation.",
  ["inputs", "histories"], "every file made of active, commented, duplicate, oddly spaced and unrelated lines, every sequence of get/set/delete/update",
  "The tests alter a few lines of a single sample file.",
  [R+"configfile.py"],
  [("line classification and rewriting", "configfile.py parse_line/alter_config/ConfigFile")],
  None, ["file contents", "mapping access"])

p("P20", "Connection parameters resolve by documented precedence without distortion",
  "Parameters collected from defaults, environment, service files, command-line options and explicit values follow the documented precedence, and the password file supplies the password of the first line matching host, port, database and user, honouring wildcards and escapes. A connection locator parsed into parameters and serialized again denotes the same parameters for every character in every component.",
  ["configurations", "inputs"], "every subset of sources defining each parameter, every password file, every component string including reserved and escaped characters",
  "Tests cover a few locators and no precedence combinations or escapes.",
  [R+"clientparameters.py", R+"pgpassfile.py", R+"iri.py", R+"resolved/riparse.py", R+"__init__.py"],
  [("normalization and merge", "clientparameters.py collect/normalize"), ("first match lookup", "pgpassfile.py"), ("escape/unescape", "resolved/riparse.py, iri.py")],
  None, ["parameter dictionaries", "locator strings"])

p("P21", "SQL text is quoted and split without changing its meaning",
  "Quoting any string as a literal or identifier yields text that the server reads back as exactly that string. Splitting SQL text separates it precisely at statement terminators that lie outside literals, quoted identifiers, comments and dollar-quoted bodies, and joining the pieces restores the text. Qualified names split into their parts and join back unchanged.",
  ["inputs"], "every string over the quoting-relevant alphabet, every nesting of quoting constructs",
  "Tests use a few sample strings; adversarial combinations of quote characters, dollar tags and comments are unbounded.",
  [R+"string.py", R+"driver/pq3.py"],
  [("tokenizing regular expressions", "string.py split/split_sql/split_ident/quote_*")],
  None, ["return values of the quoting and splitting functions", "server's reading of the quoted text"])

p("P22", "Server errors map to the most specific exception with all their fields",
  "Every error or warning code maps to the class declared for it, else to its code class, else to the general error or warning, and the raised exception carries the code, message and every detail field the server sent, whatever their encoding. After a statement error the same connection keeps working, and the exception names the object that caused it.",
  ["inputs", "histories"], "every five-character code, every combination of fields, undecodable bytes, errors in each kind of operation",
  "Tests look up a few codes and raise a few errors.",
  [R+"exceptions.py", R+"driver/pq3.py", R+"message.py", R+"protocol/element3.py"],
  [("code lookup", "exceptions.py code_lookup"), ("decoding and raising", "driver/pq3.py raise_server_error/_decode_failsafe")],
  None, ["exception type and attributes"])

p("P23", "Server processes are controlled according to their actual state",
  "For every history of creating, starting, stopping, restarting, killing and dropping a database cluster through the control interface, reported state (initialized, running, process id, readiness) matches the real process and files, repeated or out-of-order commands are harmless or refused with an error, and waiting returns only when the awaited state is reached or the timeout expires. Shutting down and killing act only on the process of that cluster, including when it has died or left a stale lock file.",
  ["histories", "crash_points", "fault_sequences"], "every bounded history of control operations interleaved with external crashes, stale or partial pid files and slow starts",
  "Tests run one start/stop cycle; crashes and stale files at arbitrary points are not covered.",
  [R+"cluster.py", R+"temporal.py", R+"installation.py"],
  [("pid file and child process tracking", "cluster.py Cluster")],
  None, ["signals sent", "running()/ready_for_connections()", "raised errors"])

p("P24", "SQL libraries load each symbol with its declared meaning",
  "Loading a library text gives exactly the symbols declared in it, each with its declared source, type and execution method, and calling a bound symbol returns what executing its source directly in that way returns. Preloaded, constant, transient and procedure symbols are evaluated at their declared time and as often as declared, and binding to one connection does not affect another.",
  ["inputs", "histories"], "every library text within a bounded grammar of sections, annotations and symbol types; every call sequence on bound symbols",
  "Tests load a single small library.",
  [R+"lib/__init__.py", R+"lib/libsys.sql"],
  [("section parsing", "lib/__init__.py ILF"), ("binding", "lib/__init__.py Binding/BoundSymbol")],
  None, ["symbol set and attributes", "results of bound calls", "prepared statements on the wire"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
