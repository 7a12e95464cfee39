#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text stays readable).
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

p("C01","String commands behave as an exact key to value map",
 "For every sequence of SET, GET, MSET, MGET, EXISTS, STRLEN, APPEND, INCR, INCRBY, DECR, DECRBY and GETRANGE, each reply and each later read equals that of one map from byte-string keys to byte-string values. Values are binary safe, signed 64-bit arithmetic never wraps silently (an operation that would overflow is refused), and a refused command changes nothing.",
 ["inputs","histories"],"every sequence of string commands over any keys and values, including empty, binary, numeric and boundary-integer values",
 "No test executes a command; the string tests only sample single operations on one container, never sequences or boundary integers.",
 ["pkg/command/global.go","pkg/container/string_map.go","pkg/container/string.go","pkg/container/int_variant.go","pkg/db/db.go"],
 [("command execution","pkg/command/global.go"),("string map","pkg/container/string_map.go"),("integer view kept in step with the text","pkg/container/string.go")],
 [("string map","every string key and its value","simpleStringMap.container")],["command results","later reads"])
p("C02","List commands behave as an exact sequence",
 "For every sequence of LPUSH, RPUSH, LPOP, RPOP, LINDEX, LINSERT, LLEN, LRANGE, LTRIM, LREM and LSET, each reply and the content read afterwards equal those of one finite sequence of byte strings per key, whatever the elements' contents and whichever positions, negative indexes and counts are used. The reported length always equals the number of elements an end-to-end read returns.",
 ["inputs","histories"],"every sequence of list commands, with any element values, indexes and counts (including extreme ones)",
 "The list tests cover a handful of fixed calls; defects need particular element values, counts or operation orders on the linked structure.",
 ["pkg/command/list.go","pkg/container/list.go","pkg/util/index.go"],
 [("doubly linked list with sentinels","pkg/container/list.go"),("index resolution","pkg/util/index.go")],
 [("list","ordered elements and cached size","linkedList")],["command results","LRANGE 0 -1","LLEN"])
p("C03","Hash commands behave as an exact field to value map",
 "For every sequence of HSET, HGET, HMGET, HDEL, HEXISTS, HKEYS, HVALS, HGETALL, HSTRLEN and HLEN, each reply equals that of one map from field to value per key. Multi-field commands apply to exactly the fields given, and enumerations list every present field exactly once, each with its own value.",
 ["inputs","histories"],"every sequence of hash commands over any fields and values",
 "The hash tests exercise single container calls on a few fixed fields; no test runs the commands or arbitrary sequences.",
 ["pkg/command/hash.go","pkg/container/hash.go"],[("hash container","pkg/container/hash.go")],
 [("hash","fields and values of one key","hashContainer")],["command results"])
p("C04","Set commands behave as an exact mathematical set",
 "For every sequence of SADD, SREM, SISMEMBER, SMEMBERS, SCARD, SDIFF, SINTER, SUNION, SPOP and SRANDMEMBER, each reply equals that of one set of byte strings per key, and no command changes a set other than by its defined effect. SPOP returns and removes only current members, SRANDMEMBER returns only current members and changes nothing, and both honour the count rules, for every outcome of the random source.",
 ["inputs","histories"],"every sequence of set commands, every random outcome, any number of operand sets (missing, empty, repeated)",
 "Set tests check fixed small examples with an uncontrolled random source and never run the commands.",
 ["pkg/command/set.go","pkg/container/set.go"],[("set algebra","pkg/container/set.go"),("random selection","pkg/container/set.go")],
 [("set","members of one key","setContainer")],["command results"])
p("C05","Data types and keys are isolated; reads and refused commands change nothing",
 "A command changes nothing except the object it names of the data type it belongs to: other keys, and objects of the other data types under the same name, keep their content. A read-only command or a refused command leaves every observable value as it was, and no reply ever aliases data that a later command mutates.",
 ["inputs","histories"],"every sequence of commands of all four data types over shared key names",
 "Every unit test touches a single container; interference between keys, types and commands is never sampled.",
 ["pkg/db/db.go","pkg/container/container.go","pkg/command/"],[("per-type key spaces","pkg/container/container.go"),("access object resolution","pkg/db/db.go")],
 [("containers","key spaces of all data types","containers")],["all read commands before and after each command"])
p("C06","Every request gets exactly one well-formed reply and none stops the server",
 "Whatever RESP value a client sends as a request - any command name, letter case, arity, argument type or content, well formed or not - it receives exactly one reply, the reply is exactly one well-formed RESP value, and the server keeps serving afterwards. Requests that are not a valid command are answered with an error reply.",
 ["inputs","histories"],"every request value, in every database state, alone and followed by further requests",
 "No test sends a request to the engine or to the server at all.",
 ["pkg/db/engine.go","pkg/command/","pkg/network/server.go","pkg/protocol/resp.go"],[("error mapping","pkg/db/engine.go handleError"),("argument validation","pkg/command ParseArguments")],
 [],["reply stream of a client connection"])
p("C07","RESP encoding round-trips and is independent of how bytes arrive",
 "Every RESP value the system can build encodes to bytes that decode to an equal value, including binary bulk strings, nulls, empty values and nested arrays. A stream of encoded values decodes to exactly that sequence of values, each consuming exactly its own bytes, however the bytes are split across reads.",
 ["inputs"],"every RESP value up to a size and nesting bound, every concatenation of values and every split of the byte stream",
 "Tests decode a handful of literals from one contiguous reader; splits, buffer boundaries and concatenations are not sampled.",
 ["pkg/protocol/reader.go","pkg/protocol/resp.go"],[("incremental reader","pkg/protocol/reader.go"),("encoders","pkg/protocol/resp.go")],
 [],["protocol parse result","bytes left in the stream"])
p("C08","The RESP reader is total: arbitrary bytes yield a value or an error",
 "For every byte sequence the reader terminates with a value or an error: it never crashes, never loops forever, and never returns a value for a strict prefix of an encoding. Sizes and integers that are malformed or out of range are rejected with an error rather than misread.",
 ["inputs","fault_sequences"],"every byte string up to a length bound over the protocol alphabet, every truncation and read failure point of valid encodings",
 "Tests sample about twenty malformed literals; crashes need particular lengths or truncations.",
 ["pkg/protocol/reader.go"],[("length and token validation","pkg/protocol/reader.go")],[],["parse result"])
p("C09","Log records round-trip and any truncated stream yields a prefix of records",
 "Encoding any sequence of log records and decoding the bytes returns the same records in order, however the stream is split across reads, including records whose strings are empty, binary or large. Decoding any byte prefix of such a stream returns exactly the records completely contained in it, reports an error if and only if the prefix ends inside a record, and never crashes.",
 ["inputs","crash_points"],"every sequence of records from the record grammar and every byte-length truncation",
 "The log package has no test.",
 ["pkg/log/log.go","pkg/util/util.go"],[("length-prefixed framing","pkg/log/log.go PackLog/ParseLog")],[],["decoded records and error"])
p("C10","A clean restart restores exactly the acknowledged data",
 "After any sequence of commands, a graceful stop and a restart on the same database file, every read, also that of a client that is there before the server has finished starting, returns what it returned before the stop, over any number of stop and restart cycles. Restoring adds nothing to the file and answers no client.",
 ["histories","inputs"],"every command history (all data types, any contents) with stop and restart at every position",
 "No test starts the engine, writes a log or restarts from one.",
 ["pkg/db/engine.go","pkg/log/log.go","pkg/log/persistent.go","pkg/network/server.go","pkg/command/"],
 [("log of modifying commands","pkg/db/engine.go writeLog"),("replay","pkg/db/engine.go BuildFromLog"),("flush on stop","pkg/db/engine.go Stop")],
 [("database file","log of modifying commands","server.fromFile")],["reads after restart"])
p("C11","After a crash at any point the recovered data is a prefix of the history",
 "If the process dies at any moment, including in the middle of a file write, a restart on the surviving file succeeds and yields the data produced by some prefix of the executed modifying commands, in order. Service then continues normally: whatever is executed after the recovery is itself preserved by later stops, crashes and restarts, under the same rule.",
 ["crash_points","histories"],"every command history, every byte length of the surviving file, and repeated crash-recover-continue cycles",
 "No test crashes, truncates or re-reads a database file.",
 ["pkg/log/log.go","pkg/log/persistent.go","pkg/network/server.go","pkg/db/engine.go"],
 [("tolerant log parsing","pkg/log/log.go ParseLog"),("open for append and replay","pkg/network/server.go fromFile")],
 [("database file","possibly torn log","server.fromFile")],["reads after recovery"])
p("C12","The log order is the execution order under every schedule",
 "For every interleaving of the server's concurrent activities, the sequence of modifying commands in the database file equals the sequence in which they were executed, with none missing, duplicated, torn or interleaved. Replaying the file therefore reproduces the live data.",
 ["schedules"],"all interleavings (up to a deviation bound) of several pipelined modifying requests with logging, flushing and shutdown",
 "No test runs the engine; ordering depends on goroutine scheduling that a test cannot control.",
 ["pkg/db/engine.go","pkg/log/persistent.go"],[("log append in request processing","pkg/db/engine.go handleRequest/writeLog")],
 [("log order","order of records in the database file","engine.file")],["database file versus observed replies"])
p("C13","A replica that completes its sync holds exactly the master's data",
 "A replica that syncs from a master ends with every read equal to the master's at the moment of the sync, for any master history. If the transfer is cut at any byte or fails at any point, the replica applies nothing from it and still serves its own data. It answers its clients only when that is settled, however slow the master is.",
 ["inputs","fault_sequences","histories"],"every master history and every cut, split or failure position of the transfer stream",
 "The replication package has no test.",
 ["pkg/replication/master.go","pkg/replication/replica.go","pkg/network/server.go"],[("length-prefixed snapshot","pkg/replication/master.go handleConn"),("all-or-nothing receive","pkg/replication/replica.go Receive")],
 [],["replica reads after sync"])
p("C14","Replication is safe while commands run, with several replicas and on stop",
 "Under every interleaving of replica syncs with running commands, other syncs and shutdown, each completed sync delivers a prefix-consistent snapshot that contains every command acknowledged before the sync began, and each connection is closed with temporary files and descriptors released. Stopping terminates, stops accepting replicas and leaves no sync hanging.",
 ["schedules","fault_sequences"],"all interleavings (up to a bound) of syncs, commands, failures and stop",
 "No test runs a master; the outcome depends on scheduling and on failures at particular calls.",
 ["pkg/replication/master.go","pkg/log/persistent.go"],[("snapshot by flush and copy","pkg/replication/master.go handleConn"),("connection registry","pkg/replication/master.go conn/mutex")],
 [("sync connections","live replica transfers","master.conn")],["stream received by each replica","open files and connections"])
p("C15","A future has exactly one outcome, seen identically by everyone",
 "Under every schedule a future either delivers its task's result and error or is cancelled, never both: every getter and waiter sees that one outcome, exactly one cancellation succeeds and it succeeds only if no one ever sees the result, and later cancellations report why they failed. Waiting with a limit reports a timeout only if no outcome existed before the limit passed, nothing waits forever once an outcome exists, and no use crashes.",
 ["schedules"],"all interleavings of task completion, any number of cancels, getters, waiters and timed waiters",
 "Tests use sleeps to produce one timing of each operation; racing operations are not sampled.",
 ["pkg/concurrency/future.go","pkg/concurrency/task.go"],[("done and cancel channels","pkg/concurrency/future.go")],
 [("outcome","pending, done or cancelled","future")],["return values of Cancel, Get, Wait, WaitFor"])
p("C16","A data channel delivers each event once, in order, and closing is final",
 "Under every schedule, an event whose send reports success is received at most once and in its sender's order, an event whose send reports closed or expired is never received, and at most the buffer size of successful sends is pending. Once closing has completed every later send reports closed and every later receive reports the closed error, no send or receive blocks forever after it, closing repeatedly is harmless, and a send reports expiry only after its time limit.",
 ["schedules"],"all interleavings of several senders, a receiver and closers, with and without a buffer, with any expiry",
 "Tests exercise one timing of send, receive and close.",
 ["pkg/concurrency/data_channel.go"],[("close channel and expiry timer","pkg/concurrency/data_channel.go")],
 [("channel","pending events and closed flag","receiver/sender")],["send status","received events"])
p("C17","Publishing reaches every current subscriber exactly once and counts correctly",
 "Under every schedule, publishing delivers the event exactly once to every subscriber that stays subscribed and receives in time, never to an unsubscribed one, and its result is exactly the number of successful deliveries. A slow, closed or re-subscribing subscriber does not disturb the others or lose its new subscription, and removing a topic delivers the removal notice to every ready subscriber. A subscriber that was merely slow stays subscribed.",
 ["schedules"],"all interleavings of publishers, subscribers, closes, re-subscriptions under one name and topic removal",
 "Tests publish to a few idle subscribers with one timing.",
 ["pkg/concurrency/topic.go"],[("fan-out and cleanup of closed subscribers","pkg/concurrency/topic.go distributeEvent")],
 [("subscribers","live senders by name","topic.subscribers")],["received events","publish result"])
p("C18","The event bus keeps a consistent set of topics under concurrency",
 "Creating, removing, looking up, publishing to and subscribing to topics concurrently behaves as if each happened at one instant: a topic is created by exactly one of several creators, removed by exactly one remover, and using a missing topic reports that. All users share one bus, events carry the topic, source, data and error they were published with, and no operation deadlocks.",
 ["schedules"],"all interleavings of topic operations from several goroutines",
 "Tests call the bus sequentially from one goroutine.",
 ["pkg/concurrency/event_bus.go"],[("topic table lock","pkg/concurrency/event_bus.go mutex")],
 [("topics","topics by name","eventBus.topics")],["return values","received events"])
p("C19","A broadcast value releases every waiter with the value set",
 "Every getter, whether it starts before or after the value is set, returns, and returns the value that was set (nil included); no getter returns before a value is set. Setting more than once never crashes and getters then return one of the set values.",
 ["schedules"],"all interleavings of any number of getters and setters",
 "Tests use a fixed order enforced by sleeps.",
 ["pkg/concurrency/broadcast.go"],[("ready channel","pkg/concurrency/broadcast.go")],[],["values returned"])
p("C20","The concurrent data maps are linearizable and free of data races",
 "Every concurrent history of operations on a locked or sync data map is equivalent to a sequential history of one map, and no execution has a data race. Whenever no operation is in progress the reported length equals the number of present keys; the plain, locked and sync maps agree on every sequential history.",
 ["schedules","histories"],"all interleavings of Set, Get, Has, Remove, Len from several goroutines; all sequential histories up to a depth",
 "Tests check sequences and final counts of one run; interleavings are not controlled.",
 ["pkg/types/data_map.go"],[("locking and size counter","pkg/types/data_map.go")],[("size","number of keys","syncDataMap.size")],["operation results"])
p("C21","A client connection is read, expires and closes exactly once, without hanging",
 "Under every schedule of reads, writes, expiry, peer close and explicit close, a connection is closed exactly once, every operation returns instead of hanging, and operations after the close report that it is closed. A connection expires only when no operation happened for its idle limit, then does expire, and bytes of a write appear whole and in order on the wire.",
 ["schedules","fault_sequences"],"all interleavings of reader, writer, closer, peer and idle timer, with network failures at any call",
 "The network package has no test.",
 ["pkg/network/conn.go"],[("idle timer worker","pkg/network/conn.go startExpireWorker"),("closed flag","pkg/network/conn.go Close")],
 [("connection","open or closed, idle deadline","conn")],["results of Read, Write, Close","bytes and close seen by the peer"])
p("C22","Clients get their replies in request order and commands execute atomically",
 "Provided internal hand-offs stay within their time limits, every client of a running server receives exactly one reply per request, in the order it sent them, and never another client's reply, however requests are pipelined or clients interleave, join and leave. All replies together are explained by executing the commands one at a time in an order that respects each client's order and real time.",
 ["schedules","histories"],"all interleavings (up to a deviation bound) of several clients' pipelined requests, disconnections and byte splits",
 "No test runs the server.",
 ["pkg/network/server.go","pkg/network/conn.go","pkg/db/engine.go","pkg/concurrency/"],[("request and response topics","pkg/network/server.go, pkg/db/engine.go")],
 [("clients","connections by id","server.clients")],["reply streams"])
p("C23","A graceful stop terminates, closes everything and keeps acknowledged writes",
 "Stopping the server, by call or by signal, at any moment, under every schedule, and any number of times, terminates: serving returns, clients are disconnected, and both listening ports stop accepting. Once serving has returned, every acknowledged modification is in the database file as a complete record; this holds with and without a database file or replication, and nothing crashes.",
 ["schedules","configurations"],"all interleavings (up to a bound) of stop requests with traffic, joins and other stops; every configuration of file and replication",
 "No test starts or stops a server.",
 ["pkg/network/server.go","pkg/db/engine.go","pkg/replication/master.go"],[("stop sequence","pkg/network/server.go stop")],
 [("shutdown flag","server lifecycle","server.shutdown")],["Serve returning","file content at that moment","client and listener state"])
p("C24","Index and range resolution follows its documented rules for all integers",
 "For every length and every pair of 64-bit integers, a resolved index is the addressed position if it exists and otherwise reported invalid, negative positions counting from the end. A resolved range is invalid if its start is outside the sequence, its end lies before the sequence, or start exceeds end; otherwise it is clipped to the end and always lies inside the sequence.",
 ["inputs"],"every length up to a bound and every boundary and small integer, including the extreme 64-bit values",
 "Tests check a few dozen tuples.",
 ["pkg/util/index.go"],[("resolution","pkg/util/index.go")],[],["Resolve and ResolveRaw results"])
p("C26","String ordering, equality and numeric views are consistent",
 "For all byte strings, the comparison returns 0 exactly for equal strings, its sign is a total lexicographic order, and for strings that differ at a common position its magnitude is that position counted from one. A string object's text, bytes, length, hash, equality and integer view always describe the same value, also after any sequence of increments and appends.",
 ["inputs","histories"],"all pairs and triples of strings up to a length bound; all operation sequences on a string object up to a depth",
 "Tests sample a few pairs and single operations.",
 ["pkg/util/util.go","pkg/container/string.go","pkg/container/int_variant.go"],[("comparison","pkg/util/util.go LexicalCompare"),("string object","pkg/container/string.go")],[],["return values"])
p("C27","The client sends exactly what was typed and prints replies unambiguously",
 "Every input line is turned into one well-formed command array whose arguments are exactly the space-separated words and quoted strings typed, in order, and a line with an unterminated quote is refused rather than sent altered. Every reply value is rendered without crashing, with its content, order and kind (text, null, integer, error, list) preserved.",
 ["inputs"],"every input line up to a length bound over letters, spaces and quotes; every reply value up to a nesting bound",
 "The client has no test.",
 ["cmd/client/internal/codec.go"],[("line parser and formatter","cmd/client/internal/codec.go")],[],["FormatInput and FormatOutput results"])
p("C28","A pipeline runs its steps in order and stops at the first failure",
 "For every list of steps, a run passes each step the previous step's output in the order added, each exactly once, and stops at the first failing step, returning that step's output and error; with no failure it returns the last output, and with no steps the input. Runs are independent and repeatable, also when a pipeline is extended between runs or run concurrently.",
 ["inputs","histories","schedules"],"every sequence of succeeding and failing steps up to a length, every build order and repeated or concurrent runs",
 "Tests run two fixed pipelines.",
 ["pkg/util/pipeline.go"],[("handler loop","pkg/util/pipeline.go Run")],[],["outputs and call order"])
p("C29","Concurrent writes to the persistent file stay whole and flushing is complete",
 "Under every schedule of writers and flushers, the file's content is at all times a byte prefix of one concatenation of whole writes in an order consistent with real time, no two writes interleave, and no execution has a data race. After a flush returns success every write that returned before it is in the file, buffered and available sizes are consistent, and a failing file is reported as an error, not as success.",
 ["schedules","fault_sequences"],"all interleavings of Write, WriteString, WriteByte, Flush and size queries from several goroutines, with record sizes around the buffer size and failing file writes",
 "The log package has no test.",
 ["pkg/log/persistent.go"],[("lock around a buffered writer","pkg/log/persistent.go")],[("buffer","bytes not yet in the file","PersistentFile.writer")],["file content","return values"])
p("C25","Clients and replicas that have left leave nothing behind",
 "However a client or a replica leaves - closing, resetting or half-closing its connection, expiring, or sending a stream that is not RESP, with requests unfinished, replies or the log unread - the server then keeps nothing of it, under every schedule: its connection and its temporary file are gone, no goroutine serves it anymore, and what the server holds in memory does not grow with the number of them that have come and gone. Clients that come later are served as usual.",
 ["schedules","histories"],"all ways of leaving, alone and combined, under all interleavings up to a bound, any number of clients in turn",
 "No test connects a client to a server; leaks show only after many connections and on particular ways and moments of leaving.",
 ["pkg/network/server.go","pkg/network/conn.go","pkg/replication/master.go"],[("registry of clients","pkg/network/server.go newConn/responseWorker"),("closing","pkg/network/conn.go Close"),("registry of replicas","pkg/replication/master.go handleConn")],
 [("clients","connections by id","server.clients"),("replicas","connections by address","master.conn")],["open connections","goroutines","memory reachable from the server"])
p("C30","A sorted set keeps its members in order of score with exact ranks",
 "For every sequence of Add, Del, IncreaseBy, PopMin, PopMax, Score, Rank and Len, and whatever levels the random source gives to new members, a sorted set behaves as one finite map from members to scores, ordered by score and then by the members' bytes: ranks count from 0 in that order, the minimum and maximum popped are its ends, and Score and Len agree with it. A member that is already there is never duplicated, and a refused operation changes nothing.",
 ["inputs","histories"],"every sequence of operations over any members and scores (NaN excluded), and every outcome of the random levels",
 "The sorted set has no test; its skip list goes wrong only for particular orders of operations and levels.",
 ["pkg/container/sorted_set.go"],[("skip list with spans","pkg/container/sorted_set.go")],[("skip list","members in order, on several levels","skipList")],["operation results"])
p("C31","A disk that fails damages nothing that is stored",
 "Whatever use of the database file fails - opening, reading, writing after any part of the bytes, cutting, looking at its size - once, twice or from then on, the server neither crashes nor hangs, and every complete record that was in the file stays there. Failures after the start change no reply. A restart on a healthy disk then restores the data of some prefix of the executed modifying commands, and service goes on as usual.",
 ["fault_sequences","histories"],"every command history up to a bound, on a new, a filled and a torn file, every use of the disk failing, writes after every part of their bytes, once and for ever",
 "No test makes a file operation fail.",
 ["pkg/network/server.go","pkg/log/persistent.go","pkg/db/engine.go","pkg/replication/master.go"],[("restore","pkg/network/server.go fromFile"),("buffered log","pkg/log/persistent.go")],
 [("database file","log of modifying commands","engine.file")],["file content","reads after a restart"])
p("C32","A client session sends each line once and prints its reply before the next",
 "Whatever lines are typed, of whatever length and however the input arrives and ends, the client program sends each line that is a command as exactly one request, waits for its reply however the network splits it, and prints it whole before the next prompt; a line that cannot be understood is reported and not sent. A line of quit or the end of the input ends the session normally. A server that is missing, leaves or sends a broken reply is reported, never shown as a reply, without hanging or crashing.",
 ["inputs","schedules","fault_sequences"],"every sequence of lines up to a bound, lines of every size around buffer boundaries, every sequence of whole, split, cut and broken answers, all schedules of program, keyboard and server",
 "The client program has no test.",
 ["cmd/client/main.go","cmd/client/internal/codec.go"],[("session loop","cmd/client/main.go main")],[],["standard output","requests on the wire","exit status"])
p("C33","The log gets exactly one correct line per call at or above its level",
 "Once the log is initialised, every call at or above the configured level adds exactly one line with its formatted message and its level behind what the file held, calls below it add nothing, and this holds under every schedule of concurrent callers, each caller's lines in its order, and when a write fails for all other lines. Error calls return that message as an error, wrapping what they are given; panic and fatal calls panic and exit also. Lines are synced within the period and at shutdown. No line of a running server shows a formatting mistake.",
 ["inputs","schedules","fault_sequences"],"every short sequence of calls in every mode and level, all interleavings of callers, time and shutdown up to a bound, failing writes",
 "The log has no test, and formatting mistakes in it are invisible to the compiler.",
 ["pkg/common/logging.go"],[("logger","pkg/common/logging.go")],[],["content of the log file","returned errors"])
p("C34","A configuration file sets exactly the options it names",
 "For every configuration file, parsing either sets exactly the options the file names to the values it gives and keeps the others as they were, whatever the order, spacing, comments and unknown entries, or, if the file is missing, unreadable, malformed or gives an option a value of another kind, returns an error. A new configuration has the documented defaults and shares nothing with others.",
 ["inputs"],"every subset of the options with several values each, orders and layouts; every kind of wrong value and malformed line; every cut of a file",
 "Configuration has no test.",
 ["pkg/common/config.go"],[("parsing","pkg/common/config.go Parse")],[],["parsed options","returned error"])
p("C35","What the client program was told is done outlives the server program",
 "The server program serves its clients and replicas on its two ports and keeps its data in its database file. For every sequence of sessions of the client program, with the server program stopped by a signal and started again anywhere between them, every command sees the effect of all earlier ones as if the server had never stopped, and both programs end normally. If either program is killed at any moment, the next session finds what some first part of the executed commands gives. A second server program started beside a running one reports failure and neither disturbs it nor its data.",
 ["histories","schedules"],"every sequence of sessions and restarts up to a bound, over commands of all types; all interleavings up to a bound",
 "No test runs either program.",
 ["cmd/server/main.go","cmd/client/main.go","pkg/network/server.go","pkg/db/engine.go"],[("programs","cmd/server/main.go, cmd/client/main.go")],
 [("database file","log of modifying commands","engine.file")],["output of the client program","ports","files"])
p("C36","Identifiers never repeat and random generators may be shared",
 "Every identifier the system generates - for events, log records, connections and temporary files - differs from every other one: under every schedule of those who ask, for any two different draws of the entropy source, and also while that source fails. Random generators may be obtained and the global one used from any goroutine: under every schedule there is one global generator, no data race and no crash, generators handed out are not seeded alike, and sorted sets used by different goroutines do not disturb each other.",
 ["schedules","fault_sequences"],"all interleavings of the callers up to a bound; every pair of draws that differ in one bit; every pattern of entropy failures up to a length",
 "Tests call these functions from one goroutine and with a working entropy source; replies are routed, and temporary files named, by identifiers.",
 ["pkg/util/uuid.go","pkg/util/random_provider.go","pkg/concurrency/event_bus.go","pkg/network/conn.go","pkg/log/log.go","pkg/container/sorted_set.go"],[("identifiers","pkg/util/uuid.go"),("random generators","pkg/util/random_provider.go")],
 [("global generator","the shared source","globalRand, source")],["identifiers returned","draws","data races"])
P.sort(key=lambda x:x["id"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
