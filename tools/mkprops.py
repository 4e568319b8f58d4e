#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe) or ["replies on a client connection"], hook_needed=None)))

DICT = ("dict", "key -> value of every live key", "memdb/memdb.go")
EXP = ("expires", "key -> unix second of its deadline", "memdb/memdb.go")

p("C01", "String commands follow their documented effect on every history",
  "For every sequence of string commands (SET with any valid options, GET, GETRANGE, SETRANGE, MGET, MSET, SETEX, SETNX, STRLEN, INCR, INCRBY, DECR, DECRBY, INCRBYFLOAT, APPEND) on keys of any type, every reply and every later observation of the keyspace equals what the Redis documentation of those commands prescribes. A value read back is byte for byte the value last written, arithmetic is exact 64-bit with overflow refused, and no string command changes a key it does not name.",
  ["histories", "inputs"], "all command sequences over a small key/value alphabet with boundary arguments, up to a depth, from every kind of initial key",
  "The tests call ten string executors on one or two hand-picked inputs each; they never combine commands, option sets, boundary indexes or wrong-typed keys.",
  ["memdb/strings.go"], [("one executor per command under the key's lock", "memdb/strings.go"), ("command table", "memdb/command.go")], [DICT, EXP])
p("C02", "Hash commands follow their documented effect on every history",
  "For every sequence of hash commands (HSET, HMSET, HSETNX, HGET, HMGET, HGETALL, HKEYS, HVALS, HLEN, HEXISTS, HSTRLEN, HDEL, HINCRBY, HINCRBYFLOAT, HRANDFIELD) every reply and every later observation equals what the Redis documentation prescribes for a field-to-value map. Field counts, added/removed counts, increments (exact, overflow refused) and the membership of random picks are exact; a hash whose last field is removed no longer exists.",
  ["histories", "inputs"], "all sequences of hash commands over a small field/value alphabet up to a depth, from empty, small and large hashes",
  "No test touches hash commands at all.",
  ["memdb/hash.go", "memdb/hash_struct.go"], [("hash executors", "memdb/hash.go"), ("map wrapper", "memdb/hash_struct.go")], [DICT])
p("C03", "List commands follow their documented effect on every history",
  "For every sequence of list commands (LPUSH, RPUSH, LPUSHX, RPUSHX, LPOP, RPOP, LLEN, LRANGE, LINDEX, LSET, LINSERT, LREM, LTRIM, LPOS, LMOVE) every reply and every later observation equals what the Redis documentation prescribes for an ordered sequence. Order is preserved, elements are neither lost nor duplicated, the reported length always equals the number of elements, reading from either end gives the same sequence, and an emptied list no longer exists.",
  ["histories", "inputs"], "all sequences of list commands with every index/count/rank/option combination in a range, up to a depth, from empty, small and longer lists",
  "Two tests call LREM and LPOS on a fixed list; the linked structure is never checked from both ends, nor are the other 13 commands.",
  ["memdb/list.go", "memdb/list_struct.go"], [("list executors", "memdb/list.go"), ("doubly linked list", "memdb/list_struct.go")], [DICT])
p("C04", "Set commands follow their documented effect on every history",
  "For every sequence of set commands (SADD, SREM, SCARD, SISMEMBER, SMEMBERS, SMOVE, SPOP, SRANDMEMBER, SINTER, SUNION, SDIFF and their STORE forms) every reply and every later observation equals what the Redis documentation prescribes for mathematical sets, missing keys counting as empty sets. Read-only set commands never change a stored set, STORE forms replace the destination by exactly the computed set (which is independent of the source sets from then on), and an emptied set no longer exists.",
  ["histories", "inputs"], "all sequences of set commands over a small member alphabet and three keys (aliases included), up to a depth",
  "Two tests call the difference helper on fixed sets; no set command is executed by any test.",
  ["memdb/set.go", "memdb/set_struct.go"], [("set executors", "memdb/set.go"), ("set algebra", "memdb/set_struct.go")], [DICT])
p("C05", "Keyspace commands and cross-type rules hold on every history",
  "For every sequence mixing all value types, DEL, EXISTS, TYPE, KEYS, RENAME (also onto itself or over another key) report and change exactly the set of existing keys; a key exists iff something was stored and not since removed, emptied, overwritten away or expired. A command applied to a key of another type is refused with an error (except those documented to overwrite or to answer null) and RENAME carries value, type and deadline to the new name while removing every trace of the old ones.",
  ["histories", "inputs"], "all sequences of keyspace commands mixed with creators/removers of each type over two or three keys, up to a depth",
  "The key tests check single calls on string keys set up directly in the internal maps; no test mixes types or chains operations.",
  ["memdb/keys.go", "memdb/memdb.go", "memdb/concurrentMap.go"], [("key executors", "memdb/keys.go"), ("segmented map", "memdb/concurrentMap.go")], [DICT, EXP])
p("C06", "KEYS returns exactly the keys matching the glob",
  "KEYS pattern returns each existing key matching the glob exactly once and no other key, where ? matches any one byte, * any (possibly empty) run of bytes, [abc] and [a-c] one byte of the class, [^...] one byte outside it, and any other byte itself. This holds for every pattern built from those forms and every key, including several stars, empty strings and arbitrary bytes, and evaluating any pattern whatsoever terminates without harming the server.",
  ["inputs"], "all patterns up to a length over an alphabet of literals and metacharacters against all keys up to a length",
  "The matcher test checks a couple of dozen pattern/key pairs; star followed by ? or [ and malformed classes are never tried.",
  ["util/util.go", "memdb/keys.go"], [("recursive glob matcher", "util/util.go"), ("KEYS", "memdb/keys.go")])
p("C07", "Keys live until their deadline, are gone after it, and TTL tells the truth",
  "A key given a lifetime (EXPIRE with its NX/XX/GT/LT conditions, SETEX, SET EX/PX/EXAT/PXAT) has as its deadline the clock second in which that lifetime ends; it is fully visible to every command until that second is past and invisible to every command from the next clock second on, as if it had never existed; TTL reports -2 for no key, -1 for no deadline and otherwise the remaining whole seconds. Only the commands documented to do so set, replace, remove or transfer a deadline (SET, SETEX, MSET, PERSIST, RENAME, DEL, STORE forms, emptying); all other writes keep it, and a key re-created after expiry or deletion never inherits an old deadline.",
  ["histories", "inputs"], "all sequences of lifetime commands, one representative of every other command and clock advances across every boundary, up to a depth",
  "Tests sleep on one or two keys; no test drives the clock across the boundary second or combines lifetimes with the other 60 commands.",
  ["memdb/memdb.go", "memdb/keys.go", "memdb/strings.go"], [("lazy expiry check at the start of every command", "memdb/memdb.go")], [DICT, EXP])
p("C08", "A refused or no-op command changes nothing",
  "Whenever a command is answered with an error (wrong type, wrong arity, bad number, unknown option, out of range, overflow, missing key) or reports that its condition was not met (NX/XX/SETNX/HSETNX/LPUSHX/RPUSHX/SMOVE of a non-member and the like), the keyspace afterwards - values, types, existing keys and deadlines - is exactly what it was before. Read-only commands never change anything either.",
  ["histories", "inputs"], "every command with every malformed/boundary argument list of a catalogue, from every reachable small state",
  "No test looks at the state after an error reply.",
  ["memdb/strings.go", "memdb/hash.go", "memdb/list.go", "memdb/set.go", "memdb/keys.go"], [("validate before mutate in each executor", "memdb/*.go")], [DICT, EXP])
p("C09", "Concurrent commands are atomic and linearizable",
  "For every interleaving of commands from concurrent clients, the replies and the final keyspace are those of some one-at-a-time execution of the same commands that respects each client's order and the real-time order of completed commands. This includes multi-key commands (MSET, MGET, DEL, EXISTS, RENAME, LMOVE, SMOVE, set algebra and STORE forms): nobody ever sees one half-done. KEYS is the only exception (see C13).",
  ["schedules"], "all interleavings (at lock, atomic and map-order points) of every pair of commands from every kind of initial state, plus directed programs with more clients and longer programs",
  "No test runs two goroutines.",
  ["memdb/locks.go", "memdb/strings.go", "memdb/keys.go", "memdb/set.go", "memdb/list.go", "memdb/hash.go"], [("per-key lock stripes, sorted multi-key locking", "memdb/locks.go"), ("segment locks", "memdb/concurrentMap.go")],
  [("locks", "striped read/write locks by key", "memdb/locks.go"), DICT, EXP])
p("C10", "No combination of client commands deadlocks or never returns",
  "Every command issued by any client eventually gets its reply whatever the other clients are doing concurrently: no interleaving of commands - including multi-key commands naming the same keys in different orders, the same key several times, or keys sharing internal locks, and lazy expiration - leaves a client waiting forever or a lock held after its command ended.",
  ["schedules", "inputs"], "all interleavings of pairs, and directed triples and quadruples, of commands over colliding and non-colliding keys in every argument order",
  "No test runs two goroutines or passes a key twice.",
  ["memdb/locks.go", "memdb/memdb.go"], [("sorted, de-duplicated lock acquisition", "memdb/locks.go"), ("deferred unlocks", "memdb/*.go")], [("locks", "striped read/write locks", "memdb/locks.go")])
p("C11", "The server is free of data races",
  "In every execution with any number of concurrent client connections no two threads access the same memory location without synchronisation when at least one writes it; in particular a reply being serialised is never affected by a later command, and connection set-up, SELECT, logging and key counting are race free.",
  ["schedules"], "happens-before race detection on every explored schedule of every pair of commands and of connection set-up/teardown",
  "The tests are single threaded and are not run with the race detector.",
  ["memdb/concurrentMap.go", "memdb/locks.go", "memdb/memdb.go", "server/handler.go", "logger/logger.go"], [("per-key locks held while values are read or written", "memdb/*.go"), ("segment locks", "memdb/concurrentMap.go"), ("copy on reply", "resp/data.go")])
p("C12", "Lazy expiration never destroys a concurrent acknowledged write",
  "While a key's deadline passes and several clients touch it at once, every interleaving leaves results explainable by the key expiring once at its deadline: a value written (and acknowledged) after the deadline by any client is still there afterwards with its own lifetime, however many other clients were just discovering that the old value had expired. A lifetime extended or removed before the deadline is honoured by all clients.",
  ["schedules", "histories"], "all interleavings of pairs/triples of commands on a key that is expired, expiring (clock thread) or being given a new lifetime",
  "Nothing in the tests is concurrent, and expiry is only tested by sleeping.",
  ["memdb/memdb.go"], [("expiry re-check and removal under the key's lock", "memdb/memdb.go")], [DICT, EXP])
p("C13", "KEYS is safe and complete under concurrent writes",
  "Whatever other clients do while KEYS runs, its reply lists exactly once every matching key that existed during the whole call, lists no key that did not exist at any moment of the call, contains no fabricated, empty or duplicate entry, and the server neither crashes nor blocks. Counting of keys stays consistent afterwards.",
  ["schedules"], "all interleavings of KEYS with one and two concurrent writers that add, remove, rename, expire and overwrite keys",
  "No test runs KEYS concurrently with anything.",
  ["memdb/concurrentMap.go", "memdb/keys.go"], [("per segment snapshot under the segment lock", "memdb/concurrentMap.go")], [DICT])
p("C14", "Requests mean the same however their bytes arrive",
  "A stream of well-formed requests (RESP arrays of bulk strings) is executed identically however the network cuts it into pieces, however long the pauses between or within requests and however many requests are pipelined back to back: every argument - empty, containing CR, LF, NUL, non-UTF8 or protocol-like bytes, or long - reaches the command byte for byte, and values come back byte for byte in replies. Command names are recognised regardless of letter case.",
  ["inputs", "fault_sequences"], "all 1-, 2- and 3-way cuts and byte-at-a-time delivery of a catalogue of request streams over an adversarial byte alphabet",
  "The parser test feeds whole streams from memory only and with tame contents.",
  ["resp/parser.go", "server/handler.go", "resp/data.go"], [("length-prefixed reads", "resp/parser.go")])
p("C15", "Exactly one well-formed reply per request, in request order",
  "For every request sequence on a connection - pipelined or not, valid or erroneous, with any argument bytes in any position - the server sends back exactly one well-formed RESP reply per request, in the order of the requests, as a contiguous byte sequence, and without waiting for more input than the request itself; client-supplied bytes can never terminate a reply early or forge an additional one. A request that fails does not disturb the replies of those after it.",
  ["inputs", "histories"], "all sequences of catalogue requests up to a length, with adversarial bytes in every argument position of every command",
  "No test looks at the bytes on a connection.",
  ["server/handler.go", "resp/data.go"], [("one write per executed command", "server/handler.go"), ("reply serialisers", "resp/data.go")])
p("C16", "No input crashes, wedges or bloats the server",
  "Whatever bytes a client sends - arbitrary garbage, truncated or contradictory frames, absurd lengths or counts - and whatever arguments a command is given, the server process does not panic, hang or allocate memory far beyond what the request carries. A request whose frame is malformed (a length that is no number or below -1, an unknown type byte, a bulk string not ended by CRLF at its stated length) is not executed; a malformed stream at worst ends that one connection (the server closes it), all data stays intact and other connections keep being served.",
  ["inputs"], "all byte streams up to a length over a protocol alphabet, all mutations (deletion, substitution, insertion, truncation) of valid requests, and every command with extreme and malformed arguments at every arity",
  "The parser test covers a few malformed headers; no test sends a malformed request to the server or an extreme argument to a command.",
  ["resp/parser.go", "server/handler.go", "memdb/*.go", "util/util.go"], [("validation in the parser", "resp/parser.go"), ("argument validation in the executors", "memdb/*.go")])
p("C17", "Databases are disjoint and each connection has its own selection",
  "A connection starts in database 0, SELECT n (0 <= n < configured number of databases) switches that connection only, and any other argument is refused with an error leaving the selection as it was. Commands touch only the database selected on their own connection; equal key names in different databases are unrelated, and all connections that select the same database see the same data.",
  ["histories", "schedules", "configurations"], "all sequences of SELECT/write/read over two or three connections and databases up to a depth, every number of databases and connections of a list up to 300, and all interleavings of concurrent pairs",
  "No test uses SELECT or more than one connection.",
  ["server/handler.go"], [("database selection per connection", "server/handler.go")], [("selected database", "per-connection current database", "server/handler.go")])
p("C18", "Connection loss at any point is harmless and fully cleaned up",
  "If a client disappears at any byte of any request or reply (end of stream, reset, failed or partial write), every complete request received before is executed entirely and an incomplete one not at all, all resources held for the connection (threads, locks, the socket) are released, and every other connection continues to be served correctly.",
  ["crash_points", "fault_sequences"], "every read/write fault kind at every byte position of a catalogue of request streams, with a second connection probing before and after",
  "No test opens a connection.",
  ["server/handler.go", "resp/parser.go"], [("deferred close", "server/handler.go"), ("parser termination on error", "resp/parser.go")])
p("C19", "Behaviour does not depend on segment count or hash collisions",
  "The observable behaviour of every command sequence, sequential or concurrent, is the same for every valid number of segments and for every choice of key names up to renaming - whether keys share internal segments or locks or not, including when one command names several keys that collide.",
  ["configurations", "histories", "schedules"], "all command sequences up to a depth run in lock step on servers with 1, 2, 3 and 100 segments and with colliding and non-colliding key names",
  "The tests fix one segment count and do not look at collisions.",
  ["memdb/concurrentMap.go", "memdb/locks.go", "util/util.go"], [("hash to segment", "memdb/concurrentMap.go"), ("hash to lock stripe", "memdb/locks.go")])
p("C20", "Configuration files mean what they say, and loading always terminates",
  "Loading any configuration file terminates: either every recognised line (host, port, logdir, loglevel, segnum, dbnum; name case-insensitive, any surrounding white space, blank lines, any order, with or without a final newline, later lines overriding earlier) takes effect exactly as written and unmentioned settings keep their previous values, or - for a missing value, a bad host, a non-numeric or out-of-range number - an error is returned. It never crashes or loops.",
  ["inputs", "configurations"], "all files of up to a few lines built from a line alphabet (valid, blank, comment, malformed) with every line-ending variant",
  "The one configuration test loads one fixed file (and fails in this environment).",
  ["config/config.go"], [("line parser", "config/config.go")])
p("C21", "The server program serves the documented commands to real clients",
  "Started as a program with flags or a configuration file, the server listens on the configured address, answers every command of the documented command table on every connection, lets all connections share data according to their selected database, honours the configured number of databases and segments, keeps serving when clients misbehave or leave, exits cleanly on SIGTERM or SIGINT, and ends at once with a non-zero status and a message, not a crash, when its flags, configuration file, log directory or address cannot be used.",
  ["configurations", "histories"], "all flag/config-file configurations of a grid, each with the complete command table, several connections and every order of connect/command/disconnect up to a bound",
  "No test starts the program.",
  ["main.go", "server/server.go", "config/config.go", "logger/logger.go"], [("accept loop", "server/server.go"), ("command registration", "main.go")])
p("C22", "Logging never changes or stops service and filters by level",
  "At every configured log level exactly the messages at or above that level are written, each as one whole line carrying its level, also when several connections log at once, a missing log directory is created, and a restart adds to the log without losing earlier messages; and no log message, whatever client bytes it carries, alters replies, blocks or stops the server.",
  ["inputs", "schedules", "configurations"], "all levels x all message levels, and all interleavings of two or three logging threads",
  "The logger has no test.",
  ["logger/logger.go"], [("level filter and mutex", "logger/logger.go")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
