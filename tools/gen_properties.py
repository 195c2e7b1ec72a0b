import json
A="app/roster/src/application/server/"
D="app/roster/src/domain/"
I="app/roster/src/infrastructure/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)
    if state: anchors["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=anchors))

p("P01","SET and GET on shared keys are linearizable across all connections",
 "Every SET and GET takes effect atomically at one point between its request and its reply, in an order consistent with a single key-value map, whatever connections, server threads and expirations are involved; requests of one connection take effect in their order. In particular an acknowledged SET is never lost: once SET was answered OK, every later GET returns that value until another SET overwrites it or its own time to live passes, and a GET never returns a value, or a mixture of values, that no SET stored under that key.",
 ["schedules","histories"],"all interleavings of concurrent SET/GET/expiring commands from several connections on several threads, up to a preemption bound",
 "tests run one client at a time on a lightly loaded server; lost updates need two threads inside the store at the same instant",
 [D+"storage/mod.rs",A+"cmd/set.rs",A+"cmd/get.rs"],
 [("upsert of a key",D+"storage/mod.rs: StorageSegment::set_async"),("lookup with lazy removal of expired values",D+"storage/mod.rs: StorageSegment::get_async")],
 ["replies on client sockets"],[("db","the map shared by all threads",D+"storage/mod.rs")])
p("P02","Stored values are returned byte for byte and keys never interfere",
 "For every sequence of SET and GET commands, GET answers exactly the bytes most recently stored under exactly that key, and nil for a key never stored. This holds for every key (including keys that share prefixes, differ only in case, or contain spaces, NUL or line breaks) and for every value: empty, binary, non UTF-8, containing CRLF, or far larger than any internal buffer, read from any connection on any thread.",
 ["programs","inputs"],"all command sequences up to a depth over adversarial key and value alphabets, and all value sizes around buffer boundaries",
 "unit tests set one short ASCII value; errors live in overwrites, in boundary sizes and in odd bytes",
 [D+"storage/mod.rs",A+"cmd/set.rs",A+"cmd/get.rs",A+"frame/mod.rs",A+"frame/write.rs",A+"connection.rs"],
 [("store and fetch",D+"storage/mod.rs"),("bulk decoding and encoding",A+"frame/mod.rs, "+A+"frame/write.rs")],
 ["replies on client sockets"])
p("P03","Keys with a time to live vanish when it passes, never before",
 "A key stored with SET .. EX s or PX ms is returned by every GET issued before s seconds (ms milliseconds) have passed since it was stored and answers nil to every GET issued later, on every connection. A later SET replaces the value together with its time to live: without an option the key no longer expires. A SET whose time to live is zero, not a number, or too large to be represented is refused without changing the key; one of more than ten years may be accepted or refused.",
 ["histories","inputs"],"all sequences of SET, SET EX, SET PX, GET and clock steps up to a depth, over small, boundary and huge times to live",
 "tests sleep for real time around one value; overwrites, reads just around the deadline and overflowing durations are not sampled",
 [D+"storage/mod.rs",A+"cmd/set.rs",A+"context.rs"],
 [("deadline computation",A+"cmd/set.rs: Set::apply, Set::parse_frames"),("expiry test",D+"storage/mod.rs: get_async"),("clock",A+"context.rs: Context::now")],
 ["replies on client sockets under a controlled clock"])
p("P04","Requests are understood however TCP segments them",
 "The replies to a byte stream of requests depend only on its bytes, never on how the stream is cut into segments or when they arrive: a request split at any byte boundary, several requests in one segment, and requests far larger than the read buffer are all answered as if each had arrived whole. A request that is not complete yet is never executed and never answered.",
 ["inputs","schedules"],"all ways to cut a request stream into up to k+1 segments, at every byte position, plus byte-by-byte delivery, interleaved with other connections",
 "tests on loopback send each small request in one segment",
 [A+"connection.rs",A+"frame/mod.rs",A+"handle.rs"],
 [("read buffering",A+"connection.rs: ReadConnection::read_frame"),("completeness test",A+"frame/mod.rs: Frame::check")],
 ["replies on client sockets"],[("buffer","bytes read and not yet parsed",A+"connection.rs")])
p("P05","Every request gets exactly one reply, in order, on its connection",
 "On each connection the k-th reply answers the k-th request: replies are neither lost, duplicated, reordered nor delivered to another connection, for any pipelining depth, any number of connections per thread and any interleaving of arrivals, completions and partial writes. Every complete request is eventually answered as long as the client keeps reading, no matter what other connections do.",
 ["schedules","programs"],"all orders of arrivals, I/O completions and short writes within stated bounds, for pipelines of mixed commands on several connections",
 "tests await each reply before the next request on a single connection",
 [A+"handle.rs",A+"connection.rs",A+"server_thread.rs"],
 [("reading and answering tasks joined by a queue",A+"handle.rs: run_internal"),("accept loop",A+"server_thread.rs")],
 ["replies on client sockets"],[("channel","frames read and not yet answered",A+"handle.rs")])
p("P06","Frame checking and parsing agree with the RESP grammar on every input",
 "For every byte string, checking reports complete exactly when the string starts with one complete well-formed frame, consumes exactly that frame, and reports incomplete for every proper prefix of a well-formed frame; it reports an error as soon as a finished part of the input is malformed (while an unfinished malformed line may count as incomplete). Nothing ever panics, overflows, hangs or allocates or recurses without bound; excessive nesting and simple strings that are not UTF-8 may be refused. Parsing a complete frame yields the value the grammar defines and consumes the same bytes.",
 ["inputs"],"all byte strings up to a length over the protocol alphabet, all prefixes and all single-byte mutations of well-formed frames up to a nesting depth, and extreme lengths and depths",
 "two unit tests check three well-formed frames",
 [A+"frame/mod.rs"],[("completeness check",A+"frame/mod.rs: Frame::check"),("parser",A+"frame/mod.rs: Frame::parse")],
 ["roster::application::server::frame::Frame::{check,parse}"])
p("P07","Malformed input only affects the connection that sent it",
 "Whatever bytes one connection sends - invalid frames, wrong argument counts or types, invalid UTF-8, absurd lengths, deep nesting, unknown or unsupported commands - the server stays up, every other connection on every thread keeps being answered correctly and new connections are accepted. The offending request is answered with an error or its connection is closed; requests before it on the same connection are still answered and the offending request changes no stored data.",
 ["inputs","schedules"],"all short byte strings over the protocol alphabet and a catalogue of malformed requests, sent before, between and after well-formed traffic of other connections",
 "no test sends malformed bytes to a running server",
 [A+"server_thread.rs",A+"handle.rs",A+"connection.rs",A+"cmd/mod.rs",A+"cmd/parse.rs",A+"frame/mod.rs"],
 [("error path of a connection",A+"server_thread.rs, "+A+"handle.rs"),("argument parsing",A+"cmd/parse.rs")],
 ["replies and closes on client sockets","liveness of the server threads"])
p("P08","Every reply is one well-formed frame with intact content",
 "The bytes a client receives always form a sequence of complete well-formed RESP frames carrying exactly the intended content, for replies of every kind and size, when the peer reads slowly or the socket accepts only part of a write, and when names, keys, values or command names contain line breaks or other protocol bytes. Encoding a reply never corrupts server memory.",
 ["inputs","fault_sequences"],"all reply sizes around the internal buffer boundaries, all short-write patterns up to a bound, hostile bytes in every echoed field",
 "tests encode tiny frames into an in-memory writer that never writes short",
 [A+"frame/write.rs",A+"connection.rs",A+"cmd/unknown.rs",A+"cmd/client/mod.rs"],
 [("frame encoder",A+"frame/write.rs"),("buffered writer",A+"connection.rs: WriteConnection")],
 ["bytes received by clients","heap canaries"])
p("P09","Client ids are unique, increasing with accept order, and stable",
 "No two connections of a server run ever have the same client id, a connection accepted after another one on the same thread, or after the other was already answered, has a greater id, and the id of a connection never changes while it lives. CLIENT ID, the id field of HELLO, and the id in CLIENT INFO and CLIENT LIST all report the same number for a connection.",
 ["schedules","histories"],"all interleavings of connects on several threads, and all short histories of connects, disconnects and queries",
 "tests connect one client after the other",
 [A+"supervisor/mod.rs",A+"cmd/client/id.rs",A+"cmd/hello.rs",A+"server_thread.rs"],
 [("id allocation",A+"supervisor/mod.rs: assign_new_connection")],["replies on client sockets"],[("current_id","next id",A+"supervisor/mod.rs")])
p("P10","CLIENT LIST shows exactly the live connections, CLIENT INFO one's own",
 "CLIENT LIST returns one line for every connection that is open when it is executed and none for a connection whose end the server has already processed, however it ended; CLIENT INFO returns the line of the asking connection. With the ID or TYPE filter the listing has the lines of exactly those of them that were asked for. Each line carries that connection's own id, peer address, local address, file descriptor and current name.",
 ["schedules","histories"],"all short histories of connects, orderly and abrupt disconnects, protocol errors, renames and listings over several connections and threads",
 "tests list one or two healthy connections",
 [A+"supervisor/mod.rs",A+"cmd/client/list.rs",A+"cmd/client/info.rs",A+"server_thread.rs"],
 [("registry of connections",A+"supervisor/mod.rs"),("deregistration",A+"server_thread.rs: remove_connection")],
 ["replies on client sockets"],[("current_connections","registered connections",A+"supervisor/mod.rs")])
p("P11","A connection's name is its own and only changes by its own SETNAME",
 "CLIENT GETNAME returns the last name the same connection successfully set, or nil when it has none; an empty name removes it. A name with spaces, line breaks or other non-printable characters is refused and leaves the name as it was. No command on another connection changes or blocks it, also while other connections list or rename concurrently.",
 ["schedules","programs"],"all sequences of SETNAME, GETNAME, INFO and LIST over two connections up to a depth, and their interleavings across threads",
 "one test sets one name",
 [A+"supervisor/mod.rs",A+"cmd/client/set_name.rs",A+"cmd/client/get_name.rs"],
 [("name lock",A+"supervisor/mod.rs: MetadataConnection::set_name, name")],["replies on client sockets"])
p("P12","Commands are recognised exactly as documented",
 "Command, subcommand and option names are recognised in any letter case and as bulk or simple strings alike; PING, GET, SET, HELLO and the CLIENT subcommands answer with their documented reply for every valid argument list. Any other command or subcommand name is answered with an unknown-command error naming it and leaves the connection usable; a missing, superfluous or ill-typed argument never executes the command.",
 ["inputs","programs"],"all argument lists up to a length over an alphabet of command words, options, numbers and odd tokens, in several letter cases and encodings",
 "tests parse a handful of fixed argument lists",
 [A+"cmd/mod.rs",A+"cmd/parse.rs",A+"cmd/set.rs",A+"cmd/ping.rs",A+"cmd/hello.rs",A+"cmd/client/mod.rs",A+"cmd/acl/mod.rs",A+"cmd/unknown.rs"],
 [("dispatch",A+"cmd/mod.rs: Command::from_frame"),("argument cursor",A+"cmd/parse.rs")],["replies on client sockets"])
p("P13","Keys map to the cluster hash slots and partitions cover every slot once",
 "The hash slot of a key is the CRC16 (XMODEM) of its bytes modulo 16384, as in the cluster specification. However many parts a storage is split into, the parts are contiguous, disjoint and together cover all 16384 slots, and asking for a part beyond the last wraps around.",
 ["inputs","configurations"],"all keys up to a length and all partition counts up to a bound",
 "no test covers either",
 [I+"hash/mod.rs",D+"storage/mod.rs",D+"dialer/mod.rs"],
 [("slot of a key",I+"hash/mod.rs: crc_hash"),("partitioning",D+"storage/mod.rs: Storage::new, part, slots")],
 ["roster::infrastructure::hash::crc_hash","roster::domain::storage::Storage"])
p("P14","Disconnecting at any point is clean and loses no complete request",
 "Whenever a client half-closes, closes or resets, at any byte of its stream and any moment of the server's work, the server releases the socket, its threads keep running and every other connection is unaffected. Every complete request sent before a half-close is executed and answered before the server closes the connection; requests sent before an abortive end (close or reset) are each executed as a whole or not at all, and an incomplete one never is.",
 ["schedules","fault_sequences"],"every cut point of the request stream, every kind of disconnect and every interleaving with the server's tasks within bounds",
 "tests always end sessions idle and orderly",
 [A+"handle.rs",A+"connection.rs",A+"server_thread.rs"],
 [("end of stream",A+"connection.rs: read_frame"),("task shutdown",A+"handle.rs: run_internal")],
 ["replies and closes on client sockets","open descriptors at rest"])
p("P15","Configuration comes from the file, overridden by the environment",
 "The server's bind address and connection limit are those of the configuration file, each replaced by its ROSTER_ environment variable (ROSTER_BIND_ADDR, ROSTER_MAX_CONNECTION) when set; a missing or unparsable setting is reported as an error and never silently replaced.",
 ["configurations"],"all combinations of present, absent and invalid settings in the file and the environment",
 "no test reads a configuration",
 [I+"config/mod.rs"],[("sources and their precedence",I+"config/mod.rs: Cfg::from_env")],["roster::infrastructure::config::Cfg::from_env"])
p("P16","Failing system calls never take the service down",
 "When accepting a connection fails for a transient reason (descriptors exhausted, connection aborted before it was accepted), or reading from or writing to one client fails, only that connection is affected: the server threads keep accepting and every other connection keeps being answered correctly.",
 ["fault_sequences","schedules"],"every placement of up to k failing accepts, reads and writes in the histories explored",
 "tests never make a system call fail",
 [A+"server_thread.rs",A+"connection.rs",A+"handle.rs"],
 [("accept loop",A+"server_thread.rs: initialize")],["replies on client sockets","liveness of the server threads"])
p("P17","Connections beyond the configured limit are not served",
 "At no time are more connections being served than the configured limit; when an active connection ends, a waiting one is served.",
 ["configurations","histories"],"all short histories of connects and disconnects for small limits",
 "no test opens more connections than the limit",
 [A+"mod.rs",A+"server_thread.rs",I+"config/mod.rs"],[("limit",A+"mod.rs: ServerConfig.connections_limit"),("slots of connections in service",A+"server_thread.rs: accept loop")],["replies on client sockets"])
p("P18","What ended leaves nothing behind",
 "The sockets and the memory the server holds depend only on the connections that are open and the keys that are stored now, not on how much it has served before. Whatever requests were answered or refused, whatever connections came and ended in whatever way, repeating the same any number of times does not make the server hold more and more: the metadata, name, buffers and descriptor of an ended connection, a value that was overwritten and a key read after it expired are all given back.",
 ["histories","schedules"],"every request and every life of a connection and every pair of them repeated many times; races of them on two threads followed by quiet",
 "memory and descriptors are never looked at by tests, and leaks only show after long service",
 [A+"supervisor/mod.rs",A+"server_thread.rs",A+"handle.rs",D+"storage/mod.rs"],
 [("forgetting ended connections",A+"server_thread.rs: remove_connection"),("replaced and expired values",D+"storage/mod.rs: set_async, get_async")],
 ["heap blocks and bytes in use at rest","open descriptors at rest"],[("current_connections","registered connections",A+"supervisor/mod.rs"),("db","stored values",D+"storage/mod.rs")])
p("P19","Every usable processor serves, wherever and in whatever order it starts",
 "However many processors the server may use, and whichever they are, one thread per processor serves connections at exactly the configured address (IPv4 or IPv6, one address or all), and all threads serve the same data and the same list of clients: what one wrote every other reads, ids stay unique, every line shows the addresses really used. Threads may start at any time: those already up serve meanwhile, and one that starts late serves everything written before. When the server can't listen at its address it ends with an error instead of running without serving.",
 ["configurations","schedules"],"all processor counts up to a bound, all sets of processors among the first few and chosen larger ones, all kinds of address, all sets of late threads at every point of the clients' work",
 "tests start the server once, on the machine's processors, at one IPv4 address",
 [A+"mod.rs",A+"server_thread.rs",D+"dialer/mod.rs","app/roster/src/main.rs"],
 [("threads per processor",A+"mod.rs: ServerConfig::initialize"),("start of a thread",A+"server_thread.rs: initialize")],
 ["replies on client sockets","exit status of the server"])
p("P20","No connection holds up the others",
 "Whatever one connection does - stops reading its replies, never finishes a request, pipelines a long backlog, stays idle, or many do at once - every other connection, on the same thread and on others, keeps being served meanwhile: it is accepted, its requests of every kind are answered, also for the same keys and for CLIENT LIST or SETNAME, and its end is processed, without waiting for time to pass. What it waits for does not grow with what others have outstanding: between its request and its reply a busy connection is served at most a few read buffers' worth of requests.",
 ["inputs","schedules","histories"],"one connection stuck in or before a reply of every kind and a request of every length, or with a long backlog; what the others do meanwhile in every order of kinds and at every moment within the overlap and preemption budgets",
 "tests never leave a reply unread or a request unfinished while another client works",
 [A+"server_thread.rs",A+"handle.rs",A+"connection.rs",A+"supervisor/mod.rs",D+"storage/mod.rs"],
 [("one task reads and one answers per connection",A+"handle.rs: Handler::run"),("no lock held while writing",A+"supervisor/mod.rs: get_normal_connection"),("entry released before the reply",D+"storage/mod.rs: get_async")],
 ["replies on client sockets"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
