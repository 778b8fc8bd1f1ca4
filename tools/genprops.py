import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
p("C01","Single-key string commands on the cache are linearizable",
 "When any number of goroutines concurrently call the single-key string commands of one cache (Set, SetNX, Get, GetSet, StrLen, Append, SetRange, GetRange, Incr, IncrBy, IncrByFloat, Decr, DecrBy, Del, Exists, Type), every result is the one Redis's string semantics give in some one-at-a-time order that respects real time. A value is read back byte for byte as written, whatever text it holds, and no increment, append or overwrite is ever lost. Any index or offset is answered: one before the first byte counts as the first byte, a length beyond what a string may hold is an error. A command that returns an error changes nothing. None of these calls races on memory with another.",
 ["schedules","histories","inputs"],"every interleaving of concurrent callers, every mix of commands and values on shared keys",
 "The tests call each command once from a single goroutine; they never run two callers at once and use four or five fixed values.",
 ["cache/cachestring.go","cache/cacheutil.go","cache/cachedb.go"],[("RWMutex around each command","cache/cachestring.go"),("atomic load-or-store in the backing map","cache/database.go")],
 state=[dict(name="dataDict",meaning="key to value",where="cache/cache.go"),dict(name="expiresDict",meaning="key to deadline",where="cache/cache.go")],
 observe=["return values of the Cache methods"])
p("C02","Hash commands on the cache are linearizable",
 "When any number of goroutines concurrently call the hash commands of one cache (HSet, HSetNX, HGet, HExists, HDel, HLen, HStrLen, HIncrBy, HIncrByFloat, HMSet, HMGet, HKeys, HVals, HGetAll) together with Del, Exists, Type and string writes on the same keys, every result is the one Redis's hash semantics give in some one-at-a-time order that respects real time. In particular HLen always equals the number of fields present, reads change nothing, and increments are stored and never lost. The maps and lists passed in or returned belong to the caller: changing them afterwards does not change the hash, and later commands do not change them. None of these calls races on memory with another.",
 ["schedules","histories","inputs"],"every interleaving of concurrent callers and every mix of hash commands, fields and values",
 "The tests exercise HSet, HSetNX, HExists, HGet and HDel once each from one goroutine on one key; HLen, HIncrBy, HMSet, HGetAll and the others are never called, and no two callers run at once.",
 ["cache/cachehash.go","cache/cachedb.go"],[("hash entry with field map and length counter","cache/cachehash.go"),("RWMutex of the cache","cache/cache.go")],
 state=[dict(name="hashEntry.length",meaning="number of fields",where="cache/cachehash.go")],observe=["return values of the Cache methods"])
p("C03","Multi-key commands on the cache are atomic",
 "MSet, MSetNX, MGet, Exists over several keys, and Flush each take effect at a single instant with respect to every other concurrent command on the cache: no reader ever sees some keys of one MSet or Flush changed and others not. MSetNX stores either all of its keys (returning how many) or, if any of them already exists, none of them (returning 0). The maps and lists passed in or returned belong to the caller: neither side changes what the other holds. None of these calls races on memory with another.",
 ["schedules","histories"],"every interleaving of concurrent multi-key and single-key callers on overlapping key sets",
 "The tests call MSet and MSetNX once from one goroutine with all keys absent or all present; atomicity is only visible to a second goroutine at a particular interleaving.",
 ["cache/cachestring.go","cache/cachedb.go"],[("cache-wide RWMutex","cache/cache.go")],observe=["return values of MGet, Exists, MSetNX, Get"])
p("C04","A key with a time to live is visible exactly until its deadline",
 "A key stored with SetEX or PSetEX is returned unchanged by every read until its time to live has elapsed, and from then on every command (reads, existence and type tests, conditional sets, increments, appends, multi-key commands) treats it as absent, however long the time to live; one that is not positive is an error that changes nothing. Overwriting a key with a plain Set, GetSet or MSet removes its time to live, commands that modify a value in place keep it, and a key without a time to live never disappears by itself. None of these calls races on memory with another.",
 ["schedules","histories","inputs"],"every schedule of callers against the clock, including callers suspended across a deadline, every ttl and every following command",
 "The tests wait out one real second and 100 ms once each, then only call Get; no test overwrites a key that has a ttl, uses another command on an expired key, or suspends a caller across the deadline.",
 ["cache/cachestring.go","cache/cacheutil.go","cache/cachedb.go"],[("deadline map and lazy expiry","cache/cacheutil.go")],
 state=[dict(name="expiresDict",meaning="key to deadline",where="cache/cache.go")],observe=["return values of the Cache methods at chosen simulated times"],hook="clock: time.Now is replaced by the simulated clock when the checks build the code")
p("C05","The background expiry sweep is invisible",
 "Running the cache's periodic sweep (Cron) never changes what any command returns, under any interleaving with concurrent commands: it never removes a key that has no time to live, whose time to live has not elapsed, or that was rewritten after it expired, and it never makes a command block forever. The sweep does not race on memory with any command.",
 ["schedules","histories"],"every interleaving of sweep ticks with concurrent commands, over simulated minutes",
 "No test starts the sweep (the call is commented out), and a unit test would have to wait for real two-second ticks to land at a particular instant inside another command.",
 ["cache/cachecron.go","cache/cache.go","cache/cacheutil.go"],[("ticker loop over the stored deadlines under the write lock","cache/cachecron.go")],observe=["return values of the Cache methods while Cron runs"],hook="clock and ticker are simulated when the checks build the code")
p("C06","Cache commands always complete",
 "Under any schedule of any mix of the implemented string, hash, key and multi-key commands, Flush and the background sweep, on keys of any type and with any arguments (extreme indexes, offsets and amounts, empty lists), every call returns within a bounded number of steps and never panics. A command applied to a key of the wrong type returns an error and leaves that key unchanged. None of these calls races on memory with another.",
 ["schedules","inputs","histories"],"every interleaving and every cross-type mix of commands, absent, expired and wrong-typed keys included",
 "The tests cover about half of the commands, never on absent or wrong-typed hash keys, and never concurrently, so a lock left held, a lock order inversion or a nil dereference on a rare path is not reached.",
 ["cache/cachestring.go","cache/cachehash.go","cache/cachedb.go","cache/cachecron.go"],[("lock/unlock pairing with defer","cache/cachestring.go"),("nil and type checks on entries","cache/cachehash.go")],observe=["completion of every call","panics"])
p("C07","Memory of expired and removed keys is given back",
 "While the cache's periodic sweep (Cron) runs, the memory of keys that have expired, of keys that were deleted or flushed, of values that were replaced and of hash fields that were deleted is released within a few seconds, whether or not anybody names those keys again, however long the cache was idle before and whatever commands run concurrently. The sweep goes on for as long as the cache is used, and no number of keys that expire together makes it skip any.",
 ["schedules","histories"],"every interleaving of sweep ticks with commands over simulated minutes to hours, and every mix of keys with and without a time to live",
 "No test starts the sweep or looks at memory; a key that is kept for ever is invisible to commands because expiry is also checked lazily.",
 ["cache/cachecron.go","cache/cacheutil.go","cache/cachedb.go","cache/cachehash.go"],[("ticker loop over the stored deadlines","cache/cachecron.go"),("removal of value and deadline together","cache/cachedb.go")],
 state=[dict(name="dataDict",meaning="key to value",where="cache/cache.go"),dict(name="expiresDict",meaning="key to deadline",where="cache/cache.go")],
 observe=["live heap size after garbage collection, compared with the size before the workload"],hook="clock and ticker are simulated when the checks build the code")
p("R01","Decoding a Redis stream does not depend on how bytes arrive",
 "For any sequence of valid Redis protocol messages (simple strings, errors, integers, bulk strings, null bulk strings, nested arrays; binary payloads and any lengths) and any way the network splits and delays the bytes, successive receives on a connection return exactly those messages in order, each of which stays as it is when more are received, and sending a message transmits exactly its encoding.",
 ["schedules","inputs","fault_sequences"],"every message sequence and every segmentation, delay and short read of its byte stream",
 "No test reads from a connection at all; segmentation only occurs with large messages or a slow peer.",
 ["redis/conn.go","redis/protocol.go"],[("recursive message reader over a buffered connection","redis/conn.go"),("Serialize methods","redis/protocol.go")],observe=["Conn.Recv, Conn.Send, Conn.SendAndWaitReply"],hook="net.Conn is the existing seam")
p("R02","A broken or malformed stream gives an error, never a made-up message",
 "If the stream ends, is reset, or stops being valid protocol at any byte, the receive that needed the missing bytes returns an error within bounded time after the fault; every message received before is one the peer really sent, complete and in order. It never returns a partial or padded message, never panics and never allocates for bytes that were announced but not received.",
 ["fault_sequences","crash_points","inputs"],"a connection cut, reset or corrupted header at every byte position of every message sequence",
 "No test injects a connection failure; which byte the connection breaks at decides the outcome.",
 ["redis/conn.go"],[("error returns of the message reader","redis/conn.go")],observe=["Conn.Recv results after an injected cut"],hook="net.Conn is the existing seam")
p("R03","Every caller of the client gets the reply to its own command",
 "With any number of goroutines sharing one Redis client, and with connections delayed, stalled past a timeout, reset or refused at any point, a command that succeeds returns the server's reply to exactly that command. A reply is never delivered to another caller or to a later command on the same connection, and two callers never use one connection at the same time. Callers do not race on memory.",
 ["schedules","fault_sequences","histories"],"every interleaving of callers over the connection pool and every placement of delays, timeouts, resets and garbled replies",
 "The only client test calls Get once with no server listening; mispairing needs two callers or a failure in the middle of a reply.",
 ["redis/pool.go","redis/conn.go","redis/redis.go"],[("connection pool channel","redis/pool.go"),("request/reply exchange","redis/conn.go"),("discarding a connection after a failed exchange","redis/pool.go")],
 state=[dict(name="Pool.connC",meaning="idle connections",where="redis/pool.go")],observe=["client results compared with the server's record of executed commands"],hook="net.Dial and the clock are simulated when the checks build the code")
p("R04","Client commands do what they name, at most once, with the server's answer",
 "Each Redis client method (Set, SetNX, SetEX, PSetEX, Get, GetSet, StrLen, Append, SetRange, GetRange, Incr, IncrBy, IncrByFloat, Decr, DecrBy, MSet, MSetNX, MGet, Select) makes the server execute the command it names with exactly the given arguments, and returns the server's answer or error; an array where a single value belongs, or a reply that cannot be read as the command's kind of result, is an error. A call that reports success was executed exactly once during the call; a call that reports a network failure was executed at most once.",
 ["schedules","fault_sequences","inputs","histories"],"every interleaving of callers, every argument, and every fault placement between sending a command and receiving its reply",
 "No test runs a client method against a server, and whether a command is repeated or lost shows only when the connection fails between request and reply.",
 ["redis/redis.go","redis/command.go","redis/conn.go","redis/pool.go"],[("command construction","redis/redis.go"),("reply parsing","redis/command.go")],observe=["server execution log and client results"],hook="net.Dial is simulated when the checks build the code")
p("R05","The connection pool stays within its size and prepares every connection",
 "At no time does a client hold more open connections than its configured pool size (or the default size when none is configured), a connection that is discarded or fails its setup is closed rather than leaked, and callers beyond the limit wait and are eventually served. On every connection, including ones opened later to replace failed ones, the configured password and database are sent and accepted before any user command. The pool's bookkeeping is free of data races.",
 ["schedules","fault_sequences","configurations"],"every pool size, number of callers, interleaving of connection creation, and setup, dial or exchange failure",
 "No test opens a connection; exceeding the limit needs several callers creating connections at once.",
 ["redis/pool.go","redis/redis.go"],[("size accounting under the pool mutex","redis/pool.go"),("connection open handlers","redis/redis.go")],
 state=[dict(name="Pool.size",meaning="connections created",where="redis/pool.go")],observe=["connections open at the simulated server, first commands on each connection"],hook="net.Dial is simulated when the checks build the code")
p("R06","The client recovers once the server is reachable again",
 "After any sequence of refused dials, resets, server restarts and malformed replies stops, no caller stays blocked, at most as many commands as the pool has connections fail because of earlier faults, and every command after that succeeds. While the server is unreachable every command returns an error instead of hanging.",
 ["schedules","fault_sequences"],"every fault sequence before the heal and every interleaving of callers across it",
 "The client test makes one failing call and stops; a second call, or a server coming back, is never tried.",
 ["redis/pool.go","redis/conn.go"],[("error paths of pool Get and Put","redis/pool.go")],observe=["client results before and after the last fault"],hook="net.Dial and the clock are simulated when the checks build the code")
p("R07","Configured timeouts bound every command",
 "When a client is configured with connect, read or write timeouts, every command returns a result or an error within the time those allow even if the server accepts connections and then stalls at any byte, and a command whose server answers within the timeout is not failed. Commands issued after a timeout still get their own replies.",
 ["fault_sequences","schedules","configurations"],"every stall position and length, every timeout setting and every interleaving of callers",
 "No test sets a timeout or has a server that stalls.",
 ["redis/redis.go","redis/conn.go","redis/pool.go"],[("deadlines on the connection","redis/conn.go")],observe=["simulated duration of each client call"],hook="net.Dial and the clock are simulated when the checks build the code")
p("R08","Pool acquisition honours its context and Close ends the pool's connections",
 "When every connection is in use, acquiring one returns an error soon after the caller's context is cancelled or expires, and neither leaks nor steals a connection: each one is handed to exactly one waiter when it is returned. Running a command through the pool returns that command's own outcome and gives the connection back, also when the command fails or panics. Closing an idle pool returns and closes every connection it holds. Acquiring, returning and closing do not race on memory.",
 ["schedules","fault_sequences"],"every interleaving of acquirers, releases, cancellations and close",
 "No test touches the pool directly; the outcome depends on the order of a release and a cancellation.",
 ["redis/pool.go"],[("select on context and pool channel","redis/pool.go"),("draining of the pool channel","redis/pool.go")],observe=["Pool.Get, Pool.Put, Pool.Exec, Pool.Close"],hook="net.Dial, context and channels are simulated when the checks build the code")
p("P01","A snapshot transfer either stores exactly the snapshot or reports failure",
 "If synchronising with a master reports success, the snapshot file holds exactly the bytes of the master's snapshot payload, whatever keep-alive bytes preceded it and however the network split it. If the master replies with an error, the connection breaks, or the file cannot be opened or fully written, synchronisation reports an error within bounded time and does not report success. A master that keeps sending something at least every 50 seconds is not given up on, however slow it is.",
 ["fault_sequences","crash_points","schedules","inputs"],"every payload, segmentation, cut position, error reply and disk fault position",
 "The tests of this path need a live Redis server and are not run; no test injects a network or disk fault.",
 ["redis/replication.go","redis/conn.go"],[("bulk payload copied from the connection to a file","redis/conn.go"),("snapshot file handling","redis/replication.go")],observe=["SyncWithRedis result and the snapshot file"],hook="net.Dial and os.OpenFile are simulated when the checks build the code")
p("P02","Loading a snapshot reproduces the master's dataset",
 "For any dataset and any of the supported snapshot encodings of its strings, lists, sets, sorted sets and hashes, however the file's bytes are delivered by reads, loading it emits a command stream that, executed by Redis, recreates exactly that dataset: every key in its database, every value byte for byte and in order, and every expiry deadline.",
 ["inputs","schedules","fault_sequences"],"every dataset and encoding, every short-read pattern of the file and every interleaving with the consumer of the command stream",
 "No test loads a snapshot; the encodings interact with buffer boundaries and value sizes that a handful of examples does not reach.",
 ["redis/replication.go","redis/rdb/rdb.go","redis/ziplist/ziplist.go","redis/zipmap/zipmap.go","redis/intset/intset.go","redis/lzf/lzf.go"],[("snapshot parser","redis/replication.go"),("length and string decoding","redis/rdb/rdb.go"),("compact encodings","redis/ziplist/ziplist.go")],observe=["ReplicationMessage stream after Load"],hook="os.OpenFile is simulated when the checks build the code")
p("P03","A damaged or unsupported snapshot is reported, never half-believed",
 "Whatever bytes the snapshot file holds, loading it returns within bounded time and never panics or ends the process. If the file is cut short at any byte before its end marker, cannot be read to the end, does not start with the snapshot magic, or contains a value type that is not supported, loading returns an error, and every command emitted before the error is one that belongs to the dataset.",
 ["crash_points","fault_sequences","inputs"],"every truncation point, read-error position, flipped byte and unsupported element of every snapshot",
 "No test loads a snapshot, let alone a damaged one; the outcome depends on which element the damage falls in.",
 ["redis/replication.go","redis/rdb/rdb.go"],[("error returns of the snapshot parser","redis/replication.go")],observe=["Load result and the ReplicationMessage stream"],hook="os.OpenFile is simulated when the checks build the code")
p("P04","The replication stream is delivered completely, in order, to the right database",
 "Every write command the master streams after the snapshot is delivered to the consumer exactly once, in the master's order, tagged with the database it applies to, whatever the segmentation, delays, keep-alive pings and consumer speed. When the link ends or the replica is stopped, everything received completely before the end is still delivered, and then the consumer is told that the stream has ended, the connection is closed and the receiving goroutine ends; a stream that stops being valid protocol ends in the same way. Receiving, acknowledging and consuming do not race on memory.",
 ["schedules","fault_sequences","histories"],"every command sequence over several databases, every segmentation and cut, and every interleaving with the consumer",
 "No test receives a replication stream.",
 ["redis/replication.go","redis/conn.go"],[("receive loop and message channel","redis/replication.go")],observe=["ReplicationMessage stream"],hook="net.Dial is simulated when the checks build the code")
p("P05","Acknowledgements are periodic and report what was really received",
 "While the link is up, the replica sends an acknowledgement about once a second, each carrying the snapshot's replication offset plus the number of stream bytes it has received so far; the acknowledged offset never decreases and never runs ahead of what the master sent. Acknowledgements never corrupt or delay the stream being received, and stop, their goroutine with them, when the link ends. The acknowledgement loop and the receive loop do not race on memory.",
 ["schedules","fault_sequences","histories"],"every interleaving of the acknowledgement timer with message receipt, and every link fault",
 "No test runs the acknowledgement loop; it needs a ticking clock and a streaming master.",
 ["redis/replication.go"],[("acknowledgement ticker","redis/replication.go"),("offset bookkeeping","redis/replication.go")],
 state=[dict(name="Replication.Offset",meaning="replication offset acknowledged to the master",where="redis/replication.go")],observe=["bytes the master receives on the replication connection"],hook="net.Dial and tickers are simulated when the checks build the code")
p("X01","The client's view converges to the master",
 "Whatever snapshot the master had and whatever write commands it then executes, in any database and interleaved with anything the client does, once writes stop and the stream has been consumed every Get of a key in the client's database returns the master's current value, and a key the master does not hold is reported as an error. This includes keys changed by commands the cache cannot apply itself, deleted, flushed or expired keys.",
 ["schedules","histories","fault_sequences","inputs"],"every initial dataset, master command history and interleaving of snapshot, stream and reads",
 "The two client tests need a live Redis server and are not run; they set and read one key.",
 ["xxcache.go","command.go","cache/message.go","redis/replication.go"],[("applying replicated commands to the cache","cache/message.go"),("falling back to Redis when a key is not cached","command.go")],observe=["Client.Get at quiescence against the master's dataset"],hook="net.Dial, os and the clock are simulated when the checks build the code")
p("X02","Reads only ever return values the master really held",
 "At any moment, including while the snapshot is loading and the stream is being applied, a successful Get returns a complete value that the master held under that key in the client's database at some time between the snapshot and the read; a Set that reports success was executed by the master exactly as given. Values never mix, never come from another key or database, and never come from a snapshot left on disk by an earlier run. Reads do not race on memory with the stream being applied.",
 ["schedules","histories","fault_sequences","crash_points"],"every interleaving of concurrent Get and Set calls with snapshot loading and the stream, across process crashes and restarts",
 "The client tests are single-threaded, need a live server and are not run.",
 ["xxcache.go","command.go","cache/message.go","redis/replication.go"],[("replication handler goroutine","xxcache.go"),("snapshot loading","redis/replication.go")],observe=["Client.Get and Client.Set histories against the master's history"],hook="net.Dial, os and the clock are simulated when the checks build the code")
p("X03","Losing the replication link never leaves the client stale or stuck",
 "When the replication link breaks at any point, then once Redis is reachable every later Get reflects the master's current data within a bounded time rather than serving values that will never be updated again. No client goroutine deadlocks, panics or spins, those that served the lost link end, and Get and Set keep working.",
 ["fault_sequences","schedules","crash_points"],"a link cut, reset or master restart at every point of the snapshot or stream, under every interleaving",
 "No test breaks a link; staleness shows only when data changes after the break.",
 ["xxcache.go","redis/replication.go","command.go"],[("handling of the end of the message stream","xxcache.go"),("receive loop shutdown","redis/replication.go")],observe=["Client.Get after the link fault; goroutine activity"],hook="net.Dial and the clock are simulated when the checks build the code")
p("X04","Creating a client succeeds completely or fails cleanly",
 "Creating a client either succeeds, having received and loaded the master's complete snapshot, or returns an error in bounded time once the master, link or disk fails at any point; it never panics, ends the process or hangs on a dead peer. A failed creation leaves no connection, file or goroutine behind, and a process killed at any instant of it can be restarted on the same disk and creates a correct client.",
 ["crash_points","fault_sequences","schedules"],"a network, master or disk fault or a process crash at every step of connecting, transferring and loading",
 "The client tests need a live server and only cover success.",
 ["xxcache.go","redis/replication.go","redis/conn.go","redis/rdb/rdb.go"],[("New sequence","xxcache.go"),("handshake and transfer","redis/replication.go")],observe=["New result, connections open at the master, state after restart"],hook="net.Dial, os and the clock are simulated when the checks build the code")
p("X05","No command from the master can stop or crash the client",
 "Any well-formed message on the replication stream, known or unknown command, any number of arguments including too few, any message type, any database, is survived: the client does not panic or stall, later commands are still applied in order, and keys the message does not name keep their correct values.",
 ["inputs","histories","schedules"],"every command name, arity, message type and position in the stream, under every interleaving",
 "The message handler test is commented out; nothing feeds it unusual commands.",
 ["cache/message.go","xxcache.go"],[("command dispatch","cache/message.go"),("error handling of the replication handler","xxcache.go")],observe=["Client.Get after the unusual message"],hook="net.Dial is simulated when the checks build the code")
p("X06","Values the client has replicated are served locally",
 "While the replication link is healthy and what the master sent has been applied, a Get of a key in the client's database whose latest change is a plain SET, or which came from the snapshot as a string without a deadline and was not changed since, is answered from the client's own cache without a request to Redis. Reading it never adds load to the master, however many goroutines read.",
 ["schedules","histories","inputs"],"every snapshot, history and database mix, every interleaving of stream, snapshot loading and reads",
 "The client tests need a live Redis server, are not run, and cannot tell a local answer from a forwarded one.",
 ["xxcache.go","command.go","cache/message.go"],[("cache lookup before the Redis lookup","command.go"),("applying replicated commands to the cache","cache/message.go")],observe=["commands executed by the simulated master during Client.Get"],hook="net.Dial, os and the clock are simulated when the checks build the code")
p("X07","Clients in one process are independent",
 "Any number of clients in one process, of one master or of different masters, created at the same time with a snapshot file each or one after the other with the same file, serve their own master's data only: no value, reply, acknowledgement or error of one ever reaches another, a command given to one is executed by its own master and no other, and a master that fails, refuses or restarts affects only the clients connected to it, during creation and afterwards.",
 ["schedules","fault_sequences","histories"],"every interleaving of two clients' creation, replication and commands, with any failure of one of two masters",
 "No test creates a client against a server at all, let alone two; state shared between instances shows only when two are alive at once.",
 ["xxcache.go","redis/replication.go","redis/redis.go","redis/pool.go","cache/cache.go"],[("state kept in the instances, no package-level state","xxcache.go")],observe=["results of Get and Set on each client compared with its own master's history"],hook="net, os and the clock are simulated when the checks build the code")
p("D01","Concurrent use is free of data races",
 "Any number of goroutines may use one cache, one Redis client, one pool or one xxcache client at the same time, while its background goroutines (expiry sweep, replication receiver, acknowledgement loop, stream handler) run: no two of them ever access the same variable, field, map or slice element without synchronisation when at least one access is a write. This includes start-up, failed connections, the end of replication and shutdown.",
 ["schedules","fault_sequences","histories"],"every schedule, workload and fault sequence of the public operations and background goroutines",
 "The tests are single-goroutine except for background loops that need a live server; the race detector only sees accesses that a run performs, and the paths around a broken link, a failed dial or a sweep are never run.",
 ["cache/cache.go","cache/cachecron.go","redis/pool.go","redis/conn.go","redis/replication.go","xxcache.go"],[("the cache's RWMutex","cache/cache.go"),("the pool's mutex and channel","redis/pool.go"),("atomic counters of the replication","redis/replication.go")],
 observe=["every access to memory shared between goroutines, ordered by vector clocks"],hook="accesses are reported by the source instrumentation that the checks apply when they build the code")
p("N01","LZF decompression inverts compression",
 "For every non-empty byte string, decompressing its compressed form with its original length yields the original string.",
 ["inputs"],"every byte string",
 "The tests log one compress/decompress pair and assert nothing.",
 ["redis/lzf/lzf.go","redis/lzf/lzf_c.c","redis/lzf/lzf_d.c"],[("liblzf","redis/lzf/lzf_c.c")],observe=["lzf.Compress, lzf.DeCompress"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
