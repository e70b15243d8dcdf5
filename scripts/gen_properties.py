#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept next to the data so that wording changes are reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

p("C01","Nothing received from the network can terminate the crawler",
 "Whatever bytes arrive in a UDP datagram or from a TCP peer, the crawler process keeps running: any failure while one packet is handled or one download is running is confined to that packet or download, and does not escape the goroutine it happens in. No size announced by a peer makes the process allocate an amount of memory that is not bounded by a constant, and no code reached from network input exits the process.",
 ["inputs","fault_sequences"],"every datagram, every byte stream a peer can send, in every order",
 "Tests send a handful of well-formed messages; a panic that needs one particular malformed packet, or an allocation driven by an announced size, is never exercised, and an escaped panic kills the process rather than failing an assertion.",
 ["dht/krpc/server.go","dht/krpc/udp.go","dht/fetchtorrent.go","dht/peerwire/bep9.go","misc/workpool.go"],
 [("deferred recover around each unit of work","dht/krpc/server.go recvPacketHandle; dht/fetchtorrent.go fetchHandler; dht/peerwire/bep9.go FetchMetaData"),("bound on the announced metadata size","dht/peerwire/bep9.go handleExtendedMsg")],
 observe=["process liveness after any packet"])
p("C02","Bencode decoding is total: value or error, in bounds, terminating",
 "For every byte string, each public bencode decoding operation returns a value or an error: it never panics, never indexes or slices outside the input, and always terminates because every step consumes at least one byte.",
 ["inputs"],"all byte strings, including truncated, oversized-length and deeply nested ones",
 "The tests decode about thirty literal strings; the input space is infinite and the faults are at particular truncation points and lengths.",
 ["misc/beancode.go"],[("index guards in the recursive descent decoder","misc/beancode.go innerDecodeInteger, innerDecodeString, innerDecodeSlice, innerDecodeDict, decodeItem, DecodeString")],
 observe=["DecodeInteger, DecodeString, DecodeSlice, DecodeDict, DecodeDictNoLimit"])
p("C03","Decoding is all or nothing",
 "When a bencode decoding operation reports no error, its result is a complete value: lists and dictionaries were closed by their terminator inside the input, the whole-input forms consumed exactly the whole input, the prefix form reports a consumed length within the input, and a dictionary or list result is never nil. When any nested element fails to decode, the whole operation reports an error.",
 ["inputs"],"all byte strings",
 "Tests check values of valid inputs and a few rejections; a truncated or trailing-garbage input that is silently accepted looks like success to them.",
 ["misc/beancode.go"],[("terminator and consumed-length checks, error propagation","misc/beancode.go DecodeInteger, DecodeSlice, DecodeDict, DecodeDictNoLimit, innerDecode*")])
p("C04","Bencode encoding is total and mirrors what decoding accepts",
 "Encoding any value never panics: integers, strings, lists and dictionaries (nested to any depth) are encoded and every other value, including nil, yields an error that is propagated to the caller of the outermost encode with no partial output. Each kind is written with the tag, length prefix and terminator that decoding expects for that kind, a string's length prefix being the byte length of that same string, and each dictionary key is followed by its own value.",
 ["inputs"],"all values that can be placed in a list or dictionary, including nil and named types",
 "Tests encode a few small literals of the four supported kinds; unsupported dynamic types deep inside a message are not sampled, and the package's tests are not part of the reliable suite.",
 ["misc/beancode.go"],[("dynamic type dispatch of the encoder","misc/beancode.go encodeItem, EncodeSlice, EncodeDict, EncodeString, EncodeInteger")])
p("C05","Equal dictionaries are encoded to equal bytes, keys in sorted order",
 "Encoding a dictionary writes its keys in ascending byte order, so that encoding the same dictionary always produces the same bytes.",
 ["inputs","schedules"],"all dictionaries and all map iteration orders",
 "A test compares one output of a randomised iteration; whether it passes depends on chance.",
 ["misc/beancode.go"],[("iteration over the dictionary while encoding","misc/beancode.go EncodeDict")])
p("C06","Every KRPC query is answered once, to its sender, under its own transaction id",
 "For every incoming query with a transaction id and method name, exactly one datagram is sent back, to the address the query came from, and it is a response or error that carries the query's own transaction id. If the reply cannot be encoded nothing is sent, and each built-in query handler produces a reply on every path on which it returns.",
 ["inputs","histories"],"every query, valid or malformed, for every method",
 "The reliable tests call one handler stub with one message; they never see the built-in handlers, the send step, or malformed bodies.",
 ["dht/krpc/server.go","dht/requesthandler.go","dht/messgaes.go","dht/krpc/messages.go"],
 [("request handling, encoding and sending of the reply","dht/krpc/server.go recvPacketHandle, requestHandle"),("built-in handlers","dht/requesthandler.go")],
 observe=["datagrams sent by the server"])
p("C07","The four KRPC methods are wired on every side",
 "ping, find_node, get_peers and announce_peer are, and are the only, methods that the server accepts as supported, for which a handler is registered before the server starts listening, that the crawler can build a query for, and whose responses are dispatched to their own response handling.",
 ["configurations","inputs"],"all methods, all tables that enumerate them",
 "Each table is exercised separately or not at all; nothing compares them.",
 ["dht/krpc/server.go","dht/dht.go","dht/messgaes.go","dht/resphandler.go"],
 [("supported method list","dht/krpc/server.go supportQueryType"),("registration","dht/dht.go Run"),("query constructors","dht/messgaes.go"),("response dispatch","dht/resphandler.go genericRespHandler")])
p("C08","Query handlers only ever see validated queries",
 "A query handler runs only for a query whose method is supported, whose sender id is exactly 20 bytes and for whose method a handler is registered; in every other case the handler does not run and the sender gets an error reply. A handler can only be registered for a supported method and must not be nil.",
 ["inputs"],"every decoded dictionary",
 "Tests send one valid query per stub handler and one without a body.",
 ["dht/krpc/server.go"],[("validation sequence before the handler call","dht/krpc/server.go requestHandle, RegisteHandler")])
p("C09","Messages to remote nodes never disclose local stack traces",
 "No datagram sent to a remote node contains a stack trace of this process: the text of errors raised by malformed input, which is sent back in error replies, consists of the code, message and parameters only.",
 ["inputs"],"every malformed query",
 "The only test that looks at such a reply is in the unreliable set, and it samples one error.",
 ["misc/errors.go","dht/krpc/server.go"],[("error text rendering","misc/errors.go (*Error).Error"),("error reply construction","dht/krpc/server.go requestHandle")])
p("C10","A response is delivered only to the request it answers, at most once",
 "A response handler runs only for a response whose transaction id belongs to a request that this node issued and that is still pending, and it is the handler given with that very request, with that request and that response in its context. A request is recorded as pending before its datagram can be answered, and once it was answered, rejected by an error reply, or could not be sent, it is no longer pending.",
 ["schedules","histories","inputs"],"all interleavings of sending and receiving, all response sequences including replays and forgeries",
 "Tests call the dispatch directly with a prepared request; ordering against the network and repeated responses are not exercised.",
 ["dht/krpc/server.go","misc/syncmap.go"],[("pending request table","dht/krpc/server.go Query, responseHandle, responseErrHandle"),("removal","misc/syncmap.go")],
 state=[("requestMapping","requests awaiting a response, by transaction id","dht/krpc/server.go RpcServer")])
p("C11","Shared state is only accessed under its lock",
 "The pending and handler tables, the routing table and its buckets, the transaction counter, the logger registry and the list of shutdown actions are never read or written without holding the lock that protects them, and never written while that lock is held only for reading. Each check-then-act on them happens within one critical section, or is re-checked inside it.",
 ["schedules"],"all interleavings of all goroutines",
 "The reliable tests are sequential; a missing lock shows up only in rare interleavings, and for maps it is a fatal error that cannot be recovered.",
 ["misc/syncmap.go","dht/routetable.go","dht/node.go","misc/logger.go","misc/shutdown.go"],
 [("mutexes embedded in the owning structs","misc/syncmap.go SyncMap; dht/routetable.go Bucket, RouteTable; dht/node.go TxIdGenerator; misc/logger.go bufferLogger; misc/shutdown.go shutdownContext")])
p("C12","Locks are always released and cannot deadlock",
 "Every lock taken is released exactly once on every way out of the function that took it, including when something in the critical section panics; no goroutine acquires a lock it already holds; locks are acquired in one global order; and no network, file or channel operation that can block happens while a lock is held.",
 ["schedules","fault_sequences"],"all paths, all interleavings, panics inside critical sections",
 "A leaked or re-entered lock hangs on a path the sequential tests do not take.",
 ["misc/syncmap.go","dht/routetable.go","dht/node.go","dht/krpc/udp.go","misc/logger.go","misc/workpool.go","misc/shutdown.go"],
 [("defer unlock / lock idiom","all users of sync.Mutex and sync.RWMutex")])
p("C13","The routing table reports additions and its size truthfully",
 "Adding a node reports success only when the node is in the table afterwards; a node that was not stored is reported as an error. The reported size always equals the number of nodes stored: it grows by one exactly when a node is newly inserted, and neither re-adding a known node, nor a rejected node, nor splitting a bucket changes it.",
 ["histories","inputs"],"all sequences of additions",
 "Tests add three, respectively a thousand, distinct generated nodes and ignore the results; duplicates and rejections during a split are not covered.",
 ["dht/routetable.go"],[("insertion, split and size accounting","dht/routetable.go addNode, addNodeWithsplitBucket, Bucket.Add")],
 state=[("size","number of nodes in the table","dht/routetable.go RouteTable")])
p("C14","Buckets never exceed their capacity, the table never exceeds its bucket limit",
 "A bucket never holds more nodes than its capacity, whatever goroutines add to it at the same time, and never holds the same node twice; a new bucket is only created while the number of buckets is below the table's limit, and only by splitting a full last bucket.",
 ["schedules","histories"],"all sequences and interleavings of additions",
 "Sequential tests with distinct nodes cannot overfill a bucket.",
 ["dht/routetable.go"],[("capacity check inside the critical section","dht/routetable.go Bucket.Add"),("duplicate and limit checks","dht/routetable.go addNode, addNodeWithsplitBucket")])
p("C15","Node identities are compared as exact bytes",
 "Two node ids are treated as the same node only when they are byte-for-byte equal; looking up an id never returns a node with a different id. Ids are binary data, so comparisons that fold case or interpret text encodings are never applied to them.",
 ["inputs"],"all pairs of 20-byte ids",
 "Tests use a few generated ids, which do not collide under case folding or invalid-UTF-8 folding.",
 ["dht/node.go","dht/routetable.go"],[("node equality and lookup","dht/node.go NodeInfo.Equals; dht/routetable.go RouteTable.Find")])
p("C16","A pooled buffer has one owner at a time",
 "After a buffer has been returned to a buffer pool, no code reads or writes it through an older reference, no longer-lived data keeps a reference into it, and it is not returned a second time; a buffer handed to another goroutine is not touched by the sender any more.",
 ["schedules","histories"],"all message sequences and all interleavings of pool users",
 "Reuse of a returned buffer corrupts data only when another user gets the same buffer in between; tests use one buffer at a time.",
 ["dht/krpc/server.go","dht/krpc/udp.go","dht/peerwire/bep3.go","dht/peerwire/bep9.go","misc/bytespool.go"],
 [("return to the pool at the end of handling","dht/krpc/server.go recvPacketHandle; dht/peerwire/bep9.go readMetaDataHandler; dht/peerwire/bep3.go readBytesByPrefixLenMsg"),("copy of piece data kept after handling","dht/peerwire/bep9.go handleExtendedMsg")])
p("C17","The buffer pool always hands out buffers of the requested length",
 "A buffer obtained from the pool for a size has exactly that length, no matter which buffers, and which shortened slices of them, were returned before; getting or returning a buffer never blocks, and at most the configured number of buffers per size is retained.",
 ["histories","schedules"],"all sequences of get and put with any slices",
 "Tests put back the untouched buffer once.",
 ["misc/bytespool.go"],[("buffers are classed by capacity and restored to full length when returned","misc/bytespool.go Put, loadOrStore, Get, GetBySize")])
p("C18","Only metadata whose SHA-1 is the requested info-hash is accepted",
 "A metadata download reports success only with bytes whose SHA-1 equals the info-hash that was asked for, and those exact bytes; in every other case (incomplete, mismatch, peer failure) it reports an error and no bytes. Only successfully downloaded metadata is ever written to a torrent file, under the name of the info-hash it was verified against.",
 ["inputs","fault_sequences"],"every peer behaviour",
 "The only tests that download need hosts on the internet; a malicious or truncating peer is not sampled.",
 ["dht/peerwire/bep9.go","dht/fetchtorrent.go","dht/peerwire/peer.go"],[("checksum before the success return","dht/peerwire/bep9.go FetchMetaData"),("write only on success","dht/fetchtorrent.go fetchHandler")])
p("C19","Torrent files stay in their directory and are complete or absent",
 "Every file written for a discovered torrent lies in the torrent directory, which is created when missing; its name is built only from the hexadecimal form of the info-hash, never from raw remote data. A file under its final name always has the complete content, even if the process crashes or the disk fills up while writing.",
 ["inputs","crash_points","fault_sequences"],"every info-hash, every crash point and write failure",
 "No test writes a torrent file.",
 ["dht/fetchtorrent.go"],[("file name construction and write","dht/fetchtorrent.go fetchHandler, flushTorrentFile")])
p("C20","A peer cannot hold a download worker indefinitely",
 "Every blocking network operation of a metadata download (connect, read, write) is under a finite deadline, the message loop stops when its time budget is used up or all pieces are there, and the connection is closed on every way out, including failures.",
 ["inputs","fault_sequences","schedules"],"every peer behaviour, including silence, never reading, and endless keep-alives",
 "No test talks to a stalling peer.",
 ["dht/peerwire/bep9.go","dht/peerwire/peer.go"],[("deadlines, loop condition, deferred close","dht/peerwire/bep9.go FetchMetaData, readMetaDataLoop; dht/peerwire/peer.go IsReadLoopExpire")])
p("C21","Peer-wire messages are read with exact framing",
 "For every way in which the transport splits the stream, a message read from a peer consists of exactly the bytes announced by its length prefix: the handshake and the prefix are read completely, a prefix of zero is a keep-alive, a prefix above the limit is refused before anything is read for it, and no byte of the following message is consumed.",
 ["inputs","schedules"],"all segmentations of the byte stream and all prefixes",
 "Parsing tests hand over complete messages as byte slices; short reads never happen in them.",
 ["dht/peerwire/bep3.go","dht/peerwire/bep9.go"],[("length prefixed read","dht/peerwire/bep3.go readBytesByPrefixLenMsg"),("handshake read","dht/peerwire/bep9.go handshakePeer")])
p("C22","The work pool runs accepted tasks and shuts down cleanly",
 "Every accepted task is executed by exactly one worker at most once, workers keep serving until shutdown, and after shutdown has begun new tasks are refused, tasks submitted before it began are still executed, and all workers exit. Shutting down is idempotent under concurrent calls and cancellation, never waits longer than its timeout, and ends in the shut-down status.",
 ["schedules","histories"],"all interleavings of submit, shutdown and cancellation",
 "The package's tests are outside the reliable suite and run single schedules with sleeps; one of the workers' exit paths was in fact unreachable.",
 ["misc/workpool.go"],[("worker loop, shutdown broadcast, wait group","misc/workpool.go workerLoop, Shutdown, waitFinish, AsyncSubmit")])
p("C23","Shutdown runs every registered clean-up within the timeout",
 "When the shutdown signal (SIGINT or SIGTERM) or cancellation arrives, every registered clean-up action is started exactly once, after the status became shutting-down; the wait ends when all finished or the timeout expired, whichever comes first, and only then does the status become shut down.",
 ["schedules","histories"],"all registration orders, slow and fast clean-ups",
 "The tests are outside the reliable suite and run one schedule each.",
 ["misc/shutdown.go"],[("wait, clean-up fan-out and timeout","misc/shutdown.go WaitShutdown, waitCleans, runCleans")])
p("C24","Closing the UDP server stops receiving, once",
 "Closing marks the server closed before the socket is closed, so that the receive loop ends instead of spinning on errors; a receive error alone does not end the loop while the server is open. Closing again is harmless and reports no error, and each received datagram is queued with its own buffer, limited to the bytes received, and with its sender.",
 ["schedules","fault_sequences"],"all interleavings of receive and close, all receive errors",
 "Tests close idle servers and do not look at the receive loop afterwards.",
 ["dht/krpc/udp.go"],[("closed flag and receive loop","dht/krpc/udp.go Close, close, recvRoutiue")])
p("C25","Logging contracts: a panic-level log never returns, level filters are honoured",
 "Logging at panic level never returns normally at any configured level, because callers rely on it to stop. Each other level is emitted exactly when the configured level is at or below it and never panics, and changing the level applies to loggers that were created before.",
 ["configurations"],"all configured levels and logger kinds",
 "Tests log once at the default level.",
 ["misc/logger.go","misc/zap.go"],[("level gates","misc/logger.go consoleLogger; misc/zap.go zapLogger")])
p("C26","Middleware runs in order around exactly one handler, isolated per message",
 "For each message the registered middlewares run in registration order, followed by the message's handler, each at most once even if a middleware does not call, or calls repeatedly, the continuation; request and response chains are not mixed. Concurrent messages never share the chain, the position in it, or the context.",
 ["schedules","configurations"],"all middleware sets, all concurrent messages",
 "Tests run two middlewares on one message at a time.",
 ["dht/krpc/middleware.go","dht/krpc/server.go"],[("chain construction","dht/krpc/server.go doRequestHandle, doResponseHandle"),("position counter","dht/krpc/middleware.go Next")])
p("C27","Compact node and peer encodings: writer and reader agree",
 "A compact node is 20 bytes of id, 4 bytes of IPv4 address and 2 bytes of big-endian port, a compact peer the last six of these; what is written and what is read use the same fields at the same offsets, in the same order and byte order. Parsing a node list of any length never reads beyond it and yields one entry per complete record, none of which aliases another.",
 ["inputs"],"all node and peer lists, including incomplete trailing records",
 "One sample list is parsed and re-joined; an error made symmetrically on both sides, or on incomplete lists, is not seen.",
 ["dht/node.go"],[("joinNodeInfos / parseNodeInfo, joinPeerInfos / parsePeerInfo","dht/node.go")])
p("C28","Transaction ids do not repeat among 65536 consecutive requests",
 "Under any interleaving, any 65536 consecutively generated transaction ids are pairwise different: each call advances the counter by one and takes its own value in the same critical section, and the value is rendered injectively with fixed width. Every query the crawler sends takes a freshly generated id.",
 ["schedules","histories"],"all interleavings of generators",
 "The test prints three ids from one goroutine.",
 ["dht/node.go","dht/dht.go","dht/resphandler.go"],[("counter and rendering","dht/node.go TxIdGenerator")])
p("C29","A download is directed at the address the announce designates",
 "For an announce, the download goes to the announcing node's IP, at the UDP source port when implied_port is present and positive, and at the announced port otherwise; the address is formed validly for IPv6 as well as IPv4.",
 ["inputs"],"all announces from IPv4 and IPv6 nodes",
 "One IPv4 announce without implied port is tested.",
 ["dht/fetchtorrent.go"],[("address selection","dht/fetchtorrent.go parseFetchAddr")])
p("C30","KRPC messages are written and read with the same keys",
 "Every envelope and argument key that the receiving side of a message requires is written by the side that builds that message, with the same key and kind of value, and follows BEP 5: t, y, q with a, r, or e at the top, with e a list of code and message; id in every argument and response dictionary; and each method's own arguments.",
 ["programs","inputs"],"all message kinds",
 "Tests compare constructed messages with literals, not with what the receiving side reads.",
 ["dht/krpc/messages.go","dht/messgaes.go","dht/krpc/server.go","dht/requesthandler.go","dht/resphandler.go"],
 [("message constructors","dht/messgaes.go; dht/krpc/messages.go RawData"),("readers","dht/krpc/server.go; dht/requesthandler.go; dht/resphandler.go")])
p("C31","The peer handshake is written and checked consistently",
 "The handshake sent has the BEP 3 layout (length byte, protocol name, 8 reserved bytes with the extension bit, 20 byte info-hash, 20 byte peer id; 68 bytes) and is only built from 20-byte ids. A download continues past the handshake only when the peer's reply names the same protocol and sets the extension bit, and reading the reply uses the layout that is written.",
 ["inputs"],"all ids and all peer replies",
 "The handshake tests are outside the reliable suite and sample two byte strings.",
 ["dht/peerwire/bep3.go","dht/peerwire/bep9.go"],[("handshake writer, reader and checks","dht/peerwire/bep3.go withHandShakeMsg, parseHandShakeMsg; dht/peerwire/bep9.go handshakePeer")])
p("C32","Configuration: defaults, reload, and consistent keys",
 "After the configuration is (re)loaded, every configuration accessor returns the values of that load, not of an earlier one. Each section is defaulted and read under the same key and with the same structure, a missing configuration file at the default location is created there from the defaults (its directory included), and every other failure to load, write or read the configuration is reported instead of being ignored; nothing is cached from a failed read.",
 ["configurations","histories"],"all configuration files and reload sequences",
 "No test reloads the configuration.",
 ["config/config.go","cmd/root.go"],[("section cache and reload","config/config.go getSubConfig, ResetConfig")])
p("C33","Failures of codec, network, table and file operations are not swallowed",
 "An error reported by decoding, encoding, connecting, reading, writing, creating a file, or adding to the routing table is never discarded with its result then used as if it were valid: on the failing path the operation's result is not used and the caller either returns an error, panics, or logs and abandons the step.",
 ["fault_sequences","inputs"],"every fallible call and every failure",
 "Tests do not inject failures.",
 ["dht/krpc/server.go","dht/krpc/udp.go","dht/peerwire/bep3.go","dht/peerwire/bep9.go","dht/peerwire/bep10.go","dht/fetchtorrent.go","dht/routetable.go","misc/beancode.go","cmd/torrent.go","config/config.go"],
 [("error checks after each fallible call","all listed files")])
p("C34","Answering queries never waits for downloads or other peers",
 "Handling an incoming query or response never blocks on the download queue, on a TCP connection, or on another node's reply: when the download queue is full the announce is still answered and the work is dropped.",
 ["schedules","histories"],"all loads, including a full download queue",
 "Tests never fill the queue.",
 ["dht/requesthandler.go","dht/resphandler.go","dht/fetchtorrent.go"],[("hand-over to the download queue","dht/requesthandler.go announcePeerHandler")])
p("C35","Metadata pieces are placed and counted by their own number",
 "The download counts as complete only when every piece of the announced size has been received; receiving a piece stores its data under, and marks as received, the number in that message, only data messages do so, every piece number of the announced size is requested, and the pieces are joined in ascending order.",
 ["inputs","histories"],"all announced sizes and all piece message sequences",
 "No reliable test downloads metadata.",
 ["dht/peerwire/bep9.go","dht/peerwire/peer.go"],[("piece bookkeeping","dht/peerwire/bep9.go handleExtendedMsg, FetchMetaData; dht/peerwire/peer.go CompledMetaData")])
p("C40","Extended messages are framed and carry the announced ids",
 "Every extended message that is sent consists of a four-byte big-endian length equal to the number of bytes that follow, the message type 20, the extension id, and the bencoded dictionary. The extended handshake has id 0 and announces an id for ut_metadata that no other extension shares; metadata is requested only after the peer's extended handshake and under the id, between 1 and 255, that the peer announced for ut_metadata; pieces are taken only from messages under the id that we announced.",
 ["inputs","histories"],"all handshakes and messages a peer may send",
 "No reliable test runs a metadata download; the wire tests compare two fixed messages.",
 ["dht/peerwire/bep9.go","dht/peerwire/bep10.go"],[("extended handshake and requests","dht/peerwire/bep10.go BaseExHandShakeMsg.Bytes; dht/peerwire/bep9.go BaseExFetchMetaMsg.Bytes, handleExtendedMsg, initialMessages")])
p("C42","Typed reads return the entry under exactly that key and of that type",
 "Reading from a decoded dictionary or list returns the element stored under exactly the given key or index, and only when it has the asked-for type; otherwise the read fails with a panic, for a dictionary with a *misc.Error, or, in the forms with a default, returns exactly the default. The forms with a default never panic and return the default only when the entry is missing or of another type. Existence queries answer exactly whether the key or (non-negative) index is there. Reading changes nothing.",
 ["inputs"],"all dictionaries, lists, keys, indices and defaults",
 "A few keys of one dictionary are tested, and not among the reliable tests; every message handler relies on these reads for validation.",
 ["misc/types.go"],[("typed reads","misc/types.go Dict.Get*, Dict.Exist, List.Get*, List.Exist")])
p("C41", "The crawl is complete: what is learned is used",
  "At start-up a find_node query with a handler that adds nodes to the table is sent to every configured bootstrap node, the server is started and the process waits for shutdown. For every response to such a query, every node in it is offered to the routing table, and every node that the table accepts is itself sent a find_node query at its own address with such a handler. For every valid announce_peer query one item with the context of that query is put into the download queue (it may be dropped only because the queue is full); the loop that takes items from the queue runs from before the server listens, and for every item that is taken exactly one download task is started, for that item and no other; a task downloads exactly once, and a download that succeeded is written to a file.",
  ["all responses and node lists of any length", "all announces and queue states", "all configurations", "all histories of the download loop"], "source paths of the links of the pipeline",
  "a test samples a list of one or two nodes and one announce; an element passed over, a loop that ends early, an announce given to the wrong task or to none shows only with particular lists and arrival orders, and then only as a crawler that finds less",
  ["cmd/root.go", "dht/dht.go", "dht/resphandler.go", "dht/requesthandler.go", "dht/fetchtorrent.go"],
  [("start-up", "cmd.rootExectueFunc"), ("bootstrap", "dht.BootStrap"), ("responses", "dht.genericRespHandler"), ("announces", "dht.announcePeerHandler"), ("download loop", "dht.fetchTorrent")])
p("C43", "A node is stored, and looked up, in the bucket of its common prefix",
  "The number of common leading bits of two ids is computed exactly: it is eight times the index of the first byte in which they differ plus the leading zero bits of the difference of these bytes, and eight bits for every byte when no byte differs; the bytewise exclusive or has the length of the shorter input, combines the elements with the same index, and leaves its inputs as they were. A node is stored only in the bucket whose index is the smaller one of the common prefix of its id with the own id and the index of the last bucket at that time, when it is added and when a bucket is split; a split moves every node of the bucket. Looking up an id searches every node of exactly that bucket.",
  ["all ids", "all histories of additions and splits"], "source paths of insertion, split and lookup",
  "the tests use a handful of ids that differ in the first bits and look up nodes of small tables; a node in a bucket where it is never looked for shows only after particular splits",
  ["dht/routetable.go", "misc/bits.go"],
  [("common prefix", "dht.solvePrefixLen, misc.Xor"), ("bucket index", "(*dht.RouteTable).solveMaxPreLen"), ("insertion and split", "(*dht.RouteTable).AddNode"), ("lookup", "(*dht.RouteTable).Find")])
p("C39","Only canonical integers and lengths are accepted",
 "The decoders accept an integer or a string length only when it is written in the one canonical decimal form, that is as strconv.Itoa writes the number: leading zeros, negative zero, a plus sign, empty digits and non-digits are rejected by DecodeInteger, DecodeString, DecodeSlice, DecodeDict and DecodeDictNoLimit at every depth. Two different byte strings therefore never stand for the same number.",
 ["inputs"],"all digit strings",
 "A few literals are tested; '+5', '007:...' and '-0' are three of endlessly many other spellings.",
 ["misc/beancode.go"],[("the converted text is compared with the form the number is written in","misc/beancode.go innerDecodeInteger, innerDecodeString, DecodeString")])
# properties that static analysis does not decide here
p("C36","Bencode round trip",
 "Decoding the encoding of any supported value yields an equal value, and re-encoding a decoded canonical document yields the same bytes.",
 ["inputs"],"all values and all documents",
 "Tests sample a few values in each direction separately.",
 ["misc/beancode.go"],[("encoder and decoder","misc/beancode.go")])
p("C37","Closest-node lookup returns the k closest nodes by XOR distance",
 "Looking up the closest nodes for an id and a number k returns at most k nodes of the table, and no node of the table that is closer by XOR distance is left out.",
 ["inputs","histories"],"all tables, ids and k",
 "Tests only compare with the complete content of small tables.",
 ["dht/routetable.go"],[("bucket walk","dht/routetable.go FindClosest")])
p("C38","The crawl makes progress",
 "As long as some reachable node answers, the crawler keeps discovering and querying new nodes until its routing table is full.",
 ["schedules","histories"],"all networks",
 "Needs a network; no test covers it.",
 ["dht/resphandler.go","dht/dht.go"],[("recursive find_node","dht/resphandler.go findNodeRespHandler")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
