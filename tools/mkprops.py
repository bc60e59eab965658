#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (the only source of the properties).
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","Queries return exactly the stored messages, newest first, up to the limit",
  "For one client, a query on a topic returns exactly the live messages stored under that topic that the query's options select, each once, with the payload that was stored, newest first; when there are more than the limit it returns exactly the newest ones. The answer does not depend on whether or when the messages were synced from memory to disk, nor on how many there are.",
  ["histories","inputs","configurations"],"all sequences of put / batch / sync / time-advance / query up to a depth, across limits and block-boundary sizes",
  "TestSimple puts a handful of entries and checks counts; it never compares content or order with a reference, mixes synced and unsynced entries, or crosses a block boundary.",
  ["db.go","db_internal.go","db_sync.go","time_window.go","time_window_writer.go","block_writer.go","block_reader.go","query.go"],
  [("in-memory window plus chained on-disk window blocks","time_window.go lookup/ilookup"),("index and data blocks","block_writer.go append/write"),("result ordering and paging","db.go Get")],
  ["DB.Get","DB.Put","DB.Sync"])
p("C02","A clean close and reopen preserves every message",
  "After Close returns and the database is opened again, every query answers as it did before Close: nothing lost, nothing duplicated, nothing altered, in the same order. New messages stored after the reopen never displace or hide old ones.",
  ["histories","configurations"],"all sequences of put / delete / sync / close+reopen up to a depth, including several generations of reopen",
  "The existing tests reopen once and look only at a count, with one topic and fewer entries than one block holds.",
  ["db.go","db_internal.go","recovery.go","time_window_reader.go","db_info.go","memdb/recovery.go","wal/file.go"],
  [("topic table rebuilt from window blocks","db_internal.go loadTrie"),("log replay on open","recovery.go startRecovery"),("persisted sequence and counters","db_info.go")],
  ["Open","DB.Close","DB.Get"])
p("C03","After a crash the database opens and holds every logged message",
  "If the process dies at any instant, the next Open succeeds and every query returns each message that had reached the log before the crash, exactly once and unaltered. It returns no message that was never stored, and messages stored afterwards are not confused with recovered ones.",
  ["crash_points","histories"],"every prefix of the sequence of file-system mutations of each bounded history, including a torn last write and a second crash during recovery",
  "Tests stop only at API boundaries with a live process; no test can cut execution between two writes of a sync, a log write or a recovery.",
  ["recovery.go","db_sync.go","block_writer.go","time_window_writer.go","memdb/recovery.go","memdb/tiny_log.go","wal/file.go"],
  [("write-ahead log kept until synced","memdb releaseLog / wal SignalLogApplied"),("replay of unapplied logs","recovery.go"),("temp file then rename","wal/file.go put")],
  ["Open","DB.Get after reopen"])
p("C04","A deleted message is never returned again and others are unaffected",
  "Once a delete has returned success the message is returned by no later query: not before or after a sync, not after a clean reopen, not after a crash once the delete has been logged. No other message disappears or changes, and deleting again, or deleting an unknown identifier, changes nothing.",
  ["histories","crash_points"],"all sequences of put / delete / sync / reopen / crash up to a depth",
  "No test in the root package deletes a synced message and looks at the result afterwards.",
  ["db.go","db_internal.go","block_writer.go","leasing.go","memdb/db.go","memdb/recovery.go"],
  [("index entry marked deleted","block_writer.go del"),("delete record in the log","memdb/db.go Delete/move")],
  ["DB.Delete","DB.DeleteEntry","Batch.Delete","DB.Get"])
p("C05","A batch is applied entirely or not at all",
  "When the batch function returns nil and the call returns nil, all of the batch's operations are visible and survive any later crash; when the function fails, none is ever visible and the error is returned. If the process dies during the call, after reopening either all of its operations are present or none.",
  ["crash_points","histories","schedules"],"every crash point of batch histories, every batch content up to a size, both function outcomes",
  "TestBatch runs one successful batch without a failure path, concurrent reader or crash.",
  ["batch.go","memdb/batch.go","memdb/tiny_log.go","wal/file.go"],
  [("one log file per batch write, renamed into place","wal/file.go put"),("commit waits for the log write","memdb/tiny_log.go writeWait")],
  ["DB.Batch","Open","DB.Get"])
p("C06","Topics address exactly their own messages; wildcards match exactly by level",
  "A query for a plain topic returns the messages stored under that topic, and never ones of a different plain topic. A message stored under a pattern with '*' (one level) or trailing '...' (any further levels) is returned by a query for a plain topic exactly when the pattern matches it level by level.",
  ["inputs"],"all pairs (stored topic or pattern, queried topic) over an alphabet of level names, up to a depth",
  "TestWildcardTopics has a fixed list of topics; collisions and pattern interactions need all pairs.",
  ["message/topic.go","trie.go","hash/hash.go","db_internal.go"],
  [("topic parser","message/topic.go parseWildcardTopic"),("trie lookup","trie.go ilookup"),("topic hash","message/topic.go GetHash")],
  ["DB.Put","DB.Get"])
p("C07","Contracts isolate tenants",
  "A message stored under one contract is returned by a query only when the query names that same contract, whatever topics, wildcards, batch options or deletes are used. The default contract behaves as one more contract.",
  ["histories","inputs"],"all sequences of put / batch / query / delete over several contracts and topics, before and after sync and reopen",
  "Tests use a single contract.",
  ["db.go","db_internal.go","message/topic.go","message/id.go","batch.go"],
  [("contract as hash salt and trie root","message/topic.go AddContract"),("ID prefix check","message/id.go EvalPrefix")],
  ["DB.PutEntry","DB.Get"])
p("C08","Messages expire exactly at their time-to-live",
  "A message with a time-to-live is returned until it expires and never afterwards, in memory, on disk, after sync, reopen or recovery; a message without one never expires. Expired messages do not use up a query's limit and the background expirer never affects unexpired messages. Time-range queries return exactly the messages not older than the range.",
  ["histories","configurations"],"all sequences of put with various TTL forms / time advance / sync / expire / reopen / query under a virtual clock",
  "TestExpiry uses one entry and real sleeps; boundaries need a controlled clock.",
  ["time_window.go","expiry_window.go","entry.go","message/topic.go","query.go","db_sync.go"],
  [("expiry check on lookup","time_window.go isExpired"),("TTL option","message/topic.go TTL, entry.go WithTTL"),("expirer","db_sync.go expireEntries")],
  ["DB.Get","Entry.WithTTL","Query.WithLast"])
p("C09","Encrypted messages round-trip, are unreadable at rest and need the right key",
  "With encryption requested for the database, a batch or an entry, each payload of any length is returned unchanged by a query, never appears in clear in any file, and cannot be read with a different key. Without encryption requested, payloads of any length round-trip too, and mixing both in one topic works.",
  ["inputs","configurations","histories"],"all payload lengths up to a bound, all three ways of requesting encryption, before and after sync, reopen, crash recovery, with right and wrong key",
  "No test opens a database with encryption.",
  ["crypto/mac.go","db.go","db_internal.go","db_info.go","batch.go"],
  [("AEAD with per-message nonce","crypto/mac.go"),("encryption flag in the stored ID","db_internal.go setEntry")],
  ["DB.Get","files on disk","crypto.MAC"])
p("C10","Reusing freed space never damages a live message",
  "Whatever sequence of frees, merges, allocations and reloads happens, the space handed out for a new message never overlaps space still holding a live message or space handed out before and not freed. Total free space is conserved.",
  ["histories"],"all sequences of free / allocate / merge / save / load over a small arena; and store histories with deletes that force reuse",
  "TestLeasing frees a list once and counts.",
  ["leasing.go","block_writer.go","db_sync.go"],
  [("free-block shards with merge","leasing.go"),("allocation on append","block_writer.go append")],
  ["DB.Get after delete/put/sync","allocator interface"])
p("C11","Concurrent use of the store neither loses, duplicates, tears nor blocks",
  "Under every interleaving of client calls with the background sync and log writers, each call returns, a query returns every message whose put had returned before the query began at most once each and unaltered, and afterwards all stored messages are there exactly once. No interleaving crashes or deadlocks.",
  ["schedules"],"all interleavings of small client programs with the background goroutines up to a bound on deviations from the default schedule",
  "Tests run one schedule per run; the windows are a few instructions wide.",
  ["db.go","db_sync.go","time_window.go","trie.go","block_reader.go","memdb/db.go","memdb/tiny_log.go"],
  [("sharded locks","mutex.go, time_window.go"),("sync lock","db.go Sync"),("time-block release","db_sync.go Sync")],
  ["DB.Put","DB.Get","DB.Sync","DB.Batch","DB.Delete","DB.Close"])
p("C12","Open is exclusive and Close is final",
  "While a database is open no second Open of it succeeds, and after Close, or after the owner dies, Open succeeds again. After Close every operation returns an error promptly without crashing, a second Close reports an error, and a failed Open leaves nothing locked.",
  ["histories","schedules","fault_sequences"],"all sequences of open / close / operations on one or two handles up to a depth, with a failure injected at each step of Open",
  "Tests open a single handle and close it once.",
  ["db.go","db_internal.go","file.go","file_unix.go"],
  [("lock file","file_unix.go"),("closed flag","db_internal.go setClosed/ok")],
  ["Open","DB.Close","all DB methods"])
p("C13","Message identifiers are never reused",
  "Every identifier the store generates, explicitly or for a message stored without one, is distinct from every other it generated before for the same database, across goroutines, syncs, clean reopens and crashes for all messages that survive. The identifier encodes its own sequence and contract faithfully.",
  ["histories","schedules","crash_points"],"all histories of NewID / put / batch / sync / reopen / crash up to a depth, all interleavings of concurrent generators",
  "Tests never compare identifiers across generations.",
  ["db_internal.go","db_info.go","message/id.go","recovery.go"],
  [("atomic sequence","db_internal.go nextSeq"),("sequence persisted","db_info.go")],
  ["DB.NewID","DB.Get","message.ID"])
p("C14","The message count equals the number of stored live messages",
  "Once everything stored has been synced, the reported count equals the number of messages stored and not deleted or reclaimed by the expirer; it survives a clean reopen, is right after recovery from a crash, and never underflows.",
  ["histories","crash_points"],"all sequences of put / batch / delete / sync / reopen / crash up to a depth",
  "Tests check the count only after simple puts.",
  ["db_internal.go","db_sync.go","db_info.go","recovery.go"],
  [("counter adjusted at sync, delete and abort","db_internal.go incount/decount"),("persisted with info","db_info.go")],
  ["DB.Count"])
p("C15","An I/O error is survived: no acknowledged message is lost or damaged",
  "If a file operation fails at any point while messages are being logged or synced, the failing call reports an error or the work is retried, earlier messages stay readable, and after a restart every message that had been logged is present exactly once and unaltered.",
  ["fault_sequences","histories"],"one injected failure at every file operation of each bounded history, followed by continued use and by restart",
  "No test injects an error.",
  ["db_sync.go","block_writer.go","time_window_writer.go","memdb/db_internal.go","wal/file.go"],
  [("abort and rollback","db_sync.go abort, block_writer.go rollback"),("log kept until applied","memdb/db_internal.go releaseLog")],
  ["DB.Sync","DB.Get","Open"])
p("C16","Invalid requests are refused with an error and change nothing",
  "Empty or oversized topics, empty or oversized payloads, missing identifiers, unparsable topics and deletes on an immutable database return an error, never crash, and leave the stored messages unchanged. Query limits are clamped to the configured default and maximum.",
  ["inputs","configurations"],"all short byte strings over the topic metacharacters as topics for every entry point, all argument-presence combinations, all limit values around the configured bounds",
  "Tests only issue valid requests.",
  ["db.go","batch.go","options.go","query.go","message/topic.go"],
  [("argument checks","db.go PutEntry/DeleteEntry/Get"),("topic parser","message/topic.go")],
  ["DB.Put","DB.Delete","DB.Get","DB.Batch"])
p("C17","The in-memory block store behaves as a map of live keys",
  "For one client, a lookup returns the data of a key as it was stored last and not deleted or freed since, and an error otherwise; listing, counting and iterating agree with that set; freeing a time block removes exactly what it holds. This holds across time-block rollover, for batches and after a clean reopen (but which value counts as last after a reopen is open for a key stored by both a batch and a single put).",
  ["histories"],"all sequences of put / get / delete / batch / free / time-advance up to a depth, over colliding key shards",
  "memdb's TestSimple reads back one batch of keys in one time block.",
  ["memdb/db.go","memdb/db_internal.go","memdb/block.go","memdb/batch.go"],
  [("time blocks and per-shard bloom filters","memdb/db.go Get"),("query cache","memdb/query.go")],
  ["memdb.DB.Get/Put/Delete/Lookup/Keys/Size/BlockIterator/Free"])
p("C18","The in-memory block store recovers exactly what was logged",
  "After a crash at any point, reopening yields every key whose put, batch or delete had reached the log with that effect, no key that was never stored and no freed key whose release completed; every batch is recovered entirely or not at all. The keys recovered are all reachable by lookup and iteration.",
  ["crash_points","histories"],"every crash point of every bounded history of put / batch / delete / free / time-advance",
  "TestRecovery closes cleanly and checks a count.",
  ["memdb/recovery.go","memdb/db_internal.go","memdb/tiny_log.go","wal/file.go"],
  [("tiny log written per interval","memdb/db_internal.go tinyWrite"),("replay","memdb/recovery.go")],
  ["memdb.Open","memdb.DB.Keys","memdb.DB.All"])
p("C19","The in-memory block store is safe and live under concurrency",
  "Under every interleaving of concurrent put / get / delete / batch / free / list / close with the log goroutines, every call returns, a get that starts after a put returned finds the data unaltered unless it was deleted or freed, and nothing crashes. Close returns and everything put before it is in the log.",
  ["schedules"],"all interleavings up to a deviation bound of two or three client threads with the background goroutines",
  "Tests are single-threaded clients.",
  ["memdb/db.go","memdb/db_internal.go","memdb/tiny_log.go","memdb/time_mark.go","memdb/batch.go"],
  [("block, map and time locks","memdb/db_internal.go"),("log queue goroutines","memdb/tiny_log.go")],
  ["memdb.DB methods"])
p("C20","The write-ahead log replays exactly the complete unapplied logs",
  "On reopening the log, iteration yields each log whose write was acknowledged and that was not signalled applied, exactly once, in the order written, with its exact records; a log whose write did not complete is never yielded in part, and applied logs never return. A log file with damaged contents does not prevent the others from being replayed, and an I/O error while reading is returned and loses no log.",
  ["crash_points","histories","fault_sequences"],"all histories of write / apply / reset / close / reopen up to a depth, all crash points with torn writes, all truncations and one failing file operation",
  "The wal tests write and read one log.",
  ["wal/wal.go","wal/file.go","wal/reader.go","wal/writer.go","wal/header.go"],
  [("temp file plus rename","wal/file.go put"),("applied logs removed","wal/wal.go SignalLogApplied")],
  ["wal.New","Reader.Iterator/Next/Count","Writer.Append/SignalInitWrite"])
p("C21","Membership filters never deny a present key",
  "A key added to a filter tests present in that filter, in every serialized copy taken afterwards and in filters rebuilt from the bytes, including under concurrent adds and tests.",
  ["inputs","schedules"],"all small key sets and structured key patterns; all interleavings of two adders with a tester and a serializer",
  "There is no test of the filter package.",
  ["filter/filter.go","filter/bloom.go"],
  [("bloom bits","filter/filter.go Add/Test"),("serialization","filter/filter.go Bytes")],
  ["filter.Generator","filter.Block"])
p("C22","Consistent hashing maps every key to a valid block, stably",
  "For every number of blocks and every key the chosen block is in range and the same every time; instances with the same configuration and the same history of changes agree. Adding a block only moves keys to that block, removing one only moves the keys it had, and adding back the block removed last restores the assignment; every lookup returns. (FindBlock, GetPath, AddBlock, RemoveBlock; at least one block stays in use.)",
  ["inputs","configurations"],"all block counts up to a bound and all keys of a structured key set; all sequences of additions and removals of blocks up to a depth",
  "The hash tests check a distribution for a few sizes.",
  ["hash/consistent.go","hash/modulo.go","hash/rand.go","hash/hash.go"],
  [("ring of virtual blocks","hash/consistent.go")],
  ["Consistent.FindBlock","Consistent.GetPath","Consistent.AddBlock","Consistent.RemoveBlock"])
p("C23","Protocol messages survive encode and decode unchanged",
  "Every well-formed protocol message, and every topic or payload content within the format's size limits, is decoded to a message equal to the one encoded, alone or followed by others in one stream, however the transport (TCP, gRPC stream or websocket) splits the bytes; the bytes written to a gRPC stream or a websocket are the bytes the other end receives, each write whole even if several threads write, and threads that read get successive pieces.",
  ["inputs","schedules"],"all message types with all combinations of field values from boundary sets; all splits of the byte stream into reads; all interleavings of two or three threads on one adapter within a bound",
  "The server packages have no tests.",
  ["server/utp/message.go","server/utp/connect.go","server/utp/publish.go","server/utp/subscribe.go","server/utp/relay.go","server/utp/flow_control.go","server/internal/net/message.go","server/common/conn.go","server/common/encode.go"],
  [("fixed header plus protobuf body","server/utp, server/internal/net/message.go"),("chunked stream adapter","server/common/conn.go")],
  ["utp.Read / Pack.ToBinary","common.Conn"])
p("C24","Malformed network input never crashes or blocks the server",
  "Whatever bytes a client sends, the decoder, the topic and key parsers and the connection handler return an error or a reply; they never panic, allocate according to an unchecked attacker-chosen size or hang, and the server goes on serving other clients.",
  ["inputs","histories"],"all byte strings up to a length, all single-byte mutations and truncations of every valid message, all topic strings over the metacharacters, all request orders up to a depth including before connecting",
  "No test sends malformed input.",
  ["server/internal/net/message.go","server/utp/message.go","server/internal/conn.go","server/internal/hdl_conn.go","server/internal/message/security/key.go","message/topic.go"],
  [("header and length parsing","server/internal/net/message.go"),("topic and key parsing","server/internal/message/security/key.go")],
  ["connection handler"])
p("C25","A security key grants exactly its own permissions on its own topics",
  "A key made for a contract, a topic and a set of permissions carries exactly those through its text form. A connection that is not marked insecure has a publish honoured only with a key that has the write permission and a subscribe, unsubscribe or relay only with one that has the read permission, and only for the very topic the key was made for or, with a key for '...', for any topic of that contract; a key made for a wildcard topic cannot be used to publish. Otherwise the client gets an error and nothing changes. (Keys are obfuscated, not signed: that nobody can make one up is not claimed.)",
  ["inputs","configurations"],"all combinations of key permissions, key topic patterns, requested topics and operations over a small alphabet; all byte values of a key",
  "There is no test of the security package.",
  ["server/internal/message/security/key.go","server/internal/hdl_conn.go","server/internal/conn.go"],
  [("key encryption and validation","server/internal/message/security/key.go"),("request checks","server/internal/hdl_conn.go onSecureRequest")],
  ["connection handler replies","security.Key"])
p("C26","At most one cluster leader per term",
  "In every schedule of timeouts, votes and message losses and delays no two nodes lead in the same term; a node votes at most once per term (a candidate for itself), a node leads only with votes from a majority of the configured nodes, and a node that voted or was pinged in a higher term stops leading in the lower one and votes for no candidate of a lower one. (Nodes keep running; a node restarted without its term is not covered.)",
  ["schedules","fault_sequences"],"all interleavings, losses and delays of a three-node cluster up to a number of deviations; all sequences of broken links; clusters of three to six nodes cut in two in every way, twice",
  "There is no cluster test.",
  ["server/internal/cluster_leader.go","server/internal/cluster.go"],
  [("term and vote bookkeeping","server/internal/cluster_leader.go"),("majority count","server/internal/cluster_leader.go electLeader")],
  ["pings and votes between nodes"])
p("C27","All cluster nodes agree on which node owns a topic",
  "Nodes that know the same set of members compute the same owner for every contract and the same ring signature, whatever the order in which members were configured or rehashed; different memberships have different signatures. Exactly one member considers itself the owner.",
  ["inputs","configurations"],"all member subsets and orders up to a size, all keys of a structured set",
  "There is no cluster test.",
  ["server/internal/cluster.go","server/internal/pkg/hash"],
  [("hash ring with signature","server/internal/pkg/hash"),("rehash","server/internal/cluster.go")],
  ["ring owner and signature"])
p("C28","Message numbers are unique within a connection and always obtainable",
  "The message numbers handed out to a connection since its counter was last reset are positive, all different, and never one that was resumed from an earlier connection; the type recorded for a number is the one it was handed out for until it is freed; and no sequence or interleaving of requests, resumptions, frees and resets ever blocks.",
  ["histories","schedules"],"all sequences of allocate / resume / release / reset up to a depth from boundary starting points; all interleavings of concurrent allocators",
  "There is no test of the package.",
  ["server/internal/message/messageids.go"],
  [("allocation table","server/internal/message/messageids.go")],
  ["MessageIds.NextID/ResumeID/FreeID"])
p("C29","Subscriptions are counted exactly",
  "For every sequence of subscribe and unsubscribe the set of subscribed topics is exactly those with more subscribes than unsubscribes, each reported when it is first added and when it is last removed; concurrent updates do not lose or invent one.",
  ["histories","schedules"],"all sequences over two topics and two clients up to a depth; all interleavings of two threads",
  "There is no test of the package.",
  ["server/internal/message/sub.go","server/internal/store/store.go"],
  [("counted statistics","server/internal/message/sub.go")],
  ["Stats.Increment/Decrement/All"])
p("C30","A published message reaches exactly the subscribers of its topic",
  "A message published on a topic is delivered, once for each of its matching subscriptions, to every connected client of the same contract subscribed to a matching topic pattern, with its topic and payload unchanged, and to no other client; it is returned, until its time to live is over, to later relay requests on that topic whose range of time it is in, and is acknowledged to the publisher as its delivery mode demands. (Clients of one server process; the order of publications is not claimed.)",
  ["histories","schedules","inputs"],"all sequences of connect / subscribe / unsubscribe / publish / disconnect of two or three clients up to a depth, over topics with wildcards and delivery modes",
  "The server packages have no tests.",
  ["server/internal/hdl_conn.go","server/internal/conn.go","server/internal/batch.go","server/internal/conn_cache.go","server/internal/store/store.go"],
  [("subscription store","server/internal/store/store.go"),("fan-out","server/internal/conn.go publish"),("batch manager","server/internal/batch.go")],
  ["bytes received by each client"])
p("C31","Unacknowledged reliable deliveries survive reconnection",
  "A client that keeps its session (the same session key, or the one it was told when it connected) and subscribed for reliable delivery is announced each matching message; a message announced but not yet confirmed is announced again after it reconnects, also after the server was restarted or, if announced a second before, crashed, and can be fetched unaltered until confirmed; confirmed messages are not announced again, and a clean session discards all of them. (At most 65535 messages per session, one connection per session at a time.)",
  ["histories","crash_points","schedules"],"all sequences of publish / receive / acknowledge / disconnect / reconnect (clean or not) / restart up to a depth",
  "The server packages have no tests.",
  ["server/internal/hdl_conn.go","server/internal/conn.go","server/internal/store/store.go","server/internal/message/messageids.go"],
  [("session log keyed by session and message number","server/internal/store/store.go"),("resume","server/internal/hdl_conn.go")],
  ["bytes received by the client after reconnecting"])
p("C32","Client identifiers are accepted only if this server minted them",
  "A client identifier issued by the server decodes to the contract and identity it was issued for, and the connection gets that contract; an identifier altered in any way, or made with another key, is refused (and answered with a new identifier of a new contract) or decodes to the very same identity; it never gets the contract of somebody else.",
  ["inputs"],"all single-byte alterations, truncations and extensions of identifiers for boundary values of every field",
  "The server packages have no tests.",
  ["server/internal/pkg/uid","server/internal/hdl_conn.go","server/internal/conn.go","server/internal/pkg/crypto"],
  [("authenticated encoding","server/internal/pkg/uid, server/internal/pkg/crypto")],
  ["connect acknowledgement"])
p("C33","After failures the connected cluster nodes follow one leader and one ring",
  "When links and nodes stop failing and a majority of the nodes is connected, one of them becomes and stays the leader, it pings all the others, and all connected nodes come to have the ring of exactly the connected nodes. A node follows only the leader of the highest term it was pinged in. (Nodes with different heartbeats; nodes keep running.)",
  ["histories","fault_sequences"],"all sequences of broken and restored links, and of nodes cut off and coming back, up to a depth; clusters of four and five nodes cut in two in every way; calls lost or late at every position",
  "There is no cluster test.",
  ["server/internal/cluster_leader.go","server/internal/cluster.go"],
  [("pings, failure counts and rehashing","server/internal/cluster_leader.go sendPings, run"),("reconnection","server/internal/cluster.go reconnect")],
  ["pings and ring signatures between nodes"])
p("C34","Every connection reaches the right protocol handler with all its bytes, once",
  "A connection to the server's listener is handed, once, to the first registered protocol that the bytes it begins with match (a prefix matcher matches exactly the byte strings that begin with one of its prefixes, and a content-type matcher exactly the HTTP/2 requests that have that content type; bytes still missing when the read timeout expires count as not sent), and is closed if none does. The handler then reads exactly the bytes the client sent, in order, from the first, at whatever pace, and its writes reach the client. Clients that are silent or slow do not delay others. Passing errors of accept do not end the server's accepting; a lasting one does. After the listener is closed no protocol waits for connections any more, and every connection has either been handed over or is closed.",
  ["inputs","schedules"],"all splits, delays and read sizes of the first bytes; pairs of clients and the closing of the listener under all schedules within a bound; all sequences of accept errors up to a length",
  "The server packages have no tests.",
  ["server/internal/net/listener/listener.go","server/internal/net/listener/patricia.go","server/internal/net/hdl_tcp.go"],
  [("sniffing and replaying of the first bytes","server/internal/net/listener/listener.go serve, stream"),("prefix matching","server/internal/net/listener/patricia.go"),("accept loop","server/internal/net/hdl_tcp.go Serve")],
  ["bytes read by protocol handlers and by clients"])
p("C35","The statistics count exactly what happened",
  "Since a store was opened, its statistics (Varz, and the page served at /varz) count each successful put, delete, message returned by a query, message synced to disk or recovered, exactly once, also with concurrent callers and in an in-memory store. The connections and subscriptions shown by the server are the current ones, and its messages in and bytes in those published to it. The figures of a series of durations (sum, mean, percentiles, extremes, deviation) are those of its latest samples, live and in a snapshot, and zero without samples.",
  ["histories","schedules","inputs"],"all histories of operations up to a depth, all schedules of concurrent callers within a bound, all sequences of samples up to a length",
  "There is no test of the statistics but one of a single counter.",
  ["meter.go","memdb/meter.go","metrics/counter.go","metrics/timeseries.go","server/internal/monitor.go","server/internal/pkg/metrics/timeseries.go"],
  [("counting","db.go, db_internal.go, db_sync.go, batch.go (uses of db.internal.meter)"),("series of durations","metrics/timeseries.go, metrics/snapshot"),("server's counts","server/internal/conn.go, hdl_conn.go, monitor.go")],
  ["Varz","/varz page","metrics snapshots"])
p("C36","Reported metrics reach the collector whole, once, in order and in time",
  "Each metric reported to the statsd reporter of the server (counts, timings, durations, set members, with tags) arrives at the collector once, with exactly the name, value, prefix and tags reported, in the order each thread reported, in packets no larger than the limit (unless a single metric is), within the flush interval while the collector works. Only packets refused or left over when the queue is full are lost, and the latter are counted. Trouble of the collector is survived. Stopping sends what is pending, returns, also when the collector is unreachable, and closes the sockets; metrics reported later are ignored.",
  ["histories","schedules","fault_sequences"],"all histories of reports, bursts, trouble and stopping up to a depth, all schedules of reporting and stopping threads within a bound",
  "The reporter has no tests.",
  ["server/internal/pkg/stats/stats.go","server/internal/pkg/stats/buffers.go","server/internal/pkg/stats/tags.go"],
  [("buffering and flushing","server/internal/pkg/stats/buffers.go"),("sending, reconnecting, shutdown","server/internal/pkg/stats/stats.go flushLoop, sendLoop, close"),("format","server/internal/pkg/stats/tags.go, stats.go")],
  ["datagrams received by the collector","the log of lost packets"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
