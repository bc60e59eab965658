"""Which harness decides which property."""

BPOOL = "github.com/unit-io/bpool"
ROOT_PKGS = ["", "filter", "memdb", "wal", "message", "uid", BPOOL]

GROUPS = {
    # the store with small lock tables and small blocks, so that block boundaries are crossed by short histories
    "db-small": {
        "pkgs": ROOT_PKGS, "at": "verifh/dbh", "harness": ["dbh"],
        "consts": [("", "nBlocks", 16), ("memdb", "nLocks", 16), ("", "entriesPerWindowBlock", 3), ("", "entriesPerIndexBlock", 4)],
    },
    # the store with the constants it ships with (lock tables apart)
    "db-real": {
        "pkgs": ROOT_PKGS, "at": "verifh/dbh", "harness": ["dbh"],
        "consts": [("", "nBlocks", 1009), ("memdb", "nLocks", 1009)],
    },
    # the same, with accesses to shared memory tracked: unordered accesses become choice points
    "db-race": {
        "pkgs": ROOT_PKGS + ["crypto"], "at": "verifh/dbh", "harness": ["dbh"], "race": ROOT_PKGS + ["crypto"],
        "consts": [("", "nBlocks", 16), ("memdb", "nLocks", 16), ("", "entriesPerWindowBlock", 3), ("", "entriesPerIndexBlock", 4)],
    },
    # the store with the accesses of its statistics to shared memory tracked
    "db-meter": {
        "pkgs": ROOT_PKGS + ["metrics"], "at": "verifh/dbh", "harness": ["dbh"], "race": ["metrics"],
        "consts": [("", "nBlocks", 16), ("memdb", "nLocks", 16), ("", "entriesPerWindowBlock", 3), ("", "entriesPerIndexBlock", 4)],
    },
    # the in-memory block store, the write-ahead log, the filters and the hash on their own
    "mem": {
        "pkgs": ["filter", "memdb", "wal", "uid", "hash", BPOOL], "at": "verifh/memh", "harness": ["memh"],
        "consts": [("memdb", "nLocks", 16)],
    },
    "mem-race": {
        "pkgs": ["filter", "memdb", "wal", "uid", "hash", BPOOL], "at": "verifh/memh", "harness": ["memh"], "race": ["filter", "memdb", "wal", "uid", "hash", BPOOL],
        "consts": [("memdb", "nLocks", 16)],
    },
    # the filter with few bits and a scheduling point before every statement
    "filter": {
        "pkgs": ["filter", "memdb", "wal", "uid", "hash", BPOOL], "at": "verifh/memh", "harness": ["memh"],
        "consts": [("memdb", "nLocks", 16), ("filter", "bloomHashes", 2), ("filter", "bloomBits", 128)], "step": ["filter"],
    },
    # the parts of the server that can be called on their own
    "srv": {
        "pkgs": ["server/internal/message", "server/internal/pkg/uid"],
        "copy": ["server/common", "server/utp", "server/proto", "server/internal/net", "server/internal/message/security", "server/internal/pkg/hash", "server/internal/pkg/crypto", "server/internal/types"],
        "at": "server/verifh", "harness": ["srvh"], "step": ["server/internal/message"],
    },
    # the adapters that make connections of gRPC streams and websockets, with accesses to shared memory tracked; identifiers
    # and keys with a scheduling point before every statement
    "adapt": {
        "pkgs": ["server/common", "server/internal/net", "server/utp", "server/internal/pkg/uid", "server/internal/pkg/crypto", "server/internal/pkg/encoding", "server/internal/message/security"],
        "copy": ["server/proto", "server/internal/net/listener"],
        "at": "server/verifh", "harness": ["adapth"], "race": ["server/common", "server/internal/net"],
        "step": ["server/utp", "server/internal/pkg/uid", "server/internal/pkg/crypto", "server/internal/pkg/encoding", "server/internal/message/security"],
    },
    # the statistics packages, with accesses to shared memory tracked
    "meter": {
        "pkgs": ["metrics", "server/internal/pkg/metrics", "server/internal/pkg/stats"], "at": "server/verifh", "harness": ["meterh"], "race": ["metrics", "server/internal/pkg/metrics", "server/internal/pkg/stats"],
    },
    # the whole server over an in-memory network, and the cluster over in-memory calls
    "live": {
        "pkgs": ROOT_PKGS + ["server/internal", "server/internal/db/unitdb", "server/internal/store", "server/internal/message", "server/internal/message/security", "server/internal/net",
                             "server/internal/net/listener", "server/internal/pkg/uid", "server/internal/pkg/stats", "server/internal/pkg/log"],
        "copy": ["server/utp", "server/internal/config"], "at": "server/verifh", "harness": ["liveh"],
        "consts": [("", "nBlocks", 16), ("memdb", "nLocks", 16)],
    },
}

HIST = "stateless model checking of the real code: exhaustive bounded operation histories against a reference model"
CRASH = "stateless model checking of the real code: exhaustive bounded histories x every crash point and torn write"
FAULT = "stateless model checking of the real code: exhaustive bounded histories x every I/O fault position"
SCHED = "stateless model checking of the real code: all interleavings within a deviation bound under a controlled scheduler"
TRUST = " Trusts the source rewriter, the virtual clock/scheduler/file system in go/vrt and the reference model; nothing is claimed beyond the stated bounds."

CHECKS = {
    "C01": {"groups": ["db-small", "db-real:real-blocks"], "technique": HIST, "note": "Every history of puts, batches, deletes, syncs, clock steps and reopens up to the depth in the evidence gives exactly the expected answers for all limits; block boundaries are crossed with small and with shipped block sizes." + TRUST},
    "C02": {"groups": ["db-small"], "technique": HIST, "note": "Every bounded history with one or more clean reopens keeps every message." + TRUST},
    "C03": {"groups": ["db-small"], "technique": CRASH, "note": "Every crash point and torn write of the last operation of every bounded history, and every crash in the recovery from it. Process-crash model: completed writes survive, the last one may be torn." + TRUST},
    "C04": {"groups": ["db-small"], "technique": CRASH, "note": "Every bounded history of puts and deletes with syncs, reopens and crashes." + TRUST},
    "C05": {"groups": ["db-small"], "technique": CRASH, "note": "Every bounded history of succeeding, failing and refused batches, and every crash point from the start of a batch to the end of its sync." + TRUST},
    "C06": {"groups": ["db-small"], "technique": HIST, "note": "All pairs of stored and queried topics over a bounded alphabet and depth, before and after sync and reopen." + TRUST},
    "C07": {"groups": ["db-small"], "technique": HIST, "note": "All bounded histories over three contracts queried under four." + TRUST},
    "C08": {"groups": ["db-small"], "technique": HIST, "note": "All bounded histories of messages with time-to-live and clock steps; the second around the deadline is not judged." + TRUST},
    "C09": {"groups": ["db-small", "db-race"], "technique": HIST + "; " + SCHED, "note": "All payload lengths 1..70 and around powers of two in all ways of asking for encryption, with a scan of every file at every stage, a wrong key and the right key; threads that store in all pairs of ways under every schedule within the bound." + TRUST},
    "C10": {"groups": ["db-small"], "technique": CRASH, "note": "All bounded histories of puts of several sizes, deletes, syncs, reopens and crashes with space reuse on; every message is read back, and repeated cycles may not grow the files. Space leaked by a crash is not judged." + TRUST},
    "C12": {"groups": ["db-race"], "technique": HIST + "; " + SCHED + "; " + FAULT, "note": "All sequences of opens, closes and deaths of two owners; every pair of calls after Close; Close against one other call under every schedule within the bound; every file operation of Open failing." + TRUST},
    "C15": {"groups": ["db-small"], "technique": FAULT, "note": "Every file operation of the last one or two operations of every bounded history fails once, three times or until the window ends, with and without a partial write; then the database goes on, is closed, or dies." + TRUST},
    "C16": {"groups": ["db-small"], "technique": HIST, "note": "Every invalid request of a fixed list at every point of every bounded history; all limits; all topics over a six-letter alphabet up to the length in the evidence." + TRUST},
    "C13": {"groups": ["db-race"], "technique": HIST + "; " + SCHED, "note": "All bounded histories of identifier generation and use across reopens and crashes, plus three concurrent threads within the deviation bound." + TRUST},
    "C14": {"groups": ["db-small"], "technique": CRASH, "note": "All bounded histories; the count is compared whenever everything is synced, and after every crash point." + TRUST},
    "C11": {"groups": ["db-race"], "technique": SCHED, "note": "All interleavings, within the deviation bound of the evidence, of all combinations of two or three thread programs from several starting states, with log-writer and syncer timers firing at any point; each query is judged by what had returned before it began. Sequential consistency is assumed (data races that only matter under weak memory are out of reach)." + TRUST},
    "C17": {"groups": ["mem"], "technique": HIST, "note": "All bounded histories of puts, deletes, managed and unmanaged batches, freeing, iteration, clock steps and reopenings; every lookup, listing, count and iteration is compared after every step." + TRUST},
    "C18": {"groups": ["mem"], "technique": CRASH, "note": "Every crash point and torn write of the last operation of every bounded history, and crashes in the recovery; the store goes on after each." + TRUST},
    "C19": {"groups": ["mem-race"], "technique": SCHED, "note": "All interleavings, within the deviation bound of the evidence, of all combinations of two or three thread programs with the log goroutines, timers firing at any point and threads stalling; then the store is reopened. Sequential consistency is assumed." + TRUST},
    "C20": {"groups": ["mem-race"], "technique": CRASH + "; " + FAULT, "note": "All bounded histories of writing, applying, resetting and reopening; every crash point and torn write; every file operation failing once; every truncation and byte alteration (of a set of values) of every log file; two threads within the deviation bound." + TRUST},
    "C21": {"groups": ["mem:keys", "filter:threads"], "technique": HIST + "; " + SCHED, "note": "Structured key sets in the shipped filter; two adders and a serializer with a scheduling point before every statement in a filter of 128 bits." + TRUST},
    "C22": {"groups": ["mem"], "technique": "explicit-state exploration of the real code: all bounded sequences of membership changes x a structured key set", "note": "All sequences of adding and removing blocks up to the bound for up to six blocks; every number of blocks up to the bound; 642 keys." + TRUST},
    "C23": {"groups": ["srv", "adapt"], "technique": HIST + "; " + SCHED, "note": "All message types with all combinations of field values from boundary sets, encoded and decoded alone and in streams, with the stream split into reads in every way; the gRPC stream and websocket adapters with all packets, frames, chunks and read sizes, and with concurrent writers and readers under every schedule within the bound." + TRUST},
    "C24": {"groups": ["srv", "live"], "technique": HIST, "note": "All byte strings of up to three bytes, all one-byte truncations, alterations and insertions of every valid message, all combinations of extreme header fields, all topics over the characters with a meaning up to seven, keys altered in one or two characters; memory taken is bounded." + TRUST},
    "C25": {"groups": ["srv", "adapt", "live"], "technique": HIST + "; " + SCHED, "note": "All permissions x key topics x requested topics up to the depth in the evidence; threads that make and check keys with a scheduling point before every statement." + TRUST},
    "C27": {"groups": ["srv", "live"], "technique": HIST, "note": "All ordered selections of up to five members from seven, three replica counts, 800 keys." + TRUST},
    "C28": {"groups": ["srv"], "technique": HIST + "; " + SCHED, "note": "All sequences of requests, resumptions, frees and resets up to the depth, and three threads with a scheduling point before every statement." + TRUST},
    "C29": {"groups": ["srv"], "technique": HIST + "; " + SCHED, "note": "All sequences over two topics and two keys up to the depth, and three threads with a scheduling point before every statement." + TRUST},
    "C32": {"groups": ["srv", "adapt", "live"], "technique": HIST + "; " + SCHED, "note": "All boundary values of every field; every alteration of one character, truncation and extension; identifiers of another key; threads that make, encode and decode with a scheduling point before every statement." + TRUST},
}

CHECKS["C26"] = {"groups": ["live"], "technique": SCHED + "; " + FAULT, "note": "A three-node cluster over in-memory calls: up to the bound of the evidence, calls and replies of the elections are lost or late in every combination; all sequences of broken links; timers and threads of the nodes interleave. Nodes that restart without their term are not covered." + TRUST}
CHECKS["C33"] = {"groups": ["live"], "technique": HIST + "; " + FAULT, "note": "A three-node cluster: all sequences of broken and restored links and of dying and returning nodes up to the depth of the evidence, then the surviving links work." + TRUST}
CHECKS["C30"] = {"groups": ["live"], "technique": HIST + "; " + SCHED, "note": "The whole server over an in-memory network: all bounded histories of subscribing, unsubscribing, publishing, leaving and returning of clients of two contracts, all delivery modes; publications concurrent with other requests under every schedule within the bound. In-process server without cluster forwarding; the order of publications is not claimed." + TRUST}
CHECKS["C31"] = {"groups": ["live"], "technique": HIST + "; " + SCHED + "; " + CRASH, "note": "The whole server over an in-memory network: all bounded histories of publishing, fetching, confirming, leaving and returning (also after a restart or a crash of the server), explicit and derived session keys, clean and kept sessions." + TRUST}
CHECKS["C34"] = {"groups": ["live"], "technique": HIST + "; " + SCHED, "note": "The listener of the server over an in-memory network: all sets of up to three prefixes over two letters; all ways the first bytes of a connection are split, delayed and read; pairs of clients and the closing of the listener under every schedule within the bound; all sequences of accept errors." + TRUST}
CHECKS["C35"] = {"groups": ["db-meter", "meter", "live"], "technique": HIST + "; " + SCHED, "note": "All histories of store, in-memory store and server operations up to a depth, with the statistics compared with a count of what happened after every operation; concurrent callers under every schedule within the bound; all sequences of samples up to a length over all series sizes up to a bound, against a directly computed reference." + TRUST}
CHECKS["C36"] = {"groups": ["meter"], "technique": HIST + "; " + SCHED + "; " + FAULT, "note": "The reporter of metrics over an in-memory network of datagrams: all combinations of kinds, tags and formats; all histories of reports, bursts, waiting, stopping and trouble of the collector up to a depth, in four configurations; threads that report and stop under every schedule within the bound." + TRUST}
for _p, _b in {"C11": 240, "C12": 150, "C19": 280, "C10": 120, "C15": 160, "C17": 120, "C26": 150, "C30": 180, "C31": 150, "C33": 150}.items():
    CHECKS[_p]["budget"] = {"quick": _b, "thorough": 4 * _b}
NOT_APPLICABLE = {}
