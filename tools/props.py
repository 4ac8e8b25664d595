#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after an edit)."""
import json, sys
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, claimed=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe or [], state=state or [], claimed=claimed, na=na, note=note))
BUS = ["crates/ipcbus/src/udp_procbus.rs", "crates/ipcbus/src/udp_multicast.rs", "crates/ipcbus/src/lib.rs"]
T_BUS = "the crate's only test sends one message between two processes of a quiet machine"

p("C01", "A thread waiting on the notification bus is woken by every newer value",
  "A thread that is already waiting for the next notification of a space, blocking or asynchronously, is woken when any thread of its process announces a value larger than the current one, no matter how the two are interleaved. A wait with a deadline ends at its deadline when nothing arrives, never reports a timeout before it, and a wait without a deadline never reports one. A wait that names the last value its caller saw returns at once if a newer one was announced. No waiting thread is woken unless something was announced.",
  ["schedules", "histories"], "every interleaving of announcing, waiting, timed-out and receiving threads in a process, every deadline, spurious wake-ups and clock stalls included",
  T_BUS + "; a lost wake-up needs the announcement to fall between two specific instructions of the waiter",
  BUS, [{"name": "value update followed by event notify", "where": "crates/ipcbus/src/udp_procbus.rs emit/_emit"}, {"name": "listen then wait", "where": "crates/ipcbus/src/udp_procbus.rs next_deadline, next_async"}],
  ["return of next_deadline/next_async", "threads still parked when the simulation is at rest"])
p("C02", "The notification value of a process only grows and holds the maximum announced",
  "The value a process reads from the bus never decreases, and once all announcements and deliveries have been handled it is the largest value ever announced in the process or delivered to it for its space. Announcing a value that is not larger changes nothing and returns the larger known value.",
  ["schedules", "histories"], "all interleavings of concurrent announcements and deliveries, arbitrary values in arbitrary order, duplicates included",
  T_BUS + "; a regressing value needs two announcements racing inside the update",
  BUS, [{"name": "atomic maximum", "where": "crates/ipcbus/src/udp_procbus.rs _emit"}], ["emit, val and wait return values"])
p("C03", "Every notification delivered to a process advances it and wakes its waiters",
  "A value announced by one process of a space is taken over by every other process of the same space that receives the datagram, and wakes threads waiting there; repeated, reordered, delayed or lost datagrams, partitions and process restarts never leave a process behind once a later announcement reaches it. Announcements go to this host only and never affect a different space.",
  ["schedules", "fault_sequences", "configurations", "crash_points"], "process counts, spaces sharing or not sharing a port, loss, duplication, delay, reordering, overflowing receive buffers, failed sends, partitions and restarts",
  T_BUS + "; loss, duplication, reordering and restart never happen there",
  BUS, [{"name": "receive loop", "where": "crates/ipcbus/src/udp_procbus.rs proc_thread"}, {"name": "loopback multicast with ttl 0", "where": "crates/ipcbus/src/udp_multicast.rs"}],
  ["bus value of every process after the network heals", "sockets' destination settings"])
p("C04", "Foreign, malformed or interrupted receives never stop or corrupt notifications",
  "Datagrams of any content or length from other spaces, other hosts or unrelated programs, and transient receive or send errors, never change a process's value except as a well-formed announcement for its own space from this host would, never panic a thread, and never stop later announcements from being received.",
  ["inputs", "fault_sequences", "schedules"], "arbitrary datagrams on the shared port, interrupted receives, failing sends at any point of any schedule",
  "the test sends well-formed messages only and no system call fails",
  BUS, [{"name": "message parse and filter", "where": "crates/ipcbus/src/udp_procbus.rs proc_thread, crates/ipcbus/src/udp_multicast.rs recv"}],
  ["thread panics", "bus value", "delivery after the fault"])
p("C05", "Processes agree on one distinct notification port per space",
  "All processes of a user that open a space use the same port for it and different spaces use different ports, however many processes look ports up at once, are killed while doing so or meet short writes and full disks. Ports once handed out never change, and a lookup after any crash succeeds again.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "concurrent lookups by several processes, a kill at any system call, short writes, ENOSPC and EIO, any earlier content of the map",
  "no test looks up ports concurrently or crashes one",
  ["crates/ipcbus/src/udp_procbus.rs"], [{"name": "lock file", "where": "crates/ipcbus/src/udp_procbus.rs get_port"}, {"name": "rename of a complete map", "where": "crates/ipcbus/src/udp_procbus.rs get_port"}],
  ["ports returned", "port map file after the crash"])
p("C06", "A stored identity opens to exactly the key that was stored, or not at all",
  "An identity key encrypted with a password is recovered exactly with that password, by this and every later release and at every cost setting, and its public key can be read without the password; any other password, and any damage, truncation or splice of the stored text, yields an error or the stored key but never a different one and never a panic. Generated keys are distinct, valid and use the full randomness of the system source; when that source fails no key is produced. None of this depends on what other threads do with other keys, passwords or texts at the same time.",
  ["inputs", "fault_sequences", "crash_points", "histories"], "random-source failures and short reads at any point, kills and torn writes while storing, corruptions, truncations and splices of the stored text, wrong passwords",
  "the crate tests one round trip with the right and one wrong password and never corrupts the text or fails the random source",
  ["crates/argon2-identity/src/lib.rs", "crates/cryptography/src/lib.rs"],
  [{"name": "secret xored with the argon2 hash of password and public key", "where": "crates/argon2-identity/src/lib.rs encrypt/decrypt"}, {"name": "public key recomputed from the opened secret and compared with the stored one", "where": "crates/argon2-identity/src/lib.rs decrypt"}],
  ["keygen, encrypt, decrypt, pubkey results"])
p("C07", "A signature is accepted only for the key and content that were signed",
  "A signature made by one party over the hash of any content validates at every other party that received public key, signature and content unaltered, however the content was cut into pieces for hashing. If any of the three was damaged, truncated or taken from another message on the way, validation reports an error and never panics. This includes parties which run the earlier release this tree is based on.",
  ["inputs", "fault_sequences", "histories"], "parties exchanging signed messages of all sizes over a channel that damages, truncates, mixes and replays parts of messages",
  "the crate's test only derives one fixed key; no test validates a damaged signature",
  ["crates/cryptography/src/lib.rs"], [{"name": "schnorr signature over a blake3 hash", "where": "crates/cryptography/src/lib.rs sign_hash, validate_signature, hash_segments"}],
  ["validation results", "hashes of the same content in different pieces"])
DB = ["crates/core/src/env/lmdb/save.rs", "crates/core/src/env/lmdb/db.rs", "crates/core/src/env/lmdb/mod.rs"]
p("C10", "A save is all or nothing and survives a crash once it returns",
  "When a save returns success every packet of the batch is in the database, also after the process is killed and the database reopened; when it fails or the process dies before it returns, either all or none of the batch is there and everything saved earlier is unchanged. No packet that was not saved is ever found and every stored packet reads back byte for byte.",
  ["crash_points", "fault_sequences", "schedules", "histories"], "kills at any scheduling point of any process, batches of any size, concurrent writers, failing database operations",
  "core's tests need a real database and never crash or fail one; they are not part of the reliable baseline",
  DB, [{"name": "one write transaction per batch", "where": "crates/core/src/env/lmdb/save.rs save_pkt/save_pkts"}], ["database content after reopen", "save results"])
p("C11", "Saving a packet twice stores it once and reports new packets exactly once",
  "A packet is stored once however often, in whichever batches and by however many processes it is saved, and exactly one of those saves reports it as newly written while the others report it as existing. A notification is sent for a save if and only if something new was written, and it names the newest log position.",
  ["schedules", "histories"], "duplicates within a batch, across batches, threads and processes, in every interleaving",
  "concurrent duplicate saves across processes are not tested at all",
  DB, [{"name": "hash index lookup inside the write transaction", "where": "crates/core/src/env/lmdb/save.rs"}], ["save state of every packet", "log entries", "bus value"])
p("C12", "Log positions are unique, strictly increasing and assigned in commit order",
  "Every newly stored packet gets its own receive stamp, larger than that of every packet stored before it by any process, even when the clock stands still, jumps backwards or differs between saves. Iterating the log yields the packets in the order in which they became visible.",
  ["schedules", "histories", "fault_sequences"], "clock jumps and stalls between and inside saves, saves in the same microsecond, several writers",
  "tests run on one monotonic clock and never save twice in a microsecond on purpose",
  DB, [{"name": "start = max(now, last + 1)", "where": "crates/core/src/env/lmdb/save.rs"}], ["receive stamps seen by readers"])
p("C13", "The log, hash and tree views always describe the same set of packets",
  "In every snapshot any process can take, the packets found by log order, by hash and by group, domain, space and key are the same set with the same receive stamps, whatever mix of saves, crashes and failures came before.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "snapshots at any point of concurrent saves, after kills and failed saves, for point types with and without a space",
  "the indexes are only compared on one small fixed data set",
  DB + ["crates/core/src/env/lmdb/tree_iter.rs", "crates/core/src/env/lmdb/db_info.rs"], [{"name": "three indexes written in one transaction", "where": "crates/core/src/env/lmdb/save.rs"}], ["log_iter, hash and tree queries in one transaction"])
p("C14", "Opening an instance always converges to one working database",
  "Any number of processes and threads may open or create the same instance directory at the same time, and any of them may be killed while doing so: afterwards everybody uses the same database with the same identity, opening succeeds, and nothing saved before is lost.",
  ["schedules", "crash_points", "fault_sequences"], "concurrent first opens, kills at any system call of the first open, short writes, repeated opens in one process",
  "no test opens concurrently or crashes an open",
  ["crates/core/src/env/lmdb/db.rs", "crates/core/src/env/lmdb/mod.rs", "crates/common/src/static_env.rs"], [{"name": "type and id files of the instance", "where": "crates/core/src/env/lmdb/db.rs open"}, {"name": "process-wide environment table", "where": "crates/common/src/static_env.rs"}],
  ["open results", "instance id", "packets after reopen"])
p("C15", "A failed save reports an error and leaves a usable database",
  "When the disk is full or an I/O error hits any step of a save, the caller gets an error rather than a panic or success, nothing of the batch becomes visible, no notification is sent, other processes are not blocked, and once the condition is gone saving works again.",
  ["fault_sequences", "schedules"], "ENOSPC, EIO and map-full at every write of the transaction and at commit, in any interleaving with other writers",
  "no test makes a database operation fail",
  DB, [{"name": "transaction abort on error", "where": "crates/core/src/env/lmdb/save.rs"}], ["save result", "content after the failure"])
QF = ["crates/core/src/query.rs", "crates/core/src/env/lmdb/queries.rs", "crates/core/src/env/lmdb/tree_iter.rs", "crates/core/src/predicate"]
p("C16", "A query returns exactly the matching packets in the requested order",
  "For any query and any database the packets returned are exactly those that satisfy every predicate, in the requested log, hash or tree order and direction, cut by the index and receive limits the query states. A packet the query cannot match is never returned, and contradictory constraints give an empty answer or an error, not another query's result. Asking for the first answer or stopping early gives a prefix of the same answer and the number of answers given, and a query printed and parsed again asks the same.",
  ["inputs", "histories", "schedules"], "generated databases and generated queries over every field, operator, mode and limit, on a database other processes are writing to",
  "tests run a handful of queries over one fixed database",
  QF, [{"name": "range scan chosen from the predicates, rest tested per packet", "where": "crates/core/src/env/lmdb/queries.rs"}], ["packets returned compared with a reference scan of the same snapshot"])
p("C17", "A reader sees one consistent snapshot until it refreshes",
  "All reads within one read transaction see the database as it was when the transaction began, whatever other threads and processes commit meanwhile, and a refreshed transaction sees at least everything committed, and everything the reader was notified about, before the refresh.",
  ["schedules", "histories"], "reads interleaved with commits of other threads and processes in every order",
  "no test reads while another thread writes",
  ["crates/core/src/env/lmdb/misc.rs", "crates/core/src/env/lmdb/mod.rs", "crates/linkspace/src/lib.rs"], [{"name": "reset and renew of one reader", "where": "crates/core/src/env/lmdb"}], ["repeated reads in a transaction"])
RT = ["crates/common/src/runtime/rx.rs", "crates/core/src/matcher/mod.rs", "crates/linkspace/src/lib.rs"]
p("C20", "A watch sees every matching packet exactly once in log order",
  "A registered watch is called for every packet that matches its query and is stored after registration, whoever saved it, exactly once and in log order, with no gap between the packets found in the database at registration and the new ones. Packets that do not match never reach the callback.",
  ["schedules", "histories", "fault_sequences"], "saves by any process before, during and after registration and processing, nested saves and registrations from callbacks, lost and duplicated notifications",
  "tests register one watch and save from the same thread",
  RT, [{"name": "processing of new log entries past the last seen stamp", "where": "crates/common/src/runtime/rx.rs process"}], ["callback history of every watch against the committed log"])
p("C21", "A watch ends exactly when it should and says so exactly once",
  "A watch stays registered until its limits are exhausted, its callback breaks, or it is closed or replaced; afterwards its packet callback is never called again and its stop callback has run exactly once with the matching reason. A close or replacement from inside a callback takes effect when the running process step ends at the latest. Ending one watch never ends, skips or repeats calls of another.",
  ["histories", "schedules"], "limits, breaks, closes and replacements of any watches from outside and from inside callbacks, by id and by prefix",
  "tests close one watch from outside",
  RT, [{"name": "deferred registrations and removals while processing", "where": "crates/common/src/runtime/rx.rs"}, {"name": "id range lookup", "where": "crates/core/src/matcher/mod.rs"}], ["stop callback history", "registered ids"])
p("C22", "process_while returns exactly when its contract says",
  "Waiting on a watch returns as soon as that watch matched or ended, returns at the deadline when nothing matched and not earlier, and reports which of these happened; an unknown watch or a nested wait on itself is an error. It never hangs when a matching packet has been stored.",
  ["schedules", "histories", "fault_sequences"], "waits with and without watch id and deadline while other threads and processes save, close and crash, under delayed and jumping clocks",
  "tests wait only for packets that are already there",
  RT, [{"name": "run_while", "where": "crates/common/src/runtime/rx.rs"}], ["return value and simulated time of the return"])
p("C23", "A waiting runtime never sleeps through a stored packet",
  "When a process waits in the runtime and a packet is committed and announced, the runtime processes it within a bounded number of steps without needing another packet, a timeout or a restart, whichever instruction of the waiter the commit falls on.",
  ["schedules", "fault_sequences"], "every point of the check-then-wait sequence at which a commit and its notification can fall, for blocking and asynchronous waits",
  "hitting the window between the check and the wait needs a controlled schedule",
  RT + BUS[:1], [{"name": "check, listen, wait", "where": "crates/common/src/runtime/rx.rs run_while"}], ["unprocessed matching packets while the runtime is parked"])
p("C24", "A query with the follow option also delivers linked packets",
  "A watch that asks for links to be followed delivers, right after each match and in link order, every packet the match links to that the reader's snapshot holds, to the same callback and marked as linked; a break of the callback ends the watch there.",
  ["histories", "schedules"], "link graphs whose targets are stored before, together with or after the linking packet by any process",
  "no test uses follow",
  RT + ["crates/common/src/runtime/handlers.rs"], [{"name": "link reads in the snapshot of the match", "where": "crates/common/src/runtime/handlers.rs"}], ["callback history against the link graph"])
ST = ["crates/pkt/src/read.rs", "crates/common/src/pkt_reader.rs", "crates/common/src/pkt_stream_utils.rs"]
p("C30", "A packet stream yields exactly the packets that were written or an error",
  "However a stream of packets is split into reads, interrupted or delayed, the reader yields the written packets unchanged and in order; a stream that is truncated inside a packet or corrupted anywhere yields an error at that place and never a packet that was not written with validation on. A clean end is reported only at a packet boundary.",
  ["fault_sequences", "inputs"], "every split into short reads, EINTR and would-block at any byte, truncation at any byte, corruption of any byte, packets of every type and size",
  "tests read whole packets from a slice",
  ST, [{"name": "header then body read loop", "where": "crates/common/src/pkt_reader.rs"}, {"name": "hash and signature validation", "where": "crates/pkt/src/read.rs"}], ["sequence of packets and errors"])
p("C31", "Writing packets to a stream loses, repeats or tears none",
  "Packets written to a stream arrive complete, once and in order even if the sink accepts only parts of a write or is interrupted, and an error of the sink is reported to the writer. Packets of the private group never leave through a writer that does not allow them.",
  ["fault_sequences", "inputs"], "short writes at every byte, EINTR, zero-length writes and errors, any packet type",
  "tests write to a vector",
  ["crates/pkt/src/netpkt", "crates/common/src/pkt_stream_utils.rs"], [{"name": "segment-wise write loop", "where": "crates/pkt/src/netpkt"}], ["bytes that reach the sink"])
p("C32", "A handshake only authenticates the peer that holds the key",
  "Two honest peers with their own keys complete the handshake and learn each other's public key when their messages arrive. Whatever a third party replays, swaps between sessions, alters, delays or reflects, no peer accepts a key whose owner did not take part in this very session: a client accepts only the key of a server that answered this session's opening packet, and a server only the key whose opening packet it answered, proven for this session. A packet whose time stamp is too far from the receiver's clock is refused.",
  ["fault_sequences", "histories", "inputs"], "an active network adversary that drops, replays, mixes sessions, alters bytes and reflects messages; clock skew and jumps between peers; sessions that start at the same clock reading",
  "no test runs an adversary or two clocks",
  ["crates/common/src/protocols/handshake.rs"], [{"name": "nonce exchange with signed packets", "where": "crates/common/src/protocols/handshake.rs"}], ["peer keys accepted"])
p("C33", "Name bindings depend only on the set of claims and votes, not their arrival",
  "Every process that holds the same claims and votes resolves every public name to the same claim, in whichever order and batches they arrived: among the claims of exactly that name, starting at the root claim, the one most of the parent's authorities vote for with their newest vote; a tie or no vote of an authority leaves the name unresolved. Local names behave like one register per name shared by all processes: a key that was set is what lookups, get-or-create and reverse lookups return, also right after it was overwritten, in the same microsecond, and after kills and restarts; two processes that ask for a name's key at once get the same key. A reverse lookup only names a claim that resolves and carries that key.",
  ["histories", "schedules", "crash_points"], "arrival orders, batches, duplicates, several authorities and votes, several processes that set and get local keys, kills, and clocks that stand still or jump",
  "name tests cover one order on one process",
  ["crates/common/src/protocols/lns", "crates/linkspace/src/lib.rs"], [{"name": "live claim computation, votes and reverse lookup", "where": "crates/common/src/protocols/lns"}, {"name": "get-or-create of a local key", "where": "crates/linkspace/src/lib.rs lk_key"}], ["lookup results on each process"])
p("C34", "Pull and status requests reach their server and the newest answer wins",
  "A pull stores its request in the local group under the requested domain, group and id as a text that parses back to an equivalent query, options given several times included; an exchange watching for it gets every request exactly once and in order, and the newest request of an id is the one found; a query that is incomplete or does not fit is refused with an error. A running status service answers the requests for its own domain, group, type and instance, and no others, in a chain of replies. A poll tells whether a recent reply is known, makes a request unless somebody already asked for exactly the same within the timeout, delivers every reply that arrives exactly once and in order until its callback breaks, and ends a timeout after the newest request when nobody answers.",
  ["histories", "schedules", "fault_sequences"], "requests and services of several processes in any order with delays, restarts, clock jumps and lost notifications",
  "the conventions have one example test",
  ["crates/linkspace/src/conventions/pull.rs", "crates/linkspace/src/conventions/status.rs"], [{"name": "convention packets in the local group", "where": "crates/linkspace/src/conventions"}], ["callbacks of the exchange and status watchers"])
NAPURE = "a pure function of its arguments: no concurrency, time, I/O, randomness or second party that a simulator could control, so deterministic simulation adds nothing over input generation"
p("C40", "ABE text and bytes convert into each other without loss",
  "Any byte strings joined by ABE separators encode to text that parses back to exactly the same components, and any text either parses to components that print to an equivalent text or is rejected.",
  ["inputs"], "all byte strings, separators and texts", "tests sample a few strings", ["crates/abe/src"], [{"name": "escape and parse", "where": "crates/abe/src/abtxt.rs, crates/abe/src/ast.rs"}], na=NAPURE)
p("C41", "ABE evaluation terminates with a value or an error on any expression",
  "Evaluating any expression in any of the provided scopes returns bytes or an error and never panics or loops, and encoding functions that claim an inverse decode to the original bytes.",
  ["inputs", "programs"], "all expressions", "tests evaluate a fixed list", ["crates/abe/src/eval.rs", "crates/abe/src/scope"], [{"name": "evaluator", "where": "crates/abe/src/eval.rs"}], na=NAPURE)
p("C42", "Fixed-size byte and integer types convert and order like the values they hold",
  "Base64, hex and integer representations of the fixed-size types round-trip, reject malformed input, and compare in the same order as the numbers or byte strings they represent.",
  ["inputs"], "all values", "tests sample values", ["crates/byte-fmt/src"], [{"name": "endian integer and base64 types", "where": "crates/byte-fmt/src"}], na=NAPURE)
p("C43", "A point's hash and fields are determined by its bytes and survive copying",
  "Building, reading, cloning and rerouting a packet preserves its point bytes and hash; equal points have equal hashes; the space name's components round-trip.",
  ["inputs"], "all points", "tests sample points", ["crates/pkt/src"], [{"name": "point layout", "where": "crates/pkt/src"}], na=NAPURE)
p("C44", "A predicate set accepts exactly the values each predicate accepts",
  "Combining predicates over a field accepts exactly the values accepted by all of them, in any order, and their text form parses back to an equivalent set.",
  ["inputs"], "all predicate combinations", "tests sample combinations", ["crates/core/src/predicate"], [{"name": "test sets", "where": "crates/core/src/predicate/uint.rs"}], na=NAPURE)

CLAIM = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else None
NOTES = json.load(open("/verif/tools/claims.json"))
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "state": x["state"], "mechanism": x["mech"], "observe_at": x["observe"], "hook_needed": None}}) + "\n")
        assert len(x["title"]) <= 80, x["title"]
checks, na = [], []
for x in P:
    c = NOTES["claims"].get(x["id"])
    if c:
        checks.append({"property": x["id"], "quick_cmd": f"./check.sh {x['id']}", "thorough_cmd": f"./check.sh {x['id']} --tier thorough",
            "evidence_file": f"evidence/{x['id']}.json", "technique": c.get("technique", NOTES["technique"]), "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": x["id"], "reason": NOTES["na"].get(x["id"]) or x["na"] or "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES["notes"]}
if NOTES.get("hooks"): m["hooks"] = NOTES["hooks"]
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
