#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for titles/statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe, hook_needed=hook)))
def m(name, where): return dict(name=name, where=where)
SUB="internal/ctsubmit/logic.go"; BUC="internal/ctsubmit/bucket.go"; CFG="internal/ctsubmit/config.go"
STO="internal/ctsubmit/storage.go"; MON="internal/ctmonitor/logic.go"; FET="internal/ctmonitor/fetch.go"
TIL="internal/sunlight/tile_ol.go"; MIS="internal/sunlight/misc.go"; CHK="internal/sunlight/checkpoint_ol.go"
EXT="internal/sunlight/extensions_ol.go"; SIG="internal/sunlight/digitallysign_ol.go"; SET="internal/ctsetup/main.go"
NOTEST="The stable tests only cover internal/rfc6979; nothing there runs this code. The integration tests (docker only) run one healthy instance on one schedule; "

p("C01","Every SCT is backed by an already published tree head",
 "Whenever add-chain or add-pre-chain answers 200, the SCT (log id, version, timestamp, leaf_index extension, signature valid under the log's key) is over exactly the Merkle leaf that sits at that leaf index in a tree head already published at ct/v1/get-sth and at checkpoint before the answer was sent. This holds for fresh submissions and for resubmissions answered from the deduplication data, and it stays true of every SCT ever handed out after any later crash, restart or failover.",
 ["schedules","crash_points","histories","fault_sequences"],
 "All interleavings of concurrent submissions with the storage writes of a publication round, a crash or write failure at any storage write, and any sequence of later restarts and (re)submissions, including one precertificate submitted with different valid issuer chains.",
 NOTEST+"no test crashes the log or holds back a storage write, so the order SCT / tree head / deduplication record is never observed.",
 [SUB,BUC,SIG,MIS],
 [m("SCT is released only through the return path, written after STH, checkpoint and dedupe upload","stageTwoData.stageTwo"),m("dedupe hit re-creates the leaf from stored index and timestamp","stageZeroData.stageZero")],
 ["HTTP answers of POST /ct/v1/add-chain and add-pre-chain","order of storage writes of ct/v1/get-sth, checkpoint, int/dedupe/*"])
p("C02","All published tree heads belong to one append-only history",
 "Every tree head ever published (ct/v1/get-sth or checkpoint), by any instance before or after any crash, restart or failover, has the RFC 6962 root hash of the entries the log then serves for its size. Of any two of them the smaller is a prefix of the larger, and neither the STH's nor the checkpoint's tree size ever decreases.",
 ["schedules","crash_points","histories","configurations"],
 "All batch histories and tree sizes (tile boundaries at every level, trees resumed at large sizes), all crash points followed by a restart, any number of times.",
 NOTEST+"tile boundaries, restarts at a non-empty tree and crash leftovers are not exercised.",
 [SUB,CFG,"internal/sunlight/tile_reader_ol.go"],
 [m("root computed from edge tiles plus overlay","stageTwoData.stageTwo / hashReader"),m("edge tiles reloaded and verified against the STH","LoadLog")],
 ["storage writes of ct/v1/get-sth and checkpoint","data tiles"])
p("C03","A tree head is published only after everything it commits to is stored",
 "At the moment a tree head of size n becomes readable, the store already holds, with the right contents, every full and right-edge partial tile (data tiles and hash tiles of every level) of the tree of size n, every issuer certificate its entries refer to, and a hash-to-index record for each of its entries.",
 ["schedules","crash_points","fault_sequences","histories"],
 "All completion orders of the parallel uploads of a round, any upload failing or being delayed, all batch sizes relative to tile boundaries.",
 NOTEST+"uploads always succeed at once, so publishing early, or dropping an upload that is only needed at a tile boundary, is invisible.",
 [SUB,BUC,TIL],
 [m("errgroup.Wait before SetSth","stageTwoData.stageTwo"),m("tlog.NewTiles over the old and new size","stageTwoData.stageTwo")],
 ["storage contents at the write of ct/v1/get-sth / checkpoint"])
p("C04","Sequencing is exact: no gaps, no lost, merged or invented entries",
 "The entry at position i of every published tree carries leaf index i, comes from one accepted submission and records a timestamp not earlier than that submission and not later than the tree head's timestamp; timestamps do not decrease along the log. One submission produces at most one entry, two submissions answered with SCTs for different certificates never share a position, and rejected submissions produce none.",
 ["schedules","inputs","histories"],
 "Any number of concurrent submissions (below, at and far above the pool limit), any flush timing, restarts in between.",
 NOTEST+"the interleaving of arrivals with the flush timer and the pool limit is not controlled or observed by any test.",
 [SUB],
 [m("single sequencer goroutine with a counter; pool copied before hand-over","stageOneData.stageOne"),m("starting sequence taken from the STH","LoadLog")],
 ["data tiles","HTTP answers"])
p("C05","Resubmission after an SCT returns that same SCT",
 "Once an SCT for a certificate (or precertificate with the same issuer) has been delivered, every later submission of it that is answered successfully gets a byte-identical SCT each time, for an entry already in the log, and adds no new entry. This holds across restarts and failovers, and also when concurrent first submissions of the same certificate were each sequenced.",
 ["schedules","histories","crash_points"],
 "All interleavings of duplicate submissions with publication rounds; crashes and restarts anywhere; many records sharing a lookup file.",
 NOTEST+"the docker tests resubmit after success on a healthy instance; racing duplicates followed by restarts, and shared lookup files, are not checked.",
 [SUB,BUC,SIG],
 [m("dedupe record written before the SCT is released; stable position among equal keys","stageTwoData.stageTwo / PutDedupeEntries"),m("deterministic signatures","sunlight.DigitallySign")],
 ["HTTP answers","int/dedupe/* objects","data tiles"])
p("C06","Every submission is answered in bounded time, and stalls stay contained",
 "Whatever the storage backend does (including stalling for long), each submission is answered within a bounded time (a few seconds more than the sequencer timeout), with an SCT or with 503 and a Retry-After header. Clients that time out or disconnect never block the log: once storage works again, new submissions succeed and the log continues.",
 ["schedules","fault_sequences"],
 "Stalls of any storage operation, with any number of queued submissions (beyond all internal queue capacities) and any of the clients gone.",
 NOTEST+"storage never stalls in a test and the queues never fill.",
 [SUB],
 [m("5 s timeout and buffered return channel","stageZeroData.stageZero"),m("bounded channels between stages","LoadLog")],
 ["HTTP answers and their latency"])
p("C07","A failed publication write is fatal to the instance and hands over",
 "If any storage write of a publication round fails, that instance publishes no further tree head and returns no SCT for that round's entries (other than one a dedupe record that was already stored vouches for); it gives up the leader lock and terminates, so that a waiting or restarted instance can take over from the last published tree head.",
 ["fault_sequences","crash_points"],
 "A failure of any single write (data tile, hash tile, issuer, hash index, STH, checkpoint, dedupe), applied or not applied, in any round.",
 NOTEST+"no test injects a storage failure.",
 [SUB],
 [m("bail out on any error, then eStop.Unlock and log.Fatal","stageTwoData.stageTwo / Log.Start / LoadLog")],
 ["storage writes after the failure","lock release and process exit"])
p("C08","From any crash point a restart resumes the log",
 "After a crash at any point of a publication round, an instance started on the resulting store comes up, keeps every entry of the last published tree head, and accepts new submissions; objects left behind by the interrupted round never become visible in answers of the log and never prevent it from continuing.",
 ["crash_points","histories"],
 "A crash before or after any storage write of a round, in any completion order of the parallel ones, repeated, with the next rounds of different sizes (also crossing tile boundaries).",
 NOTEST+"no test restarts the log.",
 [CFG,SUB,FET,MON],
 [m("reload from STH and verified edge tiles","LoadLog"),m("reads of the right edge use the width the tree head commits to","Fetch.getTile / hashreader")],
 ["restart success","monitoring answers after the restart","published tree heads"])
p("C09","Only the lock holder touches the log",
 "An instance reads log state and writes to the store only while it holds the log's leader lock: a standby waits without touching the store, starts from the state its predecessor published, and an instance that loses the lock terminates promptly and writes nothing once it could have noticed the loss.",
 ["schedules","histories","fault_sequences"],
 "Any number of instances of a log started in any order, with the holder crashing, being interrupted, failing, or losing its session at any time.",
 NOTEST+"only one instance is ever started.",
 [CFG,SUB,"internal/ctsubmit/main.go"],
 [m("consul lock acquired before configuration and state are read","LoadLog"),m("lock-loss watcher exits the process","LoadLog")],
 ["lock service history","storage operations per instance","process exit"])
p("C10","Start-up refuses a store or key that does not match the log",
 "An instance does not serve or write anything if its private key does not match the configured log id, or if the stored right-edge tiles needed to continue from the published tree head (at every level the hash tile that holds the last hash, and the last data tile) are missing or inconsistent with its root hash.",
 ["inputs","configurations"],
 "Any tree size and any corruption, truncation, substitution or loss of any object the right edge consists of; any wrong key.",
 NOTEST+"every test starts from an empty store with the right key.",
 [CFG],
 [m("TileHashReader verifies tiles against the STH root","LoadLog"),m("log id compared with the key","LoadLog")],
 ["process exit versus serving","storage writes"])
p("C11","Published tiles never change",
 "Once a tree head that covers a tile object (full or partial, data or hash tile) has been published, the bytes stored under that tile's path never change and remain readable, whatever happens later (growth, crashes, restarts, failovers).",
 ["histories","crash_points"],
 "All histories of rounds, crashes and restarts, tile boundaries at every level.",
 NOTEST+"no test compares an object with its earlier contents.",
 [SUB,TIL,CFG],
 [m("partial widths have their own path","sunlight.Path"),m("data tile extended from the stored bytes","stageTwoData.stageTwo / LoadLog")],
 ["storage writes to tile/*"])
p("C12","Exactly the advertised acceptance policy is enforced",
 "A submission that fits the 128 KiB request limit is accepted if and only if it is a chain of distinct certificates that lead, in order, to a root listed at ct/v1/get-roots (root itself optional, but a precertificate needs its final issuer in the chain), its leaf's NotAfter lies in the configured window (start inclusive, end exclusive), and the leaf is a certificate on add-chain or a precertificate on add-pre-chain. Anything else, however malformed, gets an error status and no SCT, leaves no trace in the log and does not disturb the service.",
 ["inputs","configurations"],
 "All combinations of root, chain shape and order, window position including both boundaries, leaf kind and endpoint, and arbitrary malformed bodies.",
 "No stable test submits anything; the docker tests use a handful of fixed chains and no window boundaries.",
 [SUB,CFG],
 [m("ctfe.ValidateChain with the pool from ct/v1/get-roots and the configured window","stageZeroData.stageZero")],
 ["HTTP status of add-chain / add-pre-chain","data tiles"])
p("C13","Logged entries reproduce the submission exactly",
 "The entry logged for an accepted submission is the RFC 6962 entry for it: the certificate, or for a precertificate the TBS without poison (re-issued to the final issuer when a precertificate signing certificate was used) and the hash of that issuer's key, the leaf index extension, and the original precertificate and full validated chain in order. Data tiles, hash tiles, and get-entries all yield the same entry, for any chain length and any size or position of the entry.",
 ["inputs","configurations"],
 "All entry kinds (certificate, precertificate, precertificate via a signing certificate), chain lengths, certificate sizes and leaf indexes (up to 40 bits).",
 NOTEST+"the entry encoder and decoder have no tests; large indexes, long chains and mixed tiles are never produced.",
 [SUB,TIL,EXT,MON],
 [m("entry construction","stageZeroData.stageZero"),m("tile leaf encoding / decoding","sunlight.AppendTileLeaf / ReadTileLeaf / MerkleTreeLeaf")],
 ["data tiles","get-entries","get-entry-and-proof"])
p("C14","get-entries returns the committed entries of the range",
 "For any range starting inside the current tree, get-entries answers 200 with a non-empty, gap-free sequence of entries beginning at start, not exceeding end or the tree head, each identical (leaf and chain) to the entry the published tree commits to at that index. It never returns an entry that is not in a published tree, also while a round is being published or after an interrupted one, and for an empty tree it returns none.",
 ["inputs","histories","crash_points","schedules"],
 "All (start, end) pairs, tree sizes and batch histories, including ranges over several tiles, requests during publication and after crashes.",
 NOTEST+"requests are never made against a store with an interrupted round and only few ranges are sampled.",
 [MON,FET],
 [m("range clamped to the tree head and tiles selected by width","Fetch.get_entries / getTile")],
 ["GET /ct/v1/get-entries"])
p("C15","get-proof-by-hash proves every committed leaf and nothing else",
 "For every leaf hash in the log and every tree size above its index up to the current tree head, get-proof-by-hash returns the leaf's index and the RFC 6962 audit path for that tree size. For any other hash (including one that differs from a logged one in some bits only, or that of an entry never committed) it returns an error, never a proof.",
 ["inputs","histories","configurations","crash_points"],
 "All leaves, all tree sizes up to the current one for which it answers (published sizes must be answered), all mask sizes, all batch histories including crash leftovers.",
 NOTEST+"proofs are requested for a few leaves at one mask size on an undisturbed log.",
 [MON,FET,BUC,MIS],
 [m("hash prefix files","PutRecordHashes / getIndexForHash / KAnonHashPath"),m("tile hash reader","hashreader")],
 ["GET /ct/v1/get-proof-by-hash"])
p("C16","get-sth-consistency proves any two published tree sizes",
 "For any two tree sizes that have been published as tree heads, get-sth-consistency returns exactly the RFC 6962 consistency proof between them (empty for equal sizes or first = 0). Sizes out of order or beyond the current tree head are answered with an error, and no 200 answer ever carries a proof that does not verify.",
 ["inputs","histories","crash_points"],
 "All pairs of sizes, all batch histories, crash leftovers, level-1 and level-2 tile boundaries.",
 NOTEST+"only the few size pairs the docker run happens to see are verified.",
 [MON,FET],
 [m("tlog.ProveTree over the tile hash reader","Fetch.get_sth_consistency / hashreader")],
 ["GET /ct/v1/get-sth-consistency"])
p("C17","get-entry-and-proof returns any committed entry with its proof",
 "For every index below a published tree size, get-entry-and-proof returns the committed entry (leaf and chain, as get-entries) together with the RFC 6962 audit path for that index and tree size; out-of-range parameters are answered with an error.",
 ["inputs","histories"],
 "All index/size pairs and batch histories, in particular entries in the partial right-edge tile.",
 "No test of any kind calls it successfully (the hammer test has it disabled), so any index in a partial tile is unexercised.",
 [MON,FET],
 [m("tile selected by width, leaf looked up, proof from tiles","Fetch.get_entry_and_proof")],
 ["GET /ct/v1/get-entry-and-proof"])
p("C18","The monitor fails loudly and stays up",
 "A monitoring request with missing, malformed or out-of-range parameters, or one during which the store answers with errors or with missing, truncated or undecodable objects, is answered with an error status: never a 200 with wrong or fabricated data, and never by crashing or wedging the monitor. After any number of such requests correct requests are answered correctly again.",
 ["inputs","fault_sequences","histories"],
 "All parameter strings, any store fault on any object read while answering, any number of failing requests.",
 NOTEST+"the store never fails in a test and invalid parameters are sampled only.",
 [MON,FET,"internal/ctmonitor/storage.go"],
 [m("parameter validation and error propagation","Fetch.get_*"),m("HTTP store client","UrlStorage.Get")],
 ["HTTP status and body of the monitoring endpoints"])
p("C19","STH and checkpoint are valid, agree and never run backwards",
 "Every published STH and checkpoint is well formed, verifies under the log's public key (checkpoint: c2sp signed note with the RFC 6962 key id and the configured origin), and the checkpoint always states a tree head that was already published as STH. Their timestamps never decrease and are never earlier than the newest entry they cover (for a non-decreasing clock).",
 ["histories","crash_points","schedules"],
 "All rounds (empty and non-empty), all sizes, crashes between the two writes, restarts.",
 NOTEST+"the checkpoint is not read by any test.",
 [CHK,MIS,SUB],
 [m("note signing with injected RFC 6962 signature","sunlight.SignTreeHeadCheckpoint"),m("STH signing","sunlight.SignTreeHead"),m("STH written before checkpoint","stageTwoData.stageTwo")],
 ["ct/v1/get-sth","checkpoint"])
p("C20","Lookup files stay complete, sorted and correct",
 "The hash-to-index and deduplication files are at all times whole fixed-size records sorted by key, each record under the path given by its key's prefix for the configured mask size; a rewrite never drops or alters an earlier record. A deduplication record only ever refers to an entry that is in the published tree, with its true index and timestamp.",
 ["histories","configurations","crash_points","fault_sequences"],
 "All batch histories, mask sizes, numbers of records per file, duplicates, crash points, and read errors during the read-modify-write.",
 "The code itself says 'This NEEDS unit testing'; no test reads these files.",
 [BUC,MIS,SUB],
 [m("read-modify-write insertion","PutRecordHashes / PutDedupeEntries"),m("order after the STH upload","stageTwoData.stageTwo")],
 ["int/hashes/*, int/dedupe/* objects"])
p("C21","Filesystem backend replaces objects atomically",
 "With the filesystem backend, replacing an object is all-or-nothing: a crash of the process, a reported write error or a concurrent reader during the replacement sees either the complete old or the complete new contents, never a truncated or mixed object. A write that reports success is complete and readable under its key, and creates missing directories.",
 ["crash_points","fault_sequences","schedules"],
 "A failure or kill at any byte of a write of any object, with any number of concurrent readers.",
 NOTEST+"no test interrupts a write or reads during one.",
 [STO,"internal/ctmonitor/storage.go"],
 [m("FsStorage.Set","internal/ctsubmit/storage.go")],
 ["files below the root directory"])
p("C22","A healthy log keeps publishing fresh tree heads",
 "While the leader and its storage are healthy, the log publishes a newly signed STH and checkpoint again and again, within a bounded time of the flush interval, whether or not submissions arrive and however they arrive; every accepted submission is in a published tree head within a bounded number of flush intervals.",
 ["schedules","histories"],
 "All arrival patterns (idle, steady trickle at any spacing relative to the flush interval, bursts), after start, restart and failover, at any tree size including zero.",
 NOTEST+"freshness without traffic or under a trickle is not observed.",
 [SUB],
 [m("flush timer and flush on arrival","stageOneData.stageOne"),m("empty rounds re-sign the head","stageTwoData.stageTwo")],
 ["time between storage writes of ct/v1/get-sth and checkpoint"])
p("C23","Set-up yields a working empty log",
 "After set-up, get-roots lists exactly the given root certificates (as a set), get-sth is a valid signed head of the empty tree, the stored configuration equals the given one, and an instance started from it serves a log whose first entry has index 0; this holds for both storage backends and any valid configuration (the origin a legal note name, the mask size within the hash).",
 ["configurations","inputs"],
 "All root bundles (duplicates included), mask sizes, origins, and both backends.",
 "Set-up is only run as a fixture of the docker tests with one configuration and one root.",
 [SET,CFG],
 [m("uploadRoots / uploadConfig / uploadEmptySth","internal/ctsetup/main.go")],
 ["ct/v1/get-roots, ct/v1/get-sth, lock service key <prefix>/config"])
p("C24","Signatures are bit-exact RFC 6979 deterministic ECDSA",
 "For every supported P-256/P-384/P-521 key and digest, the signature equals the one RFC 6979 prescribes: nonces are unbiased, and the same message always yields the same bytes.",
 ["inputs"],
 "All keys and digests.",
 "Tests check published vectors only.",
 ["internal/rfc6979/ecdsa_ol.go"],
 [m("rfc6979.Sign","internal/rfc6979/ecdsa_ol.go")],
 ["signature bytes"])
FAS="internal/ctmonitor/fastly.go"
p("C25","The edge monitor answers like the monitor, for the log it is asked for",
 "Every get-entries, get-proof-by-hash, get-sth-consistency and get-entry-and-proof request to the edge program (cmd/fastly-monitor) is answered for the log of the requested host, from that log's own storage and its current tree, with what the ordinary monitor's guarantees demand: whatever earlier or simultaneous requests, for this or another log, left in the cache they share. A range whose chains need more storage requests than one run may make is answered with a shorter, non-empty list of complete entries. Objects that failed or broke off are not kept; unknown hosts, paths and methods are answered with an error.",
 ["inputs","histories","schedules","fault_sequences"],
 "All request sequences and overlaps over any number of logs and tree growths, cold and warm caches, any storage fault, any number of issuers per range.",
 "No test compiles or runs the edge program; its cache and its limit of requests only exist on the platform.",
 [FAS,MON,FET,"cmd/fastly-monitor/main.go"],
 [m("shared cache keyed by version and URL, lifetime from cache-control","FastlyStorage.Get"),m("limit of storage requests","FastlyStorage.AvailableReqs / Fetch.get_entries"),m("host to backend","FastlyServe")],
 ["HTTP answers of the edge program"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
