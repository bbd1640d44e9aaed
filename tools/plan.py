"""What each check runs."""

# labels that compare clocks: confirmed by a second run of the scenario alone
TIMING = {"answer-too-late", "heads-too-far-apart", "checkpoints-too-far-apart", "head-not-fresh", "probe-failed", "submission-never-answered", "still-running-after-failed-write",
          "lock-kept-after-failed-write", "still-running-without-lock", "does-not-start", "no-answer", "write-after-release"}

SMALL = {"mod": "Itko.tla", "cfg": "Itko_small.cfg", "what": "two processes, two submissions, one crash, failed write or lock loss anywhere"}
DUP = {"mod": "Itko.tla", "cfg": "Itko_dup.cfg", "what": "three requests for one submission, a clock tick anywhere"}
MON = {"mod": "Itko.tla", "cfg": "Itko_mon.cfg", "what": "two submissions, every monitor query in two steps (tree head, then tiles) against a growing log"}
DEEP = {"mod": "Itko.tla", "cfg": "Itko_deep.cfg", "what": "two processes, three requests, three tree heads, one fault anywhere (breadth first until the time limit)", "stop": 360}
MERKLE = {"mod": "MerkleTest.tla", "cfg": "MerkleTest.cfg", "what": "the proof arithmetic against recomputed roots, all positions and sizes of small trees"}
TOY = {"mod": "Rfc6979Toy.tla", "cfg": "Rfc6979Toy.cfg", "what": "the signature machine over two toy groups: every key and message, candidates uniform, signatures verify"}
STAGES = {"mod": "Stages.tla", "cfg": "Stages.cfg", "what": "the pipeline with clocks and queues, three requests at a time, runs of any length: age of the tree head <= 2F+D, no refusal when T >= 2F+3D, every request answered"}
STALL = {"mod": "Stages.tla", "cfg": "Stages_stall.cfg", "what": "the same with publications that take for ever: every request is answered"}
LOOKUP = {"mod": "Lookup.tla", "cfg": "Lookup.cfg", "what": "merging rounds into a lookup file, four keys, five rows, rounds lost by crashes"}
FSSTORE = {"mod": "FsStore.tla", "cfg": "FsStore.cfg", "what": "three writers and two readers of one object, system call by system call, crash or failing call anywhere"}
EDGE = {"mod": "Edge.tla", "cfg": "Edge.cfg", "what": "two runs of the monitor at the edge at a time, a budget of requests, a shared cache with obligations, one failure or eviction anywhere: every answer holds an entry, every request is answered"}
SETUP = {"mod": "Setup.tla", "cfg": "Setup.cfg", "what": "three runs of the set-up with failing writes and ends anywhere, a log started at any time"}


def variant(m, expect, **sub):
    return dict(m, sub={"%s = %s" % (k, v[0]): "%s = %s" % (k, v[1]) for k, v in sub.items()}, expect=expect, what="without the mechanism: must be refuted")


V_STAGES = [variant(STAGES, "Fresh", ByEntry=("TRUE", "FALSE"), P=("2", "9"), D=("2", "1"), T=("10", "11")), variant(STALL, "Answered", Guarded=("TRUE", "FALSE"))]
V_LOOKUP = [variant(LOOKUP, "AnswerStays", Behind=("TRUE", "FALSE"))]
V_FS = [variant(FSSTORE, "AtRest|OldOrNew", Atomic=("TRUE", "FALSE")), variant(FSSTORE, "AtRest|OldOrNew", Unique=("TRUE", "FALSE")), variant(FSSTORE, "AtRest|OldOrNew", Exact=("TRUE", "FALSE"))]
V_SETUP = [variant(SETUP, "Success", Checked=("TRUE", "FALSE"))]
ECACHE = {"mod": "EdgeCache.tla", "cfg": "EdgeCache.cfg", "what": "what runs at the edge leave to each other: two logs whose trees grow, a shared cache with evictions, a response that breaks off: a run sees whole objects of its own log and of a tree not older than the request"}
V_ECACHE = [variant(ECACHE, "Own", ByBackend=("TRUE", "FALSE")), variant(ECACHE, "Fresh", Lifetimes=("TRUE", "FALSE")), variant(ECACHE, "Healed", Whole=("TRUE", "FALSE"))]
V_EDGE = [variant(EDGE, "NotEmpty", First=("TRUE", "FALSE")), variant(EDGE, "Owned", Dropped=("TRUE", "FALSE"))]
V_FENCE = [variant(SMALL, "Good", Fenced=("TRUE", "FALSE"))]
CASES = {"mod": "Accept.tla", "cfg": "Accept.cfg"}
# simulated behaviours of the design: a random exploration of a larger instance (four processes,
# three faults, five submissions), and the schedules that family sched realises
SCHED = {"mod": "Sched.tla", "cfg": "Sched.cfg", "num": 150, "depth": 160}
SCHED_T = {"mod": "Sched.tla", "cfg": "Sched.cfg", "num": 1500, "depth": 160}

# what is assumed of the environment, for every check
ENV = ["the storage, the lock service and the network are the harness's: an in-memory S3 endpoint with strong read-after-write consistency, a Consul endpoint with sessions, loopback HTTP",
       "the programs are /repo's own packages, linked by sut/main.go, which only reads flags and calls the exported entry points"]


def _p(quick, thorough, models, need, note, tmodels=None, assume=(), qb=60, tb=300, cases=False, par=8, technique=None, judge=None, props=None):
    r = {"quick": {"fams": quick, "models": models, "budget": qb, "par": par}, "thorough": {"fams": thorough, "models": tmodels or models, "budget": tb, "par": par},
         "need": need, "note": note, "assume": ENV + list(assume)}
    if cases:
        r["quick"]["cases"] = CASES
        r["thorough"]["cases"] = CASES
    if "sched" in quick:
        r["quick"]["sched"] = SCHED
    if "sched" in thorough:
        r["thorough"]["sched"] = SCHED_T
    if judge:
        r["judge"] = judge
    if props:
        r["props"] = props
    if technique:
        r["technique"] = technique
    return r


SPEC = "TLC explores every interleaving of the design within the bounds of the configurations listed in the evidence; "
IMPL = "the real programs are driven through the listed scenario families (crash before/after every storage operation of a round, failing operations, held and reordered writes, two instances, growth across tile borders) and every observable event is judged by the same specification"

PLAN = {
    "C01": _p(["smoke", "hold", "crash", "dup", "ha", "fencing", "latency", "sched", "cmd"], ["crowd", "smoke", "hold", "crash", "dup", "ha", "fse", "fault", "fencing", "latency", "rfault", "sched", "cmd"], [SMALL],
              ["sct-leaf-not-published", "sct-leaf-not-in-checkpoint", "sct-signature", "delivered-sct-not-in-tree"], SPEC + IMPL, [SMALL, DUP, DEEP]),
    "C02": _p(["latency", "smoke", "crash", "hold", "ha", "fencing", "sched"], ["latency", "smoke", "crash", "hold", "ha", "fencing", "deep", "grow", "sched"], [SMALL],
              ["root-matches-no-sequence", "sth-not-append-only", "checkpoint-not-append-only"], SPEC + IMPL, [SMALL, DEEP]),
    "C03": _p(["crash", "hold", "grow", "deep", "rfault", "sched"], ["crash", "fault", "rfault", "hold", "grow", "fse", "deep", "latency", "sched"], [SMALL],
              ["tile-missing-or-wrong", "issuer-missing", "hash-record-missing"], SPEC + IMPL, [SMALL, DEEP]),
    "C04": _p(["crowd", "dup", "hold", "grow", "crash", "latency"], ["crowd", "latency", "dup", "hold", "grow", "shape", "crash", "ha", "sched"], [SMALL],
              ["index-not-position", "timestamps-decrease", "more-entries-than-submissions", "timestamp-before-submission", "position-shared-by-two-certificates"], SPEC + IMPL, [SMALL, DUP, DEEP]),
    "C05": _p(["dup", "crash", "rfault", "cmd"], ["dup", "crash", "stall", "fault", "rfault", "latency", "sched", "cmd"], [DUP, LOOKUP],
              ["resubmission-resequenced", "resubmission-other-sct", "resubmission-added-entry"], SPEC + IMPL, [SMALL, DUP, LOOKUP] + V_LOOKUP),
    "C06": _p(["crowd", "stall", "fault", "hold", "latency", "cmd"], ["crowd", "stall", "fault", "rfault", "hold", "idle", "latency", "cmd"], [STAGES],
              ["answer-too-late", "neither-sct-nor-503"], SPEC + IMPL + "; time bounds are those of the specification (answer within 5 s plus a margin for a loaded machine)", [SMALL, STAGES, STALL] + V_STAGES),
    "C07": _p(["fault"], ["fault", "fse", "sched"], [SMALL], ["still-running-after-failed-write"], SPEC + IMPL, [SMALL, DEEP]),
    "C08": _p(["crash", "fault", "ha", "sched"], ["crash", "fault", "ha", "deep", "fse", "sched"], [SMALL], ["probe-failed"], SPEC + IMPL, [SMALL, DEEP]),
    "C09": _p(["ha", "fault", "smoke", "sched", "cmd"], ["ha", "crash", "fault", "idle", "sched", "cmd"], [SMALL], ["write-without-lock", "serving-without-lock"], SPEC + IMPL, [SMALL, DEEP]),
    "C10": _p(["startup"], ["startup"], [SMALL], ["never-served"], "every single-object damage of the right edge (missing, truncated, bit flips, swapped, other size) at several tree shapes is generated, the real program is started on it and the trace is judged by the specification"),
    "C11": _p(["crash", "ha", "grow", "deep", "sched"], ["crash", "ha", "grow", "hold", "deep", "sched"], [SMALL], ["published-tile-changed"], SPEC + IMPL, [SMALL, DEEP]),
    "C12": _p(["accept", "shape"], ["accept", "shape", "dup", "crowd"], [], ["rejected-valid", "invalid-not-answered-with-error", "rejected-submission-logged"],
              "the acceptance specification (Accept.tla) is enumerated completely by TLC; every case is realised as a certificate chain and sent to the real program, whose answers are judged by the specification", cases=True,
              technique="TLA+ specification of the acceptance rule enumerated by TLC, cases replayed into the real program, traces checked by TLC"),
    "C13": _p(["shape", "mon", "grow"], ["shape", "mon", "grow", "dup", "fse"], [MON], ["entry-differs-from-submission", "answered-entry-differs-from-stored"], SPEC + IMPL),
    "C14": _p(["grow", "mon", "hold", "shape", "cmd", "edge"], ["grow", "mon", "hold", "shape", "deep", "sched", "cmd", "edge"], [MON, EDGE], ["entries-not-the-published-ones", "no-entries", "valid-range-refused"], SPEC + IMPL, [MON, EDGE] + V_EDGE),
    "C15": _p(["mon", "grow", "deep", "cmd", "edge"], ["mon", "grow", "deep", "hold", "sched", "cmd", "edge"], [MON, MERKLE], ["wrong-path", "proof-refused"], SPEC + IMPL),
    "C16": _p(["grow", "deep", "mon", "cmd", "edge"], ["grow", "deep", "mon", "cmd", "edge"], [MON, MERKLE], ["wrong-proof", "proof-refused"], SPEC + IMPL),
    "C17": _p(["mon", "grow", "deep", "cmd", "edge"], ["mon", "grow", "deep", "cmd", "edge"], [MON, MERKLE], ["wrong-path", "wrong-entry"], SPEC + IMPL),
    "C18": _p(["mon", "cmd", "edge"], ["mon", "grow", "cmd", "edge"], [MON, EDGE], ["no-answer", "bad-range-accepted", "malformed-request-accepted"], "the real monitor is driven with malformed requests and failing storage (errors, missing, truncated and undecodable objects at every position of an answer), alone and concurrently; the answers are judged by the specification"),
    "C19": _p(["latency", "smoke", "ha", "crash", "fencing"], ["latency", "smoke", "ha", "crash", "fencing", "hold", "fse", "sched"], [SMALL], ["sth-signature", "checkpoint-signature", "sth-timestamp-decreases", "checkpoint-not-published-as-sth"], SPEC + IMPL, [SMALL, DEEP] + V_FENCE),
    "C20": _p(["dup", "crash", "grow", "fault", "rfault"], ["crowd", "dup", "crash", "grow", "hold", "shape", "fault", "rfault", "latency", "sched"], [LOOKUP, SMALL], ["hash-record-lost", "dedupe-record-lost", "hash-file-unsorted", "dedupe-record-of-unpublished-entry"], SPEC + IMPL, [LOOKUP, SMALL, DUP] + V_LOOKUP),
    "C21": _p(["fs", "fse"], ["fs", "fse"], [FSSTORE], ["object-neither-old-nor-new", "write-failed"],
              "the real filesystem storage is driven with crashes and failing system calls injected at every system call of a write, and with concurrent readers and writers; every read is judged against the register specification", [FSSTORE] + V_FS,
              assume=["a crash is the end of the process at a system call, not a loss of power: what the kernel accepted stays"]),
    "C22": _p(["idle", "stall"], ["idle", "stall", "crowd", "latency"], [STAGES], ["heads-too-far-apart", "checkpoints-too-far-apart", "head-not-fresh"], SPEC + IMPL, [STAGES, STALL] + V_STAGES),
    "C23": _p(["setup"], ["setup"], [SETUP], ["roots-differ", "config-differs", "head-not-empty", "head-signature"],
              "the real set-up program is run over generated configurations and root lists, its results are judged by the specification, and the real log is started on them", [SETUP] + V_SETUP),
    "C24": _p(["sign", "keys"], ["sign", "keys"], [TOY], ["signature-not-rfc6979", "signature-after-rejected-nonce", "signature-not-repeatable", "log-signature-not-rfc6979"],
              "RFC 6979 is specified as a state machine over octet strings (generator state K and V, drawn candidates, rejection, signing, DER); TLC explores it completely over two toy groups. For every recorded signature of the real function and of running logs with P-256, P-384 and P-521 keys TLC runs the machine with the real primitives and compares the octets",
              judge="SigTrace", technique="TLA+ state machine of RFC 6979 model checked with TLC over toy groups and run by TLC for every recorded signature (trace checking)",
              assume=["HMAC, multiplication modulo the order and the group are evaluated by spec/EcdsaPrim.java (javax.crypto, BigInteger), which shares no code with the repository"]),
    "C25": _p(["edge"], ["edge"], [EDGE, ECACHE], ["entries-not-the-published-ones", "no-entries", "wrong-path", "wrong-proof", "no-answer", "malformed-request-accepted"],
              SPEC + "the real program of the edge, linked with a stand-in for the calls of its host, is run once per request with a shared cache, a second log on the same edge, a growing tree, failing storage and the platform's limit of requests; every answer is judged by the specification of the log's monitoring interface",
              [EDGE, ECACHE] + V_EDGE + V_ECACHE, props=["C14", "C15", "C16", "C17", "C18"],
              assume=["the host of the edge is the harness's: cache, obligations, configuration and backends behave as the SDK documents, a run may make 32 requests to backends; the program is compiled for this machine, not for wasm"]),
}
NA = {}
