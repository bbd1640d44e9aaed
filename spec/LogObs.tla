------------------------------- MODULE LogObs -------------------------------
(* The observable CT log.

   The state `o` is what can be known from outside: the objects in the store, the lock
   service, the instances, the requests and their answers.  Apply(o, ev) is the effect of one
   observable event, Checks(o, o2, ev) the set of <<property, label, holds>> judged at it: the
   labelled guards of the listed properties.  A behaviour satisfies property P iff no check
   of P is FALSE anywhere.

   The module is used twice: Itko.tla composes it synchronously with the implementation-shaped
   design (TLC explores all interleavings), Trace.tla feeds it the events recorded from the
   real programs.  The CONSTANT operators give meaning to the identifiers in events.         *)
EXTENDS Merkle, FiniteSets, TLC

CONSTANTS
  Props,          \* properties to judge
  LeafOf(_),      \* leaf hash       -> [idx, ts, b, h]
  EntOf(_),       \* entry           -> [m, b, c, ch, wf]
  Kids(_),        \* tile hash       -> the TW hashes below it (or <<>>)
  RootSeq(_),     \* root hash       -> leaf hashes from position off on
  RootLen(_),     \* root hash       -> tree size (-1: not the root of any known sequence)
  SubOf(_),       \* submission      -> [b, c, ch, pr, ok]
  Nil,            \* no leaf, no entry, no hash
  BaseH,          \* the right tile hash of a subtree below position off
  \* time bounds (ms); generous for recorded traces, the programs run on a loaded machine
  RespBound,      \* answer to a submission (the sequencer timeout is 5 s)
  ExitBound,      \* termination after a failed write or after the lock is lost
  Grace,          \* "could have noticed" the loss of the lock
  RelGrace,       \* the same when the instance itself gave the lock back
  GapBound,       \* two consecutive tree heads of a healthy leader
  PubBound,       \* submission to published entry, healthy
  Skew            \* rounding between recorder and program

NoHead == [size |-> -1, ts |-> 0, rid |-> Nil]

\* finite maps
Get(f, k, dflt) == IF k \in DOMAIN f THEN f[k] ELSE dflt
Put(f, k, v) == (k :> v) @@ f

InitObs(cfg) == [
  cfg   |-> cfg,            \* off, size, d24, ... of the scenario
  tiles |-> << >>,          \* <<level, number, width>> -> [c |-> content id, v |-> content]
  iss   |-> {},             \* stored issuer fingerprints
  hix   |-> << >>,          \* hash-to-index file -> content
  ded   |-> << >>,          \* deduplication file -> content
  sth   |-> NoHead,         \* published tree head
  ck    |-> NoHead,         \* published checkpoint
  pubs  |-> {},             \* <<size, rid>> of every STH published so far
  nsth  |-> 0,              \* STHs published by instances
  sthT  |-> -1,             \* when the last STH was published
  ckT   |-> -1,             \* when the last checkpoint was published
  cids  |-> << >>,          \* get-sth / get-roots -> set of contents ever stored
  reqs  |-> << >>,          \* open and answered requests
  subs  |-> {},             \* <<body, certificate, chain>> of the submissions so far
  nreq  |-> << >>,          \* entry body -> number of valid requests for it
  reqT  |-> << >>,          \* entry body -> time of the first valid request for it
  dl    |-> << >>,          \* certificate key -> delivered SCTs
  preq  |-> << >>,          \* certificate key -> requests made before the first delivery
  hold  |-> 0,              \* lock holder
  held  |-> {},             \* instances that held the lock at some time
  lost  |-> << >>,          \* instance -> when it lost the lock
  inst  |-> << >>,          \* instance -> "starting" | "up" | "dead"
  upT   |-> << >>,
  fl    |-> << >>,          \* instance -> [t, floor]: first failed publication write
  pg    |-> << >>,          \* instance -> tree size before its latest tree head
  rf    |-> {},             \* instances that had a failed read
  sick  |-> FALSE,          \* storage is being stalled or failed by the scenario
  wellT |-> 0,              \* since when it is healthy
  fs    |-> << >>,          \* file -> [cur |-> contents it may have, pend |-> contents being written]
  roots |-> << >>,          \* certificates of the stored get-roots
  sthOK |-> FALSE,          \* the stored get-sth is well-formed and signed
  rd    |-> << >>,          \* read of a file under way -> contents it may return
  rel   |-> << >>,          \* instances that gave the lock back -> when
  odd   |-> {},             \* instances that terminated although nothing failed
  intr  |-> {} ]            \* instances told to terminate

Off(o) == o.cfg.off
D24(o) == o.cfg.d24

\* the leaf at position p of the tree with root rid
SeqAt(o, rid, p) == LET s == RootSeq(rid)  i == p - Off(o) + 1 IN
                    IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE Nil
\* the entry a data tile holds for position p of a tree of size n
EntKey(p, n) == LET j == p \div TW IN <<-1, j, IF j = n \div TW THEN n % TW ELSE TW>>
EntAt(o, p, n) ==
  LET k == EntKey(p, n) IN
  IF k \notin DOMAIN o.tiles THEN Nil
  ELSE LET v == o.tiles[k].v  i == (p % TW) + 1 IN IF i <= Len(v) THEN v[i] ELSE Nil

IsPrefixSeq(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]

Key(s) == <<SubOf(s).c, SubOf(s).b>>
EntKeyOf(x) == <<EntOf(x).c, EntOf(x).b>>

----------------------------------------------------------------------------
(* Well-formedness of what a tree head commits to *)

RECURSIVE HashOK(_, _, _, _, _)
\* id is the hash of the complete level-L subtree p of the sequence with root rid
HashOK(o, id, L, p, rid) ==
  IF p < Count(L, Off(o), D24(o)) THEN id = BaseH
  ELSE IF L = 0 THEN id # Nil /\ id = SeqAt(o, rid, p)
  ELSE /\ id # Nil /\ id # BaseH
       /\ LET k == Kids(id) IN
          Len(k) = TW /\ \A j \in 1..TW : HashOK(o, k[j], L - 1, ChildPos(L, p, j, D24(o)), rid)

TileOK(o, t, rid) ==
  /\ t \in DOMAIN o.tiles
  /\ LET v == o.tiles[t].v IN
     /\ Len(v) = t[3]
     /\ IF t[1] = -1
        THEN \A j \in 1..Len(v) : LET p == t[2] * TW + j - 1 IN
               IF p < Off(o) THEN TRUE ELSE v[j] # Nil /\ EntOf(v[j]).m = SeqAt(o, rid, p)
        ELSE \A j \in 1..Len(v) : HashOK(o, v[j], t[1], t[2] * TW + j - 1, rid)

HidxRows(o) == UNION {{o.hix[k][i] : i \in 1..Len(o.hix[k])} : k \in DOMAIN o.hix}

DurTiles(o, n, rid) == \A t \in RequiredTiles(n, Off(o), D24(o)) : TileOK(o, t, rid)
DurIssuers(o, n) == \A p \in Off(o)..n-1 : LET x == EntAt(o, p, n) IN
                      x # Nil /\ \A i \in 1..Len(EntOf(x).ch) : EntOf(x).ch[i] \in o.iss
DurHidx(o, n, rid) == LET rows == HidxRows(o) IN
                      \A p \in Off(o)..n-1 : <<LeafOf(SeqAt(o, rid, p)).h, p>> \in rows

New(o, n) == (IF o.cfg.size > Off(o) THEN o.cfg.size ELSE Off(o)) .. n - 1   \* positions sequenced in the scenario

\* positions not covered by the published head yet
Fresh(o, n) == {p \in New(o, n) : p >= o.sth.size}

CountBody(o, rid, n, b) == Cardinality({p \in New(o, n) : LeafOf(SeqAt(o, rid, p)).b = b})

----------------------------------------------------------------------------
(* Checks *)

Ck(p, l, cond) == IF p \in Props THEN {<<p, l, cond>>} ELSE {}

ByInst(ev) == ev.i > 0

LockOK(o, i, at) == o.hold = i \/ (i \in DOMAIN o.lost /\ at <= o.lost[i] + Grace)

PutAny(o, ev) ==
  IF ~ByInst(ev) THEN {} ELSE
  Ck("C09", "write-without-lock", LockOK(o, ev.i, ev.at)) \cup
  Ck("C09", "write-after-release", o.hold = ev.i \/ (ev.i \in DOMAIN o.rel => ev.at <= o.rel[ev.i] + RelGrace)) \cup
  (IF o.cfg.tamper = 1 THEN Ck("C10", "write-on-unusable-store", FALSE) ELSE {})

TileKey(ev) == IF ev.k = "data" THEN <<-1, ev.n, ev.w>> ELSE <<ev.l, ev.n, ev.w>>

PutTile(o, ev) ==
  LET t == TileKey(ev) IN
  IF ~ByInst(ev) THEN {} ELSE
  Ck("C11", "tile-below-the-scenario-changed", "bs" \notin DOMAIN ev) \cup
  Ck("C11", "published-tile-changed", (t \in DOMAIN o.tiles /\ o.sth.size >= 0 /\ Covered(t, o.sth.size, D24(o))) => o.tiles[t].c = ev.cid) \cup
  \* a tile below the published size that was never stored must still get the published content
  (IF t \notin DOMAIN o.tiles /\ o.sth.size >= 0 /\ Covered(t, o.sth.size, D24(o)) /\ t[1] <= 0 /\ t[2] * TW >= Off(o)
   THEN Ck("C11", "stale-tile-added", \A j \in 1..Len(ev.v) :
          (IF t[1] = 0 THEN ev.v[j] ELSE IF ev.v[j] # Nil THEN EntOf(ev.v[j]).m ELSE Nil) = SeqAt(o, o.sth.rid, t[2] * TW + j - 1))
   ELSE {})

\* a tree head (STH or checkpoint) that commits to a sequence not seen before
HeadContent(o, ev) ==
  LET n == ev.size  rid == ev.rid  seq == RootSeq(rid) IN
  Ck("C02", "root-matches-no-sequence", RootLen(rid) = n) \cup
  Ck("C02", "served-entries-differ", RootLen(rid) = n /\ \A p \in Off(o)..n-1 :
        LET x == EntAt(o, p, n) IN x # Nil /\ EntOf(x).m = SeqAt(o, rid, p)) \cup
  Ck("C03", "tile-missing-or-wrong", DurTiles(o, n, rid)) \cup
  Ck("C03", "issuer-missing", DurIssuers(o, n)) \cup
  Ck("C03", "hash-record-missing", RootLen(rid) = n /\ DurHidx(o, n, rid))

HeadEntries(o, ev) ==
  LET n == ev.size  rid == ev.rid  F == Fresh(o, n) IN
  Ck("C04", "index-not-position", \A p \in F : LeafOf(SeqAt(o, rid, p)).idx = p) \cup
  Ck("C04", "timestamps-decrease", \A p \in F : p = Off(o) \/ LeafOf(SeqAt(o, rid, p)).ts >= LeafOf(SeqAt(o, rid, p - 1)).ts) \cup
  Ck("C04", "timestamp-after-head", \A p \in F : LeafOf(SeqAt(o, rid, p)).ts <= ev.ts) \cup
  Ck("C04", "timestamp-before-submission", \A p \in F : LET l == LeafOf(SeqAt(o, rid, p)) IN
        l.b \in DOMAIN o.reqT => l.ts >= o.reqT[l.b] - Skew) \cup
  Ck("C04", "more-entries-than-submissions", \A b \in {LeafOf(SeqAt(o, rid, p)).b : p \in F} :
        CountBody(o, rid, n, b) <= Get(o.nreq, b, 0)) \cup
  Ck("C12", "rejected-submission-logged", \A p \in F : LeafOf(SeqAt(o, rid, p)).b \in DOMAIN o.nreq) \cup
  Ck("C05", "resubmission-added-entry", \A k \in {LET x == EntAt(o, p, n) IN IF x = Nil THEN <<0, 0>> ELSE EntKeyOf(x) : p \in F} \cap DOMAIN o.dl :
        Cardinality({p \in New(o, n) : LET x == EntAt(o, p, n) IN x # Nil /\ EntKeyOf(x) = k}) <= Get(o.preq, k, 0)) \cup
  Ck("C13", "entry-differs-from-submission", \A p \in F :
        LET x == EntAt(o, p, n) IN x # Nil /\ <<EntOf(x).b, EntOf(x).c, EntOf(x).ch>> \in o.subs) \cup
  Ck("C01", "delivered-sct-not-in-tree", \A k \in DOMAIN o.dl : \A i \in 1..Len(o.dl[k]) :
        SeqAt(o, rid, o.dl[k][i].idx) = o.dl[k][i].m)

Max3(a, b, c) == CHOOSE x \in {a, b, c} : \A y \in {a, b, c} : x >= y

\* publication by a healthy leader: regular (last is when it last did) and freshly signed
Regular(o, ev, last, lbl) ==
  IF o.sick \/ o.hold # ev.i \/ ev.i \notin DOMAIN o.upT THEN {}
  ELSE Ck("C22", lbl, ev.t - Max3(last, o.wellT, o.upT[ev.i]) <= GapBound)
FreshHead(o, ev) == Ck("C22", "head-not-fresh", ev.ts >= ev.at - GapBound /\ ev.ts <= ev.t + Skew)

PutSth(o, ev) ==
  LET fresh == ev.rid # o.sth.rid IN
  Ck("C19", "sth-malformed", ev.wf = 1) \cup
  Ck("C19", "sth-signature", ev.sig = 1) \cup
  (IF ev.wf = 0 THEN {} ELSE
   Ck("C19", "sth-timestamp-decreases", o.sth.size < 0 \/ ev.ts >= o.sth.ts) \cup
   Ck("C19", "sth-older-than-entry", ~fresh \/ \A p \in New(o, ev.size) : LeafOf(SeqAt(o, ev.rid, p)).ts <= ev.ts) \cup
   Ck("C02", "sth-size-decreases", ev.size >= o.sth.size) \cup
   (IF fresh THEN
      Ck("C02", "sth-not-append-only", o.sth.size < 0 \/ IsPrefixSeq(RootSeq(o.sth.rid), RootSeq(ev.rid))) \cup
      HeadContent(o, ev) \cup HeadEntries(o, ev)
    ELSE Ck("C02", "same-root-other-size", ev.size = o.sth.size))) \cup
  (IF ~ByInst(ev) THEN {} ELSE
   Ck("C07", "head-after-failed-write", ev.i \notin DOMAIN o.fl) \cup
   Regular(o, ev, o.sthT, "heads-too-far-apart") \cup (IF ev.wf = 1 THEN FreshHead(o, ev) ELSE {}))

PutCkpt(o, ev) ==
  Ck("C19", "checkpoint-malformed", ev.wf = 1) \cup
  Ck("C19", "checkpoint-signature", ev.sig = 1) \cup
  (IF ev.wf = 0 THEN {} ELSE
   Ck("C19", "checkpoint-not-published-as-sth", <<ev.size, ev.rid>> \in o.pubs) \cup
   Ck("C19", "checkpoint-timestamp-decreases", o.ck.size < 0 \/ ev.ts >= o.ck.ts) \cup
   Ck("C19", "checkpoint-older-than-entry", \A p \in New(o, ev.size) : LeafOf(SeqAt(o, ev.rid, p)).ts <= ev.ts) \cup
   Ck("C02", "checkpoint-size-decreases", ev.size >= o.ck.size) \cup
   (IF ev.rid # o.ck.rid THEN
     Ck("C02", "checkpoint-not-append-only", (o.ck.size < 0 \/ IsPrefixSeq(RootSeq(o.ck.rid), RootSeq(ev.rid)))
         /\ (o.sth.size < 0 \/ IsPrefixSeq(RootSeq(ev.rid), RootSeq(o.sth.rid)) \/ IsPrefixSeq(RootSeq(o.sth.rid), RootSeq(ev.rid)))) ELSE {}) \cup
   (IF <<ev.size, ev.rid>> \notin o.pubs THEN HeadContent(o, ev) ELSE {})) \cup
  (IF ~ByInst(ev) THEN {} ELSE
   Ck("C07", "head-after-failed-write", ev.i \notin DOMAIN o.fl) \cup
   Regular(o, ev, o.ckT, "checkpoints-too-far-apart") \cup (IF ev.wf = 1 THEN FreshHead(o, ev) ELSE {}))

Rows(v) == {v[i] : i \in 1..Len(v)}

PutHidx(o, ev) ==
  Ck("C20", "hash-file-malformed", ev.wf = 1) \cup
  Ck("C20", "hash-file-unsorted", ev.srt = 1) \cup
  Ck("C20", "hash-record-wrong-path", ev.pok = 1) \cup
  (IF ev.kid \in DOMAIN o.hix
   THEN Ck("C20", "hash-record-lost", Rows(o.hix[ev.kid]) \subseteq Rows(ev.v) /\ Len(o.hix[ev.kid]) <= Len(ev.v)) ELSE {})

PutDed(o, ev) ==
  LET old == IF ev.kid \in DOMAIN o.ded THEN Rows(o.ded[ev.kid]) ELSE {} IN
  Ck("C20", "dedupe-file-malformed", ev.wf = 1) \cup
  Ck("C20", "dedupe-file-unsorted", ev.srt = 1) \cup
  Ck("C20", "dedupe-record-wrong-path", ev.pok = 1) \cup
  Ck("C20", "dedupe-record-lost", old \subseteq Rows(ev.v) /\ (ev.kid \in DOMAIN o.ded => Len(o.ded[ev.kid]) <= Len(ev.v))) \cup
  Ck("C20", "dedupe-record-of-unpublished-entry", \A r \in Rows(ev.v) \ old :
        r[2] >= Off(o) /\ r[2] < o.sth.size /\ LET l == LeafOf(SeqAt(o, o.sth.rid, r[2])) IN l.idx = r[2] /\ l.ts = r[3])

PutChecks(o, ev) ==
  PutAny(o, ev) \cup
  (CASE ev.k = "data" -> PutTile(o, ev) [] ev.k = "tree" -> PutTile(o, ev)
     [] ev.k = "sth" -> PutSth(o, ev) [] ev.k = "ckpt" -> PutCkpt(o, ev)
     [] ev.k = "hidx" -> PutHidx(o, ev) [] ev.k = "ded" -> PutDed(o, ev)
     [] ev.k = "iss" -> Ck("C03", "issuer-content", ev.wf = 1)
     [] OTHER -> {})

\* ---- answers to submissions

\* was an SCT for it already delivered when the request was made
Late(o, q) == o.reqs[q].nd > 0

\* a stored deduplication record names position i (a resubmission may be answered from it)
DedHas(o, i) == \E k \in DOMAIN o.ded : \E r \in Rows(o.ded[k]) : r[2] = i

RespOK(o, ev) ==
  LET r == o.reqs[ev.q]  k == Key(r.s) IN
  IF r.ok = 0 THEN Ck("C12", "accepted-invalid", FALSE) ELSE
  Ck("C01", "sct-malformed", ev.m # Nil /\ ev.id = 1) \cup
  Ck("C01", "sct-signature", ev.sig = 1) \cup
  Ck("C01", "sct-leaf-not-published", ev.m # Nil /\ ev.idx >= 0 /\ ev.idx < o.sth.size /\ SeqAt(o, o.sth.rid, ev.idx) = ev.m) \cup
  Ck("C01", "sct-leaf-not-in-checkpoint", ev.m # Nil /\ ev.idx >= 0 /\ ev.idx < o.ck.size /\ SeqAt(o, o.ck.rid, ev.idx) = ev.m) \cup
  (IF o.cfg.setup = 1 THEN Ck("C23", "first-index-not-zero", DOMAIN o.dl # {} \/ ev.idx = 0) ELSE {}) \cup
  Ck("C04", "position-shared-by-two-certificates", \A k2 \in DOMAIN o.dl : k2 # k => \A i \in 1..Len(o.dl[k2]) : o.dl[k2][i].idx # ev.idx) \cup
  (IF ~Late(o, ev.q) THEN {} ELSE
   Ck("C05", "resubmission-resequenced", ev.idx < r.size) \cup
   Ck("C05", "resubmission-answers-differ", \A i \in 1..Len(o.dl[k]) : o.dl[k][i].late => o.dl[k][i].cid = ev.cid) \cup
   Ck("C05", "resubmission-other-sct",
        \/ \E i \in 1..Len(o.dl[k]) : o.dl[k][i].cid = ev.cid
        \/ Cardinality({p \in New(o, o.sth.size) : LET x == EntAt(o, p, o.sth.size) IN x # Nil /\ EntKeyOf(x) = k}) > 1)) \cup
  (IF r.i \in DOMAIN o.fl THEN Ck("C07", "sct-after-failed-write", ev.idx < o.fl[r.i].floor \/ DedHas(o, ev.idx)) ELSE {}) \cup
  (IF o.cfg.tamper = 1 THEN Ck("C10", "sct-on-unusable-store", FALSE) ELSE {})

Dead(o, i) == i \in DOMAIN o.inst /\ o.inst[i] = "dead"
Excused(o, i) == (Dead(o, i) /\ i \notin o.odd) \/ i \in DOMAIN o.fl \/ (i \in DOMAIN o.lost /\ i \notin DOMAIN o.rel) \/ i \in o.intr \/ i \in o.rf

RespChecks(o, ev) ==
  LET r == o.reqs[ev.q] IN
  (IF r.ok = 1 THEN Ck("C12", "rejected-valid", ev.st < 400 \/ ev.st = 503) ELSE {}) \cup
  (IF ev.st = 200 THEN RespOK(o, ev)
   ELSE IF r.ok = 1 THEN
     Ck("C06", "neither-sct-nor-503", (ev.st = 503 /\ ev.ra = 1) \/ (ev.st >= 400 /\ ev.st < 500) \/ (ev.st = 0 /\ Excused(o, r.i)))
   ELSE Ck("C12", "invalid-not-answered-with-error", ev.st >= 400 \/ Excused(o, r.i))) \cup
  Ck("C06", "answer-too-late", ev.t - r.t <= RespBound) \cup
  (IF r.pr # "" THEN Ck(r.pr, "probe-failed", ev.st = 200 /\ ev.t - r.t <= PubBound) ELSE {})

\* ---- answers of the monitor

Cur(o) == o.sth.size
Pub(o) == {p[1] : p \in o.pubs}
Blame(ev, p) == IF ev.flt = 1 THEN "C18" ELSE p

EntryRight(o, x, p) == x # Nil /\ p < Cur(o) /\ EntOf(x).m = SeqAt(o, o.sth.rid, p)
EntrySame(o, x, p) == EntryRight(o, x, p) /\ x = EntAt(o, p, Cur(o))

QEnts(o, ev) ==
  IF ev.a < Off(o) /\ ev.st = 200 /\ ev.a >= 0 THEN {} ELSE
  IF ev.st = 200 THEN
    Ck(Blame(ev, "C14"), "entries-malformed", ev.wf = 1) \cup
    Ck(Blame(ev, "C14"), "entries-not-the-published-ones", \A j \in 1..Len(ev.xs) :
         LET p == ev.a + j - 1 IN p <= ev.b /\ EntryRight(o, ev.xs[j], p)) \cup
    Ck(Blame(ev, "C13"), "answered-entry-differs-from-stored", \A j \in 1..Len(ev.xs) :
         LET p == ev.a + j - 1 IN EntryRight(o, ev.xs[j], p) => EntrySame(o, ev.xs[j], p)) \cup
    Ck(Blame(ev, "C14"), "entry-differs-from-stored", \A j \in 1..Len(ev.xs) :
         LET p == ev.a + j - 1 IN EntryRight(o, ev.xs[j], p) => EntrySame(o, ev.xs[j], p)) \cup
    Ck(Blame(ev, "C14"), "no-entries", (ev.a < ev.sz0 /\ ev.a >= 0 /\ ev.a <= ev.b) => Len(ev.xs) >= 1) \cup
    Ck("C18", "bad-range-accepted", ev.a >= 0 /\ ev.a <= ev.b)
  ELSE
    Ck("C14", "valid-range-refused", ev.flt = 1 \/ ~(ev.a >= 0 /\ ev.a <= ev.b /\ ev.a < ev.sz0)) \cup
    (IF ev.flt = 0 /\ ev.a >= 0 /\ ev.a <= ev.b /\ ev.a < ev.sz0 THEN Ck("C18", "not-recovered", FALSE) ELSE {})

\* position of leaf hash m in the published tree, -1 if it is not there
Where(o, m) == IF m = Nil THEN -1
               ELSE LET i == LeafOf(m).idx IN IF i >= Off(o) /\ i < Cur(o) /\ SeqAt(o, o.sth.rid, i) = m THEN i ELSE -1

QProof(o, ev) ==
  LET i == Where(o, ev.m) IN
  IF ev.st = 200 THEN
    Ck(Blame(ev, "C15"), "proof-for-unpublished-hash", i >= 0) \cup
    Ck(Blame(ev, "C15"), "wrong-index", i >= 0 => ev.idx = i) \cup
    Ck(Blame(ev, "C15"), "size-beyond-head", ev.b <= Cur(o) /\ (i >= 0 => i < ev.b)) \cup
    Ck(Blame(ev, "C15"), "wrong-path", (i >= 0 /\ i < ev.b /\ ev.b <= Cur(o)) => ev.ph = AuditPath(i, ev.b, D24(o)))
  ELSE IF ev.flt = 0 /\ i >= 0 /\ i < ev.b /\ ev.b <= ev.sz0
  THEN Ck("C15", "proof-refused", FALSE) \cup Ck("C18", "not-recovered", FALSE)
  ELSE Ck("C15", "proof-refused", TRUE)

QCons(o, ev) ==
  IF ev.st = 200 THEN
    Ck("C16", "sizes-out-of-order-or-range", (ev.a >= 0 \/ D24(o) > 0) /\ ev.a <= ev.b /\ ev.b <= Cur(o)) \cup
    Ck(Blame(ev, "C16"), "wrong-proof", ev.wf = 1 /\ ((ev.a >= 0 /\ ev.a <= ev.b /\ ev.b <= Cur(o)) => ev.ph = ConsProof(ev.a, ev.b, D24(o))))
  ELSE IF ev.flt = 0 /\ ev.a \in Pub(o) \cup {0} /\ ev.b \in Pub(o) /\ ev.a <= ev.b /\ ev.b <= ev.sz0
  THEN Ck("C16", "proof-refused", FALSE) \cup Ck("C18", "not-recovered", FALSE)
  ELSE Ck("C16", "proof-refused", TRUE)

QEap(o, ev) ==
  IF ev.a < Off(o) /\ ev.st = 200 /\ ev.a >= 0 THEN {} ELSE
  IF ev.st = 200 THEN
    Ck(Blame(ev, "C17"), "index-out-of-range", ev.a >= 0 /\ ev.a < ev.b /\ ev.b <= Cur(o)) \cup
    Ck(Blame(ev, "C17"), "wrong-entry", ev.wf = 1 /\ Len(ev.xs) = 1 /\ EntrySame(o, ev.xs[1], ev.a)) \cup
    Ck(Blame(ev, "C13"), "answered-entry-differs-from-stored", Len(ev.xs) = 1 /\ (EntryRight(o, ev.xs[1], ev.a) => EntrySame(o, ev.xs[1], ev.a))) \cup
    Ck(Blame(ev, "C17"), "wrong-path", (ev.a >= 0 /\ ev.a < ev.b /\ ev.b <= Cur(o)) => ev.ph = AuditPath(ev.a, ev.b, D24(o)))
  ELSE IF ev.flt = 0 /\ ev.a >= 0 /\ ev.a < ev.b /\ ev.b <= ev.sz0
  THEN Ck("C17", "entry-and-proof-refused", ev.b \notin Pub(o)) \cup (IF ev.b \in Pub(o) THEN Ck("C18", "not-recovered", FALSE) ELSE {})
  ELSE Ck("C17", "entry-and-proof-refused", TRUE)

QChecks(o, ev) ==
  Ck("C18", "no-answer", ev.st # 0) \cup
  (CASE ev.op = "ents" -> QEnts(o, ev) [] ev.op = "proof" -> QProof(o, ev)
     [] ev.op = "cons" -> QCons(o, ev) [] ev.op = "eap" -> QEap(o, ev)
     [] ev.op \in {"sth", "roots"} ->
          IF ev.st = 200 THEN Ck("C18", "not-the-stored-object", ev.cid \in Get(o.cids, ev.op, {}))
          ELSE Ck("C18", "not-recovered", ev.flt = 1 \/ ev.sz0 < 0)
     [] ev.op = "raw" -> Ck("C18", "malformed-request-accepted", ev.st # 200)
     [] OTHER -> {})

\* ---- liveness with a clock: evaluated at ticks and at the end of a scenario

TickChecks(o, ev) ==
  Ck("C06", "submission-never-answered", \A q \in DOMAIN o.reqs :
        o.reqs[q].open => (ev.t - o.reqs[q].t <= RespBound \/ Dead(o, o.reqs[q].i))) \cup
  Ck("C07", "still-running-after-failed-write", \A i \in DOMAIN o.fl : Dead(o, i) \/ ev.t - o.fl[i].t <= ExitBound) \cup
  Ck("C07", "lock-kept-after-failed-write", \A i \in DOMAIN o.fl : o.hold # i \/ o.inst[i] = "dead" \/ ev.t - o.fl[i].t <= ExitBound) \cup
  Ck("C09", "still-running-without-lock", \A i \in DOMAIN o.lost : Dead(o, i) \/ o.hold = i \/ ev.t - o.lost[i] <= ExitBound) \cup
  (IF ~o.sick /\ o.hold # 0 /\ o.hold \in DOMAIN o.upT /\ o.hold \notin DOMAIN o.fl /\ ~Dead(o, o.hold)
   THEN Ck("C22", "heads-too-far-apart", ev.t - Max3(o.sthT, o.wellT, o.upT[o.hold]) <= GapBound) \cup
        Ck("C22", "checkpoints-too-far-apart", ev.t - Max3(o.ckT, o.wellT, o.upT[o.hold]) <= GapBound)
   ELSE {})

ExitChecks(o, ev) ==
  \* an instance that was serving terminated although nothing failed
  (IF ev.i \in DOMAIN o.inst /\ o.inst[ev.i] = "up" /\ ~Excused(o, ev.i)
   THEN Ck("C22", "healthy-instance-terminated", FALSE) \cup Ck("C12", "submission-stopped-the-service", FALSE) ELSE {}) \cup
  (IF ev.i \in DOMAIN o.fl THEN Ck("C07", "lock-not-released", o.hold # ev.i) ELSE {})

UpChecks(o, ev) ==
  Ck("C09", "serving-without-lock", o.hold = ev.i \/ LockOK(o, ev.i, ev.t)) \cup
  (IF o.cfg.tamper = 1 THEN Ck("C10", "serving-an-unusable-store", FALSE) ELSE {})

\* ---- the filesystem storage: every object is a register (0: no object)

FsOf(o, k) == Get(o.fs, k, [cur |-> {0}, pend |-> {}])
FsMay(o, k) == FsOf(o, k).cur \cup FsOf(o, k).pend

FsReadChecks(o, ev) ==
  Ck("C21", "object-unreadable", ev.ok = 1) \cup
  (IF ev.ok = 1 THEN Ck("C21", "object-neither-old-nor-new", ev.c \in o.rd[ev.r].may) ELSE {})

FsApply(o, ev) ==
  LET f == IF ev.e = "fsr" THEN FsOf(o, o.rd[ev.r].k) ELSE FsOf(o, ev.k) IN
  CASE ev.e = "fss" -> [o EXCEPT !.fs = Put(@, ev.k, [f EXCEPT !.pend = @ \cup {ev.c}]),
                                 !.rd = [r \in DOMAIN @ |-> IF @[r].k = ev.k THEN [@[r] EXCEPT !.may = @ \cup {ev.c}] ELSE @[r]]]
    [] ev.e = "fse" -> [o EXCEPT !.fs = Put(@, ev.k, [cur |-> IF ev.ok = 1 THEN {ev.c} \cup (IF ev.alone = 1 THEN {} ELSE f.cur) ELSE f.cur \cup {ev.c}, pend |-> f.pend \ {ev.c}])]
    [] ev.e = "fsr0" -> [o EXCEPT !.rd = Put(@, ev.r, [k |-> ev.k, may |-> FsMay(o, ev.k)])]
    [] ev.e = "fsr" -> [o EXCEPT !.rd = [r \in DOMAIN @ \ {ev.r} |-> @[r]],
                                 !.fs = IF f.pend = {} /\ ev.ok = 1 /\ ev.c \in f.cur /\ ev.quiet = 1 THEN Put(@, o.rd[ev.r].k, [f EXCEPT !.cur = {ev.c}]) ELSE @]

\* ---- the set-up program has finished

SetupChecks(o, ev) ==
  \* with a failing write it need not succeed; if it says so, everything has to be there
  (IF ev.flt = 1 THEN {} ELSE Ck("C23", "set-up-failed", ev.ok = 1)) \cup
  (IF ev.ok = 0 THEN {} ELSE
   Ck("C23", "roots-differ", "roots" \in DOMAIN o.cids /\ Rows(o.roots) = Rows(ev.roots)) \cup
   Ck("C23", "config-differs", ev.cfg = ev.stored) \cup
   Ck("C23", "head-not-empty", o.sth.size = 0 /\ RootLen(o.sth.rid) = 0) \cup
   Ck("C23", "head-signature", o.sthOK) \cup
   Ck("C23", "head-timestamp", o.sth.ts >= ev.t0 - Skew /\ o.sth.ts <= ev.t + Skew))

Checks(o, ev) ==
  CASE ev.e = "put"  -> PutChecks(o, ev)
    [] ev.e = "resp" -> RespChecks(o, ev)
    [] ev.e = "q"    -> QChecks(o, ev)
    [] ev.e = "up"   -> UpChecks(o, ev)
    [] ev.e = "exit" -> ExitChecks(o, ev)
    [] ev.e = "get"  -> Ck("C09", "read-without-lock", LockOK(o, ev.i, ev.t))
    [] ev.e = "upfail" -> Ck(ev.pp, "does-not-start", FALSE)
    [] ev.e = "setup" -> SetupChecks(o, ev)
    [] ev.e = "fsr" -> FsReadChecks(o, ev)
    [] ev.e = "fse" -> Ck("C21", "write-failed", ev.must = 0 \/ ev.ok = 1)
    [] ev.e = "verdict" -> Ck(ev.pp, ev.l, ev.ok = 1)
    [] ev.e = "monexit" -> Ck("C18", "monitor-terminated", FALSE)
    [] ev.e \in {"tick", "end"} -> TickChecks(o, ev) \cup
         (IF ev.e = "end" /\ o.cfg.tamper = 1 THEN Ck("C10", "never-served", \A i \in DOMAIN o.inst : o.inst[i] # "up") ELSE {})
    [] OTHER -> {}

----------------------------------------------------------------------------
(* Effects *)

ApplyPut(o, ev) ==
  CASE ev.k \in {"data", "tree"} -> [o EXCEPT !.tiles = Put(o.tiles, TileKey(ev), [c |-> ev.cid, v |-> ev.v])]
    [] ev.k = "iss" -> [o EXCEPT !.iss = IF ev.wf = 1 THEN @ \cup {ev.fp} ELSE @]
    [] ev.k = "hidx" -> [o EXCEPT !.hix = Put(@, ev.kid, ev.v)]
    [] ev.k = "ded" -> [o EXCEPT !.ded = Put(@, ev.kid, ev.v)]
    [] ev.k = "roots" -> [o EXCEPT !.roots = ev.fs, !.cids = Put(@, "roots", Get(@, "roots", {}) \cup {ev.cid})]
    [] ev.k = "sth" ->
         LET o1 == [o EXCEPT !.sthOK = (ev.wf = 1 /\ ev.sig = 1), !.cids = Put(@, "sth", Get(@, "sth", {}) \cup {ev.cid}), !.sthT = IF ByInst(ev) THEN ev.t ELSE @,
                             !.nsth = IF ByInst(ev) THEN @ + 1 ELSE @] IN
         IF ev.wf = 0 THEN o1
         ELSE [o1 EXCEPT !.sth = [size |-> ev.size, ts |-> ev.ts, rid |-> ev.rid],
                         !.pubs = @ \cup {<<ev.size, ev.rid>>},
                         !.pg = IF ByInst(ev) THEN Put(@, ev.i, o.sth.size) ELSE @]
    [] ev.k = "ckpt" -> IF ev.wf = 0 THEN o ELSE [o EXCEPT !.ckT = IF ByInst(ev) THEN ev.t ELSE @, !.ck = [size |-> ev.size, ts |-> ev.ts, rid |-> ev.rid]]
    [] OTHER -> o

ApplyReq(o, ev) ==
  LET b == SubOf(ev.s).b  k == Key(ev.s)
      o1 == [o EXCEPT !.reqs = Put(@, ev.q, [s |-> ev.s, i |-> ev.i, t |-> ev.t, nd |-> Len(Get(o.dl, k, <<>>)), ok |-> ev.ok, pr |-> ev.pr, open |-> TRUE, size |-> o.sth.size]),
                      !.subs = @ \cup {<<b, SubOf(ev.s).c, SubOf(ev.s).ch>>}] IN
  IF ev.ok = 0 THEN o1
  ELSE [o1 EXCEPT !.nreq = Put(@, b, Get(@, b, 0) + 1),
                  !.reqT = IF b \in DOMAIN @ THEN @ ELSE Put(@, b, ev.t),
                  !.preq = IF k \in DOMAIN o.dl THEN @ ELSE Put(@, k, Get(@, k, 0) + 1)]

ApplyResp(o, ev) ==
  LET r == o.reqs[ev.q]  k == Key(r.s)
      o1 == [o EXCEPT !.reqs = Put(@, ev.q, [r EXCEPT !.open = FALSE])] IN
  IF ev.st # 200 \/ r.ok = 0 THEN o1
  ELSE [o1 EXCEPT !.dl = Put(@, k, Append(Get(@, k, <<>>), [cid |-> ev.cid, m |-> ev.m, idx |-> ev.idx, late |-> Late(o, ev.q)]))]

ApplyEv(o, ev) ==
  CASE ev.e = "put" -> ApplyPut(o, ev)
    [] ev.e = "req" -> ApplyReq(o, ev)
    [] ev.e = "resp" -> ApplyResp(o, ev)
    [] ev.e = "cancel" -> [o EXCEPT !.reqs = Put(@, ev.q, [@[ev.q] EXCEPT !.open = FALSE])]
    [] ev.e = "start" -> [o EXCEPT !.inst = Put(@, ev.i, "starting")]
    [] ev.e = "up" -> [o EXCEPT !.inst = Put(@, ev.i, "up"), !.upT = Put(@, ev.i, ev.t)]
    [] ev.e \in {"crash", "exit"} -> [o EXCEPT !.inst = Put(@, ev.i, "dead"),
         !.odd = IF ev.e = "exit" /\ ev.i \in DOMAIN o.inst /\ o.inst[ev.i] = "up" /\ ~Excused(o, ev.i) THEN @ \cup {ev.i} ELSE @]
    [] ev.e = "lock" -> [o EXCEPT !.hold = ev.i, !.held = @ \cup {ev.i}]
    [] ev.e \in {"unlock", "expire"} -> [o EXCEPT !.hold = IF @ = ev.i THEN 0 ELSE @, !.lost = Put(@, ev.i, ev.t),
                                         !.rel = IF ev.e = "unlock" THEN Put(@, ev.i, ev.t) ELSE @]
    [] ev.e = "fail" -> [o EXCEPT !.fl = IF ev.i \in DOMAIN @ THEN @
                           ELSE Put(@, ev.i, [t |-> ev.t, floor |-> IF ev.k \in {"ckpt", "ded"} \/ (ev.k = "sth" /\ ev.ap = 1) THEN Get(o.pg, ev.i, o.sth.size) ELSE o.sth.size])]
    [] ev.e = "rfail" -> [o EXCEPT !.rf = @ \cup {ev.i}]
    [] ev.e = "intr" -> [o EXCEPT !.intr = @ \cup {ev.i}]
    [] ev.e \in {"fss", "fse", "fsr0", "fsr"} -> FsApply(o, ev)
    [] ev.e = "sick" -> [o EXCEPT !.sick = TRUE]
    [] ev.e = "well" -> [o EXCEPT !.sick = FALSE, !.wellT = ev.t]
    [] OTHER -> o

Apply(o, ev) == ApplyEv(o, ev)
=============================================================================
