-------------------------------- MODULE Itko --------------------------------
(* The log as it is built: submission stages zero, one and two, publication rounds made of
   single storage writes that land in any order, the leader lock, crashes, failed writes,
   restarts, and monitors that read the store in several steps.

   Every step emits the observable events it causes.  They drive the observable log LogObs,
   whose state o is also the store (the design reads objects back from it).  bad collects the
   labelled checks of LogObs that failed; the property is bad = {}.

   Abstractions.  Tiles have width TW (256 in the code) and are keyed and shaped exactly as in
   the code; a hash is the term it hashes, so a root is its leaf sequence and verification
   against a root is equality.  Time is a counter that ticks at any point.  A certificate is
   the number of its submission.  Lookup files are sequences of rows (order and byte layout
   are checked on the implementation and in Lookup.tla).                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  TW,           \* tile width
  Insts,        \* instances (processes; a restart is a new process)
  SubIds,       \* distinct submissions
  MaxReq,       \* requests
  MaxHeads,     \* published STHs
  MaxBad,       \* crashes + failed writes + lock losses
  MaxQ,         \* monitor queries
  MaxClk,       \* clock ticks
  PoolMax,      \* entries in a pool (255)
  Files,        \* hash-to-index files, deduplication files
  Fenced,       \* a write never lands after its process lost the lock
  AllProps,     \* properties judged
  Nil, BaseH    \* model values

\* ---- identifiers
SubTab == [s \in SubIds |-> [b |-> s, c |-> s, ch |-> IF s % 2 = 1 THEN <<90>> ELSE <<91, 90>>, pr |-> 0, ok |-> 1]]
SubOf(s) == SubTab[s]
MkLeaf(idx, ts, b) == <<idx, ts, b>>
LeafOf(m) == IF m = Nil THEN [idx |-> -1, ts |-> 0, b |-> 0, h |-> Nil] ELSE [idx |-> m[1], ts |-> m[2], b |-> m[3], h |-> m]
EntOf(x) == IF x = Nil THEN [m |-> Nil, b |-> 0, c |-> 0, ch |-> <<>>, wf |-> 0]
            ELSE [m |-> x.m, b |-> SubOf(x.s).b, c |-> SubOf(x.s).c, ch |-> SubOf(x.s).ch, wf |-> 1]
Kids(h) == IF h = Nil \/ h = BaseH THEN <<>> ELSE h
RootSeq(r) == IF r = Nil THEN <<>> ELSE r
RootLen(r) == IF r = Nil THEN -1 ELSE Len(r)

O == INSTANCE LogObs WITH Props <- AllProps, RespBound <- 99, ExitBound <- 99, Grace <- -1, RelGrace <- -1,
                          GapBound <- 99, PubBound <- 99, Skew <- 0

VARIABLES o, bad, clk, inst, req, mon, nreq, nbad, nq
vars == <<o, bad, clk, inst, req, mon, nreq, nbad, nq>>

NoRound == [ph |-> "idle", todo |-> {}, size |-> 0, rid |-> Nil, pool |-> <<>>, edge |-> << >>]
Off0 == [mode |-> "off", edge |-> << >>, seq |-> 0, chan |-> <<>>, pool |-> <<>>, two |-> <<>>, rnd |-> NoRound, born |-> 0]

\* ---- events
Base == [t |-> clk]
Put(i, p) == [e |-> "put", i |-> i, at |-> clk, wf |-> 1] @@ p @@ Base
RECURSIVE Fold(_, _, _)
Fold(oo, bb, evs) ==
  IF evs = <<>> THEN <<oo, bb>>
  ELSE LET ev == Head(evs) IN
       Fold(O!Apply(oo, ev), bb \cup {<<c[1], c[2]>> : c \in {c \in O!Checks(oo, ev) : ~c[3]}}, Tail(evs))
Emit(evs) == LET r == Fold(o, bad, evs) IN o' = r[1] /\ bad' = r[2]
Silent == UNCHANGED <<o, bad>>

\* ---- tiles
RECURSIVE Flat(_, _)
Flat(h, L) == IF L = 0 THEN <<h>> ELSE
  LET F[j \in 0..TW] == IF j = 0 THEN <<>> ELSE F[j - 1] \o Flat(h[j], L - 1) IN F[TW]
\* the leaves below the hashes of one tile
FlatTile(v, L) == LET F[j \in 0..Len(v)] == IF j = 0 THEN <<>> ELSE F[j - 1] \o Flat(v[j], L) IN F[Len(v)]
Levels == 0..3
\* the right edge of a tree: level -> [n, v]; a level may hold a full tile
EdgeSize(L, size) == size \div (TW ^ L)
\* leaves of the tree whose right edge is e: full tiles are covered by the level above
TreeOf(e, size) ==
  LET F[L \in -1..3] == IF L = -1 THEN <<>> ELSE
        (IF EdgeSize(L, size) % TW = 0 THEN <<>> ELSE FlatTile(e[L].v, L))
      \* higher levels come first
      G[L \in 0..4] == IF L = 4 THEN <<>> ELSE G[L + 1] \o F[L]
  IN G[0]

\* extend one level with a hash, reporting completed tiles
RECURSIVE Extend(_, _, _, _)
Extend(e, L, h, n) ==       \* n: position of h on its level
  LET old == IF L \in DOMAIN e THEN e[L] ELSE [n |-> 0, v |-> <<>>]
      cur == IF Len(old.v) = TW THEN [n |-> old.n + 1, v |-> <<>>] ELSE old
      new == [n |-> cur.n, v |-> Append(cur.v, h)]
      e1 == (L :> new) @@ e IN
  IF Len(new.v) = TW /\ L < 3 THEN Extend(e1, L + 1, new.v, n \div TW) ELSE e1

\* tiles (L >= 0) written when the tree grows by the leaves ms at position from, one leaf at a time
RECURSIVE GrowTiles(_, _, _, _)
GrowTiles(e, from, ms, done) ==
  IF ms = <<>>
  THEN <<e, done \cup {[k |-> "tree", l |-> L, n |-> e[L].n, w |-> Len(e[L].v), v |-> e[L].v, cid |-> e[L].v] :
                       L \in {L \in DOMAIN e \cap Levels : Len(e[L].v) > 0}}>>
  ELSE LET e1 == Extend(e, 0, Head(ms), from)
           full == {L \in DOMAIN e1 \cap Levels : Len(e1[L].v) = TW} IN
       GrowTiles(e1, from + 1, Tail(ms), done \cup
         {[k |-> "tree", l |-> L, n |-> e1[L].n, w |-> TW, v |-> e1[L].v, cid |-> e1[L].v] : L \in full})

\* tlog.NewTiles: only levels that changed
Changed(p, old, new) == EdgeSize(p.l, old) # EdgeSize(p.l, new) /\ p.n >= EdgeSize(p.l, old) \div TW

RECURSIVE GrowData(_, _, _)
GrowData(d, xs, done) ==
  LET tile(t) == [k |-> "data", n |-> t.n, w |-> Len(t.v), v |-> t.v, cid |-> t.v] IN
  IF xs = <<>> THEN <<d, IF Len(d.v) > 0 THEN done \cup {tile(d)} ELSE done>>
  ELSE LET cur == IF Len(d.v) = TW THEN [n |-> d.n + 1, v |-> <<>>] ELSE d
           new == [n |-> cur.n, v |-> Append(cur.v, Head(xs))] IN
       GrowData(new, Tail(xs), IF Len(new.v) = TW THEN done \cup {tile(new)} ELSE done)

\* ---- lookup files
HFile(m) == <<"h", m[3] % Files>>
DFile(c) == <<"d", c % Files>>
Rows(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
AddRows(f, k, new) == Rows(f, k) \o new
SelectPool(pool, P(_)) == SelectSeq(pool, P)

\* ---- the store as the programs read it
Tile(L, n, w) == IF <<L, n, w>> \in DOMAIN o.tiles THEN o.tiles[<<L, n, w>>].v ELSE <<>>
\* the tile of a tree of the given size that holds position p of level L
Stored(L, p, size) == LET n == p \div TW  c == EdgeSize(IF L < 0 THEN 0 ELSE L, size) - n * TW IN
                      Tile(L, n, IF c < TW THEN c ELSE TW)

----------------------------------------------------------------------------
\* every process has been started and waits for the lock; they get it in order (they are alike)
RECURSIVE Started(_, _)
Started(oo, S) == IF S = {} THEN oo ELSE LET i == CHOOSE i \in S : TRUE IN
                  Started(O!Apply(oo, [e |-> "start", i |-> i, t |-> 0]), S \ {i})
Init == /\ o = Started(O!Apply(O!InitObs([off |-> 0, size |-> 0, d24 |-> 0, tamper |-> 0, setup |-> 0]),
                      [e |-> "put", i |-> 0, k |-> "sth", size |-> 0, ts |-> 0, rid |-> <<>>, wf |-> 1, sig |-> 1, cid |-> <<"sth", 0, 0, <<>>>>, t |-> 0, at |-> 0]), Insts)
        /\ bad = {} /\ clk = 0 /\ nreq = 0 /\ nbad = 0 /\ nq = 0
        /\ inst = [i \in Insts |-> [Off0 EXCEPT !.mode = "wait"]]
        /\ req = << >> /\ mon = [op |-> "idle"]

Tick == clk < MaxClk /\ clk' = clk + 1 /\ UNCHANGED <<o, bad, inst, req, mon, nreq, nbad, nq>>

\* ---- processes and the lock
Acquire(i) == /\ inst[i].mode = "wait" /\ o.hold = 0
              /\ \A j \in Insts : j < i => inst[j].mode # "wait"
              /\ Emit(<<[e |-> "lock", i |-> i] @@ Base>>)
              /\ inst' = [inst EXCEPT ![i].mode = "load"]
              /\ UNCHANGED <<clk, req, mon, nreq, nbad, nq>>

\* reads the STH, the right edge and the data tile, verifies them, starts serving
Load(i) == /\ inst[i].mode = "load"
           /\ LET n == o.sth.size
                  e == [L \in {L \in Levels : EdgeSize(L, n) > 0} |->
                         LET c == EdgeSize(L, n)  j == (c - 1) \div TW IN [n |-> j, v |-> Tile(L, j, c - j * TW)]]
                  d == IF n = 0 THEN [n |-> 0, v |-> <<>>] ELSE LET j == (n - 1) \div TW IN [n |-> j, v |-> Tile(-1, j, n - j * TW)]
                  ok == n = 0 \/ (/\ \A L \in DOMAIN e : Len(e[L].v) = EdgeSize(L, n) - e[L].n * TW
                                 /\ TreeOf(e, n) = o.sth.rid
                                 /\ Len(d.v) = Len(e[0].v) /\ \A j \in 1..Len(d.v) : d.v[j].m = e[0].v[j])
              IN IF ok THEN /\ Emit(<<[e |-> "get", i |-> i, k |-> "sth"] @@ Base, [e |-> "up", i |-> i] @@ Base>>)
                            /\ inst' = [inst EXCEPT ![i] = [Off0 EXCEPT !.mode = "up", !.edge = (-1 :> d) @@ e, !.seq = n]]
                       ELSE /\ Emit(<<[e |-> "upfail", i |-> i, pp |-> "C08"] @@ Base>>)
                            /\ inst' = [inst EXCEPT ![i].mode = "dying"]
           /\ UNCHANGED <<clk, req, mon, nreq, nbad, nq>>

Gone(i) == [q \in DOMAIN req |-> IF req[q].i = i THEN [req[q] EXCEPT !.st = "gone"] ELSE req[q]]
\* an unfenced store may still apply the writes that were under way
Leftover(i) == IF Fenced THEN {} ELSE inst[i].rnd.todo

Crash(i) == /\ inst[i].mode \in {"load", "up", "dying"} /\ nbad < MaxBad
            /\ Emit(<<[e |-> "crash", i |-> i] @@ Base>>)
            /\ inst' = [inst EXCEPT ![i] = [Off0 EXCEPT !.mode = "dead", !.rnd = [NoRound EXCEPT !.todo = Leftover(i)]]]
            /\ req' = Gone(i) /\ nbad' = nbad + 1
            /\ UNCHANGED <<clk, mon, nreq, nq>>

\* the session of the holder ends: it is dead, or was cut off
Expire(i) == /\ o.hold = i
             /\ inst[i].mode = "dead" \/ nbad < MaxBad
             /\ Emit(<<[e |-> "expire", i |-> i] @@ Base>>)
             /\ inst' = IF inst[i].mode = "dead" THEN inst
                        ELSE [inst EXCEPT ![i].mode = "dying", ![i].rnd.ph = "lost", ![i].rnd.todo = Leftover(i), ![i].two = <<>>, ![i].chan = <<>>]
             /\ nbad' = IF inst[i].mode = "dead" THEN nbad ELSE nbad + 1
             /\ UNCHANGED <<clk, req, mon, nreq, nq>>

\* a stage failed: the lock is given up, then the process exits
Unlock(i) == /\ o.hold = i /\ (inst[i].rnd.ph = "failed" \/ inst[i].mode = "dying")
             /\ Emit(<<[e |-> "unlock", i |-> i] @@ Base>>)
             /\ inst' = [inst EXCEPT ![i].mode = "dying", ![i].rnd.todo = Leftover(i), ![i].two = <<>>, ![i].chan = <<>>]
             /\ UNCHANGED <<clk, req, mon, nreq, nbad, nq>>

Exit(i) == /\ inst[i].mode = "dying" /\ o.hold # i
           /\ Emit(<<[e |-> "exit", i |-> i] @@ Base>>)
           /\ inst' = [inst EXCEPT ![i] = [Off0 EXCEPT !.mode = "dead", !.rnd = [NoRound EXCEPT !.todo = Leftover(i)]]]
           /\ req' = Gone(i)
           /\ UNCHANGED <<clk, mon, nreq, nbad, nq>>

Late(i, p) == /\ ~Fenced /\ inst[i].mode = "dead" /\ p \in inst[i].rnd.todo
              /\ Emit(<<Put(i, p)>>)
              /\ inst' = [inst EXCEPT ![i].rnd.todo = @ \ {p}]
              /\ UNCHANGED <<clk, req, mon, nreq, nbad, nq>>

\* ---- stage zero
Submit(i, s) == /\ inst[i].mode = "up" /\ nreq < MaxReq
                /\ nreq' = nreq + 1
                /\ Emit(<<[e |-> "req", q |-> nreq', i |-> i, s |-> s, ok |-> 1, pr |-> ""] @@ Base>>)
                /\ req' = (nreq' :> [i |-> i, s |-> s, st |-> "look", x |-> Nil]) @@ req
                /\ UNCHANGED <<clk, inst, mon, nbad, nq>>

Sct(q, m) == [e |-> "resp", q |-> q, i |-> req[q].i, s |-> req[q].s, st |-> 200, ra |-> 0, m |-> m, idx |-> m[1], ts |-> m[2], sig |-> 1, id |-> 1, cid |-> m] @@ Base

\* the deduplication record is looked up; a hit is answered at once, otherwise the entry is queued
Lookup(q) == /\ req[q].st = "look" /\ inst[req[q].i].mode \in {"up", "dying"}
             /\ LET c == SubOf(req[q].s).c
                    hits == SelectSeq(Rows(o.ded, DFile(c)), LAMBDA r : r[1] = c) IN
                IF hits # <<>>
                THEN /\ Emit(<<Sct(q, MkLeaf(hits[1][2], hits[1][3], SubOf(req[q].s).b))>>)
                     /\ req' = [req EXCEPT ![q].st = "done"]
                     /\ UNCHANGED inst
                ELSE /\ Silent
                     /\ req' = [req EXCEPT ![q].st = "wait"]
                     /\ inst' = [inst EXCEPT ![req[q].i].chan = Append(@, q)]
             /\ UNCHANGED <<clk, mon, nreq, nbad, nq>>

Timeout(q) == /\ req[q].st = "wait" /\ clk > 0 /\ nbad > 0    \* only explored in behaviours with trouble
              /\ Emit(<<[e |-> "resp", q |-> q, i |-> req[q].i, s |-> req[q].s, st |-> 503, ra |-> 1, m |-> Nil, idx |-> -1, ts |-> 0, sig |-> 0, id |-> 0, cid |-> 0] @@ Base>>)
              /\ req' = [req EXCEPT ![q].st = "done"]
              /\ UNCHANGED <<clk, inst, mon, nreq, nbad, nq>>

Answer(q) == /\ req[q].st = "wait" /\ req[q].x # Nil /\ inst[req[q].i].mode \in {"up", "dying"}
             /\ Emit(<<Sct(q, req[q].x.m)>>)
             /\ req' = [req EXCEPT ![q].st = "done"]
             /\ UNCHANGED <<clk, inst, mon, nreq, nbad, nq>>

\* ---- stage one
Alive(i) == inst[i].mode = "up" /\ inst[i].rnd.ph # "failed"
Sequence(i) == /\ inst[i].mode = "up" /\ inst[i].chan # <<>> /\ Len(inst[i].pool) < PoolMax
               /\ LET q == Head(inst[i].chan)  s == req[q].s
                      x == [m |-> MkLeaf(inst[i].seq, clk, SubOf(s).b), s |-> s] IN
                  inst' = [inst EXCEPT ![i].chan = Tail(@), ![i].seq = @ + 1, ![i].pool = Append(@, [q |-> q, x |-> x])]
               /\ Silent /\ UNCHANGED <<clk, req, mon, nreq, nbad, nq>>

Flush(i) == /\ inst[i].mode = "up" /\ Len(inst[i].two) < 1
            /\ o.nsth < MaxHeads
            /\ inst' = [inst EXCEPT ![i].two = Append(@, inst[i].pool), ![i].pool = <<>>]
            /\ Silent /\ UNCHANGED <<clk, req, mon, nreq, nbad, nq>>

\* ---- stage two
Begin(i) ==
  /\ Alive(i) /\ inst[i].rnd.ph = "idle" /\ inst[i].two # <<>>
  /\ LET pool == Head(inst[i].two)
         e == inst[i].edge
         xs == [j \in 1..Len(pool) |-> pool[j].x]
         ms == [j \in 1..Len(pool) |-> pool[j].x.m]
         old == IF pool = <<>> THEN 0 ELSE ms[1][1]
         new == IF pool = <<>> THEN 0 ELSE ms[Len(ms)][1] + 1
         he == [L \in DOMAIN e \cap Levels |-> e[L]]
         gt == GrowTiles(he, old, ms, {})
         gd == GrowData(e[-1], xs, {})
         hs == {[k |-> "hidx", kid |-> f, srt |-> 1, pok |-> 1,
                 v |-> AddRows(o.hix, f, [j \in 1..Len(SelectSeq(ms, LAMBDA m : HFile(m) = f)) |->
                        LET m == SelectSeq(ms, LAMBDA m : HFile(m) = f)[j] IN <<m, m[1]>>])] : f \in {HFile(ms[j]) : j \in 1..Len(ms)}}
         is == {[k |-> "iss", fp |-> c] : c \in UNION {{EntOf(xs[j]).ch[u] : u \in 1..Len(EntOf(xs[j]).ch)} : j \in 1..Len(xs)} \ o.iss}
     IN inst' = [inst EXCEPT ![i].two = Tail(@),
          ![i].rnd = IF pool = <<>>
                     THEN [ph |-> "sth", todo |-> {}, size |-> o.sth.size, rid |-> o.sth.rid, pool |-> <<>>, edge |-> e]
                     ELSE [ph |-> "tiles", todo |-> {p \in gt[2] : Changed(p, old, new)} \cup gd[2] \cup hs \cup is,
                           size |-> new, rid |-> TreeOf(gt[1], new), pool |-> pool, edge |-> (-1 :> gd[1]) @@ gt[1]]]
  /\ Silent /\ UNCHANGED <<clk, req, mon, nreq, nbad, nq>>

\* one of the parallel writes of a round completes
Land(i, p) == /\ inst[i].mode = "up" /\ inst[i].rnd.ph \in {"tiles", "ded", "failed"} /\ p \in inst[i].rnd.todo
              /\ Emit(<<Put(i, p)>>)
              /\ inst' = [inst EXCEPT ![i].rnd.todo = @ \ {p}]
              /\ UNCHANGED <<clk, req, mon, nreq, nbad, nq>>

\* one of them fails, applied or not: the round is given up, others may still complete
FailWrite(i, p, ap) ==
  /\ Alive(i) /\ nbad < MaxBad
  /\ inst[i].rnd.ph \in {"tiles", "ded"} /\ p \in inst[i].rnd.todo
  /\ Emit((IF ap THEN <<Put(i, p)>> ELSE <<>>) \o <<[e |-> "fail", i |-> i, k |-> p.k, ap |-> IF ap THEN 1 ELSE 0] @@ Base>>)
  /\ inst' = [inst EXCEPT ![i].rnd.todo = @ \ {p}, ![i].rnd.ph = "failed"]
  /\ nbad' = nbad + 1
  /\ UNCHANGED <<clk, req, mon, nreq, nq>>

HeadPut(i, k) == LET r == inst[i].rnd IN
  Put(i, [k |-> k, size |-> r.size, ts |-> clk, rid |-> r.rid, sig |-> 1, cid |-> <<k, r.size, clk, r.rid>>])

WriteHead(i, k) ==
  /\ Alive(i) /\ inst[i].rnd.todo = {}
  /\ inst[i].rnd.ph = IF k = "sth" THEN (IF inst[i].rnd.pool = <<>> THEN "sth" ELSE "tiles") ELSE "ckpt"
  /\ Emit(<<HeadPut(i, k)>>)
  /\ LET pool == inst[i].rnd.pool
         cs == {SubOf(pool[j].x.s).c : j \in 1..Len(pool)}
         rows(f) == LET ps == SelectSeq(pool, LAMBDA y : DFile(SubOf(y.x.s).c) = f) IN
                    [j \in 1..Len(ps) |-> <<SubOf(ps[j].x.s).c, ps[j].x.m[1], ps[j].x.m[2]>>]
         ds == {[k |-> "ded", kid |-> f, srt |-> 1, pok |-> 1, v |-> AddRows(o.ded, f, rows(f))] : f \in {DFile(c) : c \in cs}} IN
     inst' = IF k = "sth" THEN [inst EXCEPT ![i].rnd.ph = "ckpt"]
             ELSE [inst EXCEPT ![i].rnd.ph = "ded", ![i].rnd.todo = ds, ![i].edge = inst[i].rnd.edge]
  /\ UNCHANGED <<clk, req, mon, nreq, nbad, nq>>

FailHead(i, k, ap) ==
  /\ Alive(i) /\ inst[i].rnd.todo = {} /\ nbad < MaxBad
  /\ inst[i].rnd.ph = IF k = "sth" THEN (IF inst[i].rnd.pool = <<>> THEN "sth" ELSE "tiles") ELSE "ckpt"
  /\ Emit((IF ap THEN <<HeadPut(i, k)>> ELSE <<>>) \o <<[e |-> "fail", i |-> i, k |-> k, ap |-> IF ap THEN 1 ELSE 0] @@ Base>>)
  /\ inst' = [inst EXCEPT ![i].rnd.ph = "failed"]
  /\ nbad' = nbad + 1
  /\ UNCHANGED <<clk, req, mon, nreq, nq>>

\* everything is stored: hand the entries to the waiting requests
Return(i) == /\ Alive(i) /\ inst[i].rnd.ph = "ded" /\ inst[i].rnd.todo = {}
             /\ LET pool == inst[i].rnd.pool IN
                req' = [q \in DOMAIN req |-> LET js == {j \in 1..Len(pool) : pool[j].q = q} IN
                         IF js = {} THEN req[q] ELSE [req[q] EXCEPT !.x = pool[CHOOSE j \in js : TRUE].x]]
             /\ inst' = [inst EXCEPT ![i].rnd = NoRound]
             /\ Silent /\ UNCHANGED <<clk, mon, nreq, nbad, nq>>

----------------------------------------------------------------------------
(* Monitors: the STH is read first, the tiles later. *)
RECURSIVE FlatAt(_, _, _)
\* leaves below position p of level L as the tiles of a tree of size n give them
FlatAt(L, p, n) == LET v == Stored(L, p, n)  j == (p % TW) + 1 IN IF j <= Len(v) THEN Flat(v[j], L) ELSE <<>>
RECURSIVE FlatRange(_, _, _)
\* leaves [lo, hi) through the largest complete subtrees (TW = 2: every binary level has tiles)
FlatRange(lo, hi, n) ==
  IF lo >= hi THEN <<>>
  ELSE LET L == CHOOSE L \in 0..3 : /\ lo % (2^L) = 0 /\ lo + 2^L <= hi
                                   /\ \A K \in 0..3 : (lo % (2^K) = 0 /\ lo + 2^K <= hi) => K <= L
       IN FlatAt(L, lo \div (2^L), n) \o FlatRange(lo + 2^L, hi, n)
\* the name of a proof hash the monitor computed: right iff it hashes the published leaves
Named(r, n, rid) ==
  LET lo == IF r[1] = -1 THEN r[2] ELSE r[2] * 2 ^ r[1]
      hi == IF r[1] = -1 THEN r[3] ELSE (r[2] + 1) * 2 ^ r[1] IN
  IF FlatRange(lo, hi, n) = [j \in 1..hi - lo |-> O!SeqAt(o, rid, lo + j - 1)] THEN r ELSE <<-2, 0, 0>>
NameAll(ph, n, rid) == [j \in 1..Len(ph) |-> Named(ph[j], n, rid)]

EverLeaves == UNION {{o.hix[k][j][1] : j \in 1..Len(o.hix[k])} : k \in DOMAIN o.hix}

QStart == /\ mon.op = "idle" /\ nq < MaxQ
          /\ nq' = nq + 1
          /\ \E op \in {"ents", "proof", "cons", "eap"}, a, b \in 0..o.sth.size + 1, h \in {Nil} \cup EverLeaves :
               /\ op # "proof" => h = Nil
               /\ op = "proof" => a = 0 /\ h # Nil
               /\ mon' = [op |-> op, a |-> a, b |-> b, h |-> h, n |-> o.sth.size, rid |-> o.sth.rid]
          /\ Silent /\ UNCHANGED <<clk, inst, req, nreq, nbad>>

QEv(st, xs, ph, m, idx) == [e |-> "q", op |-> mon.op, mon |-> 1, sz0 |-> mon.n, a |-> mon.a, b |-> mon.b, st |-> st, wf |-> IF st = 200 THEN 1 ELSE 0,
                            m |-> m, idx |-> idx, xs |-> xs, ph |-> ph, cid |-> 0, flt |-> 0] @@ Base

EntryOf(p, n) == LET v == Stored(-1, p, n)  j == (p % TW) + 1 IN IF j <= Len(v) THEN v[j] ELSE Nil
HasIssuers(x) == x # Nil /\ \A u \in 1..Len(EntOf(x).ch) : EntOf(x).ch[u] \in o.iss

QEnd ==
  /\ mon.op # "idle"
  /\ LET n == mon.n  a == mon.a  b == mon.b IN
     CASE mon.op = "ents" ->
            LET e == IF b >= n THEN n - 1 ELSE b
                xs == [j \in 1..e - a + 1 |-> EntryOf(a + j - 1, n)]
                ok == a <= b /\ a < n /\ \A j \in 1..Len(xs) : HasIssuers(xs[j]) /\ EntOf(xs[j]).m[1] = a + j - 1 IN
            Emit(<<QEv(IF ok THEN 200 ELSE 400, IF ok THEN xs ELSE <<>>, <<>>, Nil, -1)>>)
       [] mon.op = "eap" ->
            LET x == EntryOf(a, n)  ok == a < b /\ b <= n /\ HasIssuers(x) /\ EntOf(x).m[1] = a IN
            Emit(<<QEv(IF ok THEN 200 ELSE 400, IF ok THEN <<x>> ELSE <<>>, IF ok THEN NameAll(O!AuditPath(a, b, 0), n, mon.rid) ELSE <<>>, Nil, -1)>>)
       [] mon.op = "cons" ->
            LET ok == a <= b /\ b <= n IN
            Emit(<<QEv(IF ok THEN 200 ELSE 400, <<>>, IF ok THEN NameAll(O!ConsProof(a, b, 0), n, mon.rid) ELSE <<>>, Nil, -1)>>)
       [] mon.op = "proof" ->
            LET rows == SelectSeq(Rows(o.hix, HFile(mon.h)), LAMBDA r : r[1] = mon.h)
                i == IF rows = <<>> THEN -1 ELSE rows[1][2]
                v == IF i >= 0 /\ i < b /\ b <= n THEN Stored(0, i, n) ELSE <<>>
                ok == i >= 0 /\ i < b /\ b <= n /\ i % TW < Len(v) /\ v[(i % TW) + 1] = mon.h IN
            Emit(<<QEv(IF ok THEN 200 ELSE 404, <<>>, IF ok THEN NameAll(O!AuditPath(i, b, 0), n, mon.rid) ELSE <<>>, mon.h, i)>>)
  /\ mon' = [op |-> "idle"]
  /\ UNCHANGED <<clk, inst, req, nreq, nbad, nq>>

----------------------------------------------------------------------------
Next ==
  \/ Tick
  \/ \E i \in Insts : \/ Acquire(i) \/ Load(i) \/ Crash(i) \/ Expire(i) \/ Unlock(i) \/ Exit(i)
                      \/ Sequence(i) \/ Flush(i) \/ Begin(i) \/ Return(i)
                      \/ \E s \in SubIds : Submit(i, s)
                      \/ \E k \in {"sth", "ckpt"} : WriteHead(i, k) \/ \E ap \in BOOLEAN : FailHead(i, k, ap)
                      \/ \E p \in inst[i].rnd.todo : Land(i, p) \/ Late(i, p) \/ \E ap \in BOOLEAN : FailWrite(i, p, ap)
  \/ \E q \in DOMAIN req : Lookup(q) \/ Timeout(q) \/ Answer(q)
  \/ QStart \/ QEnd

Spec == Init /\ [][Next]_vars

Good == bad = {}

\* the write sets of the code are disjoint: no two parallel writes of a round have the same key
KeyOf(p) == IF p.k \in {"data", "tree"} THEN <<p.k, O!TileKey(p)>> ELSE IF p.k = "iss" THEN <<"iss", p.fp>> ELSE <<p.k, p.kid>>
Disjoint == \A i \in Insts : \A p, r \in inst[i].rnd.todo : KeyOf(p) = KeyOf(r) => p = r
=============================================================================
