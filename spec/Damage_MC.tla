----------------------------- MODULE Damage_MC -----------------------------
(* Every alteration of one cell, and of two cells, of a small database: the   *)
(* database either refuses to open or shows what was committed, and a proof   *)
(* it still gives holds.  For one cell the outcome is the one Outcome gives.  *)
EXTENDS Damage
CONSTANTS Pairs,            \* "none" | "record" (two cells of one record) | "row" | "all"
          Which             \* which of the databases
VARIABLES log, rows, alt, phase
vars == <<log, rows, alt, phase>>

R(k, v, sn, d) == [key |-> k, val |-> v, sn |-> sn, d |-> d]
Dbs == <<
  \* values with and without markers, deactivations, every padding
  <<R(1, <<3>>, 0, <<>>), R(2, <<>>, 1, <<>>), R(1, <<M, 4>>, 2, <<0>>), R(2, <<5>>, 3, <<1>>), R(3, <<M>>, 4, <<2>>)>>,
  <<R(1, <<>>, 0, <<>>), R(1, <<1, M>>, 1, <<0>>), R(2, <<4>>, 2, <<1>>), R(1, <<2, 3>>, 3, <<>>),
    R(3, <<>>, 4, <<>>), R(3, <<M, M>>, 5, <<4>>), R(2, <<>>, 6, <<2>>)>>,
  <<R(4, <<6>>, 0, <<>>), R(5, <<0, 0>>, 1, <<>>), R(5, <<7>>, 2, <<1>>), R(4, <<>>, 3, <<0>>),
    R(6, <<M, 1>>, 4, <<2, 3>>)>>
>>
Recs == Dbs[Which]
Nr == Len(Recs)
Log0 == Flat([i \in 1..Nr |-> OnDisk(Recs[i])])
Start(i) == 1 + Len(Flat([j \in 1..(i - 1) |-> OnDisk(Recs[j])]))
Top == Twig(Recs[Nr].sn)
DeadAll == UNION {{Recs[i].d[j] : j \in 1..Len(Recs[i].d)} : i \in 1..Nr}
Lv == [sn \in 0..(2 * Top + 1) |-> IF sn < Nr THEN LeafOf(Recs[sn + 1]) ELSE NoLeaf]
Bt == [sn \in 0..(2 * Top + 1) |-> sn < Nr /\ sn \notin DeadAll]
Rows0 == [t \in 1..Top |-> Row(Start(2 * t - 1), <<Lv[2 * t - 2], Lv[2 * t - 1]>>)]
\* twigs without an active record at the old end are evicted
Old == CHOOSE t \in 0..Top : (Bt[2 * t] \/ Bt[2 * t + 1] \/ t = Top - 1) /\ \A u \in 0..(t - 1) : ~Bt[2 * u] /\ ~Bt[2 * u + 1]
Meta == [old |-> Old, size |-> Len(Log0), top |-> Top, root |-> TreeRoot(Old, Rows0, Lv, Bt, Top)]
Truth == Open(Meta, Log0, Rows0)

\* the part of the record which cell p belongs to
RecAt(p) == CHOOSE i \in 1..Nr : Start(i) <= p /\ p < Start(i) + Len(OnDisk(Recs[i]))
PartAt(p) ==
  LET i == RecAt(p)
      o == p - Start(i)                              \* 0: the marker
      b == Body(Recs[i])
      nm == Len(Marks(b, 1))
      bo == 3 + nm + 1
      e == Len(Encode(Recs[i]))
  IN CASE o = 0 -> "magic" [] o = 1 -> "n" [] o = 2 -> "len" [] o < bo -> "plist"
       [] o < bo + Len(b) -> IF b[o - bo + 1] = M THEN "span" ELSE "body"
       [] o = bo + Len(b) -> "tail" [] o <= e -> "dead" [] OTHER -> "pad"
Values == 0..12
RowVals(t, j) == IF j = 1 THEN {<<"pos", q>> : q \in 1..(Len(Log0) + 1)}
                 ELSE {<<"x">>} \union {Rows0[u][v] : u \in 1..Top, v \in 2..5} \union {Chk(q) : q \in {Start(i) : i \in 1..Nr}}

LogAlts == {[w |-> "log", p |-> p, q |-> 0, v |-> <<"c", v>>] : p \in 1..Len(Log0), v \in Values}
RowAlts == UNION {{[w |-> "row", p |-> t, q |-> j, v |-> v] : v \in RowVals(t, j)} : t \in 1..Top, j \in 1..5}
LenAlts == {[w |-> "cut", p |-> n, q |-> 0, v |-> <<"c", 0>>] : n \in 1..Len(Log0)} \union
           {[w |-> "longer", p |-> n, q |-> 0, v |-> <<"c", v>>] : n \in 1..4, v \in {0, M}}
Singles == LogAlts \union RowAlts \union LenAlts
Near(a, b) == CASE Pairs = "record" -> a.w = "log" /\ b.w = "log" /\ RecAt(a.p) = RecAt(b.p) /\ a.p < b.p
                [] Pairs = "row" -> a.w = "row" /\ b.w \in {"row", "log"} /\ a.p = Old + 1 /\ (b.w = "row" => (b.p = a.p /\ a.q < b.q))
                [] Pairs = "next" -> a.w = "log" /\ b.w = "log" /\ RecAt(b.p) = RecAt(a.p) + 1
                                      /\ PartAt(a.p) \in {"magic", "n", "len", "tail", "dead"} /\ PartAt(b.p) \in {"magic", "n", "len", "tail", "dead"}
                [] OTHER -> FALSE
ApplyLog(f, a) == CASE a.w = "log" -> [f EXCEPT ![a.p] = a.v[2]]
                    [] a.w = "cut" -> SubSeq(f, 1, Len(f) - a.p)
                    [] a.w = "longer" -> f \o [i \in 1..a.p |-> a.v[2]]
                    [] OTHER -> f
ApplyRow(x, a) == IF a.w = "row" THEN [x EXCEPT ![a.p] = [@ EXCEPT ![a.q] = a.v]] ELSE x

Init == log = Log0 /\ rows = Rows0 /\ alt = <<>> /\ phase = "committed"
Alter == /\ \/ Len(alt) = 0
            \/ Len(alt) = 1 /\ Pairs # "none"
         /\ \E a \in Singles : /\ (Len(alt) = 1 => Near(alt[1], a))
                               /\ log' = ApplyLog(log, a) /\ rows' = ApplyRow(rows, a)
                               /\ <<log', rows'>> # <<log, rows>>
                               /\ alt' = Append(alt, a)
         /\ phase' = "altered"
Next == Alter
Spec == Init /\ [][Next]_vars

Same(o) == ~o.fail /\ o.db = Truth.db /\ o.leaves = Truth.leaves /\ o.bits = Truth.bits
\* refused, or what was committed - with proofs that hold or are refused
RefusedOrSame ==
  LET o == Open(Meta, log, rows) IN
  \/ o.fail
  \/ /\ Same(o)
     /\ \A k \in DOMAIN o.db : LET p == Proof(Meta, o, k) IN p.fail \/ ProofHolds(Meta, p, o.db[k].sn)
\* the outcome by the part touched
CaseOf(a) == CASE a.w = "log" -> [kind |-> "rec", part |-> PartAt(a.p), twig |-> Twig(Recs[RecAt(a.p)].sn)]
               [] a.w = "row" -> IF a.q <= 2 THEN [kind |-> "pos", twig |-> a.p - 1] ELSE [kind |-> "node", node |-> a.q - 2, twig |-> a.p - 1]
               [] a.w = "cut" -> [kind |-> "cut", bytes |-> a.p, pad |-> Len(OnDisk(Recs[Nr])) - 1 - Len(Encode(Recs[Nr]))]
               [] OTHER -> [kind |-> "longer"]
OutcomeExact ==
  (Len(alt) = 1) =>
    LET o == Open(Meta, log, rows)
        x == Outcome(CaseOf(alt[1]), [old |-> Old, lp |-> -1])
    IN (x = "refused") <=> o.fail
\* the same alteration under an open database: a proof it gives is of the committed record and holds
Live == [Truth EXCEPT !.f = log, !.rows = rows]
TrueRaw(k) == LET r == Recs[Truth.db[k].sn + 1] IN Encode(r)
LiveProofs ==
  \A k \in DOMAIN Truth.db : LET p == Proof(Meta, Live, k)
                             IN p.fail \/ (ProofHolds(Meta, p, Truth.db[k].sn) /\ p.raw = TrueRaw(k))
LivePart(a, k) ==
  LET sn == Truth.db[k].sn IN
  CASE a.w = "log" /\ RecAt(a.p) = sn + 1 -> [kind |-> "liverec", part |-> PartAt(a.p)]
    [] a.w = "row" /\ a.p = Twig(sn) + 1 /\ a.q = 4 + (sn % 2) -> [kind |-> "livenode", part |-> "leaf"]
    [] a.w = "row" /\ a.p = Twig(sn) + 1 /\ a.q = 5 - (sn % 2) -> [kind |-> "livenode", part |-> "peer"]
    [] OTHER -> [kind |-> "livenode", part |-> "other"]
LiveExact ==
  (Len(alt) = 1 /\ alt[1].w \in {"log", "row"}) =>
    \A k \in DOMAIN Truth.db : (LiveOutcome(LivePart(alt[1], k)) = "refused") <=> Proof(Meta, Live, k).fail
TruthOpens == ~Truth.fail /\ DOMAIN Truth.db = {Recs[sn + 1].key : sn \in {s \in DOMAIN Bt : Bt[s]}}
=============================================================================
