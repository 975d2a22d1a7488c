------------------------------- MODULE Index -------------------------------
(* The index: an ordered map from keys to positions, with a persistent       *)
(* record per (key, height) from which the map and every past map can be     *)
(* computed.  Keys are 1..K in byte order; the axis of range bounds is the   *)
(* integers, key k lying at 2k (so odd numbers are bounds between keys).     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANT K
Ks == 1..K
Nothing == -1

\* ix: [m: key -> position or Nothing, recs: key -> sequence of <<height, position>> ascending]
Empty == [m |-> [k \in Ks |-> Nothing], recs |-> [k \in Ks |-> <<>>]]

PutRec(rs, h, p) ==
  IF rs # <<>> /\ rs[Len(rs)][1] = h THEN [rs EXCEPT ![Len(rs)] = <<h, p>>] ELSE Append(rs, <<h, p>>)

\* one operation of a block at height h: p >= 0 sets, Nothing deletes a present key
Apply(ix, h, k, p) == [m |-> [ix.m EXCEPT ![k] = p], recs |-> [ix.recs EXCEPT ![k] = PutRec(@, h, p)]]

ApplyAll(ix, h, ops) == FoldLeft(LAMBDA x, o : Apply(x, h, o[1], o[2]), ix, ops)

Present(ix) == {k \in Ks : ix.m[k] # Nothing}
Count(ix) == Cardinality(Present(ix))

\* exactly the present keys of [a, b), ascending / descending
KeysIn(ix, a, b) == {k \in Present(ix) : a <= 2 * k /\ 2 * k < b}
Fwd(ix, a, b) == SetToSortSeq(KeysIn(ix, a, b), <)
Bwd(ix, a, b) == SetToSortSeq(KeysIn(ix, a, b), >)

\* the position of k at height h
AsOf(ix, k, h) ==
  LET idx == {i \in 1..Len(ix.recs[k]) : ix.recs[k][i][1] <= h}
  IN IF idx = {} THEN Nothing ELSE ix.recs[k][Max(idx)][2]

\* rebuilding: walk all records from the last to the first; the first record met of a key counts
AllRecs(ix) == FoldLeft(LAMBDA acc, k : acc \o [i \in 1..Len(ix.recs[k]) |-> <<k>> \o ix.recs[k][i]],
                        <<>>, [k \in 1..K |-> k])
RebuildMap(ix) ==
  LET rs == AllRecs(ix)
      n == Len(rs)
      step(acc, i) == LET r == rs[n + 1 - i]
                      IN IF r[1] = acc.last THEN acc ELSE [last |-> r[1], m |-> [acc.m EXCEPT ![r[1]] = r[3]]]
  IN FoldLeft(step, [last |-> 0, m |-> [k \in Ks |-> Nothing]], [i \in 1..n |-> i]).m
Rebuild(ix) == [ix EXCEPT !.m = RebuildMap(ix)]

\* iteration as the walk of a cursor: seek, then step to the neighbour
Succ(ix, x) == LET s == {k \in Present(ix) : 2 * k >= x} IN IF s = {} THEN 0 ELSE Min(s)
Pred(ix, x) == LET s == {k \in Present(ix) : 2 * k < x} IN IF s = {} THEN 0 ELSE Max(s)
RECURSIVE WalkF(_, _, _), WalkB(_, _, _)
WalkF(ix, a, b) == LET k == Succ(ix, a)
                   IN IF a >= b \/ k = 0 \/ 2 * k >= b THEN <<>> ELSE <<k>> \o WalkF(ix, 2 * k + 1, b)
WalkB(ix, a, b) == LET k == Pred(ix, b)
                   IN IF a >= b \/ k = 0 \/ 2 * k < a THEN <<>> ELSE <<k>> \o WalkB(ix, a, 2 * k)

----------------------------------------------------------------------------
RangeOK(ix) == \A a \in 0..(2 * K + 2), b \in 0..(2 * K + 2) :
                 WalkF(ix, a, b) = Fwd(ix, a, b) /\ WalkB(ix, a, b) = Bwd(ix, a, b)
RebuildOK(ix) == RebuildMap(ix) = ix.m
RecsOK(ix) == \A k \in Ks : \A i \in 2..Len(ix.recs[k]) : ix.recs[k][i][1] > ix.recs[k][i - 1][1]
=============================================================================
