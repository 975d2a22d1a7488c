------------------------------ MODULE Rabbit_MC ------------------------------
(* All histories of a few keys over every way their first slots can collide. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS K, C, D, Vals, Emit     \* keys, colliding slots, colliding path length
VARIABLES shape, st, m, cm        \* path prefixes; store; ghost: map of the transaction, of the parent
vars == <<shape, st, m, cm>>
OutFile == IOEnv.OUT
Ks == 1..K
\* after the prefix every key has slots of its own
PathOf(sh, k) == sh[k] \o [i \in 1..2 |-> C + 2 * (k - 1) + i]
R == INSTANCE Rabbit WITH Slots <- 1..(C + 2 * K), Keys <- Ks, Path <- LAMBDA k : PathOf(shape, k)
\* one representative up to renaming keys and slots: lexicographically least prefixes are not needed,
\* it is enough that slots appear in first-use order
Flat(sh) == [j \in 1..(K * D) |-> sh[((j - 1) \div D) + 1][((j - 1) % D) + 1]]
Canonical(sh) == LET f == Flat(sh) IN
  \A j \in 1..(K * D) : f[j] <= 1 + (IF j = 1 THEN 0 ELSE LET S == {f[i] : i \in 1..(j - 1)} IN CHOOSE x \in S : \A y \in S : y <= x)
RECURSIVE Num(_, _)
Num(sh, i) == IF i = 0 THEN 0 ELSE Num(sh, i - 1) * (C + 1) + sh[((i - 1) \div D) + 1][((i - 1) % D) + 1]
KeySorted(sh) == \A k \in 1..(K - 1) : LET a == [j \in 1..D |-> sh[k][j]]
                                          b == [j \in 1..D |-> sh[k + 1][j]]
                                          RECURSIVE V(_, _)
                                          V(x, n) == IF n = 0 THEN 0 ELSE V(x, n - 1) * (C + 1) + x[n]
                                      IN V(a, D) <= V(b, D)
Shapes == {sh \in [Ks -> [1..D -> 1..C]] : Canonical(sh) /\ KeySorted(sh)}
None == [k \in Ks |-> R!Nothing]
Init == shape \in Shapes /\ st = R!Empty /\ m = None /\ cm = None
\* the holes a transaction sees, values apart
Seen(x) == [s \in 1..(C + 2 * K) |-> LET h == R!At(x, s) IN <<h.k, IF h.e THEN 1 ELSE 0, h.p>>]
View == <<shape, Seen(st), m>>
Edge(o) == ~Emit \/ CSVWrite("%1$s", <<ToJson(<<shape, <<Seen(st), m>>, o, <<Seen(st'), m'>>>>)>>, OutFile)
DoSet(k, v) == st' = R!Set(st, k, v) /\ m' = [m EXCEPT ![k] = v] /\ UNCHANGED <<shape, cm>> /\ Edge(<<"set", k>>)
DoDel(k) == st' = R!Del(st, k) /\ m' = [m EXCEPT ![k] = R!Nothing] /\ UNCHANGED <<shape, cm>> /\ Edge(<<"del", k>>)
DoBack == ~Emit /\ st' = R!WriteBack(st) /\ cm' = m /\ UNCHANGED <<shape, m>>
DoDrop == ~Emit /\ st' = R!Discard(st) /\ m' = cm /\ UNCHANGED <<shape, cm>>
Next == \/ \E k \in Ks : DoDel(k) \/ \E v \in Vals : DoSet(k, v)
        \/ DoBack \/ DoDrop
Spec == Init /\ [][Next]_vars
MapOK == R!MapOK(st, m)
PassOK == R!PassOK(st, m)
NoLeftOver == R!NoLeftOver(st, m)
BackOK == R!MapOK(R!WriteBack(st), m) /\ R!MapOK(R!Discard(st), cm)
=============================================================================
