---------------------------- MODULE RabbitPar_MC ----------------------------
(* Every pair of short transactions that run side by side on every state of  *)
(* the rabbit store, over every way the first slots of the keys can collide. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K, C, D, L1, L2     \* keys, colliding slots, colliding path length, lengths of the transactions
VARIABLES shape, base, m
vars == <<shape, base, m>>
Ks == 1..K
PathOf(sh, k) == sh[k] \o [i \in 1..2 |-> C + 2 * (k - 1) + i]
R == INSTANCE Rabbit WITH Slots <- 1..(C + 2 * K), Keys <- Ks, Path <- LAMBDA k : PathOf(shape, k)
Flat(sh) == [j \in 1..(K * D) |-> sh[((j - 1) \div D) + 1][((j - 1) % D) + 1]]
Canonical(sh) == LET f == Flat(sh) IN
  \A j \in 1..(K * D) : f[j] <= 1 + (IF j = 1 THEN 0 ELSE LET S == {f[i] : i \in 1..(j - 1)} IN CHOOSE x \in S : \A y \in S : y <= x)
Shapes == {sh \in [Ks -> [1..D -> 1..C]] : Canonical(sh)}
Init == shape \in Shapes /\ base = R!NoHoles /\ m = [k \in Ks |-> R!Nothing]
On(b) == [base |-> b, cache |-> R!NoHoles]
Do(o, v) == /\ base' = R!WriteBack(R!Apply(On(base), o)).base
            /\ m' = [m EXCEPT ![o[2]] = v]
            /\ UNCHANGED shape
Next == \E k \in Ks : Do(<<"set", k, 1>>, 1) \/ Do(<<"del", k, 0>>, R!Nothing)
Spec == Init /\ [][Next]_vars
Ops(v) == {<<"get", k, 0>> : k \in Ks} \cup {<<"set", k, v>> : k \in Ks} \cup {<<"del", k, 0>> : k \in Ks}
UpTo(v, n) == UNION {[1..j -> Ops(v)] : j \in 1..n}
Pairs(P(_, _, _, _), n1, n2) ==
  LET T2 == UpTo(3, n2)
      A2 == [t \in T2 |-> R!RunAll(On(base), t)]
  IN \A t1 \in UpTo(2, n1) : LET a1 == R!RunAll(On(base), t1) IN \A t2 \in T2 : P(base, a1, t2, A2[t2])
SideBySideOK == Pairs(R!SideBySide, L1, L2) /\ Pairs(R!SideBySide, L2, L1)
HeldIsEnough == Pairs(R!SideBySideHeld, L1, L2)
=============================================================================
