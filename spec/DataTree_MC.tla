---------------------------- MODULE DataTree_MC ----------------------------
(* Every history of blocks, evictions, prunings and recoveries of up to N      *)
(* twigs; two halves of a twig at a time.                                     *)
EXTENDS DataTree, Json, CSV, IOUtils
CONSTANTS N, Emit,
          KillAny      \* whether old twigs can be touched without being evicted
VARIABLES x, c, pr, edge, kept
vars == <<x, c, pr, edge, kept>>
OutFile == IOEnv.OUT
Full(k) == [t \in 0..N |-> IF t < k THEN 2 ELSE 0]
Empty == [y |-> 0, ev |-> 0, tr |-> [t \in 0..0 |-> NullTwig], nodes |-> [p \in {} |-> 0], bad |-> FALSE]
Init == /\ c = Full(1) /\ pr = 0 /\ edge = [p \in {} |-> 0] /\ kept = 0
        /\ x = Block(Empty, Full(1), 1, {0, 1}, 0)
View == <<x.y, c[x.y], x.ev, pr, Cardinality(DOMAIN edge)>>
Edge(o) == ~Emit \/ CSVWrite("%1$s", <<ToJson(<<View, o, <<x'.y, c'[x'.y], x'.ev, pr', Cardinality(DOMAIN edge')>>>>)>>, OutFile)
\* what the block appends: up to the middle, or the end, of the youngest twig, or past it
Grown(g) == LET y == x.y IN
  CASE g = "mid" -> [c EXCEPT ![y] = 1]
    [] g = "full" -> [c EXCEPT ![y] = 2]
    [] g = "past" -> [c EXCEPT ![y] = 2, ![y + 1] = 1]
DoBlock(g, K, k) ==       \* K: old twigs losing a record, k: twigs evicted
  /\ g = "mid" => c[x.y] = 0 \/ K # {} \/ k # 0
  /\ g # "mid" => x.y < N
  /\ \A t \in K : x.ev + k <= t /\ t < x.y /\ c[t] = 2
  /\ x.ev + k < x.y                         \* a full twig stays
  /\ LET c1 == Grown(g)
         c2 == [t \in 0..N |-> IF t \in K THEN 3 ELSE IF t >= x.ev /\ t < x.ev + k THEN 4 ELSE c1[t]]
         y2 == IF g = "mid" THEN x.y ELSE x.y + 1
     IN /\ c' = c2
        /\ x' = Block(x, c2, y2, K \union (x.ev..(x.ev + k - 1)) \union {x.y, y2}, k)
        /\ UNCHANGED <<pr, edge, kept>>
        /\ Edge(<<"block", g, k, IF K = {} THEN -1 ELSE CHOOSE t \in K : TRUE>>)
DoPrune(e) ==
  /\ e >= pr + 2 /\ e < x.ev
  /\ x' = Prune(x, pr, e)
  /\ edge' = Edges(x', e)
  /\ pr' = e /\ kept' = Even(e - 1)
  /\ UNCHANGED c
  /\ Edge(<<"prune", e, 0, 0>>)
DoRecover == x' = Recover(c, x.y, x.ev, pr, edge, kept) /\ UNCHANGED <<c, pr, edge, kept>>
             /\ Edge(<<"recover", 0, 0, 0>>)
Next == \/ \E g \in {"mid", "full", "past"}, k \in 0..2, K \in {{}} \union (IF KillAny THEN {{t} : t \in 0..N} ELSE {}) : DoBlock(g, K, k)
        \/ \E e \in 2..N : DoPrune(e)
        \/ DoRecover
Spec == Init /\ [][Next]_vars
Recd == Recover(c, x.y, x.ev, pr, edge, kept)
NoMissing == ~x.bad /\ ~Recd.bad
RootOK == Root(x) = RefRoot(c, x.y) /\ Root(Recd) = Root(x)
ProofsOK == \A t \in x.ev..x.y : ProofOK(x, t) /\ ProofOK(Recd, t)
OldProofsOK == \A t \in pr..x.y : ProofOK(x, t) /\ ProofOK(Recd, t)
=============================================================================
