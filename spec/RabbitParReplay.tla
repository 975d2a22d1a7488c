--------------------------- MODULE RabbitParReplay ---------------------------
(* Rounds of transactions that run side by side on a trunk.  Those which met  *)
(* no slot changed by an accepted one are written back in order; the others  *)
(* are dropped.  The outcome must be that of running the accepted ones one    *)
(* after another.                                                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV, SequencesExt, FiniteSetsExt, FiniteSets
Plan == JsonDeserialize(IOEnv.PLAN)
OutFile == IOEnv.OUT
N == Plan.n
Steps == Plan.steps
VARIABLES base, root, m, rm, i
vars == <<base, root, m, rm, i>>
R == INSTANCE Rabbit WITH Slots <- 1..Plan.slots, Keys <- 1..N, Path <- LAMBDA k : Plan.path[k]
Emit(r) == CSVWrite("%1$s", <<ToJson([i |-> i, r |-> r])>>, OutFile)
Op(o) == <<CASE o[1] = 1 -> "set" [] o[1] = 2 -> "del" [] OTHER -> "get", o[2], o[3]>>
ApplyM(mm, o) == CASE o[1] = 1 -> [mm EXCEPT ![o[2]] = o[3]] [] o[1] = 2 -> [mm EXCEPT ![o[2]] = R!Nothing] [] OTHER -> mm
On(b) == [base |-> b, cache |-> R!NoHoles]
Init == base = R!NoHoles /\ root = base /\ m = [k \in 1..N |-> R!Nothing] /\ rm = m /\ i = 1
Round(txs) ==
  LET T == [j \in 1..Len(txs) |-> [q \in 1..Len(txs[j]) |-> Op(txs[j][q])]]
      A == [j \in 1..Len(txs) |-> R!RunAll(On(base), T[j])]
      \* accept in order
      F == FoldLeft(LAMBDA x, j : IF x.ch \cap A[j].foot # {} THEN [x EXCEPT !.acc = Append(@, FALSE)]
                                 ELSE [ch |-> x.ch \cup R!Changed(A[j].s), acc |-> Append(x.acc, TRUE),
                                       b |-> R!Overlay(x.b, A[j].s),
                                       m |-> FoldLeft(ApplyM, x.m, txs[j]),
                                       ok |-> x.ok /\ LET l == R!RunAll(On(x.b), T[j])
                                                      IN l.g = A[j].g /\ R!Overlay(x.b, l.s) = R!Overlay(x.b, A[j].s)],
                    [ch |-> {}, acc |-> <<>>, b |-> base, m |-> m, ok |-> TRUE], [j \in 1..Len(txs) |-> j])
  IN /\ Assert(F.ok /\ R!MapOK(On(F.b), F.m) /\ R!PassOK(On(F.b), F.m), "side by side is not one after another")
     /\ base' = F.b /\ m' = F.m /\ UNCHANGED <<root, rm>>
     /\ Emit([txs |-> [j \in 1..Len(txs) |-> [gets |-> A[j].g, seen |-> SetToSeq(A[j].seen), foot |-> SetToSeq(A[j].foot),
                                              dirty |-> SetToSeq(R!Changed(A[j].s)), n |-> A[j].n, acc |-> F.acc[j]]],
              after |-> F.m])
Next ==
  /\ i <= Len(Steps) /\ i' = i + 1
  /\ LET s == Steps[i] IN
     CASE s.op = "round" -> Round(s.txs)
       [] s.op = "trunk" ->
            LET keep == s.end = "wb" IN
            /\ base' = IF keep THEN base ELSE root
            /\ root' = base'
            /\ m' = IF keep THEN m ELSE rm
            /\ rm' = m'
            /\ Emit([after |-> m'])
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter - 1 = Len(Steps)
=============================================================================
