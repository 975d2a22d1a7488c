---------------------------- MODULE RabbitReplay ----------------------------
(* The answers of rabbit stores along a plan: transactions on a trunk or on   *)
(* the root, written back or dropped; trunks written back or dropped; blocks  *)
(* of the past.  The slot store and the map run side by side.                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV, SequencesExt
Plan == JsonDeserialize(IOEnv.PLAN)
OutFile == IOEnv.OUT
N == Plan.n                              \* keys 1..N
Steps == Plan.steps
VARIABLES st,       \* st.base: what a new transaction sees
          root,     \* the holes of the root store
          m, rm,    \* ghost maps of st and of root
          past,     \* sequence of <<height, map>> of the committed blocks
          i
vars == <<st, root, m, rm, past, i>>
R == INSTANCE Rabbit WITH Slots <- 1..Plan.slots, Keys <- 1..N, Path <- LAMBDA k : Plan.path[k]
Emit(r) == CSVWrite("%1$s", <<ToJson([i |-> i, r |-> r])>>, OutFile)
ApplyM(mm, o) == CASE o[1] = 1 -> [mm EXCEPT ![o[2]] = o[3]] [] o[1] = 2 -> [mm EXCEPT ![o[2]] = R!Nothing] [] OTHER -> mm
ApplyS(x, o) == CASE o[1] = 1 -> R!Set(x, o[2], o[3]) [] o[1] = 2 -> R!Del(x, o[2]) [] OTHER -> x
\* ops: <<1, k, v>> set, <<2, k, 0>> delete, <<3, k, 0>> read
RunTx(x, ops) == FoldLeft(LAMBDA a, o : [s |-> ApplyS(a.s, o), m |-> ApplyM(a.m, o),
                                        g |-> IF o[1] = 3 THEN Append(a.g, R!Get(a.s, o[2])) ELSE a.g,
                                        ok |-> a.ok /\ (o[1] = 3 => R!Get(a.s, o[2]) = a.m[o[2]])],
                          [s |-> x, m |-> m, g |-> <<>>, ok |-> TRUE], ops)
AsOf(h) == LET S == {j \in 1..Len(past) : past[j][1] <= h}
           IN IF S = {} THEN [k \in 1..N |-> R!Nothing] ELSE past[CHOOSE j \in S : \A q \in S : q <= j][2]
Empties(mm) == \A k \in 1..N : mm[k] = R!Nothing
Init == st = R!Empty /\ root = R!NoHoles /\ m = [k \in 1..N |-> R!Nothing] /\ rm = m /\ past = <<>> /\ i = 1
Next ==
  /\ i <= Len(Steps) /\ i' = i + 1
  /\ LET s == Steps[i] IN
     CASE s.op = "tx" ->
            LET a == RunTx(st, s.ops)
                keep == s.end = "wb"
                new == IF keep THEN R!WriteBack(a.s) ELSE R!Discard(a.s)
                nm == IF keep THEN a.m ELSE m
            IN /\ Assert(a.ok /\ R!MapOK(a.s, a.m) /\ R!PassOK(new, nm) /\ R!NoLeftOver(new, nm), "the slot store is not the map")
               /\ st' = new /\ m' = nm
               /\ Emit([gets |-> a.g, tx |-> a.m, after |-> nm])
               /\ IF s.on = "root" /\ keep
                  THEN root' = new.base /\ rm' = nm /\ past' = Append(past, <<s.h, nm>>)
                  ELSE UNCHANGED <<root, rm, past>>
       [] s.op = "trunk" ->
            LET keep == s.end = "wb" IN
            /\ st' = IF keep THEN st ELSE [base |-> root, cache |-> R!NoHoles]
            /\ root' = st'.base
            /\ m' = IF keep THEN m ELSE rm
            /\ rm' = m'
            /\ past' = IF keep THEN Append(past, <<s.h, m>>) ELSE past
            /\ Emit([after |-> m', none |-> Empties(m')])
       [] s.op = "reopen" -> UNCHANGED <<st, root, m, rm, past>> /\ Emit([after |-> m])
       [] s.op = "past" -> UNCHANGED <<st, root, m, rm, past>> /\ Emit([after |-> AsOf(s.h)])
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter - 1 = Len(Steps)
=============================================================================
