---------------------------- MODULE StoresReplay ----------------------------
(* What every layer of the stores must answer along a plan.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
Plan == JsonDeserialize(IOEnv.PLAN)
OutFile == IOEnv.OUT
N == Plan.n
Steps == Plan.steps
VARIABLES s, past, i
vars == <<s, past, i>>
X == INSTANCE Stores WITH Keys <- 1..N, Txs <- 1..Plan.txs, Cacheable <- LAMBDA k : FALSE
None == [k \in 1..N |-> X!Nothing]
AsOf(h) == LET S == {j \in 1..Len(past) : past[j][1] <= h}
           IN IF S = {} THEN None ELSE past[CHOOSE j \in S : \A q \in S : q <= j][2]
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Out(y, r) == CSVWrite("%1$s", <<ToJson([i |-> i, root |-> X!RootMap(y), trunk |-> IF y.tk.open THEN X!TrunkMap(y) ELSE <<>>, side |-> IF y.sd.open THEN X!SideMap(y) ELSE <<>>, r |-> r])>>, OutFile)
\* the answers of all open transactions for all keys
Answers(y) == [t \in 1..Plan.txs |-> IF y.tx[t].st = "open" THEN [k \in 1..N |-> SetSeq(X!TxMayGet(y, t, k))] ELSE <<>>]
Go(y) == s' = y /\ Out(y, Answers(y))
Block(h, y) == past' = Append(past, <<h, X!RootMap(y)>>)
Keep == 1..N
Init == s = X!Empty /\ past = <<>> /\ i = 1
Next ==
  /\ i <= Len(Steps) /\ i' = i + 1
  /\ LET e == Steps[i] IN
     CASE e.op = "begin" -> Go(X!Begin(s, e.t, e.on, e.ro)) /\ UNCHANGED past
       [] e.op = "set"   -> Assert(s.tx[e.t].st = "open", "bad plan") /\ Go(X!TxSet(s, e.t, e.k, e.v)) /\ UNCHANGED past
       [] e.op = "del"   -> Assert(Cardinality(X!TxMayGet(s, e.t, e.k)) = 1, "ambiguous delete in the plan")
                            /\ Go(X!TxDel(s, e.t, e.k)) /\ UNCHANGED past
       [] e.op = "get"   -> s' = X!TxRead(s, e.t, e.k) /\ Out(s, <<SetSeq(X!TxMayGet(s, e.t, e.k))>>) /\ UNCHANGED past
       [] e.op = "close" -> Go(X!Close(s, e.t)) /\ UNCHANGED past
       [] e.op = "drop"  -> Go(X!Drop(s, e.t)) /\ UNCHANGED past
       [] e.op = "back"  -> LET y == X!WriteBack(s, e.t, Keep) IN
                            /\ Assert(s.tx[e.t].st = "closed" /\ ~s.tx[e.t].ro, "bad plan") /\ Go(y)
                            /\ IF s.tx[e.t].on = "root" THEN Block(e.h, y) ELSE UNCHANGED past
       [] e.op = "illegal" -> Go(s) /\ UNCHANGED past       \* writing back a read-only store: no effect
       [] e.op = "topen" -> Go(X!OpenTrunk(s, e.ro)) /\ UNCHANGED past
       [] e.op = "sopen" -> Go(X!OpenSide(s, e.ro)) /\ UNCHANGED past
       [] e.op = "sdrop" -> Assert(\A t \in 1..Plan.txs : s.tx[t].on = "side" => s.tx[t].st # "open", "bad plan")
                            /\ Go(X!SideDrop(s)) /\ UNCHANGED past
       [] e.op = "tback" -> LET y == X!TrunkBack(s, Keep) IN Assert(~s.tk.ro /\ X!NoReader(s), "bad plan") /\ Go(y) /\ Block(e.h, y)
       [] e.op = "tdrop" -> Go(X!TrunkDrop(s)) /\ UNCHANGED past
       [] e.op = "raw"   -> LET y == X!Update(s, e.on, e.ops, Keep) IN Go(y) /\ IF e.on = "root" THEN Block(e.h, y) ELSE UNCHANGED past
       [] e.op = "reopen" -> Go(X!Restart(s)) /\ UNCHANGED past
       [] e.op = "past"  -> s' = s /\ Out(s, AsOf(e.h)) /\ UNCHANGED past
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter - 1 = Len(Steps)
=============================================================================
