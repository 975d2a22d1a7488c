--------------------------- MODULE DataTreeReplay ---------------------------
(* What one data tree must contain along a plan: which records each operation *)
(* appends (with the deactivations they carry), which records are active      *)
(* after every block, what is evicted and pruned; recovery and reloading      *)
(* change nothing, recovery to an earlier boundary takes back a block.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, SequencesExt, FiniteSetsExt
Plan == JsonDeserialize(IOEnv.PLAN)
OutFile == IOEnv.OUT
Steps == Plan.steps
W == 2048                                   \* records of a twig
Min2(a, b) == IF a < b THEN a ELSE b
VARIABLES n,        \* next serial number
          alive,    \* twig -> active serial numbers
          pend,     \* deactivations no record carries yet
          ev, pr, i,
          prev      \* the boundary before the last block
vars == <<n, alive, pend, ev, pr, i, prev>>
Twigs == 0..Plan.maxtwig
Y(m) == m \div W
\* appending m fresh records
AddTo(al, a, m) == [t \in Twigs |-> IF t < Y(a) \/ t > Y(a + m - 1) THEN al[t]
                      ELSE al[t] \union {s \in a..(a + m - 1) : s \div W = t}]
Recs(m, src(_), dead(_), dummy) == [j \in 1..m |-> <<n + j - 1, src(j), dummy, dead(j)>>]
Sort(S) == SetToSortSeq(S, <)
App(o) == [recs |-> Recs(o.n, LAMBDA j : -1, LAMBDA j : IF j = 1 THEN pend ELSE <<>>, o.dummy),
           n |-> n + o.n, pend |-> IF o.n > 0 THEN <<>> ELSE pend,
           alive |-> IF o.dummy = 1 \/ o.n = 0 THEN alive ELSE AddTo(alive, n, o.n)]
\* deactivating records of a twig; after every o.n of them a dummy record carries the list away
Kill(o) ==
  LET S == {s \in alive[o.t] : LET f == s % W IN f >= o.lo /\ f <= o.hi /\ (f - o.lo) % o.st = 0}
      L == pend \o Sort(S)
      m == Len(L) \div o.n
  IN [recs |-> Recs(m, LAMBDA j : -1, LAMBDA j : SubSeq(L, (j - 1) * o.n + 1, j * o.n), 1),
      n |-> n + m, pend |-> SubSeq(L, m * o.n + 1, Len(L)), alive |-> [alive EXCEPT ![o.t] = @ \ S]]
\* copying the active records of a twig to the end
Move(o) ==
  LET L == Sort(alive[o.t])
      m == Len(L)
  IN [recs |-> Recs(m, LAMBDA j : L[j], LAMBDA j : (IF j = 1 THEN pend ELSE <<>>) \o <<L[j]>>, 0),
      n |-> n + m, pend |-> IF m > 0 THEN <<>> ELSE pend,
      alive |-> [AddTo(alive, n, m) EXCEPT ![o.t] = {}]]
Runs(S) == LET st == Sort({s \in S : s - 1 \notin S})
               en == Sort({s \in S : s + 1 \notin S})
           IN [j \in 1..Len(st) |-> <<st[j], en[j]>>]
Changed(a, b) == {t \in Twigs : a[t] # b[t]}
Out(recs, al) == CSVWrite("%1$s", <<ToJson([i |-> i, recs |-> recs, n |-> n', ev |-> ev', pr |-> pr',
                    tw |-> Sort(Changed(prev.alive, al)),
                    runs |-> LET T == Sort(Changed(prev.alive, al)) IN [j \in 1..Len(T) |-> Runs(al[T[j]])]])>>, OutFile)
Snap == [n |-> n, alive |-> alive, ev |-> ev]
Init == /\ n = 0 /\ alive = [t \in Twigs |-> {}] /\ pend = <<>> /\ ev = 0 /\ pr = 0 /\ i = 1
        /\ prev = [n |-> 0, alive |-> alive, ev |-> 0]
Quiet(recs) == CSVWrite("%1$s", <<ToJson([i |-> i, recs |-> recs])>>, OutFile)
Next ==
  /\ i <= Len(Steps) /\ i' = i + 1
  /\ LET o == Steps[i] IN
     CASE o.op \in {"app", "kill", "move"} ->
            LET r == CASE o.op = "app" -> App(o) [] o.op = "kill" -> Kill(o) [] OTHER -> Move(o) IN
            /\ n' = r.n /\ alive' = r.alive /\ pend' = r.pend /\ UNCHANGED <<ev, pr, prev>>
            /\ Quiet(r.recs)
       [] o.op = "end" ->                    \* the block ends; the oldest o.n twigs are evicted
            /\ Assert(pend = <<>>, "deactivations are carried before a block ends")
            /\ Assert(\A t \in ev..(ev + o.n - 1) : alive[t] = {}, "evicted twigs are dead")
            /\ Assert(ev + o.n < Y(n), "a full twig stays")
            /\ ev' = ev + o.n /\ UNCHANGED <<n, alive, pend, pr>>
            /\ Out(<<>>, alive)
            /\ prev' = IF o.t = 1 THEN [n |-> n, alive |-> alive, ev |-> ev'] ELSE prev   \* committed?
       [] o.op = "prune" ->
            /\ Assert(o.n >= pr + 2 /\ o.n < ev, "prunable")
            /\ pr' = o.n /\ UNCHANGED <<n, alive, pend, ev, prev>> /\ Out(<<>>, alive)
       [] o.op \in {"recover", "load"} -> UNCHANGED <<n, alive, pend, ev, pr, prev>> /\ Out(<<>>, alive)
       [] o.op = "back" ->                   \* whatever came after the last boundary is lost
            /\ n' = prev.n /\ alive' = prev.alive /\ pend' = <<>> /\ ev' = prev.ev /\ UNCHANGED <<pr, prev>>
            /\ Out(<<>>, alive')
Spec == Init /\ [][Next]_vars
ActiveInLog == \A t \in Twigs : alive[t] \subseteq (t * W)..(Min2(n, (t + 1) * W) - 1)
Done == TLCGet("stats").diameter - 1 = Len(Steps)
=============================================================================
