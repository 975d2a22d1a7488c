----------------------------- MODULE ADSReplay -----------------------------
(* Deterministic run of ADS along a plan (JSON): at each step the model's     *)
(* invariants are checked and the expected observable result of the step is   *)
(* written out for the conformance driver.                                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

Plan == JsonDeserialize(IOEnv.PLAN)
OutFile == IOEnv.OUT

N         == Plan.n
ShardOf   == Plan.shardOf
TwigSize  == Plan.twigSize
MinKept   == Plan.minKept
StartReap == Plan.startReap
Ratio     == 2
PendMax   == 64
MinPrune  == 2

VARIABLES st, hist, i

A == INSTANCE ADS

Steps == Plan.steps

LiveSeq(x) ==
  LET ks == A!SetToSortSeq({k \in A!AllKeys : A!IsLive(x.cur[k])}, <)
  IN [j \in 1..Len(ks) |-> <<ks[j], x.cur[ks[j]].val, x.cur[ks[j]].next,
                             x.cur[ks[j]].h, x.cur[ks[j]].lh, x.cur[ks[j]].sn>>]

Rec(r) == <<r.sn, r.key, r.val, r.next, r.h, r.lh, r.d>>

Obs(n, x, extra) ==
  [i    |-> n,
   h    |-> x.height,
   live |-> LiveSeq(x),
   app  |-> [s \in 1..8 |-> [j \in 1..Len(x.app[s-1]) |-> Rec(x.app[s-1][j])]],
   max  |-> [s \in 1..8 |-> x.max[s-1]],
   old  |-> [s \in 1..8 |-> x.old[s-1]],
   lp   |-> [s \in 1..8 |-> x.lp[s-1]],
   x    |-> extra]

Emit(n, x, extra) == CSVWrite("%1$s", <<ToJson(Obs(n, x, extra))>>, OutFile)

\* history: for every key the sequence of <<height, record>> at each change
NewHist(x, y) ==
  [k \in A!Keys |->
     IF x.cur[k] = y.cur[k] THEN hist[k]
     ELSE Append(hist[k], <<y.height, y.cur[k]>>)]

\* the record of k as of height h (Absent if none)
AsOf(k, h) ==
  LET idx == {j \in 1..Len(hist[k]) : hist[k][j][1] <= h}
  IN IF idx = {} THEN A!Absent ELSE hist[k][A!Max(idx)][2]

HistAnswer(q) ==
  LET r == IF st.ph >= 0 /\ q[2] <= st.ph THEN A!Absent ELSE AsOf(q[1], q[2])
  IN <<q[1], q[2], r.val, r.next, r.h, r.lh, r.sn>>

\* a height at (d off) which one of the evicted, unpruned twigs began; d may be 0 or +-1
PruneTarget(sel, d) ==
  LET hs == A!SetToSortSeq({A!TwigHeight(st, s, t) : <<s, t>> \in
               UNION {{<<u, t>> : t \in (st.lp[u] + 1)..st.old[u]} : u \in A!Shards}} \ {-1}, <)
      h  == IF hs = <<>> THEN st.height - 1 ELSE hs[Len(hs) - (sel % Len(hs))] + d
  IN A!Max2(1, h)

Init ==
  /\ st = A!Create
  /\ hist = [k \in A!Keys |-> <<>>]
  /\ i = 1
  /\ Emit(0, A!Create, <<>>)

Next ==
  /\ i <= Len(Steps)
  /\ i' = i + 1
  /\ LET s == Steps[i] IN
     \/ /\ s.op = "block"
        /\ LET y == A!CommitBlock(st, s.h, [j \in 1..Len(s.ops) |-> [k |-> s.ops[j][1], v |-> s.ops[j][2]]])
           IN st' = y /\ hist' = NewHist(st, y) /\ Emit(i, y, <<>>)
     \/ /\ s.op = "reopen"
        /\ st' = A!Reopen(st) /\ UNCHANGED hist /\ Emit(i, A!Reopen(st), <<>>)
     \/ /\ s.op = "prune"
        /\ LET y == A!Prune(st, s.h) IN st' = y /\ UNCHANGED hist /\ Emit(i, y, <<>>)
     \/ /\ s.op = "pruneat"
        /\ LET h == PruneTarget(s.sel, s.d)
               y == A!Prune(st, h) IN st' = y /\ UNCHANGED hist /\ Emit(i, y, <<h>>)
     \/ /\ s.op = "hist"
        /\ st' = [st EXCEPT !.app = A!NoApp] /\ UNCHANGED hist
        /\ Emit(i, st', [j \in 1..Len(s.q) |-> HistAnswer(s.q[j])])

Spec == Init /\ [][Next]_<<st, hist, i>>

ChainOK  == A!ChainOK(st)
SerialOK == A!SerialOK(st)
AppOK    == A!AppOK(st)
Done     == TLCGet("stats").diameter - 1 = Len(Steps)
=============================================================================
