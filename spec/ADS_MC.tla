------------------------------- MODULE ADS_MC -------------------------------
(* Exhaustive exploration of ADS with small constants: every sequence of      *)
(* blocks (each key: nothing, a set, a delete, set-then-delete, delete-then-  *)
(* set), prunings and restarts, up to MaxSteps.  Ghost variables state what   *)
(* the database must mean, independently of how ADS computes it:              *)
(*   map   the sequential key-value map obtained by applying the operations   *)
(*         one by one (C01)                                                   *)
(*   log   everything ever appended, per shard (C02, C06, C07, C08, C15)      *)
(*   hist  every version of the map (C09)                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils

CONSTANTS N, TwigSize, MinKept, StartReap, Ratio, PendMax, MinPrune,
          MaxSteps, Values, Kinds, ShardPat, WithPrune,
          Rand      \* TRUE: pick one random block per state (for -simulate)

ShardOf == [k \in 1..N |-> IF ShardPat = 0 THEN 0
                           ELSE IF ShardPat = 1 THEN (k % 2) * 7 ELSE k]

VARIABLES st, map, log, hist, steps

A == INSTANCE ADS
vars == <<st, map, log, hist, steps>>

None == [v |-> -1, h |-> -1, lh |-> -1]

\* what one key may see in one block
KeyOps(k) ==
  {<<>>}
  \cup {<<[k |-> k, v |-> v]>> : v \in Values}
  \cup {<<[k |-> k, v |-> -1]>>}
  \cup (IF Kinds = "all"
        THEN {<<[k |-> k, v |-> v], [k |-> k, v |-> -1]>> : v \in Values}
             \cup {<<[k |-> k, v |-> -1], [k |-> k, v |-> v]>> : v \in Values}
        ELSE {})

RECURSIVE Concat(_, _)
Concat(f, k) == IF k > N THEN <<>> ELSE f[k] \o Concat(f, k + 1)

RECURSIVE BlockOps(_)
BlockOps(k) == IF k > N THEN {<<>>}
               ELSE {a \o b : a \in KeyOps(k), b \in BlockOps(k + 1)}

RandBlock(n) == Concat([k \in 1..N |-> RandomElement(KeyOps(k))], 1)
Choices(n) == IF Rand THEN {RandBlock(n)} ELSE BlockOps(1)

\* sequential meaning of one operation, then of a block: the write happens at h
SeqMap(m, ops) == A!FoldLeft(LAMBDA acc, o : [acc EXCEPT ![o.k] = o.v], m, ops)

AppendLog(lg, y) == [s \in A!Shards |-> lg[s] \o y.app[s]]
Slim(y) == [y EXCEPT !.app = A!NoApp]

FillerTwig == [j \in 1..TwigSize |-> [sn |-> j - 1, key |-> -1, val |-> -1, next |-> -1,
                                      h |-> -2, lh |-> -2, d |-> <<>>]]

Init ==
  /\ st = Slim(A!Create)
  /\ map = [k \in 1..N |-> -1]
  /\ log = AppendLog([s \in A!Shards |-> FillerTwig], A!Create)
  /\ hist = <<>>
  /\ steps = 0

CurMap == [k \in 1..N |-> [v |-> st.cur[k].val, h |-> st.cur[k].h, next |-> st.cur[k].next]]

Block(ops) ==
  LET y == A!CommitBlock(st, st.height + 1, ops)
  IN /\ st' = Slim(y)
     /\ log' = AppendLog(log, y)
     /\ map' = SeqMap(map, ops)
     /\ hist' = Append(hist, map')

DoPrune(h) ==
  /\ WithPrune
  /\ st' = Slim(A!Prune(st, h))
  /\ UNCHANGED <<map, log, hist>>

Next ==
  /\ steps < MaxSteps
  /\ steps' = steps + 1
  /\ \/ \E ops \in Choices(steps) : Block(ops)
     \/ \E h \in (IF Rand THEN {RandomElement(1..(st.height + 2))} ELSE 1..st.height) : DoPrune(h)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* C01: the latest value of every key is that of the sequential map
LatestOK == \A k \in 1..N : st.cur[k].val = map[k]

\* heights: the record's height is the last block that wrote it, in which the
\* value or the successor changed
HeightOK == \A k \in 1..N : A!IsLive(st.cur[k]) =>
              /\ st.cur[k].h \in 0..st.height
              /\ st.cur[k].lh < st.cur[k].h \/ (st.cur[k].lh = 0 /\ st.cur[k].h = 0)
              /\ \A j \in (st.cur[k].h + 1)..st.height : hist[j + 1][k] = map[k]

\* C02
ChainOK  == A!ChainOK(st)
SerialOK == A!SerialOK(st)
LogOK    == \A s \in A!Shards :
              /\ Len(log[s]) = st.max[s]
              /\ \A i \in 1..Len(log[s]) : log[s][i].sn = i - 1
\* every record is deactivated at most once, no live record ever is, and every
\* record that is neither live nor one of the creation fillers is
DeactSeq(s) == [i \in 1..Len(log[s]) |-> log[s][i].d]
DeactCount(s, sn) == Cardinality({<<i, j>> \in (1..Len(log[s])) \X (1..(PendMax + 2)) :
                                    j <= Len(log[s][i].d) /\ log[s][i].d[j] = sn})
LiveSNs(s) == {st.cur[k].sn : k \in {x \in A!AllKeys : A!IsLive(st.cur[x]) /\ A!ShardK(x) = s}}
DeactOK == \A s \in A!Shards : \A sn \in TwigSize..(st.max[s] - 1) :
             DeactCount(s, sn) = IF sn \in LiveSNs(s) THEN 0 ELSE 1

\* C06/C15: what a restart rebuilds from the log, reading only from the oldest
\* unevicted twig, is the state before it
Recovered(s) ==
  LET from  == st.old[s] * TwigSize
      dead  == UNION {{log[s][i].d[j] : j \in 1..Len(log[s][i].d)} : i \in (from + 1)..Len(log[s])}
  IN {log[s][i] : i \in {j \in (from + 1)..Len(log[s]) : log[s][j].key # -1 /\ log[s][j].sn \notin dead}}
RecoverOK ==
  \A s \in A!Shards :
    {<<r.key, r.sn, r.val, r.next, r.h, r.lh>> : r \in Recovered(s)}
      = {<<k, st.cur[k].sn, st.cur[k].val, st.cur[k].next, st.cur[k].h, st.cur[k].lh>> :
           k \in {x \in A!AllKeys : A!IsLive(st.cur[x]) /\ A!ShardK(x) = s}}

\* C09: every version can be found in the log: the record of k as of height h
\* is the last record of k with height <= h, unless a later-or-equal block
\* removed it.  (The index keeps one position per key and block.)
AsOf(k, h) == IF h < 0 THEN -1 ELSE IF h > st.height THEN map[k] ELSE hist[h + 1][k]
LogAsOf(k, h) ==
  LET s == A!ShardK(k)
      is == {i \in 1..Len(log[s]) : log[s][i].key = k /\ log[s][i].h <= h}
  IN IF is = {} THEN -1 ELSE log[s][A!Max(is)].val
HistOK == \A k \in 1..N : \A h \in 0..st.height :
            AsOf(k, h) # -1 => LogAsOf(k, h) = AsOf(k, h)

\* C08: nothing live, and nothing a restart reads, lies in a pruned twig; a
\* pruned twig began before the prune height
PruneOK == \A s \in A!Shards :
             /\ \A k \in A!AllKeys : A!IsLive(st.cur[k]) /\ A!ShardK(k) = s
                  => st.cur[k].sn \div TwigSize > st.lp[s]
             /\ st.lp[s] < st.old[s]
             /\ \A i \in 1..Len(log[s]) :
                  i <= (st.lp[s] + 1) * TwigSize => log[s][i].h <= st.ph
=============================================================================
