-------------------------------- MODULE ADS --------------------------------
(* MoeingADS: the authenticated key-value store at block granularity.        *)
(*                                                                           *)
(* Keys are the integers 1..N (their byte order is their numeric order); the *)
(* two guard keys are 0 and N+1.  Every key belongs to one of eight shards;  *)
(* each shard is an append-only log of records numbered by serial numbers,   *)
(* grouped in twigs of TwigSize records.  A record is "active" while it is   *)
(* the current one of a live key.                                            *)
(*                                                                           *)
(* The module defines, as operators over a state record `st`, every step the *)
(* database takes: Create, CommitBlock (update + compaction + end-block),    *)
(* Prune, Reopen/Recover, and the queries.  The specifications that extend   *)
(* it (ADS_MC: exhaustive; ADSReplay: expectation generator for the real     *)
(* code) only choose which steps happen.                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS N,            \* number of ordinary keys
          ShardOf,      \* sequence: ShardOf[k] \in 0..7 for k \in 1..N
          TwigSize,     \* records per twig (2048 in the code)
          MinKept,      \* a shard keeps at least this many twigs from compaction
          StartReap,    \* no compaction below this number of live records
          Ratio,        \* compaction when kept >= Ratio * live
          PendMax,      \* longest list of pending deactivations
          MinPrune      \* fewest twigs worth pruning

Shards  == 0..7
GuardLo == 0
GuardHi == N + 1
Keys    == 1..N
AllKeys == 0..(N + 1)
Dummy   == -1           \* the "key" of filler records

ShardK(k) == IF k = GuardLo THEN 0 ELSE IF k = GuardHi THEN 7 ELSE ShardOf[k]

Absent == [sn |-> -1, val |-> -1, next |-> -1, h |-> -1, lh |-> -1]
IsLive(r) == r.sn >= 0

Live(st) == {k \in Keys : IsLive(st.cur[k])}

----------------------------------------------------------------------------
(* Low-level steps on one shard                                              *)

\* append one record; it carries the pending deactivations of its shard
AppendRec(st, s, key, val, next, h, lh) ==
  LET sn == st.max[s]
      rec == [sn |-> sn, key |-> key, val |-> val, next |-> next, h |-> h,
              lh |-> lh, d |-> st.pend[s]]
  IN [st EXCEPT !.max[s]  = sn + 1,
                !.app[s]  = Append(@, rec),
                !.pend[s] = <<>>,
                !.th[s]   = IF (sn + 1) % TwigSize = 0
                            THEN Append(@, st.height) ELSE @]

\* a filler record is deactivated by its own list
FlushPending(st, s) ==
  LET st1 == [st EXCEPT !.pend[s] = Append(@, st.max[s])]
  IN AppendRec(st1, s, Dummy, -1, Dummy, -2, -2)

Deactivate(st, s, sn) ==
  LET st1 == [st EXCEPT !.pend[s] = Append(@, sn)]
  IN IF Len(st1.pend[s]) > PendMax THEN FlushPending(st1, s) ELSE st1

----------------------------------------------------------------------------
(* Creation: every shard starts with one twig of fillers, then the guards.   *)

NoApp == [s \in Shards |-> <<>>]

Create ==
  LET st0 == [cur    |-> [k \in AllKeys |-> Absent],
              max    |-> [s \in Shards |-> TwigSize],
              old    |-> [s \in Shards |-> 0],
              lp     |-> [s \in Shards |-> -1],
              th     |-> [s \in Shards |-> <<0>>],
              pend   |-> [s \in Shards |-> <<>>],
              height |-> -1,
              ph     |-> -1,           \* largest prune height so far (-1: none)
              app    |-> NoApp]
      g1  == AppendRec(st0, 0, GuardLo, 0, GuardHi, -1, -1)
      g2  == AppendRec(g1, 7, GuardHi, 0, GuardHi, -1, -1)
  IN [g2 EXCEPT !.cur[GuardLo] = [sn |-> st0.max[0], val |-> 0, next |-> GuardHi,
                                  h |-> -1, lh |-> -1],
                !.cur[GuardHi] = [sn |-> g1.max[7], val |-> 0, next |-> GuardHi,
                                  h |-> -1, lh |-> -1]]

----------------------------------------------------------------------------
(* Block execution.  ops is the sequence of operations of the block, each    *)
(* [k, v] with v >= 0 a set and v = -1 a delete.                              *)

\* the operation on k that counts: the last one (-2: none)
FinalOps(ops) ==
  FoldLeft(LAMBDA f, o : [f EXCEPT ![o.k] = o.v], [k \in AllKeys |-> -2], ops)

\* rewrite or remove one key of the block
UpdateKey(st, k, f, nextOf, newLive) ==
  LET s == ShardK(k)
      old == st.cur[k]
      st1 == IF IsLive(old) THEN Deactivate(st, s, old.sn) ELSE st
  IN IF k \notin newLive
     THEN [st1 EXCEPT !.cur[k] = Absent]
     ELSE LET val == IF f[k] >= 0 THEN f[k] ELSE old.val
              lh  == IF IsLive(old) THEN old.h ELSE 0
              st2 == AppendRec(st1, s, k, val, nextOf[k], st.height, lh)
          IN [st2 EXCEPT !.cur[k] = [sn |-> st1.max[s], val |-> val,
                                     next |-> nextOf[k], h |-> st.height, lh |-> lh]]

Update(st, ops) ==
  LET f       == FinalOps(ops)
      live    == Live(st)
      newLive == {k \in Keys : f[k] >= 0 \/ (k \in live /\ f[k] # -1)}
                   \cup {GuardLo, GuardHi}
      order   == SetToSortSeq(newLive, <)
      idx     == [i \in 1..Len(order) |-> i]
      nextOf  == FoldLeft(LAMBDA g, i : [g EXCEPT ![order[i]] =
                              IF i = Len(order) THEN order[i] ELSE order[i+1]],
                          [k \in AllKeys |-> -1], idx)
      \* keys that are written, removed, or whose successor changed
      dirty   == {k \in AllKeys :
                    \/ k \in newLive /\ f[k] >= 0
                    \/ k \in live /\ k \notin newLive
                    \/ k \in newLive /\ IsLive(st.cur[k]) /\ nextOf[k] # st.cur[k].next}
  IN FoldLeft(LAMBDA acc, k : UpdateKey(acc, k, f, nextOf, newLive),
              st, SetToSortSeq(dirty, <))

----------------------------------------------------------------------------
(* Compaction: one round, one twig per eligible shard.                        *)

Youngest(st, s) == st.max[s] \div TwigSize
LiveCount(st)   == Cardinality({k \in AllKeys : IsLive(st.cur[k])})
KeptCount(st)   == FoldSet(LAMBDA s, a : a + st.max[s] - st.old[s] * TwigSize, 0, Shards)

NeedCompaction(st) ==
  /\ LiveCount(st) >= StartReap
  /\ KeptCount(st) >= Ratio * LiveCount(st)

Eligible(st, s) == st.old[s] + MinKept <= Youngest(st, s)

MoveKey(st, s, k) ==
  LET r   == st.cur[k]
      st1 == Deactivate(st, s, r.sn)
      st2 == AppendRec(st1, s, k, r.val, r.next, r.h, r.lh)
  IN [st2 EXCEPT !.cur[k].sn = st1.max[s]]

CompactShard(st, s) ==
  IF ~Eligible(st, s) THEN st
  ELSE LET ks == {k \in AllKeys : /\ IsLive(st.cur[k]) /\ ShardK(k) = s
                                  /\ st.cur[k].sn \div TwigSize = st.old[s]}
           sq == SetToSortSeq(ks, LAMBDA a, b : st.cur[a].sn < st.cur[b].sn)
           st1 == FoldLeft(LAMBDA acc, k : MoveKey(acc, s, k), st, sq)
       IN [st1 EXCEPT !.old[s] = @ + 1]

ShardSeq == <<0, 1, 2, 3, 4, 5, 6, 7>>

Compact(st) ==
  IF NeedCompaction(st) THEN FoldLeft(CompactShard, st, ShardSeq) ELSE st

EndShard(st, s) == IF st.pend[s] # <<>> THEN FlushPending(st, s) ELSE st

----------------------------------------------------------------------------
(* One committed block at height h.                                           *)
CommitBlock(st, h, ops) ==
  LET st0 == [st EXCEPT !.height = h, !.app = NoApp]
  IN FoldLeft(EndShard, Compact(Update(st0, ops)), ShardSeq)

----------------------------------------------------------------------------
(* Pruning.                                                                   *)
TwigHeight(st, s, t) == IF t >= 1 /\ t <= Len(st.th[s]) THEN st.th[s][t] ELSE -1

RECURSIVE PruneEnd(_, _, _, _)
PruneEnd(st, s, h, end) ==
  LET eh == TwigHeight(st, s, end)
  IN IF eh < 0 \/ eh >= h \/ end >= st.old[s] THEN end - 1
     ELSE PruneEnd(st, s, h, end + 1)

PruneShard(st, s, h) ==
  LET start == st.lp[s] + 1
      end   == PruneEnd(st, s, h, start + 1)
  IN IF end <= start + MinPrune THEN st
     ELSE [st EXCEPT !.lp[s] = end - 1,
                     !.th[s] = [t \in 1..Len(@) |-> IF t >= start /\ t < end THEN -1 ELSE @[t]]]

Max2(a, b) == IF a > b THEN a ELSE b

Prune(st, h) ==
  LET st0 == [st EXCEPT !.app = NoApp]
      st1 == FoldLeft(LAMBDA acc, s : PruneShard(acc, s, h), st0, ShardSeq)
  IN [st1 EXCEPT !.ph = Max2(@, h)]

----------------------------------------------------------------------------
(* Closing and opening again changes nothing but the process-local prune      *)
(* height; pending work never survives because there is none between blocks.  *)
Reopen(st) == [st EXCEPT !.app = NoApp]

----------------------------------------------------------------------------
(* Invariants on st alone                                                     *)

\* C02: the live keys and the guards form one ascending chain
ChainOK(st) ==
  LET members == {k \in AllKeys : IsLive(st.cur[k])}
      order   == SetToSortSeq(members, <)
  IN /\ GuardLo \in members /\ GuardHi \in members
     /\ \A i \in 1..Len(order) :
          st.cur[order[i]].next = IF i = Len(order) THEN order[i] ELSE order[i + 1]

\* active records sit at distinct serial numbers of their shard, in twigs that
\* have not been evicted, and pruning never reaches an active twig
SerialOK(st) ==
  /\ \A k \in AllKeys : IsLive(st.cur[k]) =>
       /\ st.cur[k].sn < st.max[ShardK(k)]
       /\ st.cur[k].sn \div TwigSize >= st.old[ShardK(k)]
       /\ st.cur[k].h <= st.height /\ st.cur[k].lh <= st.cur[k].h
  /\ Cardinality({<<ShardK(k), st.cur[k].sn>> : k \in {x \in AllKeys : IsLive(st.cur[x])}})
       = LiveCount(st)
  /\ \A s \in Shards : /\ st.lp[s] < st.old[s] \/ st.lp[s] = -1
                       /\ st.old[s] <= Youngest(st, s)
                       /\ st.pend[s] = <<>>
                       /\ Len(st.th[s]) = Youngest(st, s)

\* the records of one step are numbered contiguously; each active record and
\* each filler is deactivated at most once, by a later (or its own) record
AppOK(st) ==
  \A s \in Shards :
    /\ \A i \in 1..Len(st.app[s]) :
         /\ st.app[s][i].sn = st.max[s] - Len(st.app[s]) + i - 1
         /\ Len(st.app[s][i].d) <= PendMax + 2
         /\ \A j \in 1..Len(st.app[s][i].d) : st.app[s][i].d[j] <= st.app[s][i].sn
         /\ st.app[s][i].key = Dummy => st.app[s][i].d[Len(st.app[s][i].d)] = st.app[s][i].sn
=============================================================================
