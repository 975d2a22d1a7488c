------------------------------- MODULE Crash -------------------------------
(* The commit and prune protocol of the database at the level of single file *)
(* operations, with a crash possible after each of them.                     *)
(*                                                                           *)
(* Every shard has an entry file (a log of records) and a twig file (one     *)
(* item per full twig); the key-value store holds the metadata and the index *)
(* and is changed in one atomic batch.  A block appends to the files of the  *)
(* shards concurrently, and only when every shard has finished writing       *)
(* commits the batch.  Pruning commits the new first kept twig and only then *)
(* removes the heads of the files.  Recovery truncates the files to the      *)
(* recorded sizes and must then find everything it reads.                    *)
(*                                                                           *)
(* CommitEarly / RemoveEarly turn the two orderings around; TLC then shows   *)
(* the crash that breaks the database (CrashBad.cfg).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NS, TwigSize, MaxBlocks, MaxAppend, MaxCrash, CommitEarly, RemoveEarly

Sh == 1..NS

VARIABLES
  e, eh,     \* entry file of each shard: records still there / number removed at the head
  m, mh,     \* twig file of each shard, likewise (items: number of the twig)
  kv,        \* committed metadata
  pc,        \* "idle", "block", "prune1" (before commit), "prune2" (removing), "recover", "dead"
  todoE, todoM,  \* what the running block still has to append
  nkv,       \* the metadata the running step is going to commit
  log,       \* ghost: for each shard the committed history of records
  ended,     \* ghost: last block reported as ended
  att,       \* number of the attempt (every execution writes different bytes)
  ncrash
vars == <<e, eh, m, mh, kv, pc, todoE, todoM, nkv, log, ended, att, ncrash>>

Zero == [s \in Sh |-> 0]
None == [s \in Sh |-> <<>>]

Init ==
  /\ e = None /\ m = None /\ eh = Zero /\ mh = Zero
  /\ kv = [blk |-> 0, es |-> Zero, ms |-> Zero, lp |-> Zero, first |-> Zero]
  /\ nkv = kv /\ pc = "idle" /\ todoE = None /\ todoM = None
  /\ log = None /\ ended = 0 /\ att = 1 /\ ncrash = 0

\* A block appends cnt[s] records to shard s; a full twig adds an item to the twig file.
\* first: the oldest active twig, which may advance (compaction) up to the youngest one.
StartBlock ==
  /\ pc = "idle" /\ kv.blk < MaxBlocks
  /\ \E cnt \in [Sh -> 0..MaxAppend] : \E adv \in [Sh -> 0..1] :
       LET nes == [s \in Sh |-> kv.es[s] + cnt[s]]
           nms == [s \in Sh |-> nes[s] \div TwigSize]
       IN /\ \A s \in Sh : kv.first[s] + adv[s] <= nms[s]
          /\ todoE' = [s \in Sh |-> [i \in 1..cnt[s] |-> <<att, kv.es[s] + i>>]]
          /\ todoM' = [s \in Sh |-> [i \in 1..(nms[s] - kv.ms[s]) |-> <<att, kv.ms[s] + i>>]]
          /\ nkv' = [kv EXCEPT !.blk = @ + 1, !.es = nes, !.ms = nms,
                               !.first = [s \in Sh |-> kv.first[s] + adv[s]]]
  /\ pc' = "block" /\ att' = att + 1
  /\ UNCHANGED <<e, eh, m, mh, kv, log, ended, ncrash>>

WriteE(s) ==
  /\ pc \in {"block", "late"} /\ todoE[s] # <<>>
  /\ e' = [e EXCEPT ![s] = Append(@, Head(todoE[s]))]
  /\ todoE' = [todoE EXCEPT ![s] = Tail(@)]
  /\ UNCHANGED <<eh, m, mh, kv, pc, todoM, nkv, log, ended, att, ncrash>>

WriteM(s) ==
  /\ pc \in {"block", "late"} /\ todoM[s] # <<>>
  /\ m' = [m EXCEPT ![s] = Append(@, Head(todoM[s]))]
  /\ todoM' = [todoM EXCEPT ![s] = Tail(@)]
  /\ UNCHANGED <<e, eh, mh, kv, pc, todoE, nkv, log, ended, att, ncrash>>

AllWritten == \A s \in Sh : todoE[s] = <<>> /\ todoM[s] = <<>>

Commit ==
  /\ pc = "block" /\ (AllWritten \/ CommitEarly)
  /\ kv' = nkv
  /\ log' = [s \in Sh |-> log[s] \o SubSeq(e[s], kv.es[s] - eh[s] + 1, Len(e[s])) \o todoE[s]]
  /\ pc' = "late"
  /\ UNCHANGED <<e, eh, m, mh, todoE, todoM, nkv, ended, att, ncrash>>

EndBlock ==
  /\ pc = "late" /\ AllWritten
  /\ pc' = "idle" /\ ended' = kv.blk
  /\ UNCHANGED <<e, eh, m, mh, kv, todoE, todoM, nkv, log, att, ncrash>>

\* Pruning: twigs below lp are dropped; only evicted twigs (below first) may be.
StartPrune ==
  /\ pc = "idle"
  /\ \E p \in [Sh -> 0..(MaxBlocks * MaxAppend)] :
       /\ \A s \in Sh : kv.lp[s] <= p[s] /\ (p[s] < kv.first[s] \/ p[s] = kv.lp[s])
       /\ p # kv.lp
       /\ nkv' = [kv EXCEPT !.lp = p]
  /\ pc' = IF RemoveEarly THEN "prune2" ELSE "prune1"
  /\ UNCHANGED <<e, eh, m, mh, kv, todoE, todoM, log, ended, att, ncrash>>

CommitPrune ==
  /\ pc = "prune1" /\ kv' = nkv
  /\ pc' = IF RemoveEarly THEN "idle" ELSE "prune2"
  /\ UNCHANGED <<e, eh, m, mh, todoE, todoM, nkv, log, ended, att, ncrash>>

\* removing one record of the head of an entry file (the code removes whole files, so it
\* removes at most this much); the recovery reads the twig items from lp on
RemoveE(s) ==
  /\ pc = "prune2" /\ eh[s] < nkv.lp[s] * TwigSize
  /\ e' = [e EXCEPT ![s] = Tail(@)] /\ eh' = [eh EXCEPT ![s] = @ + 1]
  /\ UNCHANGED <<m, mh, kv, pc, todoE, todoM, nkv, log, ended, att, ncrash>>

RemoveM(s) ==
  /\ pc = "prune2" /\ mh[s] < nkv.lp[s]
  /\ m' = [m EXCEPT ![s] = Tail(@)] /\ mh' = [mh EXCEPT ![s] = @ + 1]
  /\ UNCHANGED <<e, eh, kv, pc, todoE, todoM, nkv, log, ended, att, ncrash>>

EndPrune ==
  /\ pc = "prune2"           \* a file is removed only when all its content qualifies
  /\ pc' = IF RemoveEarly THEN "prune1" ELSE "idle"
  /\ UNCHANGED <<e, eh, m, mh, kv, todoE, todoM, nkv, log, ended, att, ncrash>>

Crash ==
  /\ ncrash < MaxCrash
  /\ ncrash' = ncrash + 1
  /\ pc' = "recover" /\ todoE' = None /\ todoM' = None /\ nkv' = kv
  /\ UNCHANGED <<e, eh, m, mh, kv, log, ended, att>>

\* Recovery truncates every file to its recorded size (one file at a time) ...
Cut(f, h, n) == SubSeq(f, 1, n - h)
RecoverE(s) ==
  /\ pc = "recover" /\ eh[s] + Len(e[s]) > kv.es[s]
  /\ e' = [e EXCEPT ![s] = Cut(@, eh[s], kv.es[s])]
  /\ UNCHANGED <<eh, m, mh, kv, pc, todoE, todoM, nkv, log, ended, att, ncrash>>
RecoverM(s) ==
  /\ pc = "recover" /\ mh[s] + Len(m[s]) > kv.ms[s]
  /\ m' = [m EXCEPT ![s] = Cut(@, mh[s], kv.ms[s])]
  /\ UNCHANGED <<e, eh, mh, kv, pc, todoE, todoM, nkv, log, ended, att, ncrash>>
\* ... and then reads the twig items from lp on and the records of the active twigs.
EndRecover ==
  /\ pc = "recover"
  /\ \A s \in Sh : eh[s] + Len(e[s]) <= kv.es[s] /\ mh[s] + Len(m[s]) <= kv.ms[s]
  /\ pc' = "idle" /\ ended' = kv.blk
  /\ UNCHANGED <<e, eh, m, mh, kv, todoE, todoM, nkv, log, att, ncrash>>

Next ==
  \/ StartBlock \/ Commit \/ EndBlock \/ StartPrune \/ CommitPrune \/ EndPrune \/ Crash \/ EndRecover
  \/ \E s \in Sh : WriteE(s) \/ WriteM(s) \/ RemoveE(s) \/ RemoveM(s) \/ RecoverE(s) \/ RecoverM(s)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Whatever the instant, recovery finds the committed block: all of its bytes, and the
\* heads of the files reach back far enough for what recovery reads.
Recoverable ==
  \A s \in Sh :
    /\ eh[s] + Len(e[s]) >= kv.es[s] /\ mh[s] + Len(m[s]) >= kv.ms[s]
    /\ \A i \in (eh[s] + 1)..kv.es[s] : e[s][i - eh[s]] = log[s][i]
    /\ eh[s] <= kv.lp[s] * TwigSize /\ mh[s] <= kv.lp[s]
    /\ kv.lp[s] <= kv.first[s]
NothingLost == ended <= kv.blk /\ kv.blk <= ended + 1
\* when nothing runs the files hold exactly the committed history
IdleExact ==
  pc = "idle" =>
    /\ ended = kv.blk
    /\ \A s \in Sh : /\ eh[s] + Len(e[s]) = kv.es[s] /\ mh[s] + Len(m[s]) = kv.ms[s]
                     /\ Len(log[s]) = kv.es[s]
=============================================================================
