------------------------------ MODULE Readers ------------------------------
(* One writer committing blocks and many readers, at the level of locks and  *)
(* single key updates.  A reader holds the read lock for its lifetime; the   *)
(* writer takes the write lock, updates key after key, and releases it.  A   *)
(* waiting writer keeps new readers out, so it does not starve.              *)
(* Before a block, preparers note hints for the keys of the block in small   *)
(* steps and in any order; a hint is lost by nobody.                         *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Rs, Ks, MaxBlk, Ps,
          EarlyUnlock,      \* wrong protocol, for checking that the invariants can fail
          LossyHints
VARIABLES db,        \* key -> number of the last block applied to it
          blk,       \* the last completed block
          wpc, todo, \* writer: "prep", "want", "write"; keys still to be applied
          rpc,       \* reader: "out", "want", "in"
          seen,      \* reader: blocks it has seen
          from,      \* reader: blocks completed when it asked for the lock
          hints, ppc \* keys with a hint; what each preparer still has to note
vars == <<db, blk, wpc, todo, rpc, seen, from, hints, ppc>>
In == {r \in Rs : rpc[r] = "in"}
Init == /\ db = [k \in Ks |-> 0] /\ blk = 0 /\ wpc = "prep" /\ todo = {}
        /\ rpc = [r \in Rs |-> "out"] /\ seen = [r \in Rs |-> {}] /\ from = [r \in Rs |-> 0]
        /\ hints = {} /\ ppc = [p \in Ps |-> Ks]

Prepare(p) == /\ wpc = "prep" /\ ppc[p] # {}
              /\ \E k \in ppc[p] :
                   /\ ppc' = [ppc EXCEPT ![p] = @ \ {k}]
                   /\ hints' = IF LossyHints /\ k \in hints THEN hints \ {k} ELSE hints \cup {k}
              /\ UNCHANGED <<db, blk, wpc, todo, rpc, seen, from>>
Ask == /\ wpc = "prep" /\ blk < MaxBlk /\ \A p \in Ps : ppc[p] = {}
       /\ wpc' = "want" /\ UNCHANGED <<db, blk, todo, rpc, seen, from, hints, ppc>>
Lock == /\ wpc = "want" /\ In = {} /\ wpc' = "write" /\ todo' = Ks
        /\ UNCHANGED <<db, blk, rpc, seen, from, hints, ppc>>
Put == /\ wpc = "write" /\ todo # {}
       /\ \E k \in todo : todo' = todo \ {k} /\ db' = IF k \in hints THEN [db EXCEPT ![k] = blk + 1] ELSE db
       /\ UNCHANGED <<blk, wpc, rpc, seen, from, hints, ppc>>
Unlock == /\ wpc = "write" /\ todo = {}
          /\ wpc' = "prep" /\ blk' = blk + 1 /\ hints' = {} /\ ppc' = [p \in Ps |-> Ks]
          /\ UNCHANGED <<db, todo, rpc, seen, from>>
Open(r) == /\ rpc[r] = "out" /\ rpc' = [rpc EXCEPT ![r] = "want"] /\ from' = [from EXCEPT ![r] = blk]
           /\ UNCHANGED <<db, blk, wpc, todo, seen, hints, ppc>>
Enter(r) == /\ rpc[r] = "want" /\ (wpc = "prep" \/ (EarlyUnlock /\ wpc = "write"))
            /\ rpc' = [rpc EXCEPT ![r] = "in"] /\ UNCHANGED <<db, blk, wpc, todo, seen, from, hints, ppc>>
Read(r) == /\ rpc[r] = "in" /\ \E k \in Ks : seen' = [seen EXCEPT ![r] = @ \cup {db[k]}]
           /\ UNCHANGED <<db, blk, wpc, todo, rpc, from, hints, ppc>>
Leave(r) == /\ rpc[r] = "in" /\ rpc' = [rpc EXCEPT ![r] = "out"] /\ seen' = [seen EXCEPT ![r] = {}]
            /\ from' = [from EXCEPT ![r] = 0] /\ UNCHANGED <<db, blk, wpc, todo, hints, ppc>>
Next == \/ \E p \in Ps : Prepare(p)
        \/ Ask \/ Lock \/ Put \/ Unlock
        \/ \E r \in Rs : Open(r) \/ Enter(r) \/ Read(r) \/ Leave(r)
Spec == Init /\ [][Next]_vars
Fair == /\ WF_vars(Lock) /\ WF_vars(Put) /\ WF_vars(Unlock) /\ \A r \in Rs : WF_vars(Enter(r)) /\ WF_vars(Leave(r))
FairSpec == Spec /\ Fair
----------------------------------------------------------------------------
OneBlock == \A r \in Rs : Cardinality(seen[r]) <= 1
NotOld == \A r \in Rs : \A b \in seen[r] : b >= from[r]
Exclusion == wpc = "write" => In = {}
WholeBlocks == wpc # "write" => \A k \in Ks : db[k] = blk
Progress == (wpc = "want") ~> (wpc = "prep")
Served == \A r \in Rs : (rpc[r] = "want") ~> (rpc[r] = "in")
=============================================================================
