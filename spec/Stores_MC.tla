------------------------------ MODULE Stores_MC ------------------------------
(* All small histories of the stores.  Oracle: every layer as the sequence of *)
(* operations that reached it, folded over the layer below.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS K, T, Vals, MaxOps, CacheableKeys, WithSide
Keys == 1..K
Txs == 1..T
VARIABLES s, ops, tops, rops, sops      \* ghosts: of each transaction, of the trunk, of the root, of the side trunk
vars == <<s, ops, tops, rops, sops>>
X == INSTANCE Stores WITH Cacheable <- LAMBDA k : k \in CacheableKeys
Fold(m, os) == FoldLeft(LAMBDA a, o : [a EXCEPT ![o[1]] = o[2]], m, os)
None == [k \in Keys |-> X!Nothing]
Init == s = X!Empty /\ ops = [t \in Txs |-> <<>>] /\ tops = <<>> /\ rops = None /\ sops = <<>>
Keep == {Keys} \cup {Keys \ {k} : k \in Keys} \cup {{}}
Begin(t) == /\ s.tx[t].st = "none"
            /\ \E on \in {"root", "trunk", "side"}, ro \in BOOLEAN :
                 /\ on = "trunk" => s.tk.open
                 /\ on = "side" => s.sd.open
                 /\ s' = X!Begin(s, t, on, ro) /\ UNCHANGED <<ops, tops, rops, sops>>
Op(t) == /\ s.tx[t].st = "open" /\ Len(ops[t]) < MaxOps
         /\ \E k \in Keys :
              \/ \E v \in Vals : s' = X!TxSet(s, t, k, v) /\ ops' = [ops EXCEPT ![t] = Append(@, <<k, v>>)]
              \/ /\ Cardinality(X!TxMayGet(s, t, k)) = 1
                 /\ s' = X!TxDel(s, t, k)
                 /\ ops' = IF X!TxGet(s, t, k) = X!Nothing THEN ops ELSE [ops EXCEPT ![t] = Append(@, <<k, X!Nothing>>)]
         /\ UNCHANGED <<tops, rops, sops>>
Read(t) == s.tx[t].st = "open" /\ \E k \in Keys : s' = X!TxRead(s, t, k) /\ UNCHANGED <<ops, tops, rops, sops>>
Close(t) == s.tx[t].st = "open" /\ s' = X!Close(s, t) /\ UNCHANGED <<ops, tops, rops, sops>>
Clear(t) == ops' = [ops EXCEPT ![t] = <<>>]
Drop(t) == s.tx[t].st = "closed" /\ s' = X!Drop(s, t) /\ Clear(t) /\ UNCHANGED <<tops, rops, sops>>
Back(t) == /\ s.tx[t].st = "closed" /\ ~s.tx[t].ro
           /\ s.tx[t].on = "root" => X!NoReader(s)
           /\ \E Kept \in (IF s.tx[t].on = "root" THEN Keep ELSE {Keys}) : s' = X!WriteBack(s, t, Kept)
           /\ Clear(t)
           /\ CASE s.tx[t].on = "root" -> rops' = Fold(rops, ops[t]) /\ UNCHANGED <<tops, sops>>
                [] s.tx[t].on = "side" -> sops' = sops \o ops[t] /\ UNCHANGED <<tops, rops>>
                [] OTHER -> tops' = tops \o ops[t] /\ UNCHANGED <<rops, sops>>
OpenTrunk == ~s.tk.open /\ \E ro \in BOOLEAN : s' = X!OpenTrunk(s, ro) /\ UNCHANGED <<ops, tops, rops, sops>>
OpenSide == WithSide /\ ~s.sd.open /\ \E ro \in BOOLEAN : s' = X!OpenSide(s, ro) /\ UNCHANGED <<ops, tops, rops, sops>>
\* it may be given up while other readers are at work
EndSide == /\ s.sd.open /\ \A t \in Txs : s.tx[t].on = "side" => s.tx[t].st # "open"
           /\ s' = X!SideDrop(s) /\ sops' = <<>> /\ UNCHANGED <<tops, rops>>
           /\ ops' = [t \in Txs |-> IF s.tx[t].on = "side" THEN <<>> ELSE ops[t]]
GoneOps == [t \in Txs |-> IF s.tx[t].on = "trunk" THEN <<>> ELSE ops[t]]
EndTrunk == /\ s.tk.open /\ X!NoReader(s)
            /\ \/ /\ ~s.tk.ro /\ \E Kept \in Keep : s' = X!TrunkBack(s, Kept)
                  /\ rops' = Fold(rops, tops)
               \/ s' = X!TrunkDrop(s) /\ UNCHANGED rops
            /\ tops' = <<>> /\ ops' = GoneOps /\ UNCHANGED sops
Restart == /\ X!NoReader(s) /\ s' = X!Restart(s) /\ UNCHANGED rops /\ tops' = <<>> /\ sops' = <<>> /\ ops' = [t \in Txs |-> <<>>]
Next == \/ \E t \in Txs : Begin(t) \/ Op(t) \/ Read(t) \/ Close(t) \/ Drop(t) \/ Back(t)
        \/ OpenTrunk \/ EndTrunk \/ OpenSide \/ EndSide \/ Restart
Bound == Len(tops) <= MaxOps /\ Len(sops) <= MaxOps
Spec == Init /\ [][Next]_vars
NoStaleCache == X!NoStaleCache(s)
RootOK == X!RootMap(s) = rops /\ s.com = rops
TrunkOK == s.tk.open => X!TrunkMap(s) = Fold(rops, tops)
SideOK == s.sd.open => X!SideMap(s) = Fold(rops, sops)
TxOK == \A t \in Txs : s.tx[t].st = "open" =>
          \A k \in Keys : (\E j \in 1..Len(ops[t]) : ops[t][j][1] = k) =>
             X!TxGet(s, t, k) = Fold(None, ops[t])[k] /\ X!TxMayGet(s, t, k) = {Fold(None, ops[t])[k]}
Untouched == \A t \in Txs : s.tx[t].st = "open" =>
          \A k \in Keys : ~(\E j \in 1..Len(ops[t]) : ops[t][j][1] = k) =>
             (CASE s.tx[t].on = "trunk" -> Fold(rops, tops) [] s.tx[t].on = "side" -> Fold(rops, sops) [] OTHER -> rops)[k] \in X!TxMayGet(s, t, k)
\* on the root nothing can change below an open transaction
Stable == \A t \in Txs : s.tx[t].st = "open" /\ s.tx[t].on = "root" => \A k \in Keys : Cardinality(X!TxMayGet(s, t, k)) = 1
\* what a read-only store did can never have reached the committed state
=============================================================================
