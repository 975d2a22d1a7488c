------------------------------- MODULE Stores -------------------------------
(* The layered stores: the committed blocks, the root store's write-through  *)
(* cache, the trunk store buffering a block, a side trunk (never written     *)
(* back, which may outlive blocks), and transactions on a trunk or directly  *)
(* on the root.  Nothing = no value; Miss = the layer does not   *)
(* know the key.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Keys, Txs, Cacheable(_)
Nothing == -1
Miss == -2
NoKeys == [k \in Keys |-> Miss]
NoTx == [st |-> "none", on |-> "root", ro |-> FALSE, w |-> NoKeys, rd |-> NoKeys]
NoTrunk == [open |-> FALSE, ro |-> FALSE, c |-> NoKeys]
Empty == [com |-> [k \in Keys |-> Nothing], rc |-> NoKeys, tk |-> NoTrunk, sd |-> NoTrunk, tx |-> [t \in Txs |-> NoTx]]

\* ---- reading, layer by layer
RootGet(s, k) == IF Cacheable(k) /\ s.rc[k] # Miss THEN s.rc[k] ELSE s.com[k]
TrunkGet(s, k) == IF s.tk.c[k] # Miss THEN s.tk.c[k] ELSE RootGet(s, k)
SideGet(s, k) == IF s.sd.c[k] # Miss THEN s.sd.c[k] ELSE RootGet(s, k)
Under(s, on, k) == CASE on = "trunk" -> TrunkGet(s, k) [] on = "side" -> SideGet(s, k) [] OTHER -> RootGet(s, k)
TxGet(s, t, k) == LET x == s.tx[t] IN
  IF x.w[k] # Miss THEN x.w[k] ELSE IF x.rd[k] # Miss THEN x.rd[k] ELSE Under(s, x.on, k)
\* a transaction may keep showing what it read first, or show a newer write-back to its trunk
TxMayGet(s, t, k) == LET x == s.tx[t] IN
  IF x.w[k] # Miss THEN {x.w[k]}
  ELSE {Under(s, x.on, k)} \cup (IF x.rd[k] # Miss THEN {x.rd[k]} ELSE {})
RootMap(s) == [k \in Keys |-> RootGet(s, k)]
TrunkMap(s) == [k \in Keys |-> TrunkGet(s, k)]
SideMap(s) == [k \in Keys |-> SideGet(s, k)]

\* ---- transactions
Begin(s, t, on, ro) == [s EXCEPT !.tx[t] = [NoTx EXCEPT !.st = "open", !.on = on, !.ro = ro]]
TxSet(s, t, k, v) == [s EXCEPT !.tx[t].w[k] = v]
\* deleting what it does not see writes nothing
TxDel(s, t, k) == IF TxGet(s, t, k) = Nothing THEN s ELSE [s EXCEPT !.tx[t].w[k] = Nothing]
TxRead(s, t, k) == LET v == Under(s, s.tx[t].on, k) IN
  IF s.tx[t].w[k] = Miss /\ s.tx[t].rd[k] = Miss /\ v # Nothing THEN [s EXCEPT !.tx[t].rd[k] = v] ELSE s
Close(s, t) == [s EXCEPT !.tx[t].st = "closed"]
Drop(s, t) == [s EXCEPT !.tx[t] = NoTx]

\* ---- writing: over is what a layer writes onto the one below
Over(c, w) == [k \in Keys |-> IF w[k] # Miss THEN w[k] ELSE c[k]]
\* the root store writes through: deleted keys leave the cache, cacheable ones enter it (Kept: not evicted)
ToRoot(s, w, Kept) ==
  [s EXCEPT !.com = Over(s.com, w),
            !.rc = [k \in Keys |-> IF k \notin Kept \/ ~Cacheable(k) THEN Miss
                                   ELSE IF w[k] = Nothing THEN Miss
                                   ELSE IF w[k] # Miss THEN w[k] ELSE @[k]]]
WriteBack(s, t, Kept) ==
  LET x == s.tx[t]
      d == Drop(s, t)
  IN CASE x.on = "trunk" -> [d EXCEPT !.tk.c = Over(@, x.w)]
       [] x.on = "side"  -> [d EXCEPT !.sd.c = Over(@, x.w)]
       [] OTHER          -> ToRoot(d, x.w, Kept)
OpenTrunk(s, ro) == [s EXCEPT !.tk = [NoTrunk EXCEPT !.open = TRUE, !.ro = ro]]
OpenSide(s, ro) == [s EXCEPT !.sd = [NoTrunk EXCEPT !.open = TRUE, !.ro = ro]]
SideDrop(s) == [s EXCEPT !.tx = [t \in Txs |-> IF s.tx[t].on = "side" THEN NoTx ELSE s.tx[t]], !.sd = NoTrunk]
GoneTx(s) == [s EXCEPT !.tx = [t \in Txs |-> IF s.tx[t].on = "trunk" THEN NoTx ELSE s.tx[t]], !.tk = NoTrunk]
TrunkBack(s, Kept) == GoneTx(ToRoot(s, s.tk.c, Kept))
TrunkDrop(s) == GoneTx(s)
Update(s, on, ops, Kept) ==
  LET w == FoldLeft(LAMBDA a, o : [a EXCEPT ![o[1]] = o[2]], NoKeys, ops)
  IN CASE on = "trunk" -> [s EXCEPT !.tk.c = Over(@, w)]
       [] on = "side"  -> [s EXCEPT !.sd.c = Over(@, w)]
       [] OTHER        -> ToRoot(s, w, Kept)
Restart(s) == [s EXCEPT !.rc = NoKeys, !.tk = NoTrunk, !.sd = NoTrunk, !.tx = [t \in Txs |-> NoTx]]
NoReader(s) == \A t \in Txs : s.tx[t].st # "open"

----------------------------------------------------------------------------
NoStaleCache(s) == \A k \in Keys : s.rc[k] # Miss => s.rc[k] = s.com[k] /\ s.com[k] # Nothing
=============================================================================
