----------------------------- MODULE HPFile_MC -----------------------------
(* Every short history of a record file, with the observable result of each  *)
(* step.  With OUT set, the complete behaviours are written out for replay.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS B, C, Depth, Emit, Pieces
VARIABLES f, tr, tag, dirty
H == INSTANCE HPFile
OutFile == IOEnv.OUT

Obs(g) == [size |-> H!SizeOf(g), recs |-> g.recs, files |-> IF g.buf = <<>> THEN H!FileSizes(g) ELSE <<>>]
Step(g, o) == /\ f' = g /\ tr' = Append(tr, [o |-> o, x |-> Obs(g)])

Init == f = H!Fresh /\ tr = <<>> /\ tag = 1 /\ dirty = FALSE
More == Len(tr) < Depth
Add == More /\ tag' = tag + 1 /\ dirty' = TRUE
       /\ \E p \in Pieces : Step(H!AppendOp(f, tag, p), [op |-> "append", a |-> tag, p |-> p])
\* reopening needs a flushed log; it also stands for Flush
Flush == More /\ dirty /\ dirty' = FALSE /\ UNCHANGED tag
         /\ \E how \in {"flush", "reopen"} : Step(H!FlushOp(f), [op |-> how, a |-> 0, p |-> <<>>])
Trunc == More /\ ~dirty /\ UNCHANGED <<tag, dirty>>
         /\ \E i \in 1..Len(f.recs) : Step(H!TruncateOp(f, f.recs[i][2]), [op |-> "truncate", a |-> f.recs[i][2], p |-> <<>>])
Prune == More /\ ~dirty /\ UNCHANGED <<tag, dirty>>
         /\ \E i \in 1..Len(f.recs) : f.recs[i][2] \div B > H!Min(DOMAIN f.files) /\
              Step(H!PruneOp(f, f.recs[i][2]), [op |-> "prune", a |-> f.recs[i][2], p |-> <<>>])
Finish == /\ Len(tr) = Depth /\ Emit /\ tr' = Append(tr, [o |-> [op |-> "end", a |-> 0, p |-> <<>>], x |-> Obs(H!FlushOp(f))])
          /\ CSVWrite("%1$s", <<ToJson(tr')>>, OutFile) /\ UNCHANGED <<f, tag, dirty>>
Next == Add \/ Flush \/ Trunc \/ Prune \/ Finish
Spec == Init /\ [][Next]_<<f, tr, tag, dirty>>
PiecesA == {<<1>>, <<1, 2>>, <<4>>, <<2, 2>>, <<3>>}
PiecesB == {<<1, 2>>, <<4>>, <<2, 1>>}
ReadOK == H!ReadOK(f)
ScanOK == H!ScanOK(f)
CanonOK == H!CanonOK(f)
BoundOK == H!BoundOK(f)
View == <<f, dirty, Len(tr)>>
\* reachability witnesses
SomeCross == ~(\E i \in 1..Len(f.recs) : f.recs[i][2] \div B # (f.recs[i][2] + f.recs[i][3] - 1) \div B /\ i < Len(f.recs))
=============================================================================
