------------------------------- MODULE HPFile -------------------------------
(* Head-prunable record files.  The log is cut into files of nominally B     *)
(* bytes; a record that crosses the end of a file stays whole in that file   *)
(* and the next file starts with as many zero bytes.  Appends go through a   *)
(* write buffer of C bytes.                                                  *)
(*                                                                           *)
(* A state f holds the bytes of every file and of the buffer; a byte is      *)
(* <<tag, offset>> of the record it belongs to, or Zero.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS B, C

Zero == <<0, 0>>
Zeros(n) == [i \in 1..n |-> Zero]

Fresh == [files |-> (0 :> <<>>), hi |-> 0, latest |-> 0, buf |-> <<>>, recs |-> <<>>]

SizeOf(f) == f.hi * B + f.latest

FlushOp(f) == [f EXCEPT !.files[f.hi] = @ \o f.buf, !.buf = <<>>]

\* one piece of a record goes to the buffer, which is written out when it overflows
AddPiece(f, bytes) ==
  LET extra == Len(f.buf) + Len(bytes) - C
  IN IF extra <= 0
     THEN [f EXCEPT !.buf = @ \o bytes, !.latest = @ + Len(bytes)]
     ELSE LET cut == Len(bytes) - extra
          IN [f EXCEPT !.files[f.hi] = @ \o f.buf \o SubSeq(bytes, 1, cut),
                       !.buf = SubSeq(bytes, cut + 1, Len(bytes)),
                       !.latest = @ + Len(bytes)]

NextFile(f) ==
  LET over == f.latest - B
      g == FlushOp(f)
  IN IF over < 0 THEN f
     ELSE [g EXCEPT !.hi = @ + 1, !.files = @ @@ ((f.hi + 1) :> <<>>),
                    !.buf = Zeros(over), !.latest = over]

\* a record of the given pieces (lengths); tag identifies it
AppendOp(f, tag, pieces) ==
  LET total == FoldLeft(LAMBDA a, n : a + n, 0, pieces)
      off(i) == FoldLeft(LAMBDA a, n : a + n, 0, SubSeq(pieces, 1, i - 1))
      bytes(i) == [j \in 1..pieces[i] |-> <<tag, off(i) + j>>]
      g == FoldLeft(LAMBDA a, i : AddPiece(a, bytes(i)), f, [i \in 1..Len(pieces) |-> i])
  IN NextFile([g EXCEPT !.recs = Append(@, <<tag, SizeOf(f), total>>)])

\* Truncation (of a flushed log) to the end of record n of those remaining
RECURSIVE DropFiles(_, _)
DropFiles(f, size) ==
  IF size < f.hi * B
  THEN DropFiles([f EXCEPT !.files = [i \in DOMAIN f.files \ {f.hi} |-> f.files[i]], !.hi = @ - 1], size)
  ELSE f
TruncateOp(f, size) ==
  LET g == DropFiles(f, size)
      n == size - g.hi * B
      fit(b) == IF Len(b) >= n THEN SubSeq(b, 1, n) ELSE b \o Zeros(n - Len(b))
  IN [g EXCEPT !.files[g.hi] = fit(@), !.latest = n,
               !.recs = SelectSeq(@, LAMBDA r : r[2] < size)]

PruneOp(f, off) ==
  LET keep == {i \in DOMAIN f.files : i >= off \div B}
  IN [f EXCEPT !.files = [i \in keep |-> f.files[i]],
               !.recs = SelectSeq(@, LAMBDA r : r[2] \div B >= off \div B)]

\* what a reader gets for n bytes at position p of the flushed log
ReadBytes(f, p, n) ==
  LET i == p \div B o == p % B
  IN IF i \in DOMAIN f.files /\ o + n <= Len(f.files[i]) THEN SubSeq(f.files[i], o + 1, o + n) ELSE <<>>

FileSizes(f) == LET ids == SetToSortSeq(DOMAIN f.files, <)
                IN [i \in 1..Len(ids) |-> <<ids[i], Len(f.files[ids[i]])>>]

----------------------------------------------------------------------------
\* every record is whole where its position says, once flushed
ReadOK(f) == LET g == FlushOp(f) IN
  \A i \in 1..Len(f.recs) :
    LET r == f.recs[i] IN ReadBytes(g, r[2], r[3]) = [j \in 1..r[3] |-> <<r[1], j>>]
\* positions are contiguous: the end of a record is where the next one starts
ScanOK(f) == \A i \in 1..Len(f.recs) :
    f.recs[i][2] + f.recs[i][3] = IF i = Len(f.recs) THEN SizeOf(f) ELSE f.recs[i + 1][2]
\* the bytes on disk depend only on the records that are left (so truncating and appending
\* again is as if the removed records had never existed)
FilePrefix(f, i) == LET before == SelectSeq(f.recs, LAMBDA r : r[2] \div B < i)
                        last == before[Len(before)]
                    IN IF before = <<>> THEN 0 ELSE IF last[2] + last[3] > i * B THEN last[2] + last[3] - i * B ELSE 0
CanonOK(f) ==
  LET g == FlushOp(f) IN
  \A i \in DOMAIN g.files :
    LET mine == SelectSeq(f.recs, LAMBDA r : r[2] \div B = i)
        body == FoldLeft(LAMBDA a, r : a \o [j \in 1..r[3] |-> <<r[1], j>>], <<>>, mine)
        pre == IF mine = <<>> THEN Len(g.files[i]) ELSE mine[1][2] - i * B
    IN g.files[i] = Zeros(pre) \o body
BoundOK(f) == /\ Len(f.buf) <= C /\ f.latest < B
              /\ \A i \in DOMAIN f.files : i <= f.hi
              /\ Len(f.files[f.hi]) + Len(f.buf) = f.latest
=============================================================================
