------------------------------- MODULE Codec -------------------------------
(* The marker escaping of records: every occurrence of the 8-byte marker in  *)
(* the body is overwritten with zeros and its position noted in front, so    *)
(* that the marker starts records only.  Bodies are concatenations of        *)
(* tokens: the marker, its halves, its first byte, a zero, another byte.     *)
(* With OUT set every body is written out for the conformance driver.        *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils, CSV
CONSTANTS MaxTokens, Emit
VARIABLES toks
OutFile == IOEnv.OUT

Magic == <<255, 254, 253, 252, 252, 253, 254, 255>>
Tokens == {"M", "A", "B", "f", "0", "x"}
Bytes(t) == CASE t = "M" -> Magic
              [] t = "A" -> <<255, 254, 253, 252>>
              [] t = "B" -> <<252, 253, 254, 255>>
              [] t = "f" -> <<255>>
              [] t = "0" -> <<0>>
              [] OTHER -> <<7>>
Body(ts) == FoldLeft(LAMBDA a, t : a \o Bytes(t), <<>>, ts)

At(b, i) == i + 7 <= Len(b) /\ SubSeq(b, i, i + 7) = Magic
RECURSIVE Find(_, _)
\* positions of the marker, left to right, without overlaps
Find(b, i) == IF i + 7 > Len(b) THEN <<>>
              ELSE IF At(b, i) THEN <<i>> \o Find(b, i + 8) ELSE Find(b, i + 1)
Clear(b, ps) == FoldLeft(LAMBDA a, p : [j \in 1..Len(a) |-> IF j >= p /\ j < p + 8 THEN 0 ELSE a[j]], b, ps)
Encode(b) == LET ps == Find(b, 1) IN [ps |-> ps, b |-> Clear(b, ps)]
Decode(e) == FoldLeft(LAMBDA a, p : [j \in 1..Len(a) |-> IF j >= p /\ j < p + 8 THEN Magic[j - p + 1] ELSE a[j]], e.b, e.ps)

Init == toks = <<>> /\ (Emit => CSVWrite("%1$s", <<ToJson(toks)>>, OutFile))
Next == /\ Len(toks) < MaxTokens
        /\ \E t \in Tokens : toks' = Append(toks, t)
        /\ Emit => CSVWrite("%1$s", <<ToJson(toks')>>, OutFile)
Spec == Init /\ [][Next]_toks
RoundTrip == Decode(Encode(Body(toks))) = Body(toks)
NoMarkerLeft == Find(Encode(Body(toks)).b, 1) = <<>>
=============================================================================
