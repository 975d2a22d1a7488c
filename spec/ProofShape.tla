----------------------------- MODULE ProofShape -----------------------------
(* What a serialised proof is: after the serial number a sequence of hashes,  *)
(* folded from the record up to the root.  The height above the twigs is u,   *)
(* the bits of the serial number say on which side the sibling stands.        *)
(* Written out for every height and a family of serial numbers; the           *)
(* conformance driver builds such proofs and alters each of their parts.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
CONSTANTS MaxUp
VARIABLES u, kind, at
OutFile == IOEnv.OUT
LT == 11                                   \* 2^11 records of a twig
BT == 3                                    \* 2^3 leaves of 256 activity bits
NB == LT + u                               \* bits of a serial number
\* bit b (from 0) of the serial number
Bit(b) == CASE kind = "zero" -> 0
            [] kind = "ones" -> 1
            [] kind = "alt"  -> b % 2
            [] kind = "one"  -> IF b = at THEN 1 ELSE 0
            [] OTHER         -> IF b = at THEN 0 ELSE 1
\* the hashes, in order: the record, its LT siblings, the activity bits, their BT siblings, u siblings, the root
RecAt == 0
BitsAt == LT + 1
RootAt == BitsAt + BT + u + 1
\* <<level, sibling at the left, place of the sibling>>
LeftSteps  == [l \in 1..LT |-> <<l - 1, Bit(l - 1), RecAt + l>>]
RightSteps == [l \in 1..BT |-> <<LT - BT + l - 1, Bit(LT - BT + l - 1), BitsAt + l>>]
UpSteps    == [l \in 1..u |-> <<LT + l, Bit(LT + l - 1), BitsAt + BT + l>>]
Shape == [u |-> u, bits |-> [b \in 1..NB |-> Bit(b - 1)], count |-> RootAt + 1, bitsAt |-> BitsAt,
          left |-> LeftSteps, right |-> RightSteps, join |-> LT, up |-> UpSteps]
Emit == CSVWrite("%1$s", <<ToJson(Shape)>>, OutFile)
Init == /\ u \in 1..MaxUp
        /\ kind \in {"zero", "ones", "alt", "one", "hole"}
        /\ at \in 0..(LT + MaxUp - 1)
        /\ IF kind \in {"one", "hole"} THEN at < NB ELSE at = 0
        /\ Emit
Next == FALSE /\ UNCHANGED <<u, kind, at>>
Spec == Init /\ [][Next]_<<u, kind, at>>
\* every hash but the record, the activity bits and the root is the sibling of exactly one step
Places == {LeftSteps[l][3] : l \in 1..LT} \union {RightSteps[l][3] : l \in 1..BT} \union {UpSteps[l][3] : l \in 1..u}
EachOnce == Places = (0..RootAt) \ {RecAt, BitsAt, RootAt} /\ RootAt = LT + BT + u + 2
\* the levels of the steps rise without a gap
Rising == /\ \A l \in 1..(LT - 1) : LeftSteps[l + 1][1] = LeftSteps[l][1] + 1
          /\ \A l \in 1..(BT - 1) : RightSteps[l + 1][1] = RightSteps[l][1] + 1
          /\ LeftSteps[LT][1] = LT - 1 /\ RightSteps[BT][1] = LT - 1 /\ UpSteps[1][1] = LT + 1
          /\ \A l \in 1..(u - 1) : UpSteps[l + 1][1] = UpSteps[l][1] + 1
=============================================================================
