------------------------------- MODULE Merkle -------------------------------
(* Soundness of proofs, with symbolic (collision-free) hashes: a tree of D     *)
(* twigs, each a leaf tree beside a flag tree.  Whatever record, serial        *)
(* number and siblings are presented, verification against the true root      *)
(* succeeds only for the record and flags that really stand at that serial    *)
(* number.  Node terms carry their level, like the hashes of the code; with   *)
(* Tagged = FALSE or Bounded = FALSE the model shows what would be accepted.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS LB,          \* a twig has 2^LB records, and a flag tree of height LB - 1
          UP,          \* 2^UP twigs
          Free, Depth, \* flags varied; alterations made
          Tagged,      \* hashes carry their level
          Bounded      \* serial numbers beyond the path are refused
VARIABLES log, flags, pf
vars == <<log, flags, pf>>
NL == 2 ^ LB
NT == 2 ^ UP
N == NL * NT
Recs == 0..N                                 \* what stands at a serial number, and an alien
T(l) == IF Tagged THEN l ELSE 0
Rec(r) == <<-1, r>>                       \* hash of a record's bytes
H(l, x, y) == <<T(l), x, y>>
\* the flag leaf of two records (the code: of 256)
Bits(t, i) == <<-2, flags[t * NL + 2 * i], flags[t * NL + 2 * i + 1]>>
RECURSIVE LNode(_, _, _), RNode(_, _, _), UNode(_, _)
LNode(t, l, i) == IF l = 0 THEN Rec(log[t * NL + i]) ELSE H(l - 1, LNode(t, l - 1, 2 * i), LNode(t, l - 1, 2 * i + 1))
RNode(t, l, i) == IF l = 0 THEN Bits(t, i) ELSE H(l, RNode(t, l - 1, 2 * i), RNode(t, l - 1, 2 * i + 1))
TwigRoot(t) == H(LB, LNode(t, LB, 0), RNode(t, LB - 1, 0))
UNode(l, i) == IF l = 0 THEN TwigRoot(i) ELSE H(LB + l, UNode(l - 1, 2 * i), UNode(l - 1, 2 * i + 1))
Root == UNode(UP, 0)
Bit(s, i) == (s \div (2 ^ i)) % 2
Sib(i) == IF i % 2 = 0 THEN i + 1 ELSE i - 1
Proof(s) == LET t == s \div NL
                f == s % NL IN
  [sn |-> s, rec |-> log[s], bits |-> Bits(t, f \div 2),
   left |-> [l \in 1..LB |-> LNode(t, l - 1, Sib(f \div (2 ^ (l - 1))))],
   right |-> [l \in 1..(LB - 1) |-> RNode(t, l - 1, Sib(f \div (2 ^ l)))],
   up |-> [l \in 1..UP |-> UNode(l - 1, Sib(t \div (2 ^ (l - 1))))]]
Pair(l, b, self, peer) == IF b = 1 THEN H(l, peer, self) ELSE H(l, self, peer)
RECURSIVE Lft(_, _, _), Rgt(_, _, _), Upp(_, _, _)
Lft(p, l, h) == IF l > LB THEN h ELSE Lft(p, l + 1, Pair(l - 1, Bit(p.sn, l - 1), h, p.left[l]))
Rgt(p, l, h) == IF l > LB - 1 THEN h ELSE Rgt(p, l + 1, Pair(l, Bit(p.sn, l), h, p.right[l]))
Upp(p, l, h) == IF l > Len(p.up) THEN h ELSE Upp(p, l + 1, Pair(LB + l, Bit(p.sn, LB + l - 1), h, p.up[l]))
Verify(p) == /\ Len(p.up) >= 1
             /\ Bounded => p.sn < 2 ^ (LB + Len(p.up))
             /\ Upp(p, 1, H(LB, Lft(p, 1, Rec(p.rec)), Rgt(p, 1, p.bits))) = Root
\* everything an adversary could put into a field: any hash of the tree, any record's hash
Terms == UNION {{LNode(t, l, i) : i \in 0..(2 ^ (LB - l) - 1)} : t \in 0..(NT - 1), l \in 0..LB}
         \union UNION {{RNode(t, l, i) : i \in 0..(2 ^ (LB - 1 - l) - 1)} : t \in 0..(NT - 1), l \in 0..(LB - 1)}
         \union UNION {{UNode(l, i) : i \in 0..(2 ^ (UP - l) - 1)} : l \in 0..UP}
         \union {Rec(r) : r \in Recs}
BitsTerms == {<<-2, x, y>> : x, y \in {0, 1}} \union {x \in Terms : x[1] = -2}
Init == /\ log = [i \in 0..(N - 1) |-> i]           \* records contain their serial number
        /\ flags \in {[i \in 0..(N - 1) |-> IF i < Free THEN f[i] ELSE (i \div 2) % 2] : f \in [0..(Free - 1) -> {0, 1}]}
        /\ pf \in {Proof(s) : s \in 0..(N - 1)}
\* up to two alterations of a true proof
Alter(p) == {[p EXCEPT !.sn = s] : s \in 0..(4 * N - 1)}
       \union {[p EXCEPT !.rec = r] : r \in Recs}
       \union {[p EXCEPT !.bits = b] : b \in BitsTerms}
       \union {[p EXCEPT !.left[l] = x] : l \in 1..LB, x \in Terms}
       \union {[p EXCEPT !.right[l] = x] : l \in 1..(LB - 1), x \in Terms}
       \union {[p EXCEPT !.up[l] = x] : l \in 1..Len(p.up), x \in Terms}
       \union {[p EXCEPT !.up = SubSeq(@, 1, k)] : k \in 0..Len(p.up)}
       \union {[p EXCEPT !.up = Append(@, x)] : x \in Terms}
Next == pf' \in Alter(pf) /\ UNCHANGED <<log, flags>>
Spec == Init /\ [][Next]_vars
Few == TLCGet("level") <= Depth
Complete == TLCGet("level") = 1 => Verify(pf)
Sound == Verify(pf) =>
           /\ pf.sn < N /\ pf.rec = log[pf.sn]
           /\ pf.bits = Bits(pf.sn \div NL, (pf.sn % NL) \div 2)
           /\ pf = Proof(pf.sn)
=============================================================================
