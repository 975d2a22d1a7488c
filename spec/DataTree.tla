------------------------------ MODULE DataTree ------------------------------
(* One data tree: twigs of records under a growing binary tree.               *)
(* A hash is a symbolic term, so two hashes are equal exactly when everything *)
(* below them is.  The tree keeps only some of its nodes: EndBlock refreshes  *)
(* the nodes above touched twigs, eviction replaces a twig by its root,       *)
(* pruning forgets nodes and hands out the edge nodes that a later recovery   *)
(* needs.  A twig's content is a small number:                                *)
(*   0 no record, 1 some records, 2 full, 3 full and partly dead, 4 all dead  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
FL == 13                                  \* first level above the twigs
NullTwig == <<-1>>
NullAt(L) == <<-L>>                       \* stands at the right of the highest nodes
Leaf(t, c) == IF c = 0 THEN NullTwig ELSE <<100 * t + c>>
Bad == <<-999>>
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Shr(n, k) == n \div (2 ^ k)
MaxLevel(y) == FL + Log2(y)               \* y >= 1
MaxN(y, L) == Shr(y, L - (FL - 1))        \* the last node of a level that is not null
\* the commitment, from the contents alone
RECURSIVE Node(_, _, _, _)
Node(c, y, L, i) ==
  IF L = FL - 1 THEN (IF i > y THEN NullTwig ELSE Leaf(i, c[i]))
  ELSE IF i > MaxN(y, L) THEN NullAt(L + 1)
  ELSE <<Node(c, y, L - 1, 2 * i), Node(c, y, L - 1, 2 * i + 1)>>
RefRoot(c, y) == Node(c, y, MaxLevel(y), 0)

\* a tree: y youngest twig, ev twigs below ev are evicted, tr roots of the active twigs as last
\* synced, nodes the kept nodes (a function over <<level, n>>), bad: a needed node was missing
Has(x, p) == p \in DOMAIN x.nodes
PutN(x, p, v) == [x EXCEPT !.nodes = [q \in DOMAIN x.nodes \union {p} |-> IF q = p THEN v ELSE x.nodes[q]]]
TwigRoot(x, t) == IF t >= x.ev /\ t <= x.y THEN x.tr[t]
                  ELSE IF Has(x, <<FL - 1, t>>) THEN x.nodes[<<FL - 1, t>>] ELSE Bad
Active(x, t) == t >= x.ev /\ t <= x.y
Known(x, t) == Active(x, t) \/ Has(x, <<FL - 1, t>>)
RECURSIVE SyncList(_, _, _)
SyncList(x, L, l) ==
  IF l = <<>> THEN x ELSE
  LET i == Head(l)
      x1 == IF L = FL
            THEN LET lt == TwigRoot(x, 2 * i)
                     rt == IF Known(x, 2 * i + 1) THEN TwigRoot(x, 2 * i + 1) ELSE NullTwig
                 IN [PutN(x, <<L, i>>, <<lt, rt>>) EXCEPT !.bad = @ \/ ~Known(x, 2 * i)]
            ELSE LET pl == <<L - 1, 2 * i>>
                     pr == <<L - 1, 2 * i + 1>>
                     edgy == 2 * i = MaxN(x.y, L - 1) \/ 2 * i + 1 = MaxN(x.y, L - 1)
                     x2 == IF Has(x, pr) THEN x ELSE [PutN(x, pr, NullAt(L)) EXCEPT !.bad = @ \/ ~edgy]
                 IN IF ~Has(x, pl) THEN [x EXCEPT !.bad = TRUE]
                    ELSE PutN(x2, <<L, i>>, <<x2.nodes[pl], x2.nodes[pr]>>)
  IN SyncList(x1, L, Tail(l))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o Sorted(S \ {m})
Halve(S) == {i \div 2 : i \in S}
RECURSIVE SyncUp(_, _, _)
SyncUp(x, L, S) == IF L > MaxLevel(x.y) THEN x ELSE SyncUp(SyncList(x, L, Sorted(S)), L + 1, Halve(S))
Root(x) == IF Has(x, <<MaxLevel(x.y), 0>>) THEN x.nodes[<<MaxLevel(x.y), 0>>] ELSE Bad
\* one block: new contents c (up to twig y2), touched twigs T, then the oldest k twigs leave
Block(x, c, y2, T, k) ==
  LET x1 == [x EXCEPT !.y = y2,
                      !.tr = [t \in x.ev..y2 |-> IF t \in T \/ t > x.y THEN Leaf(t, c[t]) ELSE x.tr[t]]]
      x2 == SyncUp(x1, FL, Halve(T))
      Ev(a, j) == [PutN(a, <<FL - 1, x.ev + j - 1>>, a.tr[x.ev + j - 1]) EXCEPT !.ev = @ + 1,
                     !.tr = [t \in (x.ev + j)..y2 |-> a.tr[t]]]
      RECURSIVE Evs(_, _)
      Evs(a, j) == IF j > k THEN a ELSE Evs(Ev(a, j), j + 1)
  IN Evs(x2, 1)
\* pruning the twigs below e; s is where the last pruning stopped
Even(n) == n - (n % 2)
RoundDown(e, L) == IF e % 2 # 0 /\ L # FL - 1 THEN e - 1 ELSE e
Useless(x, s, e) == UNION {{<<L, i>> : i \in (Shr(s, L - (FL - 1)) - 1)..(Even(Shr(e, L - (FL - 1))) - 1)}
                           : L \in (FL - 1)..MaxLevel(x.y)}
EdgePos(x, e) == {<<L, RoundDown(Shr(e, L - (FL - 1)), L)>> : L \in (FL - 1)..MaxLevel(x.y)}
Prune(x, s, e) ==
  LET x1 == [x EXCEPT !.nodes = [p \in DOMAIN x.nodes \ Useless(x, s, e) |-> x.nodes[p]]]
  IN [x1 EXCEPT !.bad = @ \/ \E p \in EdgePos(x1, e) : ~Has(x1, p)]
Edges(x, e) == LET P == EdgePos(x, e) \intersect DOMAIN x.nodes IN [p \in P |-> x.nodes[p]]
\* rebuilding from the files: the records of the active twigs, the roots of evicted twigs from the
\* twig file (its head is kept from the left sibling of pr - 1 on), the saved edge nodes
DeadRoot(t) == Leaf(t, 4)

Recover(c, y, ev, pr, edge, keptFrom) ==
  LET s0 == Even(pr)
      x0 == [y |-> y, ev |-> ev, tr |-> [t \in ev..y |-> Leaf(t, c[t])],
             nodes |-> [p \in {<<FL - 1, t>> : t \in s0..(ev - 1)} |-> DeadRoot(p[2])],
             bad |-> s0 < ev /\ s0 < keptFrom]
      s1 == IF \E p \in DOMAIN edge : p[1] = FL - 1 /\ p[2] > s0
            THEN (CHOOSE p \in DOMAIN edge : p[1] = FL - 1 /\ p[2] > s0)[2] ELSE s0
      x1 == [x0 EXCEPT !.nodes = [p \in DOMAIN x0.nodes \union DOMAIN edge |->
                                    IF p \in DOMAIN edge THEN edge[p] ELSE x0.nodes[p]]]
  IN SyncUp(x1, FL, Halve((s1..(ev - 1)) \union (ev..y)))
\* a proof for a record of twig t: the path verifies up to the root
RECURSIVE PathOK(_, _, _, _)
PathOK(x, h, L, n) ==       \* h is the hash at <<L, n>>, computed from below
  IF L = MaxLevel(x.y) THEN h = Root(x)
  ELSE LET q == <<L, IF n % 2 = 0 THEN n + 1 ELSE n - 1>>
       IN /\ Has(x, <<L, n>>) /\ x.nodes[<<L, n>>] = h /\ Has(x, q)
          /\ PathOK(x, IF n % 2 = 0 THEN <<h, x.nodes[q]>> ELSE <<x.nodes[q], h>>, L + 1, n \div 2)
ProofOK(x, t) ==
  LET u == IF t % 2 = 0 THEN t + 1 ELSE t - 1
      peer == IF Known(x, u) THEN TwigRoot(x, u) ELSE NullTwig
      self == TwigRoot(x, t)
  IN Known(x, t) /\ PathOK(x, IF t % 2 = 0 THEN <<self, peer>> ELSE <<peer, self>>, FL, t \div 2)
=============================================================================
