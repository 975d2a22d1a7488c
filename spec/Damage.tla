------------------------------- MODULE Damage -------------------------------
(* Opening a database whose record files or twig files were altered.          *)
(* Files are sequences of cells.  A record is                                 *)
(*   M n len p* E body sn d1..dn pad                                          *)
(* M: the marker; n: how many deactivated numbers follow; len: number of      *)
(* cells from the position list up to sn; p*: where markers inside the body   *)
(* were cleared; body: key, length of the value, value.  Records start at     *)
(* multiples of Align.  A full twig has a row in the twig file: position of   *)
(* its first record, a check of that position, its root, its two leaves.      *)
(* A hash is a symbolic term.  Opening reads the rows and records that the    *)
(* metadata (not altered) calls for and compares the root with the recorded   *)
(* one.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS CheckRoot, CheckLen, CheckPos, CheckProof
M == 9
E == 8
Align == 4
TwigSize == 2
Fail == [fail |-> TRUE]
Up(n) == ((n + Align - 1) \div Align) * Align
Zeros(n) == [i \in 1..n |-> 0]

\* ---- records
Body(r) == <<r.key, Len(r.val)>> \o r.val
RECURSIVE Marks(_, _)
Marks(b, i) == IF i > Len(b) THEN <<>> ELSE (IF b[i] = M THEN <<i>> ELSE <<>>) \o Marks(b, i + 1)
Encode(r) ==
  LET b == Body(r)
      ps == Marks(b, 1)
      pl == [i \in 1..Len(ps) |-> Len(ps) + ps[i]] \o <<E>>     \* counted from the end of the list's first cell
      cb == [i \in 1..Len(b) |-> IF b[i] = M THEN 0 ELSE b[i]]
  IN <<Len(r.d), Len(pl) + Len(b) + 1>> \o pl \o cb \o <<r.sn>> \o r.d
OnDisk(r) == LET e == Encode(r) IN <<M>> \o e \o Zeros(Up(1 + Len(e)) - 1 - Len(e))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

Cells(f, a, n) == IF a < 1 \/ n < 0 \/ a + n - 1 > Len(f) THEN Fail ELSE [fail |-> FALSE, c |-> SubSeq(f, a, a + n - 1)]
\* undo the clearing: walk the list until E; refuse a position outside
RECURSIVE Restore(_, _)
Restore(b, i) ==
  IF i > Len(b) THEN Fail
  ELSE IF b[i] = E THEN [fail |-> FALSE, b |-> b, n |-> i]
  ELSE IF b[i] + 1 > Len(b) \/ b[i] + 1 < 1 THEN Fail
  ELSE Restore([b EXCEPT ![b[i] + 1] = M], i + 1)
\* read the record at cell a
ReadRec(f, a) ==
  LET hd == Cells(f, a, 3) IN
  IF hd.fail THEN Fail ELSE IF hd.c[1] # M THEN Fail ELSE
  LET n == hd.c[2]
      len == hd.c[3]
      raw == Cells(f, a + 3, len)                      \* without the deactivated numbers
      all == Cells(f, a + 3, len + n)
  IN IF all.fail \/ raw.fail THEN Fail ELSE
  LET r == Restore(all.c, 1) IN
  IF r.fail THEN Fail ELSE
  LET b == SubSeq(r.b, r.n + 1, len + n) IN
  IF Len(b) < 3 \/ len < 1 THEN Fail ELSE
  LET vl == b[2] IN
  IF Len(b) < 3 + vl + n THEN Fail
  ELSE IF CheckLen /\ Len(b) # 3 + vl + n THEN Fail
  ELSE [fail |-> FALSE, next |-> a + Up(3 + len + n), rawsn |-> raw.c[len],
        raw |-> SubSeq(f, a + 1, a + 2 + len + n),
        rec |-> [key |-> b[1], val |-> SubSeq(b, 3, 2 + vl), sn |-> b[3 + vl], d |-> SubSeq(b, 4 + vl, 3 + vl + n)]]
\* the records from cell a on, <<position, what was read>>
RECURSIVE Scan(_, _)
Scan(f, a) ==
  IF a > Len(f) THEN [fail |-> FALSE, l |-> <<>>]
  ELSE LET r == ReadRec(f, a) IN
       IF r.fail THEN Fail
       ELSE LET t == Scan(f, r.next) IN IF t.fail THEN Fail ELSE [fail |-> FALSE, l |-> <<<<a, r>>>> \o t.l]

\* ---- trees
Twig(sn) == sn \div TwigSize
LeafOf(r) == <<"leaf">> \o Encode(r)
NoLeaf == <<"none">>
Chk(p) == <<"chk", p>>
Row(pos, l) == <<<<"pos", pos>>, Chk(pos), <<"root", l[1], l[2]>>, l[1], l[2]>>
\* metadata: old, the oldest active twig; size; root
TreeRoot(old, rows, leaves, bits, top) ==
  [t \in 0..top |-> IF t < old THEN <<rows[t + 1][3], <<FALSE, FALSE>>>>
                    ELSE <<<<"root", leaves[2 * t], leaves[2 * t + 1]>>, <<bits[2 * t], bits[2 * t + 1]>>>>]

\* opening; meta: [old, size, top, root]
Open(meta, f0, rows) ==
  LET f == IF Len(f0) >= meta.size THEN SubSeq(f0, 1, meta.size) ELSE f0 \o Zeros(meta.size - Len(f0))
  IN IF meta.old + 1 > Len(rows) THEN Fail ELSE
  LET row == rows[meta.old + 1] IN
  IF CheckPos /\ row[2] # Chk(row[1][2]) THEN Fail
  ELSE LET s == Scan(f, row[1][2]) IN
  IF s.fail THEN Fail ELSE
  LET l == s.l
      lo == TwigSize * meta.old
      hi == TwigSize * (meta.top + 1) - 1
      sns == {l[j][2].rec.sn : j \in 1..Len(l)}
  IN IF \E sn \in sns : sn \notin lo..hi THEN Fail ELSE    \* no such twig
  LET last(sn) == CHOOSE j \in 1..Len(l) : l[j][2].rec.sn = sn /\ \A k \in (j + 1)..Len(l) : l[k][2].rec.sn # sn
      deads == UNION {{l[j][2].rec.d[k] : k \in 1..Len(l[j][2].rec.d)} : j \in 1..Len(l)}
      leaves == [sn \in lo..hi |-> IF sn \in sns THEN LeafOf(l[last(sn)][2].rec) ELSE NoLeaf]
      bits == [sn \in lo..hi |-> sn \in sns /\ sn \notin deads]
      root == TreeRoot(meta.old, rows, leaves, bits, meta.top)
  IN IF \E d \in deads : d > hi THEN Fail
     ELSE IF CheckRoot /\ root # meta.root THEN Fail
     ELSE IF \E j \in 1..Len(l) : l[j][2].rawsn \notin lo..hi THEN Fail
     ELSE LET act == {j \in 1..Len(l) : bits[l[j][2].rawsn]}
              keys == {l[j][2].rec.key : j \in act}
              at(k) == CHOOSE j \in act : l[j][2].rec.key = k /\ \A q \in act : q > j => l[q][2].rec.key # k
          IN [fail |-> FALSE, leaves |-> leaves, bits |-> bits,
              db |-> [k \in keys |-> [key |-> k, val |-> l[at(k)][2].rec.val, sn |-> l[at(k)][2].rec.sn]],
              pos |-> [k \in keys |-> l[at(k)][1]], root |-> root, f |-> f, rows |-> rows]
\* a proof of key k: the record's cells, its leaf and peer, the rest of the tree
Proof(meta, o, k) ==
  LET r == ReadRec(o.f, o.pos[k]) IN
  IF r.fail THEN Fail ELSE
  LET sn == r.rec.sn
      t == Twig(sn) IN
  IF t > meta.top THEN Fail ELSE
  LET two == IF t < meta.top THEN <<o.rows[t + 1][4], o.rows[t + 1][5]>> ELSE <<o.leaves[2 * t], o.leaves[2 * t + 1]>>
      self == two[1 + (sn % 2)]
      good == <<"leaf">> \o r.raw = self /\ <<"root", two[1], two[2]>> = o.root[t][1]
  IN IF CheckProof /\ ~good THEN Fail ELSE [fail |-> FALSE, raw |-> r.raw, two |-> two, t |-> t, sn |-> sn, rest |-> [o.root EXCEPT ![t] = 0]]
ProofHolds(meta, p, sn) ==
  /\ p.sn = sn
  /\ p.two[1 + (sn % 2)] = <<"leaf">> \o p.raw
  /\ meta.root[p.t][1] = <<"root", p.two[1], p.two[2]>>
  /\ p.rest = [meta.root EXCEPT ![p.t] = 0]

\* ---- what becomes of an alteration, by the part it touches
\* c: [kind, part, ...] as in the concrete cases; m: [old, lp]
\* A record's part: magic n len plist body tail (heights, serial number) dead | span (a cleared marker) pad
EdgeTwig(m) == m.lp + 1
Outcome(c, m) ==
  CASE c.kind = "none" -> "same"
    [] c.kind = "rec" -> IF c.twig < m.old THEN "same"
                         ELSE IF c.part \in {"span", "pad"} THEN "same" ELSE "refused"
    [] c.kind = "gap" -> "same"                       \* between two record files
    [] c.kind = "pos" -> IF c.twig = m.old THEN "refused" ELSE "same"
    [] c.kind = "node" -> IF c.node = 1 /\ c.twig < m.old /\
                             (c.twig > EdgeTwig(m) \/ m.lp = -1 \/ (c.twig = m.lp /\ m.lp % 2 = 0))
                          THEN "refused" ELSE "same"
    [] c.kind = "longer" -> "same"                    \* bytes after the end
    [] c.kind = "cut" -> IF c.bytes <= c.pad THEN "same" ELSE "refused"
    [] c.kind = "cuttwig" -> IF c.twig < m.old THEN "either" ELSE IF c.twig = m.old /\ c.pos THEN "refused" ELSE "same"
    [] c.kind = "missing" -> IF c.needed THEN "refused" ELSE "either"
    [] OTHER -> "either"
\* altered while the database is open: a proof of the record on whose cells, leaf or path the alteration lies
LiveOutcome(c) ==
  CASE c.kind = "liverec" -> IF c.part = "pad" THEN "given" ELSE "refused"
    [] c.kind = "livenode" -> IF c.part \in {"leaf", "peer"} THEN "refused" ELSE "given"
IsLive(c) == c.kind \in {"liverec", "livenode"}
=============================================================================
