------------------------------- MODULE Rabbit -------------------------------
(* The rabbit store: an exact map on top of a store whose short keys collide *)
(* ("rabbit jump").  Every key has an endless path of slots; it lives in the *)
(* first slot of its path which was free when it was inserted, and every     *)
(* slot before that counts it as passing by.  A deleted key whose slot is    *)
(* still passed by leaves an empty hole.                                     *)
(*                                                                           *)
(* st: [base, cache]: the holes of the parent store and the holes which the  *)
(* open transaction has written (d: to be deleted).                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS Slots,       \* set of slots
          Keys,        \* set of keys
          Path(_)      \* key -> sequence of slots (long enough never to end)
Nothing == -1
NoHole == [k |-> 0, v |-> Nothing, e |-> FALSE, p |-> 0, d |-> FALSE]
Hole(k, v) == [k |-> k, v |-> v, e |-> FALSE, p |-> 0, d |-> FALSE]
NoHoles == [s \in Slots |-> NoHole]
Empty == [base |-> NoHoles, cache |-> NoHoles]

\* what the transaction sees at a slot
At(st, s) == LET c == st.cache[s] IN IF c = NoHole THEN st.base[s] ELSE IF c.d THEN NoHole ELSE c
Put(st, s, h) == [st EXCEPT !.cache[s] = h]

\* the number of path slots looked at, and what was met at the last one
RECURSIVE FindFrom(_, _, _, _)
FindFrom(st, k, early, i) ==
  LET h == At(st, Path(k)[i])
  IN IF h = NoHole THEN [n |-> i, s |-> "none"]
     ELSE IF h.k = k THEN [n |-> i, s |-> IF h.e THEN "empty" ELSE "here"]
     ELSE IF early /\ h.p = 0 THEN [n |-> i, s |-> "none"]
     ELSE FindFrom(st, k, early, i + 1)
Find(st, k, early) == FindFrom(st, k, early, 1)

Get(st, k) == LET f == Find(st, k, TRUE)
              IN IF f.s = "here" THEN At(st, Path(k)[f.n]).v ELSE Nothing

Pass(st, s, dp) ==
  LET h == At(st, s)
      q == [h EXCEPT !.p = @ + dp]
  IN Put(st, s, IF dp < 0 /\ q.p = 0 /\ q.e THEN [q EXCEPT !.d = TRUE] ELSE q)
PassAll(st, k, n, dp) == FoldLeft(LAMBDA x, i : Pass(x, Path(k)[i], dp), st, [i \in 1..n |-> i])

Set(st, k, v) ==
  LET f == Find(st, k, FALSE)
      s == Path(k)[f.n]
  IN CASE f.s = "here"  -> Put(st, s, [At(st, s) EXCEPT !.v = v])
       [] f.s = "empty" -> PassAll(Put(st, s, [At(st, s) EXCEPT !.v = v, !.e = FALSE]), k, f.n - 1, 1)
       [] f.s = "none"  -> PassAll(Put(st, s, Hole(k, v)), k, f.n - 1, 1)

Del(st, k) ==
  LET f == Find(st, k, TRUE)
      s == Path(k)[f.n]
      h == At(st, s)
  IN IF f.s # "here" THEN st
     ELSE PassAll(Put(st, s, IF h.p = 0 THEN [h EXCEPT !.d = TRUE] ELSE [h EXCEPT !.e = TRUE, !.v = Nothing]),
                  k, f.n - 1, -1)

WriteBack(st) == [base |-> [s \in Slots |-> At(st, s)], cache |-> NoHoles]
Discard(st) == [st EXCEPT !.cache = NoHoles]

Apply(st, o) == CASE o[1] = "set" -> Set(st, o[2], o[3])
                  [] o[1] = "del" -> Del(st, o[2])
                  [] OTHER -> st

----------------------------------------------------------------------------
\* m, the map the transaction must show
MapOK(st, m) == \A k \in Keys : Get(st, k) = m[k]
HoleCount(st) == Cardinality({s \in Slots : At(st, s) # NoHole})
\* every hole counts exactly the keys that pass by it, and only needed holes exist
Home(st, k) == CHOOSE i \in 1..Len(Path(k)) : At(st, Path(k)[i]).k = k /\ ~At(st, Path(k)[i]).e
PassOK(st, m) ==
  LET live == {k \in Keys : m[k] # Nothing}
      home == [k \in live |-> Home(st, k)]
      by(s) == FoldSet(LAMBDA k, acc : acc + Cardinality({i \in 1..(home[k] - 1) : Path(k)[i] = s}), 0, live)
  IN \A s \in Slots : LET h == At(st, s) IN
       /\ h # NoHole => h.p = by(s) /\ (h.e => h.p > 0)
       /\ h = NoHole => by(s) = 0
NoLeftOver(st, m) == (\A k \in Keys : m[k] = Nothing) => HoleCount(st) = 0

----------------------------------------------------------------------------
\* Transactions that run side by side on one base.
\* the slots which an operation looks at, in order, and those of them that hold something
LookedN(st, o) == Find(st, o[2], o[1] # "set").n
Looked(st, o) == {Path(o[2])[j] : j \in 1..LookedN(st, o)}
Occupied(st, S) == {s \in S : At(st, s) # NoHole}
Changed(st) == {s \in Slots : st.cache[s] # NoHole}
\* a whole transaction: what it saw, where it looked, which occupied slots it met
RunAll(st, ops) ==
  FoldLeft(LAMBDA a, o : [s |-> Apply(a.s, o),
                          g |-> IF o[1] = "get" THEN Append(a.g, Get(a.s, o[2])) ELSE a.g,
                          foot |-> a.foot \cup Looked(a.s, o),
                          seen |-> a.seen \cup Occupied(a.s, Looked(a.s, o)),
                          n |-> Append(a.n, FindFrom(a.s, o[2], TRUE, 1).n)],
           [s |-> st, g |-> <<>>, foot |-> {}, seen |-> {}, n |-> <<>>], ops)
\* what a finished transaction has written, put on top of another base
Overlay(base, tx) == [s \in Slots |-> LET c == tx.cache[s] IN IF c = NoHole THEN base[s] ELSE IF c.d THEN NoHole ELSE c]
\* a2, run on the same base as a1, may be written back after it as if it had run after it
AsIfAfter(b, a1, t2, a2) ==
  LET later == RunAll([base |-> Overlay(b, a1.s), cache |-> NoHoles], t2)
  IN /\ later.g = a2.g
     /\ Overlay(Overlay(b, a1.s), later.s) = Overlay(Overlay(b, a1.s), a2.s)
SideBySide(b, a1, t2, a2) == Changed(a1.s) \cap a2.foot = {} => AsIfAfter(b, a1, t2, a2)
\* too weak: looking only at what the transaction holds misses the lookups that met nothing
SideBySideHeld(b, a1, t2, a2) == Changed(a1.s) \cap (a2.seen \cup Changed(a2.s)) = {} => AsIfAfter(b, a1, t2, a2)
=============================================================================
