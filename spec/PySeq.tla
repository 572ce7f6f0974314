------------------------------- MODULE PySeq -------------------------------
(***************************************************************************)
(* Python's index and slice arithmetic on sequences (0-based positions;    *)
(* an optional bound is <<>> when omitted and <<n>> when given).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* position of index i in a sequence of length n, or -1
Pos(n, i) == IF i >= 0 /\ i < n THEN i ELSE IF i < 0 /\ i + n >= 0 THEN i + n ELSE -1

SliceStart(n, i, st) ==
  IF st > 0
  THEN IF i = <<>> THEN 0
       ELSE IF i[1] < 0 THEN Max2(i[1] + n, 0) ELSE Min2(i[1], n)
  ELSE IF i = <<>> THEN n - 1
       ELSE IF i[1] < 0 THEN Max2(i[1] + n, -1) ELSE Min2(i[1], n - 1)
SliceStop(n, j, st) ==
  IF st > 0
  THEN IF j = <<>> THEN n
       ELSE IF j[1] < 0 THEN Max2(j[1] + n, 0) ELSE Min2(j[1], n)
  ELSE IF j = <<>> THEN -1
       ELSE IF j[1] < 0 THEN Max2(j[1] + n, -1) ELSE Min2(j[1], n - 1)

SliceLen(a, b, st) ==
  IF st > 0 THEN IF b > a THEN (b - a + st - 1) \div st ELSE 0
  ELSE IF a > b THEN (a - b - st - 1) \div (-st) ELSE 0

\* the 0-based positions selected by [i:j:st], in order
SlicePos(n, i, j, st) ==
  LET a == SliceStart(n, i, st)  b == SliceStop(n, j, st)
  IN  [k \in 1..SliceLen(a, b, st) |-> a + (k - 1) * st]

SeqSlice(s, i, j, st) ==
  LET p == SlicePos(Len(s), i, j, st) IN [k \in 1..Len(p) |-> s[p[k] + 1]]

SeqDelSlice(s, i, j, st) ==
  LET p == SlicePos(Len(s), i, j, st)
      gone == { p[k] : k \in 1..Len(p) }
      RECURSIVE Keep(_)
      Keep(k) == IF k > Len(s) THEN <<>>
                 ELSE (IF (k - 1) \in gone THEN <<>> ELSE <<s[k]>>) \o Keep(k + 1)
  IN  Keep(1)

\* plain (step 1) slice assignment
SeqSetSlice(s, i, j, new) ==
  LET a == SliceStart(Len(s), i, 1)
      b == Max2(a, SliceStop(Len(s), j, 1))
  IN  SubSeq(s, 1, a) \o new \o SubSeq(s, b + 1, Len(s))

\* extended slice assignment, when the sizes agree
SeqSetExt(s, i, j, st, new) ==
  LET p == SlicePos(Len(s), i, j, st) IN
  [k \in 1..Len(s) |->
     IF \E q \in 1..Len(p) : p[q] = k - 1
     THEN new[CHOOSE q \in 1..Len(p) : p[q] = k - 1] ELSE s[k]]

Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

SeqInsert(s, i, x) ==
  LET a == SliceStart(Len(s), <<i>>, 1)
  IN  SubSeq(s, 1, a) \o <<x>> \o SubSeq(s, a + 1, Len(s))

SeqDelAt(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))

RECURSIVE InsertSorted(_, _)
InsertSorted(s, x) == IF s = <<>> THEN <<x>>
                      ELSE IF x < Head(s) THEN <<x>> \o s
                      ELSE <<Head(s)>> \o InsertSorted(Tail(s), x)
RECURSIVE SortInts(_)
SortInts(s) == IF s = <<>> THEN <<>> ELSE InsertSorted(SortInts(Tail(s)), Head(s))

Count(s, x) == Cardinality({ k \in 1..Len(s) : s[k] = x })
\* first position of x at or after lo and before hi, or -1
FindIn(s, x, lo, hi) ==
  LET c == { k \in 1..Len(s) : s[k] = x /\ k - 1 >= lo /\ k - 1 < hi }
  IN  IF c = {} THEN -1 ELSE (CHOOSE k \in c : \A m \in c : k <= m) - 1
=============================================================================
