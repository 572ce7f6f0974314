-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* A field selector as a value: a sequence of components, its text form,   *)
(* its order, and its sequence operations (C15).                           *)
(* Components: <<"s", codepoints>>, <<"i", n>>, <<"n">> (the wildcard).    *)
(* The state is one selector object; the actions are the calls on it.      *)
(***************************************************************************)
EXTENDS PySeq, Json

CONSTANTS Starts, Comps, Others, Bounds, MaxLen
VARIABLES st
vars == <<st>>

-----------------------------------------------------------------------------
(* Text *)
IsDigit(c) == c >= 48 /\ c <= 57
IsStart(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
\* beyond ASCII the drivers use one word character (233) and one other (8217)
IsWord(c)  == IsStart(c) \/ IsDigit(c) \/ c = 233
Dot == 46   LBr == 91   RBr == 93   Quote == 39   Bsl == 92   Star == 42   Minus == 45

RECURSIVE Digits(_)
Digits(n) == (IF n >= 10 THEN Digits(n \div 10) ELSE <<>>) \o <<48 + (n % 10)>>
IntText(n) == IF n < 0 THEN <<Minus>> \o Digits(-n) ELSE Digits(n)

RECURSIVE Escaped(_)
Escaped(s) == IF s = <<>> THEN <<>>
              ELSE (IF s[1] \in {Quote, Bsl} THEN <<Bsl>> ELSE <<>>) \o <<s[1]>> \o Escaped(Tail(s))
IsIdent(s) == s # <<>> /\ IsStart(s[1]) /\ \A k \in 1..Len(s) : IsWord(s[k])
CompText(c) == CASE c[1] = "i" -> <<LBr>> \o IntText(c[2]) \o <<RBr>>
                 [] c[1] = "n" -> <<LBr, Star, RBr>>
                 [] OTHER -> IF IsIdent(c[2]) THEN <<Dot>> \o c[2]
                             ELSE <<LBr, Quote>> \o Escaped(c[2]) \o <<Quote, RBr>>
RECURSIVE Text(_)
Text(p) == IF p = <<>> THEN <<>> ELSE CompText(p[1]) \o Text(Tail(p))

\* the scanner
RECURSIVE WordEnd(_, _), KeyScan(_, _, _), NumScan(_, _, _)
WordEnd(t, k) == IF k <= Len(t) /\ IsWord(t[k]) THEN WordEnd(t, k + 1) ELSE k
KeyScan(t, k, acc) == IF t[k] = Bsl THEN KeyScan(t, k + 2, Append(acc, t[k + 1]))
                      ELSE IF t[k] = Quote THEN <<acc, k + 1>>
                      ELSE KeyScan(t, k + 1, Append(acc, t[k]))
NumScan(t, k, n) == IF IsDigit(t[k]) THEN NumScan(t, k + 1, 10 * n + t[k] - 48) ELSE <<n, k>>
RECURSIVE Scan(_, _)
Scan(t, k) ==
  IF k > Len(t) THEN <<>>
  ELSE IF t[k] = Dot
  THEN LET e == WordEnd(t, k + 1) IN << <<"s", SubSeq(t, k + 1, e - 1)>> >> \o Scan(t, e)
  ELSE IF t[k + 1] = Quote
  THEN LET r == KeyScan(t, k + 2, <<>>) IN << <<"s", r[1]>> >> \o Scan(t, r[2] + 1)
  ELSE IF t[k + 1] = Star THEN << <<"n">> >> \o Scan(t, k + 3)
  ELSE IF t[k + 1] = Minus
  THEN LET r == NumScan(t, k + 2, 0) IN << <<"i", -r[1]>> >> \o Scan(t, r[2] + 1)
  ELSE LET r == NumScan(t, k + 1, 0) IN << <<"i", r[1]>> >> \o Scan(t, r[2] + 1)
Parse(t) == Scan(t, 1)

-----------------------------------------------------------------------------
(* Order *)
RECURSIVE StrLt(_, _)
StrLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE StrLt(Tail(a), Tail(b))
FirstDiff(a, b) == LET d == { k \in 1..Min2(Len(a), Len(b)) : a[k] # b[k] }
                   IN  IF d = {} THEN 0 ELSE CHOOSE k \in d : \A m \in d : k <= m
Comparable(a, b) == LET d == FirstDiff(a, b) IN d = 0 \/ a[d][1] = b[d][1]
Lt(a, b) == LET d == FirstDiff(a, b) IN
            IF d = 0 THEN Len(a) < Len(b)
            ELSE IF a[d][1] = "i" THEN a[d][2] < b[d][2] ELSE StrLt(a[d][2], b[d][2])
RECURSIVE Insert(_, _), Sorted(_)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF Lt(x, s[1]) THEN <<x>> \o s ELSE <<s[1]>> \o Insert(Tail(s), x)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(Tail(s)), s[1])

IsPrefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]

-----------------------------------------------------------------------------
Out(r, post) == { [res |-> r, post |-> post] }
Ok(v) == <<"ok", v>>
OkN == <<"ok", <<"n">>>>
Er(k) == <<"err", k>>

Outcomes(s, op) ==
  LET o == op[1] IN
  CASE o = "new" -> Out(OkN, op[3])                    \* from a list, tuple, generator or selector
    [] o = "newbad" -> Out(Er("value"), s)
    [] o = "addprop" -> Out(OkN, Append(s, op[2]))
    [] o = "addidx" -> Out(OkN, Append(s, op[2]))
    [] o = "addfull" -> Out(OkN, Append(s, <<"n">>))
    [] o = "addpropbad" -> Out(Er("value"), s)
    [] o = "addidxbad" -> Out(Er("value"), s)
    [] o = "extend" -> Out(OkN, s \o op[2])
    [] o = "extendself" -> Out(OkN, s \o s)
    \* looking never changes it; results are plain values
    [] o = "path" -> Out(Ok(Text(s)), s)
    [] o = "reparse" -> Out(Ok(s), s)
    [] o \in {"repr", "copy", "deepcopy", "pickle"} -> Out(Ok(s), s)
    [] o = "len" -> Out(Ok(Len(s)), s)
    [] o = "index" -> IF Pos(Len(s), op[2]) = -1 THEN Out(Er("index"), s) ELSE Out(Ok(s[Pos(Len(s), op[2]) + 1]), s)
    [] o = "slice" -> Out(Ok(SeqSlice(s, op[2], op[3], op[4])), s)
    [] o = "iter" -> Out(Ok(s), s)
    [] o = "starts1" -> Out(Ok(Len(s) > 0 /\ s[1] = op[2]), s)
    [] o = "starts" -> Out(Ok(IsPrefix(op[3], s)), s)
    [] o = "plus1" -> Out(Ok(Append(s, op[2])), s)
    [] o = "plus" -> Out(Ok(s \o op[3]), s)
    [] o = "plusself" -> Out(Ok(s \o s), s)
    [] o = "plusbad" -> Out(Er("type"), s)
    [] o = "eq" -> Out(Ok(s = op[2]), s)
    [] o = "ne" -> Out(Ok(s # op[2]), s)
    [] o = "lt" -> Out(IF Comparable(s, op[2]) THEN Ok(Lt(s, op[2])) ELSE Er("type"), s)
    [] o = "gt" -> Out(IF Comparable(s, op[2]) THEN Ok(Lt(op[2], s)) ELSE Er("type"), s)
    [] o = "le" -> Out(IF Comparable(s, op[2]) THEN Ok(~Lt(op[2], s)) ELSE Er("type"), s)
    [] o = "ge" -> Out(IF Comparable(s, op[2]) THEN Ok(~Lt(s, op[2])) ELSE Er("type"), s)
    [] o = "sort" -> Out(Ok(Sorted(op[2])), s)

StrC == { c \in Comps : c[1] = "s" }
IntC == { c \in Comps : c[1] = "i" }
Muts == { <<"addprop", c>> : c \in StrC } \cup { <<"addidx", c>> : c \in IntC } \cup
        { <<"extend", p>> : p \in Others } \cup { <<"addfull">>, <<"extendself">> }
News == { <<"new", src, p>> : src \in {"list", "tuple", "gen", "fs"}, p \in Others }
Looks == { <<o>> : o \in {"path", "reparse", "repr", "copy", "deepcopy", "len", "iter", "plusself", "plusbad",
                          "newbad", "addpropbad", "addidxbad"} } \cup
         { <<"pickle", n>> : n \in 0..5 } \cup
         { <<"index", i>> : i \in -4..4 } \cup
         { <<"slice", i, j, k>> : i \in Bounds, j \in Bounds, k \in {1, 2, -1} } \cup
         { <<"starts1", c>> : c \in Comps \cup {<<"n">>} } \cup
         { <<"starts", src, p>> : src \in {"fs", "list", "tuple"}, p \in Others } \cup
         { <<"plus1", c>> : c \in Comps } \cup
         { <<"plus", src, p>> : src \in {"fs", "list", "tuple"}, p \in Others } \cup
         { <<o, p>> : o \in {"eq", "ne", "lt", "le", "gt", "ge"}, p \in Others }
Enabled == Looks \cup (IF Len(st) < MaxLen THEN Muts ELSE {}) \cup (IF Len(st) = 1 THEN News ELSE {})

Init == st \in Starts
Step(op) == \E x \in Outcomes(st, op) :
              /\ st' = x.post
              /\ PrintT("@@" \o ToJson([c |-> 0, pre |-> st, op |-> op, res |-> x.res, post |-> x.post]))
Next == \E op \in Enabled : Step(op)

-----------------------------------------------------------------------------
(* The properties, on the specification *)
RoundTrip == Parse(Text(st)) = st
LooksLook == \A op \in Looks : \A x \in Outcomes(st, op) : x.post = st
\* a strict total order on mutually comparable selectors
Order ==
  /\ ~Lt(st, st)
  /\ \A p \in Others : Comparable(st, p) =>
       /\ Cardinality({ b \in {1, 2, 3} : (b = 1 /\ Lt(st, p)) \/ (b = 2 /\ Lt(p, st)) \/ (b = 3 /\ p = st) }) = 1
       /\ IsPrefix(st, p) /\ p # st => Lt(st, p)
       /\ \A q \in Others : (Comparable(p, q) /\ Comparable(st, q) /\ Lt(st, p) /\ Lt(p, q)) => Lt(st, q)
Concat == \A p \in Others : LET r == Ok(st \o p) IN
            /\ IsPrefix(st, st \o p)
            /\ SeqSlice(st \o p, << >>, <<Len(st)>>, 1) = st
            /\ SeqSlice(st \o p, <<Len(st)>>, << >>, 1) = p
=============================================================================
