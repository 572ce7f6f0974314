-------------------------------- MODULE AutoRec --------------------------------
(***************************************************************************)
(* Auto JSON records (C25): any JSON document, with its keys as attributes.*)
(*                                                                         *)
(* Keys are sequences of characters.  Values: <<"n">>, <<"i",n>>,          *)
(* <<"s",string>>, <<"list",T,members>>, <<"dict",entries>>,               *)
(* <<"rec",T,declared slots,other attributes>>; entries are pairs of key   *)
(* and value in the order of their keys.  T is "R" for the class with two  *)
(* declared properties (b_a, written bA, and n, an integer), "A" for the   *)
(* automatic ones, and "py" for plain lists.  nc: keys are not converted.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES st      \* <<nc, record>>
vars == <<st>>

\* characters, in order
Chars == <<"1", "A", "B", "_", "a", "b", "n">>
Lowers == {"a", "b", "n"}
Small(c) == c \in {"1", "a", "b", "n"}
Lower(c) == IF c = "A" THEN "a" ELSE "b"
Upper(c) == CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "n" -> "N"
ToSet(s) == { s[k] : k \in 1..Len(s) }
\* attribute name for a key, and back
RECURSIVE In(_), Out(_)
In(k) == IF Len(k) < 2 THEN k
         ELSE IF Small(k[1]) /\ k[2] \in {"A", "B"} THEN <<k[1], "_", Lower(k[2])>> \o In(SubSeq(k, 3, Len(k)))
         ELSE <<k[1]>> \o In(Tail(k))
Out(k) == IF Len(k) < 3 THEN k
          ELSE IF Small(k[1]) /\ k[2] = "_" /\ k[3] \in Lowers THEN <<k[1], Upper(k[3])>> \o Out(SubSeq(k, 4, Len(k)))
          ELSE <<k[1]>> \o Out(Tail(k))

Rank(c) == CHOOSE q \in 1..Len(Chars) : Chars[q] = c
RECURSIVE Less(_, _)
Less(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE ELSE IF x[1] # y[1] THEN Rank(x[1]) < Rank(y[1]) ELSE Less(Tail(x), Tail(y))
Has(es, k) == \E q \in 1..Len(es) : es[q][1] = k
Get(es, k) == es[CHOOSE q \in 1..Len(es) : es[q][1] = k][2]
Del(es, k) == SelectSeq(es, LAMBDA e : e[1] # k)
Put(es, k, v) == LET r == Del(es, k) IN SelectSeq(r, LAMBDA e : Less(e[1], k)) \o << <<k, v>> >> \o SelectSeq(r, LAMBDA e : Less(k, e[1]))
RECURSIVE PutAll(_, _)
PutAll(es, xs) == IF xs = <<>> THEN es ELSE PutAll(Put(es, xs[1][1], xs[1][2]), Tail(xs))

BA == <<"b", "_", "a">>      \* the declared slots
N == <<"n">>
JBA == <<"b", "A">>
Err == <<"err">>
Declared(T, k) == T = "R" /\ k \in {BA, N}

-----------------------------------------------------------------------------
(* Reading a document *)
RECURSIVE Load(_, _), LoadA(_, _)
LoadA(nc, es) == <<"rec", "A", <<>>, PutAll(<<>>, [q \in 1..Len(es) |-> <<IF nc THEN es[q][1] ELSE In(es[q][1]), Load(nc, es[q][2])>>])>>
Load(nc, v) == CASE v[1] = "dict" -> LoadA(nc, v[2])
                 [] v[1] = "list" /\ v[3] # <<>> /\ (\A m \in ToSet(v[3]) : m[1] = "dict") -> <<"list", "A", [q \in 1..Len(v[3]) |-> LoadA(nc, v[3][q][2])]>>
                 [] OTHER -> v
LoadR(nc, es) ==
  LET own == SelectSeq(es, LAMBDA e : e[1] \in {JBA, N})
      rest == SelectSeq(es, LAMBDA e : e[1] \notin {JBA, N})
  IN IF Has(es, N) /\ Get(es, N)[1] # "i" THEN Err
     ELSE <<"rec", "R", PutAll(<<>>, [q \in 1..Len(own) |-> <<IF own[q][1] = N THEN N ELSE BA, own[q][2]>>]), LoadA(nc, rest)[4]>>

(* Writing one *)
RECURSIVE Write(_, _)
Write(nc, v) ==
  CASE v[1] = "rec" -> <<"dict", PutAll(PutAll(<<>>, [q \in 1..Len(v[4]) |-> <<IF nc THEN v[4][q][1] ELSE Out(v[4][q][1]), Write(nc, v[4][q][2])>>]),
                                        [q \in 1..Len(v[3]) |-> <<IF v[3][q][1] = N THEN N ELSE JBA, Write(nc, v[3][q][2])>>])>>
    [] v[1] = "list" -> <<"list", "py", [q \in 1..Len(v[3]) |-> Write(nc, v[3][q])]>>
    [] v[1] = "dict" -> <<"dict", [q \in 1..Len(v[2]) |-> <<v[2][q][1], Write(nc, v[2][q][2])>>]>>
    [] OTHER -> v
\* two attributes that would be written under one key
RECURSIVE Clash(_, _)
Clash(nc, v) == CASE v[1] = "rec" -> (\/ \E j, k \in 1..Len(v[4]) : j # k /\ ~nc /\ Out(v[4][j][1]) = Out(v[4][k][1])
                                      \/ v[2] = "R" /\ \E k \in 1..Len(v[4]) : (IF nc THEN v[4][k][1] ELSE Out(v[4][k][1])) \in {JBA, N})
                                     \/ \E e \in ToSet(v[3]) \cup ToSet(v[4]) : Clash(nc, e[2])
                  [] v[1] = "list" -> \E m \in ToSet(v[3]) : Clash(nc, m)
                  [] OTHER -> FALSE

\* two keys which are read as one attribute
RECURSIVE Merged(_, _)
Merged(nc, v) == CASE v[1] = "dict" -> (~nc /\ \E j, k \in 1..Len(v[2]) : j # k /\ In(v[2][j][1]) = In(v[2][k][1])) \/ \E e \in ToSet(v[2]) : Merged(nc, e[2])
                   [] v[1] = "list" -> \E m \in ToSet(v[3]) : Merged(nc, m)
                   [] OTHER -> FALSE

-----------------------------------------------------------------------------
Attr(v, k) == IF Declared(v[2], k) THEN (IF Has(v[3], k) THEN Get(v[3], k) ELSE Err)
              ELSE IF Has(v[4], k) THEN Get(v[4], k) ELSE Err
SetAttr(v, k, x) == IF Declared(v[2], k) THEN [v EXCEPT ![3] = Put(@, k, x)] ELSE [v EXCEPT ![4] = Put(@, k, x)]
DelAttr(v, k) == IF Declared(v[2], k) THEN [v EXCEPT ![3] = Del(@, k)] ELSE [v EXCEPT ![4] = Del(@, k)]
\* a path: attribute names, and the (1-based) numbers of members
RECURSIVE At(_, _), Edit(_, _, _)
At(v, p) == IF p = <<>> THEN v
            ELSE IF v[1] = "rec" /\ p[1][1] = "k" THEN (IF Attr(v, p[1][2]) = Err THEN Err ELSE At(Attr(v, p[1][2]), Tail(p)))
            ELSE IF v[1] = "list" /\ p[1][1] = "x" THEN (IF p[1][2] \in 1..Len(v[3]) THEN At(v[3][p[1][2]], Tail(p)) ELSE Err)
            ELSE Err
Edit(v, p, new) == IF p = <<>> THEN new
                   ELSE IF v[1] = "rec" THEN SetAttr(v, p[1][2], Edit(Attr(v, p[1][2]), Tail(p), new))
                   ELSE [v EXCEPT ![3][p[1][2]] = Edit(@, Tail(p), new)]

\* a plain list of objects, which a list of records may be said to equal
RECURSIVE Loose(_)
Loose(v) == CASE v[1] = "rec" -> \E e \in ToSet(v[3]) \cup ToSet(v[4]) : Loose(e[2])
              [] v[1] = "list" -> (v[2] = "py" /\ v[3] # <<>> /\ \A m \in ToSet(v[3]) : m[1] = "dict") \/ \E m \in ToSet(v[3]) : Loose(m)
              [] OTHER -> FALSE

O(res, post) == {[res |-> res, post |-> post]}
\* what is assigned: a plain value, or an auto record made of it
Given(nc, w) == IF w[1] = "new" THEN LoadA(nc, w[2][2]) ELSE w
Outcomes(s, op) ==
  LET nc == s[1]
      v == s[2]
      x == IF Len(op) > 1 /\ op[1] # "load" THEN At(v, op[2]) ELSE v
      New(y) == <<nc, Edit(v, op[2], y)>>
      Ok(post) == O(<<"ok">>, post)
      Reload == LET d == Write(nc, v) IN IF v[2] = "R" THEN LoadR(nc, d[2]) ELSE LoadA(nc, d[2])
  IN
  CASE op[1] = "write" -> IF Clash(nc, v) THEN {} ELSE O(<<"ok", Write(nc, v)>>, s)
    [] op[1] = "load" -> IF Merged(nc, op[2]) THEN {} ELSE LET w == LoadR(nc, op[2][2]) IN IF w = Err THEN O(<<"err">>, s) ELSE Ok(<<nc, w>>)
    [] op[1] = "reload" -> IF Clash(nc, v) THEN {} ELSE IF Reload = Err THEN O(<<"err">>, s) ELSE Ok(<<nc, Reload>>)
    [] op[1] = "same" -> IF Clash(nc, v) \/ Reload = Err \/ (Reload # v /\ Loose(v)) THEN {} ELSE O(<<"ok", Reload = v>>, s)
    [] op[1] \in {"copy", "pickle"} -> Ok(s)
    [] x = Err \/ x[1] \notin {"rec", "list"} -> {}
    [] op[1] = "append" -> IF x[1] = "list" /\ x[2] = "A" THEN Ok(New([x EXCEPT ![3] = Append(@, LoadA(nc, op[3][2]))])) ELSE {}
    [] x[1] # "rec" -> {}
    [] op[1] = "get" -> LET y == Attr(x, op[3]) IN IF y = Err THEN O(<<"missing">>, s) ELSE O(<<"ok", y>>, s)
    [] op[1] = "has" -> O(<<"ok", Attr(x, op[3]) # Err>>, s)
    [] op[1] = "set" -> LET w == Given(nc, op[4]) IN
                        IF x[2] = "R" /\ op[3] = N /\ w[1] # "i" THEN O(<<"err">>, s) ELSE Ok(New(SetAttr(x, op[3], w)))
    [] op[1] = "del" -> IF Attr(x, op[3]) = Err THEN O(<<"missing">>, s) ELSE Ok(New(DelAttr(x, op[3])))
Step(op) == \E o \in Outcomes(st, op) :
              /\ st' = o.post
              /\ PrintT("@@" \o ToJson([c |-> 0, pre |-> st, op |-> op, res |-> o.res, post |-> o.post]))
=============================================================================
