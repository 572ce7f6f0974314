--------------------------------- MODULE Typed ---------------------------------
(***************************************************************************)
(* Values, their conversions, and the supplied typed properties (C27).     *)
(*                                                                         *)
(* Values: <<"n">>, <<"b",0|1>>, <<"i",n>>, <<"mi",n>> (an int subclass),  *)
(* <<"f",m,e>> and <<"dec",m,e>> (the number m*10^e, m not divisible by    *)
(* 10), <<"nan">>, <<"inf">>, <<"c">> (complex), <<"s",characters>>,       *)
(* <<"ms",characters>> (a str subclass), <<"by",characters>>,              *)
(* <<"d",y,m,d>>, <<"md",y,m,d>> (a date subclass), <<"dt",y,m,d,h,mi,s,us>>, <<"t">> (a time), <<"l">>.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

ToSet(s) == { s[q] : q \in 1..Len(s) }
Err == <<"error">>
Free == <<"free">>
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digit(c) == c \in ToSet(Digits)
DigitVal(c) == (CHOOSE q \in 1..10 : Digits[q] = c) - 1
RECURSIVE Num(_), Pow10(_), Strip(_), Chars(_, _)
Num(s) == IF s = <<>> THEN 0 ELSE 10 * Num(SubSeq(s, 1, Len(s) - 1)) + DigitVal(s[Len(s)])
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Strip(s) == IF s # <<>> /\ s[1] = " " THEN Strip(Tail(s)) ELSE IF s # <<>> /\ s[Len(s)] = " " THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* n in exactly w digits
Chars(n, w) == IF w = 0 THEN <<>> ELSE Append(Chars(n \div 10, w - 1), Digits[(n % 10) + 1])
AllDigits(s) == s # <<>> /\ \A c \in ToSet(s) : Digit(c)
Unsign(s) == IF s # <<>> /\ s[1] \in {"+", "-"} THEN Tail(s) ELSE s
Sign(s) == IF s # <<>> /\ s[1] = "-" THEN -1 ELSE 1
Without(s, c) == SelectSeq(s, LAMBDA x : x # c)
\* digits with single underscores between them
Grouped(s) == s # <<>> /\ Digit(s[1]) /\ Digit(s[Len(s)]) /\ (\A c \in ToSet(s) : Digit(c) \/ c = "_") /\ \A q \in 1..(Len(s) - 1) : s[q] = "_" => s[q + 1] # "_"

\* the integer a string denotes
ParseInt(str) ==
  LET s == Strip(str) u == Unsign(s) IN
  IF ~Grouped(u) THEN Err ELSE IF Len(Without(u, "_")) > 9 THEN Free ELSE <<"i", Sign(s) * Num(Without(u, "_"))>>
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 10 = 0 THEN Norm(m \div 10, e + 1) ELSE <<m, e>>
SNorm(sg, m, e) == LET n == Norm(m, e) IN <<"f", sg * n[1], n[2]>>
Pos(s, c) == IF c \in ToSet(s) THEN CHOOSE q \in 1..Len(s) : s[q] = c /\ \A r \in 1..(q - 1) : s[r] # c ELSE 0
\* the float a string denotes
ParseFloat(str) ==
  LET s == Strip(str)
      u == Unsign(s)
      ep == Pos(u, "e")
      mant == IF ep = 0 THEN u ELSE SubSeq(u, 1, ep - 1)
      ex == IF ep = 0 THEN <<"0">> ELSE SubSeq(u, ep + 1, Len(u))
      dp == Pos(mant, ".")
      ip == IF dp = 0 THEN mant ELSE SubSeq(mant, 1, dp - 1)
      fp == IF dp = 0 THEN <<>> ELSE SubSeq(mant, dp + 1, Len(mant))
  IN
  IF u = <<"n", "a", "n">> THEN <<"nan">>
  ELSE IF u = <<"i", "n", "f">> THEN <<"inf">>
  ELSE IF "_" \in ToSet(u) THEN Free
  ELSE IF ~AllDigits(ip \o fp) \/ ~AllDigits(Unsign(ex)) THEN Err
  ELSE IF Len(ip \o fp) > 8 \/ Len(Unsign(ex)) > 2 THEN Free
  ELSE SNorm(Sign(s), Num(ip \o fp), Sign(ex) * Num(Unsign(ex)) - Len(fp))

\* m*10^e truncated
Trunc(m, e) == IF e >= 0 THEN m * Pow10(e)
               ELSE IF e < -9 THEN 0
               ELSE IF m >= 0 THEN m \div Pow10(-e) ELSE -((-m) \div Pow10(-e))
\* int() and float() of a value; truncation is neither promised nor ruled out
ToInt(v) ==
  CASE v[1] \in {"i", "mi", "b"} -> {<<"i", v[2]>>}
    [] v[1] \in {"f", "dec"} -> IF v[3] > 4 THEN {Free} ELSE IF v[3] >= 0 THEN {<<"i", Trunc(v[2], v[3])>>} ELSE {<<"i", Trunc(v[2], v[3])>>, Err}
    [] v[1] \in {"s", "ms"} -> {ParseInt(v[2])}
    [] v[1] = "by" -> {Free}
    [] OTHER -> {Err}
ToFloat(v) ==
  CASE v[1] \in {"i", "mi", "b"} -> LET n == v[2] IN {SNorm(IF n < 0 THEN -1 ELSE 1, IF n < 0 THEN -n ELSE n, 0)}
    [] v[1] = "dec" -> {<<"f", v[2], v[3]>>}
    [] v[1] \in {"f", "nan", "inf"} -> {v}
    [] v[1] \in {"s", "ms"} -> {ParseFloat(v[2])}
    [] v[1] = "by" -> {Free}
    [] OTHER -> {Err}

\* dates
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
ValidDate(y, m, d) == y >= 1 /\ m \in 1..12 /\ d \in 1..MonthDays(y, m)
At(s, q, w) == SubSeq(s, q, q + w - 1)
DateShape(s) == \/ Len(s) = 8 /\ AllDigits(s)
                \/ Len(s) = 10 /\ s[5] = "-" /\ s[8] = "-" /\ AllDigits(At(s, 1, 4) \o At(s, 6, 2) \o At(s, 9, 2))
DateOf(s) == LET t == Without(s, "-") IN <<Num(At(t, 1, 4)), Num(At(t, 5, 2)), Num(At(t, 7, 2))>>
\* HH:MM, HH:MM:SS and HH:MM:SS.ffffff
TimeShape(s) == /\ Len(s) \in {5, 8, 15}
                /\ s[3] = ":" /\ AllDigits(At(s, 1, 2) \o At(s, 4, 2))
                /\ (Len(s) >= 8 => s[6] = ":" /\ AllDigits(At(s, 7, 2)))
                /\ (Len(s) = 15 => s[9] = "." /\ AllDigits(At(s, 10, 6)))
TimeOf(s) == <<Num(At(s, 1, 2)), Num(At(s, 4, 2)), IF Len(s) >= 8 THEN Num(At(s, 7, 2)) ELSE 0, IF Len(s) = 15 THEN Num(At(s, 10, 6)) ELSE 0>>
\* strings in ISO form are understood; what else may be is not promised
ParseDatetime(s) ==
  LET tp == Pos(s, "T") sp == Pos(s, " ") p == IF tp # 0 THEN tp ELSE sp
      ds == IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
      ts == IF p = 0 THEN <<>> ELSE SubSeq(s, p + 1, Len(s)) IN
  IF ~(\E c \in ToSet(s) : Digit(c)) THEN Err
  ELSE IF ~DateShape(ds) \/ (p # 0 /\ ~TimeShape(ts)) THEN Free
  ELSE LET d == DateOf(ds) t == IF p = 0 THEN <<0, 0, 0, 0>> ELSE TimeOf(ts) IN
       IF ~ValidDate(d[1], d[2], d[3]) \/ t[1] > 23 \/ t[2] > 59 THEN (IF p = 0 /\ Len(ds) = 10 THEN Err ELSE Free)
       ELSE IF t[3] > 59 THEN Free ELSE <<"dt">> \o d \o t
ToDatetime(v) ==
  CASE v[1] = "dt" -> {v}
    [] v[1] \in {"d", "md"} -> {<<"dt", v[2], v[3], v[4], 0, 0, 0, 0>>}
    [] v[1] \in {"s", "ms"} -> {ParseDatetime(v[2])}
    [] OTHER -> {Err}
ToDate(v) == IF v[1] = "d" THEN {v}
             ELSE { IF w[1] = "dt" THEN <<"d", w[2], w[3], w[4]>> ELSE w : w \in ToDatetime(v) }
Iso(v) == LET date == Chars(v[2], 4) \o <<"-">> \o Chars(v[3], 2) \o <<"-">> \o Chars(v[4], 2) IN
          IF v[1] \in {"d", "md"} THEN date
          ELSE date \o <<"T">> \o Chars(v[5], 2) \o <<":">> \o Chars(v[6], 2) \o <<":">> \o Chars(v[7], 2)
               \o (IF v[8] = 0 THEN <<>> ELSE <<".">> \o Chars(v[8], 6))

Ints == {"i", "mi", "b"}
Strs == {"s", "ms"}
\* the supplied types: the kinds they hold, and what other values become
Kinds(T) == CASE T \in {"int", "long", "integer"} -> Ints
              [] T = "number" -> Ints \cup {"f", "dec", "nan", "inf", "c"}
              [] T = "float" -> {"f", "nan", "inf"}
              [] T \in {"string", "unicode"} -> Strs
              [] T = "date" -> {"d", "md"}
              [] T = "datetime" -> {"dt"}
Conforms(T, v) == v[1] \in Kinds(T)
Convert(T, v) ==
  IF Conforms(T, v) THEN {v}
  ELSE CASE T \in {"int", "long", "integer"} -> ToInt(v)
         [] T = "number" -> IF v[1] \in Strs THEN (LET i == ParseInt(v[2]) IN IF i = Err THEN {ParseFloat(v[2])} ELSE {i}) ELSE ToFloat(v)
         [] T = "float" -> ToFloat(v)
         [] T = "string" -> {Free}       \* whether other values are refused or written out
         [] T = "unicode" -> {Err}
         [] T = "date" -> ToDate(v)
         [] T = "datetime" -> ToDatetime(v)
TypeNames == {"int", "long", "integer", "number", "float", "string", "unicode", "date", "datetime"}

-----------------------------------------------------------------------------
(* A JSON record with one slot of type T; slot is <<>> or <<value>>.       *)
O(res, post) == {[res |-> res, post |-> post]}
\* what a slot holds as JSON
Json1(v) == IF v[1] \in {"d", "md", "dt"} THEN <<"s", Iso(v)>> ELSE IF v[1] = "mi" THEN <<"i", v[2]>> ELSE IF v[1] = "ms" THEN <<"s", v[2]>> ELSE v
InJson(v) == v[1] \notin {"dec", "c", "by", "nan", "inf"}
Put(T, slot, v) == UNION { IF w = Err THEN O(<<"err">>, slot) ELSE IF w = Free THEN {} ELSE O(<<"ok">>, <<w>>) : w \in Convert(T, v) }
Outcomes(T, slot, op) ==
  CASE op[1] = "set" -> IF Free \in Convert(T, op[2]) THEN {} ELSE Put(T, slot, op[2])
    [] op[1] = "new" /\ op[2] = <<"n">> /\ T \in {"string", "unicode"} -> {}     \* may give a record without the value
    [] op[1] = "new" -> IF Free \in Convert(T, op[2]) THEN {} ELSE Put(T, slot, op[2])     \* refused: the old record stays
    [] op[1] = "load" -> IF Free \in Convert(T, op[2]) \/ ~InJson(op[2]) \/ op[2][1] \notin {"i", "b", "f", "s"} THEN {} ELSE Put(T, slot, op[2])
    [] op[1] = "get" -> IF slot = <<>> THEN O(<<"unset">>, slot) ELSE O(<<"ok", slot[1]>>, slot)
    [] op[1] = "json" -> IF slot = <<>> THEN O(<<"ok">>, slot) ELSE IF InJson(slot[1]) THEN O(<<"ok", Json1(slot[1])>>, slot) ELSE {}
    [] op[1] = "reload" -> IF slot = <<>> THEN O(<<"ok">>, slot) ELSE IF InJson(slot[1]) THEN O(<<"ok">>, <<CHOOSE w \in Convert(T, Json1(slot[1])) : TRUE>>) ELSE {}
    [] OTHER -> {}
=============================================================================
