------------------------------ MODULE JsonRec ------------------------------
(***************************************************************************)
(* JSON in and out of records (C10, C11, C12).                             *)
(*                                                                         *)
(* JSON values: <<"i",n>>, <<"big",digits>> (an int of more than 32 bits), *)
(* <<"f",text>>, <<"s",str>>, <<"b",bool>>, <<"n">>, <<"arr",<<v...>>>>    *)
(* and <<"obj",<<<<key,v>>...>>>> with the keys in KeyOrder.               *)
(* Python values: the same scalars, <<"money",n>>, records                 *)
(* <<"rec",T,<<<<slot,v>>...>>,unknown>> where unknown is <<"none">> or a  *)
(* JSON object, and collections <<"list",class,item,<<v...>>>>,            *)
(* <<"dict",class,item,<<<<key,v>>...>>>> of class "J" (JsonRecordList,    *)
(* JsonRecordDict) or "P" (plain).  Slots holding untyped values hold      *)
(* JSON values, or records, <<"money",n>> and plain containers of such:    *)
(* <<"pylist",vs>>, <<"pytup",vs>>, <<"pyset",vs>>, <<"pyfset",vs>> and    *)
(* <<"pydict",entries>>.  JSub2 is a subclass of JSub, and may be where a JSub may. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS KeyOrder, Docs, Edits, MaxLevel
VARIABLES st
vars == <<st>>

(* The schema: slot, JSON key ("-" where suppressed), kind, flags:          *)
(* "x" extraneous, "d" has default 7, "r" required                         *)
Fields(T) ==
  CASE T = "JRoot" -> <<
         <<"n", "n", <<"int">>, {}>>, <<"name", "Name", <<"str">>, {}>>, <<"secret", "-", <<"str">>, {}>>,
         <<"note", "remark", <<"str">>, {"x"}>>, <<"cv", "cv", <<"conv">>, {}>>, <<"cash", "cash", <<"money">>, {}>>,
         <<"any", "any", <<"any">>, {}>>, <<"dflt", "d", <<"int">>, {"d"}>>,
         <<"sub", "sub", <<"rec", "JSub">>, {}>>, <<"psub", "pSub", <<"rec", "PSub">>, {}>>, <<"keep", "keep", <<"rec", "JKeep">>, {}>>,
         <<"jl", "jList", <<"list", "J", "JItem">>, {}>>, <<"jlp", "jlp", <<"list", "J", "PItem">>, {}>>,
         <<"jn", "jn", <<"list", "J", "int">>, {}>>, <<"pl", "pl", <<"list", "P", "JItem">>, {}>>,
         <<"plp", "plp", <<"list", "P", "PItem">>, {}>>, <<"nums", "nums", <<"list", "P", "int">>, {}>>,
         <<"jd", "jd", <<"dict", "J", "JItem">>, {}>>, <<"pd", "pd", <<"dict", "P", "PItem">>, {}>>,
         <<"opt", "opt", <<"opt">>, {}>>, <<"jll", "jll", <<"list", "J", "JL">>, {}>>, <<"pll", "pll", <<"list", "P", "PL">>, {}>> >>
    [] T = "JSub2" -> << <<"x", "X", <<"int">>, {}>>, <<"leaf", "leaf", <<"rec", "PItem">>, {}>>, <<"w", "W", <<"int">>, {}>> >>
    [] T = "JSub"  -> << <<"x", "X", <<"int">>, {}>>, <<"leaf", "leaf", <<"rec", "PItem">>, {}>> >>
    [] T = "PSub"  -> << <<"y", "Y", <<"int">>, {}>>, <<"inner", "in", <<"rec", "JSub">>, {}>>, <<"ps", "Ps", <<"list", "J", "PItem">>, {}>> >>
    [] T = "JItem" -> << <<"id", "ID", <<"int">>, {"r"}>>, <<"t", "t", <<"str">>, {}>>, <<"sub", "sub", <<"rec", "JSub">>, {}>> >>
    [] T = "PItem" -> << <<"k", "k", <<"str">>, {"r"}>>, <<"v", "V", <<"int">>, {}>>, <<"e", "e", <<"int">>, {"x"}>> >>
    [] T = "JKeep" -> << <<"a", "a", <<"int">>, {}>>, <<"blank", "", <<"int">>, {}>> >>
    [] T = "PRoot" -> << <<"a", "a", <<"rec", "JSub">>, {}>>, <<"b", "b", <<"list", "P", "PItem">>, {}>>, <<"c", "C", <<"int">>, {}>> >>
JsonTypes == {"JRoot", "JSub", "JSub2", "JItem", "JKeep"}
IsJson(T) == T \in JsonTypes
Scalars == {"int", "str"}
Colls == "JL" :> <<"list", "J", "JItem">> @@ "JD" :> <<"dict", "J", "JItem">> @@
         "PL" :> <<"list", "P", "PItem">> @@ "PD" :> <<"dict", "P", "PItem">>
ItemKind(n) == IF n \in Scalars THEN <<n>> ELSE IF n \in DOMAIN Colls THEN Colls[n] ELSE <<"rec", n>>
TopKind(T) == IF T \in DOMAIN Colls THEN Colls[T] ELSE <<"rec", T>>

-----------------------------------------------------------------------------
KPos(k) == CHOOSE q \in 1..Len(KeyOrder) : KeyOrder[q] = k
RECURSIVE InsE(_, _), SortE(_)
InsE(s, e) == IF s = <<>> THEN <<e>> ELSE IF KPos(e[1]) < KPos(s[1][1]) THEN <<e>> \o s ELSE <<s[1]>> \o InsE(Tail(s), e)
SortE(s) == IF s = <<>> THEN <<>> ELSE InsE(SortE(Tail(s)), s[1])
RECURSIVE Canon(_)
Canon(v) ==
  CASE v[1] = "arr" -> <<"arr", [k \in 1..Len(v[2]) |-> Canon(v[2][k])]>>
    [] v[1] = "obj" -> <<"obj", SortE([k \in 1..Len(v[2]) |-> <<v[2][k][1], Canon(v[2][k][2])>>])>>
    [] OTHER -> v
HasE(es, k) == \E q \in 1..Len(es) : es[q][1] = k
AtE(es, k) == CHOOSE q \in 1..Len(es) : es[q][1] = k
GetE(es, k) == es[AtE(es, k)][2]
DelE(es, k) == SelectSeq(es, LAMBDA e : e[1] # k)

-----------------------------------------------------------------------------
(* Scalars *)
Bigs == {"1125899906842623", "1125899906842624", "1125899906842625", "-1125899906842624", "-1125899906842625",
         "100000000000000000000000000000"}
\* beyond 2**50, either way
Over == {"1125899906842625", "-1125899906842625", "100000000000000000000000000000"}
Nums == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "7" :> 7 @@ "12" :> 12
Fail == <<"fail">>
ToInt(v) == CASE v[1] \in {"i", "big", "b"} -> v
              [] v[1] = "s" /\ v[2] \in Bigs -> <<"big", v[2]>>
              [] v[1] = "s" /\ v[2] \in DOMAIN Nums -> <<"i", Nums[v[2]]>>
              [] v[1] = "f" -> <<"i", 1>>          \* only 1.5 is used
              [] OTHER -> Fail
ToStr(v) == CASE v[1] = "s" -> v
              [] v[1] = "i" -> <<"s", ToString(v[2])>>
              [] v[1] \in {"big", "f"} -> <<"s", v[2]>>
              [] v[1] = "b" -> <<"s", IF v[2] THEN "True" ELSE "False">>
              [] v[1] = "n" -> <<"s", "None">>
              [] OTHER -> <<"s", "?">>             \* not specified; not used
\* cv: JSON "x1" and such; json_in strips the x, then the value is coerced
ConvIn == "x0" :> "0" @@ "x1" :> "1" @@ "x2" :> "2" @@ "x7" :> "7" @@ "xz" :> "z"
ConvOut(v) == CASE v[1] = "i" -> <<"s", "x" \o ToString(v[2])>>
MoneyIn == "m1" :> 1 @@ "m2" :> 2

-----------------------------------------------------------------------------
(* Reading.  The result is <<"ok",value>> or <<"err",{<<path,why>>...}>>,  *)
(* of which any one may be reported.  own: the path of the enclosing       *)
(* record or JSON collection; at: of the value itself.                     *)
OkV(v) == <<"ok", v>>
ErV(s) == <<"err", s>>
IsErr(r) == r[1] = "err"
Comp(k) == <<"s", k>>
Ix(i) == <<"i", i>>

\* all values, or all errors
Gather(rs) == LET bad == { k \in 1..Len(rs) : IsErr(rs[k]) } IN
              IF bad # {} THEN ErV(UNION { rs[k][2] : k \in bad }) ELSE OkV([k \in 1..Len(rs) |-> rs[k][2]])
Has(fl, x) == x \in fl
Slot(T, k) == LET F == Fields(T) IN F[CHOOSE q \in 1..Len(F) : F[q][2] = k]
Claimed(T) == { Fields(T)[q][2] : q \in 1..Len(Fields(T)) } \ {"-"}

RECURSIVE Load(_, _, _, _), LoadRec(_, _, _, _)
Load(kind, v, own, at) ==
  CASE kind[1] = "any" -> OkV(v)
    [] kind[1] = "int" -> LET r == ToInt(v) IN IF r = Fail THEN ErV({<<own, "conv">>}) ELSE OkV(r)
    [] kind[1] = "str" -> OkV(ToStr(v))
    [] kind[1] = "conv" ->
         IF v[1] # "s" \/ v[2] \notin DOMAIN ConvIn THEN ErV({<<at, "jsonin">>})
         ELSE LET r == ToInt(<<"s", ConvIn[v[2]]>>) IN IF r = Fail THEN ErV({<<own, "conv">>}) ELSE OkV(r)
    [] kind[1] = "opt" -> IF v[1] = "n" THEN OkV(<<"i", 0>>) ELSE Load(<<"int">>, v, own, at)
    [] kind[1] = "money" ->
         IF v[1] = "s" /\ v[2] \in DOMAIN MoneyIn THEN OkV(<<"money", MoneyIn[v[2]]>>) ELSE ErV({<<at, "jsonin">>})
    [] kind[1] = "rec" ->
         CASE v[1] = "obj" -> LoadRec(kind[2], v[2], at, {})
           [] v[1] = "n" -> LoadRec(kind[2], <<>>, at, {})
           [] OTHER -> ErV({<<at, "conv">>} \cup (IF IsJson(kind[2]) THEN {} ELSE {<<own, "conv">>}))
    [] kind[1] = "list" ->
         CASE v[1] = "arr" ->
                LET rs == [k \in 1..Len(v[2]) |->
                             LET p == Append(at, Ix(k - 1)) IN
                             Load(ItemKind(kind[3]), v[2][k],
                                  IF kind[2] = "P" THEN own ELSE IF kind[3] \in Scalars THEN at ELSE p, p)]
                    g == Gather(rs)
                IN  IF IsErr(g) THEN g ELSE OkV(<<"list", kind[2], kind[3], g[2]>>)
           [] v[1] = "n" -> OkV(<<"list", kind[2], kind[3], <<>>>>)
           [] OTHER -> ErV({<<at, "conv">>} \cup (IF kind[2] = "J" THEN {} ELSE {<<own, "conv">>}))
    [] kind[1] = "dict" ->
         CASE v[1] = "obj" ->
                LET rs == [k \in 1..Len(v[2]) |->
                             LET p == Append(at, Comp(v[2][k][1])) IN
                             Load(<<"rec", kind[3]>>, v[2][k][2], IF kind[2] = "J" THEN p ELSE own, p)]
                    g == Gather(rs)
                IN  IF IsErr(g) THEN g ELSE OkV(<<"dict", kind[2], kind[3], [k \in 1..Len(v[2]) |-> <<v[2][k][1], g[2][k]>>]>>)
           [] v[1] = "n" -> OkV(<<"dict", kind[2], kind[3], <<>>>>)
           [] OTHER -> ErV({<<at, "conv">>} \cup (IF kind[2] = "J" THEN {} ELSE {<<own, "conv">>}))

\* given: slots whose value is passed in otherwise, as <<slot, value>>
LoadRec(T, es, at, given) ==
  LET F == Fields(T)
      isgiven(q) == \E g \in given : g[1] = F[q][1]
      there(q) == F[q][2] # "-" /\ HasE(es, F[q][2])
      r(q) == IF isgiven(q) THEN OkV((CHOOSE g \in given : g[1] = F[q][1])[2])
              ELSE IF there(q) THEN Load(F[q][3], GetE(es, F[q][2]), at, Append(at, Comp(F[q][2])))
              ELSE IF Has(F[q][4], "d") THEN OkV(<<"i", 7>>)
              ELSE OkV(<<"absent">>)
      bad == UNION { IF IsErr(r(q)) THEN r(q)[2] ELSE {} : q \in 1..Len(F) }
      missing == \E q \in 1..Len(F) : Has(F[q][4], "r") /\ r(q) = OkV(<<"absent">>)
      unk == SelectSeq(es, LAMBDA e : e[1] \notin Claimed(T))
      own == (IF missing THEN {<<at, "required">>} ELSE {}) \cup
             (IF ~IsJson(T) /\ unk # <<>> THEN {<<at, "unknown">>} ELSE {})
      all == SelectSeq([q \in 1..Len(F) |-> <<F[q][1], r(q)>>], LAMBDA e : e[2] # OkV(<<"absent">>))
  IN  IF bad \cup own # {} THEN ErV(bad \cup own)
      ELSE OkV(<<"rec", T, [q \in 1..Len(all) |-> <<all[q][1], all[q][2][2]>>],
                 IF unk = <<>> THEN <<"none">> ELSE <<"obj", unk>> >>)

LoadTop(T, v) == Load(TopKind(T), v, <<>>, <<>>)

-----------------------------------------------------------------------------
(* Writing *)
\* plain containers which hold something that JSON has not
PyLists == {"pylist", "pytup", "pyset", "pyfset"}
RECURSIVE Dump(_, _)
Dump(v, ext) ==
  CASE v[1] = "money" -> <<"s", "m" \o ToString(v[2])>>
    [] v[1] = "big" -> IF v[2] \in Over THEN <<"s", v[2]>> ELSE v
    [] v[1] \in {"arr"} \cup PyLists -> <<"arr", [k \in 1..Len(v[2]) |-> Dump(v[2][k], ext)]>>
    [] v[1] \in {"obj", "pydict"} -> <<"obj", [k \in 1..Len(v[2]) |-> <<v[2][k][1], Dump(v[2][k][2], ext)>>]>>
    [] v[1] = "list" -> <<"arr", [k \in 1..Len(v[4]) |-> Dump(v[4][k], ext)]>>
    [] v[1] = "dict" -> <<"obj", [k \in 1..Len(v[4]) |-> <<v[4][k][1], Dump(v[4][k][2], ext)>>]>>
    [] v[1] = "rec" ->
         LET F == Fields(v[2])
             field(nm) == F[CHOOSE q \in 1..Len(F) : F[q][1] = nm]
             shown == SelectSeq(v[3], LAMBDA e : field(e[1])[2] # "-" /\ (ext \/ ~Has(field(e[1])[4], "x")))
             own == [k \in 1..Len(shown) |->
                       <<field(shown[k][1])[2],
                         IF field(shown[k][1])[3] = <<"conv">> THEN ConvOut(shown[k][2])
                         ELSE IF field(shown[k][1])[3] = <<"opt">>    \* what json_out gives is left alone
                         THEN IF shown[k][2] = <<"i", 0>> THEN <<"n">> ELSE shown[k][2] ELSE Dump(shown[k][2], ext)>>]
             unk == IF v[4] = <<"none">> \/ ~(ext \/ v[2] = "JKeep") THEN <<>>
                    ELSE SelectSeq(v[4][2], LAMBDA e : ~HasE(own, e[1]))
         IN <<"obj", SortE(own \o [k \in 1..Len(unk) |-> <<unk[k][1], Dump(unk[k][2], ext)>>])>>
    [] OTHER -> v

(* equality of records: extraneous slots do not count *)
RECURSIVE Bare(_)
Bare(v) ==
  CASE v[1] = "rec" ->
         LET F == Fields(v[2])
             field(nm) == F[CHOOSE q \in 1..Len(F) : F[q][1] = nm]
             es == SelectSeq(v[3], LAMBDA e : ~Has(field(e[1])[4], "x"))
         IN <<"rec", v[2], [k \in 1..Len(es) |-> <<es[k][1], Bare(es[k][2])>>], IF v[2] = "JKeep" THEN v[4] ELSE <<"none">> >>
    [] v[1] = "list" -> <<"list", v[2], v[3], [k \in 1..Len(v[4]) |-> Bare(v[4][k])]>>
    [] v[1] = "dict" -> <<"dict", v[2], v[3], [k \in 1..Len(v[4]) |-> <<v[4][k][1], Bare(v[4][k][2])>>]>>
    [] OTHER -> v

-----------------------------------------------------------------------------
NoRec == <<"none">>
TypeOf(v) == IF v[1] = "rec" THEN v[2] ELSE CHOOSE T \in DOMAIN Colls : Colls[T] = <<v[1], v[2], v[3]>>
Out(r, post) == { [res |-> r, post |-> post] }
Given(op) == IF Len(op) = 5 THEN { op[5][k] : k \in 1..Len(op[5]) } ELSE {}
Outcomes(s, op) ==
  CASE op[1] = "load" ->       \* load, type, how, document, (slots passed by keyword)
         LET v == Canon(op[4])
             r == IF Given(op) = {} THEN LoadTop(op[2], v) ELSE LoadRec(op[2], v[2], <<>>, Given(op))
         IN  IF IsErr(r) THEN UNION { Out(<<"err", e[1], e[2]>>, s) : e \in r[2] } ELSE Out(OkV(<<"none">>), r[2])
    [] op[1] = "dump" -> Out(OkV(Dump(s, op[2])), s)   \* dump, extraneous, how
    [] op[1] = "rt" ->       \* write, read back, compare; twice
         LET d == Dump(s, op[2])
             r == LoadTop(TypeOf(s), d)
         IN  IF IsErr(r) THEN UNION { Out(<<"err", e[1], e[2]>>, s) : e \in r[2] }
             ELSE Out(OkV(<<"bool", Bare(r[2]) = Bare(s)>>), s)
    [] op[1] = "setu" -> Out(OkV(<<"none">>),
         <<s[1], s[2], s[3], <<"obj", SortE(Append(IF s[4] = <<"none">> THEN <<>> ELSE DelE(s[4][2], op[2]), <<op[2], Canon(op[3])>>))>> >>)
    [] op[1] = "delu" -> IF s[4] = <<"none">> \/ ~HasE(s[4][2], op[2]) THEN Out(<<"err", <<>>, "conv">>, s)
         ELSE Out(OkV(<<"none">>), <<s[1], s[2], s[3], <<"obj", DelE(s[4][2], op[2])>> >>)
    [] op[1] = "set" ->      \* only values of the slot's own type
         LET F == Fields(s[2])
             q == CHOOSE q \in 1..Len(F) : F[q][1] = op[2]
             pos(e) == CHOOSE k \in 1..Len(F) : F[k][1] = e[1]
             rest == DelE(s[3], op[2])
         IN Out(OkV(<<"none">>), <<s[1], s[2], SelectSeq(rest, LAMBDA e : pos(e) < q) \o << <<op[2], Canon(op[3])>> >> \o
                                              SelectSeq(rest, LAMBDA e : pos(e) > q), s[4]>>)
    [] op[1] = "del" -> IF ~HasE(s[3], op[2]) THEN Out(<<"err", <<>>, "conv">>, s)
         ELSE Out(OkV(<<"none">>), <<s[1], s[2], DelE(s[3], op[2]), s[4]>>)

Looks == { <<"dump", e, h>> : e \in BOOLEAN, h \in {"method", "function"} } \cup { <<"rt", e>> : e \in BOOLEAN }
Loads == { <<"load", d[1], "all", d[2]>> : d \in Docs }
Ops == IF st = NoRec THEN Loads ELSE Looks \cup (IF st[1] = "rec" /\ st[2] = "JRoot" THEN Edits ELSE {})
Init == st = NoRec
Step(op) == \E x \in Outcomes(st, op) :
              /\ st' = x.post
              /\ PrintT("@@" \o ToJson([c |-> 0, pre |-> st, op |-> op, res |-> x.res, post |-> x.post]))
Next == TLCGet("level") <= MaxLevel /\
        \E op \in Ops : Step(op)

-----------------------------------------------------------------------------
(* The properties, on the specification *)
\* nothing suppressed is set, and no untyped slot holds an over-long int:
\* reading back what was written gives an equal record
RECURSIVE NoBig(_)
NoBig(v) == CASE v[1] = "big" -> v[2] \notin Over
              [] v[1] = "arr" -> \A k \in 1..Len(v[2]) : NoBig(v[2][k])
              [] v[1] = "obj" -> \A k \in 1..Len(v[2]) : NoBig(v[2][k][2])
              [] v[1] \in PyLists \cup {"pydict", "rec", "money"} -> FALSE
              [] OTHER -> TRUE
RECURSIVE HasForm(_)
HasForm(v) ==
  CASE v[1] = "rec" -> /\ v[2] # "JSub2"    \* read back as what the slot says
                       /\ ~HasE(v[3], "secret")
                       /\ \A k \in 1..Len(v[3]) : HasForm(v[3][k][2]) /\ (v[3][k][1] = "any" => NoBig(v[3][k][2]))
                       /\ v[4] # <<"none">> => NoBig(v[4])
    [] v[1] \in {"list"} -> \A k \in 1..Len(v[4]) : HasForm(v[4][k])
    [] v[1] \in {"dict"} -> \A k \in 1..Len(v[4]) : HasForm(v[4][k][2])
    [] OTHER -> TRUE
\* a slot the default would fill again is set
DfltSet(v) == v[1] = "rec" /\ v[2] = "JRoot" => HasE(v[3], "dflt")
\* unset again and shadowed: an unknown key takes over the JSON key of an unset slot
NoShadow(v) == v[1] = "rec" /\ v[4] # <<"none">> => \A k \in 1..Len(v[4][2]) : v[4][2][k][1] \notin Claimed(v[2])
RoundTrip == st # NoRec /\ HasForm(st) /\ DfltSet(st) /\ NoShadow(st) =>
   \A ext \in BOOLEAN : LET r == LoadTop(TypeOf(st), Dump(st, ext)) IN ~IsErr(r) /\ Bare(r[2]) = Bare(st)
\* with everything asked for, even what equality ignores comes back
RoundTripAll == st # NoRec /\ HasForm(st) /\ DfltSet(st) /\ NoShadow(st) =>
   LoadTop(TypeOf(st), Dump(st, TRUE)) = OkV(st) \/ (st[1] = "rec" /\ st[4] = <<"obj", <<>>>>)
\* the least extraneous key asked for, the fewer keys written
RECURSIVE Sub(_, _)
Sub(a, b) == IF a[1] = "obj" /\ b[1] = "obj" THEN \A k \in 1..Len(a[2]) : HasE(b[2], a[2][k][1]) /\ Sub(a[2][k][2], GetE(b[2], a[2][k][1]))
             ELSE IF a[1] = "arr" /\ b[1] = "arr" THEN Len(a[2]) = Len(b[2]) /\ \A k \in 1..Len(a[2]) : Sub(a[2][k], b[2][k])
             ELSE a = b
Less == st # NoRec => Sub(Dump(st, FALSE), Dump(st, TRUE))
\* every error is somewhere in the document
RECURSIVE InDoc(_, _)
InDoc(v, p) == IF p = <<>> THEN TRUE
               ELSE IF p[1][1] = "i" THEN v[1] = "arr" /\ p[1][2] < Len(v[2]) /\ InDoc(v[2][p[1][2] + 1], Tail(p))
               ELSE v[1] = "obj" /\ HasE(v[2], p[1][2]) /\ InDoc(GetE(v[2], p[1][2]), Tail(p))
ErrInDoc == st = NoRec => \A d \in Docs : LET r == LoadTop(d[1], Canon(d[2])) IN
               IsErr(r) => \A e \in r[2] : InDoc(d[2], e[1])
=============================================================================
