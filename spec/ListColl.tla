------------------------------ MODULE ListColl ------------------------------
(***************************************************************************)
(* A list collection over an abstract item type (C06).  Its state is the   *)
(* sequence of the ids of its items.  An item offered by a caller is       *)
(*   <<"t", k>>  an instance of the item type with id k                    *)
(*   <<"c", k>>  something the item type converts to item k                *)
(*   <<"b">>     something it cannot convert                               *)
(* Ids k and k + 100 are equal but not the same.                           *)
(* Results: <<"ok", tag, ...>> or <<"err", kind>>.                         *)
(***************************************************************************)
EXTENDS PySeq, Json

CONSTANTS Ids, MaxLen, Bounds, Steps, Indexes, ArgLists, Family
VARIABLES st
vars == <<st>>

Cl(k) == k % 100
SameAll(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Cl(a[k]) = Cl(b[k])
Counted(s, x) == Cardinality({ k \in 1..Len(s) : Cl(s[k]) = Cl(x) })
First(s, x, lo, hi) == FindIn([k \in 1..Len(s) |-> Cl(s[k])], Cl(x), lo, hi)
RECURSIVE Insert(_, _, _), Sorted(_, _)
\* stable, also downwards
Insert(s, x, down) ==
  IF s = <<>> THEN <<x>>
  ELSE IF (down /\ Cl(s[1]) <= Cl(x)) \/ (~down /\ Cl(x) <= Cl(s[1])) THEN <<x>> \o s
  ELSE <<s[1]>> \o Insert(Tail(s), x, down)
Sorted(s, down) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(Tail(s), down), Head(s), down)

Good(a)  == a[1] # "b"
AllGood(as) == \A k \in 1..Len(as) : Good(as[k])
Vals(as) == [k \in 1..Len(as) |-> as[k][2]]
\* the items before the first one that cannot be converted
FirstBad(as) == CHOOSE k \in 1..Len(as) : ~Good(as[k]) /\ \A m \in 1..(k-1) : Good(as[m])

IsOkB(r) == r[1] = "ok" /\ r[2] = "b"
ok(r)  == <<"ok">> \o r
OkN    == <<"ok", "n">>
Er(k)  == <<"err", k>>
Out(r, post) == { [res |-> r, post |-> post] }
Outs(rs, post) == { [res |-> r, post |-> post] : r \in rs }

\* add all the items at the end; a failure may leave a converted prefix behind
\* (as list.extend does), never disturbing the members that were there
Extend(s, as) ==
  IF AllGood(as) THEN Out(OkN, s \o Vals(as))
  ELSE { [res |-> Er("coerce"), post |-> s \o Vals(SubSeq(as, 1, k))] : k \in {0, FirstBad(as) - 1} }

Build(s, as) ==
  IF AllGood(as) THEN Out(OkN, Vals(as)) ELSE Out(Er("coerce"), s)

SetSlice(s, i, j, step, as) ==
  IF ~AllGood(as)
  THEN Outs({Er("coerce")} \cup
            (IF step # 1 /\ Len(SlicePos(Len(s), i, j, step)) # Len(as) THEN {Er("value")} ELSE {}), s)
  ELSE IF step = 1 THEN Out(OkN, SeqSetSlice(s, i, j, Vals(as)))
  ELSE IF Len(SlicePos(Len(s), i, j, step)) # Len(as) THEN Out(Er("value"), s)
  ELSE Out(OkN, SeqSetExt(s, i, j, step, Vals(as)))

\* index / count / remove compare, they do not convert
IndexOf(s, a, lo, hi) ==
  IF a[1] # "t" THEN Out(Er("value"), s)
  ELSE LET n == Len(s)
           l == SliceStart(n, lo, 1)
           h == SliceStop(n, hi, 1)
           p == First(s, a[2], l, h)
       IN  IF p = -1 THEN Out(Er("value"), s) ELSE Out(ok(<<"i", p>>), s)

Contains(s, a) ==
  LET in(k) == Counted(s, k) > 0 IN
  CASE a[1] = "t" -> Out(ok(<<"b", in(a[2])>>), s)
    [] a[1] = "c" -> Outs({ ok(<<"b", in(a[2])>>), ok(<<"b", FALSE>>) }, s)
    [] OTHER -> Outs({ ok(<<"b", FALSE>>), Er("coerce") }, s)

\* == with a plain list (or a collection made from it)
EqList(s, as) ==
  IF \A k \in 1..Len(as) : as[k][1] = "t" THEN Out(ok(<<"b", SameAll(s, Vals(as))>>), s)
  ELSE IF AllGood(as) THEN Outs({ ok(<<"b", SameAll(s, Vals(as))>>), ok(<<"b", FALSE>>) }, s)
  ELSE Outs({ ok(<<"b", FALSE>>), Er("coerce") }, s)

Add(s, as) ==
  IF AllGood(as) THEN Out(ok(<<"l", s \o Vals(as)>>), s) ELSE Out(Er("coerce"), s)

Args == { <<"t", k>> : k \in Ids } \cup { <<"c", k>> : k \in Ids } \cup { <<"b">> }

Sources == {"list", "tuple", "gen", "iter", "map", "coll", "othercoll", "dictcoll", "intmap"}

OpsMutate ==
  { <<"append", a>> : a \in Args } \cup
  { <<"extend", src, as>> : src \in {"list", "gen", "coll"}, as \in ArgLists } \cup
  { <<"extendself">>, <<"reverse">>, <<"sort", FALSE>>, <<"sort", TRUE>>, <<"pop">> } \cup
  { <<"insert", i, a>> : i \in Indexes, a \in Args } \cup
  { <<"set", i, a>> : i \in Indexes, a \in Args } \cup
  { <<"del", i>> : i \in Indexes } \cup
  { <<"popi", i>> : i \in Indexes } \cup
  { <<"remove", a>> : a \in Args } \cup
  { <<"build", src, as>> : src \in Sources, as \in ArgLists } \cup
  { <<"buildnone">>, <<"buildstr">>, <<"buildbad">> }
OpsRead ==
  { <<"get", i>> : i \in Indexes } \cup
  { <<"count", a>> : a \in Args } \cup { <<"in", a>> : a \in Args } \cup
  { <<"index", a, i, j>> : a \in Args, i \in Bounds, j \in Bounds } \cup
  { <<"eq", src, as>> : src \in {"list", "coll"}, as \in ArgLists } \cup
  { <<"ne", src, as>> : src \in {"list", "coll"}, as \in ArgLists } \cup
  { <<"eqother">>, <<"eqtuple">>, <<"iter">>, <<"reversed">>, <<"len">>, <<"itertuples">>, <<"types">>, <<"addself">> } \cup
  { <<"add", src, as>> : src \in {"list", "coll"}, as \in ArgLists } \cup
  { <<"getsl", i, j, k>> : i \in Bounds, j \in Bounds, k \in Steps }
OpsSlice ==
  { <<"delsl", i, j, k>> : i \in Bounds, j \in Bounds, k \in Steps } \cup
  { <<"setsl", i, j, k, src, as>> : i \in Bounds, j \in Bounds, k \in Steps, src \in {"list", "gen"}, as \in ArgLists } \cup
  { <<"setslself", i, j>> : i \in Bounds, j \in Bounds }

\* the argument is the i-th member itself, not an equal value
OpsMember ==
  { <<o, i>> : o \in {"removem", "indexm", "countm", "inm", "appendm"}, i \in Indexes } \cup
  { <<"insertm", j, i>> : i \in Indexes, j \in Indexes } \cup
  { <<"setm", j, i>> : i \in Indexes, j \in Indexes }

Ops == CASE Family = "mutate" -> OpsMutate \cup {<<"types">>, <<"iter">>, <<"len">>}
         [] Family = "read"   -> OpsRead \cup { <<"append", <<"t", k>>>> : k \in Ids } \cup { <<"popi", 0>> }
         [] Family = "twins"  -> { op \in OpsRead : op[1] \in {"index", "count", "in", "eq", "ne", "add"} } \cup
              { <<"remove", a>> : a \in Args } \cup { <<"append", <<"t", k>>>> : k \in Ids } \cup
              { <<"sort", FALSE>>, <<"sort", TRUE>>, <<"reverse">> } \cup OpsMember
         [] Family = "slice"  -> OpsSlice \cup {<<"types">>, <<"iter">>, <<"len">>} \cup { <<"append", <<"t", k>>>> : k \in Ids }

MOps == {"removem", "indexm", "countm", "inm", "appendm", "insertm", "setm"}
RECURSIVE Outcomes(_, _)
Outcomes(s, op) ==
  LET o == op[1]  n == Len(s) IN
  CASE o \in MOps ->
         LET p == Pos(n, op[Len(op)])
             a == <<"t", s[p + 1]>> IN
         IF p = -1 THEN Out(Er("index"), s)
         ELSE Outcomes(s, CASE o = "removem" -> <<"remove", a>>
                            [] o = "indexm" -> <<"index", a, <<>>, <<>>>>
                            [] o = "countm" -> <<"count", a>>
                            [] o = "inm" -> <<"in", a>>
                            [] o = "appendm" -> <<"append", a>>
                            [] o = "insertm" -> <<"insert", op[2], a>>
                            [] o = "setm" -> <<"set", op[2], a>>)
    [] o = "append" -> IF Good(op[2]) THEN Out(OkN, Append(s, op[2][2])) ELSE Out(Er("coerce"), s)
    [] o = "extend" -> Extend(s, op[3])
    [] o = "extendself" -> Out(OkN, s \o s)
    [] o = "reverse" -> Out(OkN, Rev(s))
    [] o = "sort" -> Out(OkN, Sorted(s, op[2]))
    [] o = "insert" -> IF Good(op[3]) THEN Out(OkN, SeqInsert(s, op[2], op[3][2])) ELSE Out(Er("coerce"), s)
    [] o = "set" ->
         LET p == Pos(n, op[2]) IN
         IF ~Good(op[3]) THEN Outs({Er("coerce")} \cup (IF p = -1 THEN {Er("index")} ELSE {}), s)
         ELSE IF p = -1 THEN Out(Er("index"), s)
         ELSE Out(OkN, [s EXCEPT ![p + 1] = op[3][2]])
    [] o = "del" -> LET p == Pos(n, op[2]) IN
         IF p = -1 THEN Out(Er("index"), s) ELSE Out(OkN, SeqDelAt(s, p))
    [] o = "pop" -> IF n = 0 THEN Out(Er("index"), s)
                    ELSE Out(ok(<<"v", s[n]>>), SubSeq(s, 1, n - 1))
    [] o = "popi" -> LET p == Pos(n, op[2]) IN
         IF p = -1 THEN Out(Er("index"), s) ELSE Out(ok(<<"v", s[p + 1]>>), SeqDelAt(s, p))
    [] o = "remove" ->
         IF op[2][1] = "t" /\ Counted(s, op[2][2]) > 0
         THEN Out(OkN, SeqDelAt(s, First(s, op[2][2], 0, n)))
         ELSE Out(Er("value"), s)
    [] o = "build" -> Build(s, op[3])
    [] o = "buildnone" -> Out(OkN, <<>>)
    [] o \in {"buildstr", "buildbad"} -> Out(Er("coerce"), s)
    [] o = "get" -> LET p == Pos(n, op[2]) IN
         IF p = -1 THEN Out(Er("index"), s) ELSE Out(ok(<<"v", s[p + 1]>>), s)
    [] o = "getsl" -> Out(ok(<<"l", SeqSlice(s, op[2], op[3], op[4])>>), s)
    [] o = "delsl" -> Out(OkN, SeqDelSlice(s, op[2], op[3], op[4]))
    [] o = "setsl" -> SetSlice(s, op[2], op[3], op[4], op[6])
    [] o = "setslself" -> Out(OkN, SeqSetSlice(s, op[2], op[3], s))
    [] o = "count" -> Out(ok(<<"i", IF op[2][1] = "t" THEN Counted(s, op[2][2]) ELSE 0>>), s)
    [] o = "in" -> Contains(s, op[2])
    [] o = "index" -> IndexOf(s, op[2], op[3], op[4])
    [] o = "eq" -> EqList(s, op[3])
    [] o = "ne" -> { [res |-> IF IsOkB(x.res) THEN ok(<<"b", ~x.res[3]>>) ELSE x.res, post |-> s] : x \in EqList(s, op[3]) }
    [] o = "eqother" -> Out(ok(<<"b", FALSE>>), s)
    [] o = "eqtuple" -> Out(ok(<<"b", FALSE>>), s)
    [] o = "add" -> Add(s, op[3])
    [] o = "addself" -> Out(ok(<<"l", s \o s>>), s)
    [] o = "iter" -> Out(ok(<<"l", s>>), s)
    [] o = "itertuples" -> Out(ok(<<"l", s>>), s)
    [] o = "reversed" -> Out(ok(<<"l", Rev(s)>>), s)
    [] o = "len" -> Out(ok(<<"i", n>>), s)
    [] o = "types" -> Out(ok(<<"b", TRUE>>), s)    \* every member is an instance of the item type



Init == st = <<>>
Step(op) == \E x \in Outcomes(st, op) :
              /\ st' = x.post
              /\ PrintT("@@" \o ToJson([c |-> 0, pre |-> st, op |-> op, res |-> x.res, post |-> x.post]))
\* beyond MaxLen only looking is explored
Enabled == IF Len(st) <= MaxLen THEN Ops ELSE {<<"types">>, <<"iter">>, <<"len">>}
Next == \E op \in Enabled : Step(op)

-----------------------------------------------------------------------------
Members == \A k \in 1..Len(st) : st[k] \in Ids
\* a failing operation leaves every member that was there where it was
FailKeeps ==
  \A op \in Enabled : \A x \in Outcomes(st, op) :
    x.res[1] = "err" => (Len(x.post) >= Len(st) /\ SubSeq(x.post, 1, Len(st)) = st)
ReadsKeep ==
  \A op \in Enabled : op[1] \in {"get","getsl","count","in","index","eq","ne","add","iter","len","types","reversed"} =>
     \A x \in Outcomes(st, op) : x.post = st
=============================================================================
