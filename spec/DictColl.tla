------------------------------ MODULE DictColl ------------------------------
(***************************************************************************)
(* A dict collection over an abstract value type (C07).  Its state is the  *)
(* sequence of its <<key, id>> entries in insertion order; keys are tagged *)
(* (<<"s","a">> or <<"i",0>>); offered values are as in ListColl.          *)
(***************************************************************************)
EXTENDS PySeq, Json

CONSTANTS Ids, Keys, MaxLen, PairLists, ValLists, KwLists
VARIABLES st
vars == <<st>>

IsOkB(r) == r[1] = "ok" /\ r[2] = "b"
ok(r)  == <<"ok">> \o r
OkN    == <<"ok", "n">>
Er(k)  == <<"err", k>>
Out(r, post) == { [res |-> r, post |-> post] }
Outs(rs, post) == { [res |-> r, post |-> post] : r \in rs }

Good(a)  == a[1] # "b"
PairsGood(ps) == \A k \in 1..Len(ps) : Good(ps[k][2])
PairsTyped(ps) == \A k \in 1..Len(ps) : ps[k][2][1] = "t"
FirstBad(ps) == CHOOSE k \in 1..Len(ps) : ~Good(ps[k][2]) /\ \A m \in 1..(k-1) : Good(ps[m][2])

KeySet(s) == { s[k][1] : k \in 1..Len(s) }
Has(s, key) == \E k \in 1..Len(s) : s[k][1] = key
At(s, key) == CHOOSE k \in 1..Len(s) : s[k][1] = key
Put(s, key, id) == IF Has(s, key) THEN [s EXCEPT ![At(s, key)] = <<key, id>>]
                   ELSE Append(s, <<key, id>>)
Del(s, key) == LET k == At(s, key) IN SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
RECURSIVE PutAll(_, _)
PutAll(s, ps) == IF ps = <<>> THEN s
                 ELSE PutAll(Put(s, ps[1][1], ps[1][2][2]), Tail(ps))
\* same entries, whatever the order
SameMap(a, b) == Len(a) = Len(b) /\ { <<a[k][1], a[k][2] % 100>> : k \in 1..Len(a) } = { <<b[k][1], b[k][2] % 100>> : k \in 1..Len(b) }

\* a mapping offered as a sequence of pairs has each key once
DistinctKeys(ps) == \A i, j \in 1..Len(ps) : i # j => ps[i][1] # ps[j][1]
Dedup(ps) == LET RECURSIVE F(_, _)
                 F(acc, rest) == IF rest = <<>> THEN acc
                   ELSE F(IF \E k \in 1..Len(acc) : acc[k][1] = rest[1][1]
                          THEN [acc EXCEPT ![CHOOSE k \in 1..Len(acc) : acc[k][1] = rest[1][1]] = rest[1]]
                          ELSE Append(acc, rest[1]), Tail(rest))
             IN F(<<>>, ps)

Indexed(as) == [k \in 1..Len(as) |-> << <<"i", k - 1>>, as[k]>>]

Update(s, ps) ==
  IF PairsGood(ps) THEN Out(OkN, PutAll(s, ps))
  ELSE { [res |-> Er("coerce"), post |-> PutAll(s, SubSeq(ps, 1, k))] : k \in {0, FirstBad(ps) - 1} }

Build(s, ps) == IF PairsGood(ps) THEN Out(OkN, PutAll(<<>>, ps)) ELSE Out(Er("coerce"), s)

EqMap(s, ps) ==
  IF PairsTyped(ps) THEN Out(ok(<<"b", SameMap(s, PutAll(<<>>, ps))>>), s)
  ELSE IF PairsGood(ps)
  THEN Outs({ ok(<<"b", SameMap(s, PutAll(<<>>, ps))>>), ok(<<"b", FALSE>>) }, s)
  ELSE Outs({ ok(<<"b", FALSE>>), Er("coerce") }, s)

Args == { <<"t", k>> : k \in Ids } \cup { <<"c", k>> : k \in Ids } \cup { <<"b">> }
MapSrc == {"map", "coll"}
Ops ==
  { <<"set", k, a>> : k \in Keys, a \in Args } \cup
  { <<"del", k>> : k \in Keys } \cup { <<"pop", k>> : k \in Keys } \cup
  { <<"get", k>> : k \in Keys } \cup { <<"in", k>> : k \in Keys } \cup
  { <<"update", src, ps>> : src \in {"map", "coll", "pairs", "iter", "kw"}, ps \in PairLists } \cup
  { <<"updatekw", src, ps, kw>> : src \in {"map", "pairs"}, ps \in PairLists, kw \in KwLists } \cup
  { <<"build", src, ps>> : src \in {"map", "coll", "iter"}, ps \in PairLists } \cup
  { <<"buildseq", src, as>> : src \in {"list", "tuple", "listcoll", "iter"}, as \in ValLists } \cup
  { <<"eq", src, ps>> : src \in MapSrc, ps \in PairLists } \cup
  { <<"ne", src, ps>> : src \in MapSrc, ps \in PairLists } \cup
  { <<"buildnone">>, <<"buildstr">>, <<"buildbad">>, <<"popitem">>, <<"clear">>, <<"eqother">>, <<"eqrev">> }
Looks == { <<"keys">>, <<"values">>, <<"items">>, <<"iterkeys">>, <<"itervalues">>,
           <<"iteritems">>, <<"itertuples">>, <<"len">>, <<"iter">>, <<"types">> }

KeysOf(s) == [k \in 1..Len(s) |-> s[k][1]]
ValsOf(s) == [k \in 1..Len(s) |-> s[k][2]]
Uses(src, ps) == IF src \in {"map", "coll", "kw"} THEN Dedup(ps) ELSE ps

Outcomes(s, op) ==
  LET o == op[1] IN
  CASE o = "set" -> IF Good(op[3]) THEN Out(OkN, Put(s, op[2], op[3][2])) ELSE Out(Er("coerce"), s)
    [] o = "del" -> IF Has(s, op[2]) THEN Out(OkN, Del(s, op[2])) ELSE Out(Er("key"), s)
    [] o = "pop" -> IF Has(s, op[2]) THEN Out(ok(<<"v", s[At(s, op[2])][2]>>), Del(s, op[2])) ELSE Out(Er("key"), s)
    [] o = "get" -> IF Has(s, op[2]) THEN Out(ok(<<"v", s[At(s, op[2])][2]>>), s) ELSE Out(Er("key"), s)
    [] o = "in" -> Out(ok(<<"b", Has(s, op[2])>>), s)
    [] o = "popitem" -> IF s = <<>> THEN Out(Er("key"), s)
         ELSE Out(ok(<<"p", s[Len(s)]>>), SubSeq(s, 1, Len(s) - 1))
    [] o = "clear" -> Out(OkN, <<>>)
    [] o = "update" -> Update(s, Uses(op[2], op[3]))
    [] o = "updatekw" -> Update(s, Uses(op[2], op[3]) \o op[4])
    [] o = "build" -> Build(s, Uses(op[2], op[3]))
    [] o = "buildseq" -> Build(s, Indexed(op[3]))
    [] o = "buildnone" -> Out(OkN, <<>>)
    [] o \in {"buildstr", "buildbad"} -> Out(Er("coerce"), s)
    [] o = "eq" -> EqMap(s, Uses(op[2], op[3]))
    [] o = "ne" -> { [res |-> IF IsOkB(x.res) THEN ok(<<"b", ~x.res[3]>>) ELSE x.res, post |-> s] : x \in EqMap(s, Uses(op[2], op[3])) }
    [] o = "eqrev" -> Out(ok(<<"b", TRUE>>), s)     \* same entries inserted in the opposite order
    [] o = "eqother" -> Out(ok(<<"b", FALSE>>), s)  \* a collection of another item type
    [] o \in {"keys", "iterkeys", "iter"} -> Out(ok(<<"l", KeysOf(s)>>), s)
    [] o \in {"values", "itervalues"} -> Out(ok(<<"l", ValsOf(s)>>), s)
    [] o \in {"items", "iteritems", "itertuples"} -> Out(ok(<<"l", s>>), s)
    [] o = "len" -> Out(ok(<<"i", Len(s)>>), s)
    [] o = "types" -> Out(ok(<<"b", TRUE>>), s)

Init == st = <<>>
Step(op) == \E x \in Outcomes(st, op) :
              /\ st' = x.post
              /\ PrintT("@@" \o ToJson([c |-> 0, pre |-> st, op |-> op, res |-> x.res, post |-> x.post]))
Enabled == (IF Len(st) <= MaxLen THEN Ops ELSE {}) \cup Looks
Next == \E op \in Enabled : Step(op)

-----------------------------------------------------------------------------
UniqueKeys == \A i, j \in 1..Len(st) : i # j => st[i][1] # st[j][1]
Members == \A k \in 1..Len(st) : st[k][2] \in Ids
\* a failing operation never removes or changes an entry it was not given
FailKeeps ==
  \A op \in Enabled : \A x \in Outcomes(st, op) :
    x.res[1] = "err" =>
      /\ KeySet(st) \subseteq KeySet(x.post)
      /\ op[1] \notin {"update", "updatekw"} => x.post = st
=============================================================================
