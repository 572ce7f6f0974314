--------------------------------- MODULE Empty ---------------------------------
(***************************************************************************)
(* Empty placeholders (C26): chains of attribute, item and call steps      *)
(* through records whose slots may be unset.                               *)
(*                                                                         *)
(* A state is what the chain has come to: <<"val", value>>, or             *)
(* <<"ph", types>>, a placeholder for a value of one of these types (in    *)
(* the order of Types).  Values: <<"n">>, <<"i",n>>, <<"s",string>>,       *)
(* <<"r",class,slots>>, <<"l",type,members>>, <<"d",type,entries>>; slots  *)
(* and entries are pairs.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES st
vars == <<st>>

ToSet(s) == { s[q] : q \in 1..Len(s) }
Has(es, k) == \E q \in 1..Len(es) : es[q][1] = k
Get(es, k) == es[CHOOSE q \in 1..Len(es) : es[q][1] = k][2]

Types == <<"any", "int", "str", "py", "dict", "MD", "OD", "LI", "LK", "LK2", "LLK", "LR", "DK", "K", "K2", "KS", "C", "G", "DY", "AR", "R", "RR">>
Order(S) == SelectSeq(Types, LAMBDA t : t \in S)
Ph(S) == <<"ph", IF "any" \in S THEN <<"any">> ELSE Order(S)>>

\* the record classes: <<property, its empty form or "", types, what an unset slot reads as or <<>> >>
KProps == << <<"x", "x0", {"any"}, <<>>>>, <<"y", "y0", {"int"}, <<>>>>, <<"l", "l0", {"LI"}, <<>>>>,
             <<"z", "z0", {"int"}, <<"i", 7>>>>,            \* lazy
             <<"e1", "", {"str"}, <<>>>>,                   \* ends in a digit
             <<"t", "maybe_t", {"str"}, <<>>>>,             \* empty_attr=
             <<"ee", "", {"int"}, <<>>>>,                   \* empty_attr=None
             <<"v", "", {"int"}, <<"n">>>> >>               \* V1
Props == [
  K |-> KProps,
  KS |-> KProps \o << <<"w", "w0", {"int"}, <<>>>> >>,
  K2 |-> << <<"x", "x0", {"K"}, <<>>>>, <<"o", "o0", {"int"}, <<>>>> >>,   \* a class with the name of K
  C |-> << <<"n", "n0", {"any"}, <<>>>>, <<"w", "w0", {"K"}, <<>>>> >>,
  G |-> << <<"n", "n0", {"int"}, <<>>>> >>,
  DY |-> << <<"n", "n0", {"K"}, <<>>>> >>,
  AR |-> << <<"v", "v0", {"K"}, <<>>>> >>,
  R |-> << <<"k", "k0", {"K"}, <<>>>>, <<"a", "a0", {"any"}, <<>>>>, <<"n", "n0", {"int"}, <<>>>>, <<"s", "s0", {"str"}, <<>>>>,
           <<"ks", "ks0", {"LK"}, <<>>>>, <<"d", "d0", {"DK"}, <<>>>>, <<"u", "u0", {"K", "str"}, <<>>>>, <<"uk", "uk0", {"K", "KS"}, <<>>>>,
           <<"ul", "ul0", {"LK", "K", "DK"}, <<>>>>, <<"uc", "uc0", {"C", "G", "int"}, <<>>>>,
           <<"nl", "nl0", {"LLK"}, <<>>>>, <<"c", "c0", {"C"}, <<>>>>, <<"g", "g0", {"G"}, <<>>>>, <<"dy", "dy0", {"DY"}, <<>>>>, <<"q", "q0", {"AR"}, <<>>>>,
           <<"md", "md0", {"MD"}, <<>>>>, <<"o", "o0", {"OD"}, <<>>>>, <<"p", "p0", {"py"}, <<>>>>, <<"k2", "", {"K2"}, <<>>>>, <<"kk", "kk0", {"K2", "KS"}, <<>>>>,
           <<"lu", "lu0", {"LK", "LK2", "py"}, <<>>>>, <<"lv", "lv0", {"LK", "LK2"}, <<>>>> >>,
  RR |-> << <<"r", "r0", {"R"}, <<>>>>, <<"rs", "rs0", {"LR"}, <<>>>> >> ]
Classes == DOMAIN Props
\* other attributes of the types
Others == [ t \in ToSet(Types) |-> CASE t \in {"K", "KS"} -> {"m", "nothing"} [] t = "int" -> {"real"} [] t = "str" -> {"upper"}
              [] t \in {"dict", "MD", "OD", "DK"} -> {"popitem"} [] t \in {"py", "LI", "LK", "LK2", "LLK", "LR"} -> {"append"} [] OTHER -> {} ]
\* types whose instances may have any attribute
Dynamic == {"DY", "AR"}
NoSlots == <<>>
Decl(c, n) == LET S == { q \in 1..Len(Props[c]) : Props[c][q][1] = n \/ (Props[c][q][2] = n /\ n # "") } IN
              IF S = {} THEN <<>> ELSE Props[c][CHOOSE q \in S : TRUE]

\* what a placeholder of type t allows; {} for nothing
Attr(t, n) ==
  LET p == IF t \in Classes THEN Decl(t, n) ELSE <<>> IN
  IF p # <<>> THEN p[3]
  ELSE IF n \in Others[t] \/ t \in Dynamic \/ t = "any" THEN {"any"} ELSE {}
Item(t) == CASE t = "LI" -> {"int"} [] t \in {"LK", "DK"} -> {"K"} [] t = "LK2" -> {"K2"} [] t = "LLK" -> {"LK"} [] t = "LR" -> {"R"}
             [] t \in {"any", "str", "py", "dict", "MD", "OD", "G"} -> {"any"} [] OTHER -> {}
Call(t) == IF t \in {"any", "C"} THEN {"any"} ELSE {}

O(res, post) == {[res |-> res, post |-> post]}
ToVal(v) == O(<<"val", v>>, <<"val", v>>)
ToPh(S, err) == IF S = {} THEN O(<<err>>, st) ELSE O(<<"ph">>, Ph(S))
PhStep(ts, op) ==
  CASE op[1] = "attr" -> ToPh(UNION { Attr(t, op[2]) : t \in ts }, "noattr")
    [] op[1] \in {"item", "key"} -> ToPh(UNION { Item(t) : t \in ts }, "noitem")
    [] op[1] = "slice" -> ToPh(IF UNION { Item(t) : t \in ts } = {} THEN {} ELSE ts, "noitem")
    [] op[1] = "call" -> ToPh(UNION { Call(t) : t \in ts }, "nocall")
    [] op[1] = "bool" -> O(<<"ok", FALSE>>, st)
    [] op[1] = "iter" -> O(<<"ok", 0>>, st)
    [] op[1] \in {"set", "setitem"} -> O(<<"noassign">>, st)
    [] op[1] = "copy" -> O(<<"ok">>, st)
    [] OTHER -> {}
ValStep(v, op) ==
  CASE v[1] = "r" /\ op[1] = "attr" ->
         LET p == Decl(v[2], op[2]) IN
         IF p = <<>> THEN IF op[2] \in Others[v[2]] \/ v[2] = "DY" THEN {} ELSE O(<<"noattr">>, st)
         ELSE IF Has(v[3], p[1]) THEN ToVal(Get(v[3], p[1]))
         ELSE IF p[4] # <<>> THEN ToVal(p[4])
         ELSE IF op[2] = p[2] THEN ToPh(p[3], "")
         ELSE IF v[2] = "DY" THEN {} ELSE O(<<"noattr">>, st)
    [] v[1] = "r" /\ op[1] = "set" /\ Decl(v[2], op[2]) # <<>> /\ op[2] = Decl(v[2], op[2])[2] -> O(<<"readonly">>, st)
    [] v[1] = "l" /\ op[1] = "item" ->
         LET n == Len(v[3]) i == IF op[2] < 0 THEN op[2] + n ELSE op[2] IN
         IF i \in 0..(n - 1) THEN ToVal(v[3][i + 1]) ELSE O(<<"range">>, st)
    [] v[1] = "d" /\ op[1] = "key" -> IF Has(v[3], op[2]) THEN ToVal(Get(v[3], op[2])) ELSE O(<<"nokey">>, st)
    [] OTHER -> {}
Outcomes(op) == IF op[1] = "root" THEN {} ELSE IF st[1] = "ph" THEN PhStep(ToSet(st[2]), op) ELSE ValStep(st[2], op)
=============================================================================
