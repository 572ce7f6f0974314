--------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* Documents: trees of records, list and dict collections and scalars.     *)
(*   <<"i",n>> <<"s",str>> <<"none">>   scalars                            *)
(*   <<"rec", T, <<<<name,node>>...>>>> record of type T, set slots only,  *)
(*                                      in the declared order              *)
(*   <<"list", T, <<node...>>>>         list collection of T               *)
(*   <<"dict", T, <<<<key,node>>...>>>> dict collection of T, in insertion *)
(*                                      order                              *)
(* Plain python lists and dicts are <<"list","py",...>>, <<"dict","py",..>>*)
(* Path components are <<"s",name-or-key>>, <<"i",index>> and <<"n">>, the *)
(* wildcard.                                                               *)
(***************************************************************************)
EXTENDS PySeq, Json

\* the record types: declared slots, in order, with the kind of each
Slots(T) ==
  CASE T = "Root" -> << <<"name", <<"str">>>>, <<"n", <<"int">>>>, <<"any", <<"any">>>>, <<"raw", <<"any">>>>,
                        <<"sub", <<"rec", "Sub">>>>, <<"items", <<"list", "Item">>>>,
                        <<"map", <<"dict", "Item">>>>, <<"nums", <<"list", "int">>>>,
                        <<"cnt", <<"dict", "int">>>>, <<"reqs", <<"list", "Req">>>>,
                        <<"req", <<"rec", "Req">>>>, <<"z", <<"v1">>>>, <<"zs", <<"rec", "Leaf">>>> >>
    [] T = "Sub"  -> << <<"x", <<"int">>>>, <<"leaf", <<"rec", "Leaf">>>>, <<"subs", <<"list", "Leaf">>>> >>
    [] T = "Leaf" -> << <<"w", <<"int">>>>, <<"b", <<"int">>>> >>
    [] T = "Item" -> << <<"a", <<"str">>>>, <<"b", <<"int">>>>, <<"kids", <<"list", "Leaf">>>>, <<"leaf", <<"rec", "Leaf">>>>, <<"v", <<"any">>>> >>
    [] T = "Req"  -> << <<"k", <<"str">>>>, <<"o", <<"int">>>> >>
\* slots which can be read where they are not set, and what that gives
ReadsAs(T, nm) == CASE T = "Root" /\ nm = "z" -> <<"s", "">> [] T = "Root" /\ nm = "zs" -> <<"none">> [] OTHER -> <<"bad">>
RequiredSlot(T) == IF T = "Req" THEN "k" ELSE ""

SlotPos(T, nm) == LET c == { k \in 1..Len(Slots(T)) : Slots(T)[k][1] = nm } IN
                  IF c = {} THEN 0 ELSE CHOOSE k \in c : TRUE
KindOf(T, nm) == IF SlotPos(T, nm) = 0 THEN <<"none">> ELSE Slots(T)[SlotPos(T, nm)][2]

IsColl(nd) == nd[1] \in {"list", "dict"}
IsRec(nd) == nd[1] = "rec"
IsList(nd) == nd[1] = "list"
IsDict(nd) == nd[1] = "dict"

\* entries of a record or dict
HasE(es, k) == \E q \in 1..Len(es) : es[q][1] = k
AtE(es, k) == CHOOSE q \in 1..Len(es) : es[q][1] = k
GetE(es, k) == es[AtE(es, k)][2]
DelE(es, k) == LET q == AtE(es, k) IN SubSeq(es, 1, q - 1) \o SubSeq(es, q + 1, Len(es))
PutE(es, k, v) == IF HasE(es, k) THEN [es EXCEPT ![AtE(es, k)] = <<k, v>>] ELSE Append(es, <<k, v>>)

SetSlot(nd, nm, v) ==
  IF HasE(nd[3], nm) THEN <<nd[1], nd[2], PutE(nd[3], nm, v)>>
  ELSE LET before == SelectSeq(nd[3], LAMBDA e : SlotPos(nd[2], e[1]) < SlotPos(nd[2], nm))
           after  == SelectSeq(nd[3], LAMBDA e : SlotPos(nd[2], e[1]) > SlotPos(nd[2], nm))
       IN  <<"rec", nd[2], before \o << <<nm, v>> >> \o after>>

\* the child of nd named by a (non-wildcard) component
HasChild(nd, p) ==
  CASE nd[1] = "rec"  -> p[1] = "s" /\ HasE(nd[3], p[2])
    [] nd[1] = "list" -> p[1] = "i" /\ Pos(Len(nd[3]), p[2]) # -1
    [] nd[1] = "dict" -> p[1] = "s" /\ HasE(nd[3], p[2])
    [] OTHER -> FALSE
Child(nd, p) ==
  IF nd[1] = "list" THEN nd[3][Pos(Len(nd[3]), p[2]) + 1] ELSE GetE(nd[3], p[2])
\* store a child (which need not be there yet in a record or dict)
PutChild(nd, p, v) ==
  CASE nd[1] = "rec"  -> SetSlot(nd, p[2], v)
    [] nd[1] = "list" -> <<"list", nd[2], [nd[3] EXCEPT ![Pos(Len(nd[3]), p[2]) + 1] = v]>>
    [] nd[1] = "dict" -> <<"dict", nd[2], PutE(nd[3], p[2], v)>>
DelChild(nd, p) ==
  CASE nd[1] = "rec"  -> <<"rec", nd[2], DelE(nd[3], p[2])>>
    [] nd[1] = "list" -> <<"list", nd[2], SeqDelAt(nd[3], Pos(Len(nd[3]), p[2]))>>
    [] nd[1] = "dict" -> <<"dict", nd[2], DelE(nd[3], p[2])>>

\* values reached by iterating over a collection
MembersOf(nd) == IF nd[1] = "list" THEN nd[3] ELSE [k \in 1..Len(nd[3]) |-> nd[3][k][2]]

\* the k-th member, counting from 1
Mem(nd, k) == IF nd[1] = "list" THEN nd[3][k] ELSE nd[3][k][2]
SetMem(nd, k, x) == <<nd[1], nd[2], [nd[3] EXCEPT ![k] = IF nd[1] = "list" THEN x ELSE <<nd[3][k][1], x>>]>>

IsScalar(nd) == nd[1] \in {"i", "s", "none"}
Kind(nd) == CASE nd[1] = "i" -> <<"int">> [] nd[1] = "s" -> <<"str">> [] nd[1] = "none" -> <<"none">> [] OTHER -> <<nd[1], nd[2]>>
ItemKind(nd) == IF nd[2] \in {"int", "str"} THEN <<nd[2]>> ELSE IF nd[2] = "py" THEN <<"any">> ELSE <<"rec", nd[2]>>
\* "v1": an integer slot which reads as the empty string where it is not set
FitsKind(nd, kind) == kind = <<"any">> \/ Kind(nd) = kind \/ (kind = <<"v1">> /\ nd[1] = "i")

\* well-typed documents
RECURSIVE WellTyped(_)
WellTyped(nd) ==
  CASE nd[1] = "rec" ->
         /\ \A k \in 1..Len(nd[3]) : /\ SlotPos(nd[2], nd[3][k][1]) # 0
                                     /\ FitsKind(nd[3][k][2], KindOf(nd[2], nd[3][k][1]))
                                     /\ WellTyped(nd[3][k][2])
         /\ \A j, k \in 1..Len(nd[3]) : j < k => SlotPos(nd[2], nd[3][j][1]) < SlotPos(nd[2], nd[3][k][1])
         /\ RequiredSlot(nd[2]) # "" => HasE(nd[3], RequiredSlot(nd[2]))
    [] nd[1] = "list" -> \A k \in 1..Len(nd[3]) : FitsKind(nd[3][k], ItemKind(nd)) /\ WellTyped(nd[3][k])
    [] nd[1] = "dict" -> \A k \in 1..Len(nd[3]) : FitsKind(nd[3][k][2], ItemKind(nd)) /\ WellTyped(nd[3][k][2])
    [] OTHER -> TRUE
=============================================================================
