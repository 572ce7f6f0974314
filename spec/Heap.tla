-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Object graphs of records and collections: equality and hashing (C08),   *)
(* copying, pickling and printing (C09).                                   *)
(*                                                                         *)
(* st.roots: values the program holds; st.heap: the objects they reach,    *)
(* numbered in the order a walk from the roots meets them.                 *)
(* Values: <<"i",n>>, <<"s",str>>, <<"b",bool>>, <<"f",text>>, <<"n">>     *)
(* (None), <<"-">> (a root holding nothing) and <<"o",k>>, the k-th object.*)
(* Objects: <<"rec",T,slots>>, <<"list",T,slots,members>>,                 *)
(* <<"dict",T,slots,entries>>; slots and entries are <<name,value>> pairs, *)
(* set slots only.  T = "py" for plain python containers.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Inits, Hows, Mode, MaxLevel
VARIABLES st, c0
vars == <<st, c0>>

(* slots of the types in order; "x" extraneous, "e" has an eager default,  *)
(* "r" read only, "q" required                                             *)
Fields(T) ==
  CASE T \in {"N", "NS"} -> << <<"a", {}>>, <<"b", {}>>, <<"chk", {}>>, <<"e", {"x"}>>, <<"ro", {"r"}>>, <<"z", {"x"}>> >>
    [] T = "P"  -> << <<"k", {}>>, <<"v", {}>>, <<"e", {"x"}>> >>
    [] T = "C"  -> << <<"items", {}>>, <<"ps", {}>>, <<"m", {}>>, <<"u", {}>>, <<"js", {}>>, <<"xl", {}>>, <<"any", {}>> >>
    [] T = "J"  -> << <<"a", {}>>, <<"unknown_json_keys", {"x"}>> >>
    [] T = "D"  -> << <<"d", {"e"}>>, <<"k", {"q"}>>, <<"_w", {}>> >>
    [] T \in {"XL", "XD"} -> << <<"tag", {}>>, <<"more", {"x"}>> >>
    [] OTHER -> <<>>
\* what a slot may be given here (beyond scalars, for untyped ones)
SlotTypes(T, nm) ==
  CASE T \in {"N", "NS"} /\ nm = "b" -> {"N", "NS"}
    [] T = "C" -> (CASE nm = "items" -> {"LN"} [] nm = "ps" -> {"LP"} [] nm = "m" -> {"DN"} [] nm = "u" -> {"N", "NS", "P"}
                     [] nm = "js" -> {"JL"} [] nm = "xl" -> {"XL"} [] OTHER -> {"N", "NS", "P", "C", "J", "py"})
    [] OTHER -> {"N", "NS", "P", "py"}
ItemOf(T) == CASE T \in {"LN", "DN", "XL", "XD"} -> "N" [] T = "LP" -> "P" [] T = "JL" -> "J" [] OTHER -> "any"
Members(T) == CASE ItemOf(T) = "N" -> {"N", "NS"} [] ItemOf(T) = "any" -> {"N", "NS", "P", "py"} [] OTHER -> {ItemOf(T)}
PK(T) == IF T = "P" THEN <<"k">> ELSE <<>>
FlagsOf(T, nm) == LET F == Fields(T) IN F[CHOOSE q \in 1..Len(F) : F[q][1] = nm][2]
PosOf(T, nm) == LET F == Fields(T) IN CHOOSE q \in 1..Len(F) : F[q][1] = nm

HasE(es, k) == \E q \in 1..Len(es) : es[q][1] = k
GetE(es, k) == es[CHOOSE q \in 1..Len(es) : es[q][1] = k][2]
DelE(es, k) == SelectSeq(es, LAMBDA e : e[1] # k)
PutE(es, k, v) == IF HasE(es, k) THEN [q \in 1..Len(es) |-> IF es[q][1] = k THEN <<k, v>> ELSE es[q]] ELSE Append(es, <<k, v>>)
SetSlot(T, es, k, v) == SelectSeq(es, LAMBDA e : PosOf(T, e[1]) < PosOf(T, k)) \o << <<k, v>> >> \o
                        SelectSeq(es, LAMBDA e : PosOf(T, e[1]) > PosOf(T, k))
ToSet(s) == { s[k] : k \in 1..Len(s) }
Vals(es) == [k \in 1..Len(es) |-> es[k][2]]

IsObj(v) == v[1] = "o"
Kids(o) == Vals(o[3]) \o (CASE o[1] = "list" -> o[4] [] o[1] = "dict" -> Vals(o[4]) [] OTHER -> <<>>)
MapVals(es, F(_)) == [k \in 1..Len(es) |-> <<es[k][1], F(es[k][2])>>]
MapObj(o, F(_)) ==
  CASE o[1] = "rec"  -> <<"rec", o[2], MapVals(o[3], F)>>
    [] o[1] = "list" -> <<"list", o[2], MapVals(o[3], F), [k \in 1..Len(o[4]) |-> F(o[4][k])]>>
    [] o[1] = "dict" -> <<"dict", o[2], MapVals(o[3], F), MapVals(o[4], F)>>

\* objects reached from todo, in order
RECURSIVE Walk(_, _, _)
Walk(h, todo, seen) ==
  IF todo = <<>> THEN seen
  ELSE LET v == todo[1] IN
       IF ~IsObj(v) \/ v[2] \in ToSet(seen) THEN Walk(h, Tail(todo), seen)
       ELSE Walk(h, Kids(h[v[2]]) \o Tail(todo), Append(seen, v[2]))
Where(s, x) == CHOOSE q \in 1..Len(s) : s[q] = x
Canon(roots, h) ==
  LET ids == Walk(h, roots, <<>>)
      F(v) == IF IsObj(v) THEN <<"o", Where(ids, v[2])>> ELSE v
  IN [roots |-> [k \in 1..Len(roots) |-> F(roots[k])], heap |-> [k \in 1..Len(ids) |-> MapObj(h[ids[k]], F)]]

\* is there a way from an object back to itself?
Cyclic(h, v) == \E k \in ToSet(Walk(h, <<v>>, <<>>)) : k \in ToSet(Walk(h, Kids(h[k]), <<>>))
AnyCycle(s) == \E r \in ToSet(s.roots) : Cyclic(s.heap, r)

-----------------------------------------------------------------------------
(* Equality *)
Norm(v) == CASE v = <<"b", TRUE>> -> <<"i", 1>> [] v = <<"b", FALSE>> -> <<"i", 0>> [] v = <<"f", "1.0">> -> <<"i", 1>> [] OTHER -> v
Counts(T) == SelectSeq(Fields(T), LAMBDA f : "x" \notin f[2])
RECURSIVE Eq(_, _, _)
Eq(h, u, v) ==
  IF ~IsObj(u) \/ ~IsObj(v) THEN ~IsObj(u) /\ ~IsObj(v) /\ Norm(u) = Norm(v)
  ELSE IF u = v THEN TRUE
  ELSE LET x == h[u[2]]
           y == h[v[2]]
           slots == \A q \in 1..Len(Counts(x[2])) :
                      LET nm == Counts(x[2])[q][1] IN
                      /\ HasE(x[3], nm) = HasE(y[3], nm)
                      /\ HasE(x[3], nm) => Eq(h, GetE(x[3], nm), GetE(y[3], nm))
       IN CASE x[1] # y[1] -> FALSE
            [] x[1] = "rec" -> x[2] = y[2] /\ slots
            [] x[1] = "list" -> /\ (x[2] = "py" \/ y[2] = "py" \/ ItemOf(x[2]) = ItemOf(y[2]))
                                /\ Len(x[4]) = Len(y[4])
                                /\ \A k \in 1..Len(x[4]) : Eq(h, x[4][k], y[4][k])
            [] x[1] = "dict" -> /\ (x[2] = "py" \/ y[2] = "py" \/ ItemOf(x[2]) = ItemOf(y[2]))
                                /\ Len(x[4]) = Len(y[4])
                                /\ \A k \in 1..Len(x[4]) : HasE(y[4], x[4][k][1]) /\ Eq(h, x[4][k][2], GetE(y[4], x[4][k][1]))

\* has a plain (unhashable) container, or a collection where no type says so, among what identifies it
RECURSIVE Plain(_, _)
Plain(h, v) ==
  IF ~IsObj(v) THEN FALSE
  ELSE LET o == h[v[2]] IN
       CASE o[2] = "py" -> TRUE
         [] o[1] = "rec" -> \E q \in 1..Len(o[3]) : "x" \notin FlagsOf(o[2], o[3][q][1]) /\
                                                     (PK(o[2]) = <<>> \/ o[3][q][1] \in ToSet(PK(o[2]))) /\ Plain(h, o[3][q][2])
         [] o[1] = "list" -> \E m \in ToSet(o[4]) : Plain(h, m)
         [] OTHER -> \E m \in ToSet(Vals(o[4])) : Plain(h, m)

\* how all the roots compare with each other.  Not asked of cyclic graphs.
Cmp(s) ==
  IF AnyCycle(s) THEN { <<"cyclic">> }
  ELSE LET n == Len(s.roots)
           m == [j \in 1..n |-> [k \in 1..n |-> Eq(s.heap, s.roots[j], s.roots[k])]]
       IN { <<m, "hash">> } \cup (IF \E r \in ToSet(s.roots) : Plain(s.heap, r) THEN { <<m, "unhashable">> } ELSE {})

-----------------------------------------------------------------------------
(* Copies.  Each returns <<heap, value>>. *)
Deep(h, v) ==
  LET ids == Walk(h, <<v>>, <<>>)
      F(x) == IF IsObj(x) THEN <<"o", Len(h) + Where(ids, x[2])>> ELSE x
  IN <<h \o [k \in 1..Len(ids) |-> MapObj(h[ids[k]], F)], F(v)>>
Shallow(h, v) == IF IsObj(v) THEN <<Append(h, h[v[2]]), <<"o", Len(h) + 1>>>> ELSE <<h, v>>
\* printing and reading: what was shared is not any more
RECURSIVE ReadBack(_, _), ReadBackAll(_, _, _)
ReadBackAll(h, vs, done) == IF vs = <<>> THEN <<h, done>>
                         ELSE LET r == ReadBack(h, vs[1]) IN ReadBackAll(r[1], Tail(vs), Append(done, r[2]))
ReadBack(h, v) ==
  IF ~IsObj(v) THEN <<h, v>>
  ELSE LET o == h[v[2]]
           r == ReadBackAll(h, Kids(o), <<>>)
           n == Len(o[3])
           es == [k \in 1..n |-> <<o[3][k][1], r[2][k]>>]
           new == CASE o[1] = "rec" -> <<"rec", o[2], es>>
                    [] o[1] = "list" -> <<"list", o[2], es, [k \in 1..Len(o[4]) |-> r[2][n + k]]>>
                    [] OTHER -> <<"dict", o[2], es, [k \in 1..Len(o[4]) |-> <<o[4][k][1], r[2][n + k]>>]>>
       IN <<Append(r[1], new), <<"o", Len(r[1]) + 1>>>>
\* all eager defaults still set
RECURSIVE Printable(_, _)
Printable(h, v) == /\ ~Cyclic(h, v)
                   /\ \A k \in ToSet(Walk(h, <<v>>, <<>>)) :
                        \A q \in 1..Len(Fields(h[k][2])) : "e" \in Fields(h[k][2])[q][2] => HasE(h[k][3], Fields(h[k][2])[q][1])
Copy(h, v, how) == CASE how = "copy" -> Shallow(h, v) [] how = "repr" -> ReadBack(h, v) [] OTHER -> Deep(h, v)

-----------------------------------------------------------------------------
\* comparing a collection with a plain container means converting the members of that one
Unclear(s) == \E q, r \in ToSet(s.roots) :
                IsObj(q) /\ IsObj(r) /\ LET x == s.heap[q[2]] y == s.heap[r[2]] IN
                  /\ x[1] # "rec" /\ x[2] # "py" /\ y[2] = "py"
                  /\ \E v \in ToSet(IF y[1] = "list" THEN y[4] ELSE Vals(y[4])) : ~IsObj(v) \/ s.heap[v[2]][2] \notin Members(x[2])
Done(s) == IF Unclear(s) THEN {} ELSE
           { [res |-> <<"ok", x, s>>, post |-> s] : x \in Cmp(s) }   \* the result tells everything that can be seen
PutObj(s, k, o) == Canon(s.roots, [s.heap EXCEPT ![k] = o])
Outcomes(s, op) ==
  LET o == s.heap[op[2]] IN
  CASE op[1] = "look" -> Done(s)
    [] op[1] = "copy" ->   \* copy, from root, to root, how
         LET r == Copy(s.heap, s.roots[op[2]], op[4]) IN
         IF op[4] = "repr" /\ ~Printable(s.heap, s.roots[op[2]]) THEN {}
         ELSE Done(Canon([s.roots EXCEPT ![op[3]] = r[2]], r[1]))
    [] op[1] = "set" -> Done(PutObj(s, op[2], <<o[1], o[2], SetSlot(o[2], o[3], op[3], op[4])>> \o SubSeq(o, 4, Len(o))))
    [] op[1] = "del" -> Done(PutObj(s, op[2], <<o[1], o[2], DelE(o[3], op[3])>> \o SubSeq(o, 4, Len(o))))
    [] op[1] = "append" -> Done(PutObj(s, op[2], <<o[1], o[2], o[3], Append(o[4], op[3])>>))
    [] op[1] = "pop" -> Done(PutObj(s, op[2], <<o[1], o[2], o[3], Tail(o[4])>>))
    [] op[1] = "put" -> Done(PutObj(s, op[2], <<o[1], o[2], o[3], PutE(o[4], op[3], op[4])>>))
    [] op[1] = "drop" -> Done(PutObj(s, op[2], <<o[1], o[2], o[3], DelE(o[4], op[3])>>))
    \* a plain list or dict of the members of a collection
    [] op[1] = "plain" -> LET h == Append(s.heap, <<o[1], "py", <<>>, o[4]>>) IN
                          Done(Canon([s.roots EXCEPT ![op[3]] = <<"o", Len(h)>>], h))

Fits(h, x, Ts) == h[x][2] \in Ts
\* what is done to objects: scalars and other objects are stored
Some(h, Ts) == LET ok == { k \in 1..Len(h) : h[k][2] \in Ts } IN
               IF ok = {} THEN {} ELSE { <<"o", CHOOSE k \in ok : \A j \in ok : k <= j>>, <<"o", CHOOSE k \in ok : \A j \in ok : k >= j>> }
Edits(s) ==
  UNION { LET o == s.heap[k] T == o[2] F == Fields(T) IN
          UNION { LET nm == F[q][1] fl == F[q][2] IN
                  IF "r" \in fl \/ (T = "J" /\ nm = "unknown_json_keys") THEN {}
                  ELSE (IF T \in {"C"} \/ nm = "b" THEN {} ELSE { <<"set", k, nm, IF T = "D" /\ nm = "k" THEN <<"s", "w">> ELSE <<"i", 9>>>> }) \cup
                       (IF nm \in {"a", "b", "u", "any"} THEN { <<"set", k, nm, v>> : v \in Some(s.heap, SlotTypes(T, nm)) } ELSE {}) \cup
                       (IF HasE(o[3], nm) /\ "q" \notin fl THEN { <<"del", k, nm>> } ELSE {}) : q \in 1..Len(F) } \cup
          (IF o[1] = "list" /\ Len(o[4]) < 4 THEN { <<"append", k, v>> : v \in Some(s.heap, Members(T)) \cup (IF T = "py" /\ Mode = "copy" THEN {<<"i", 9>>} ELSE {}) } ELSE {}) \cup
          (IF o[1] = "list" /\ o[4] # <<>> THEN { <<"pop", k>> } ELSE {}) \cup
          (IF o[1] = "dict" /\ Len(o[4]) < 4 THEN { <<"put", k, "p", v>> : v \in Some(s.heap, Members(T)) \cup (IF T = "py" /\ Mode = "copy" THEN {<<"i", 9>>} ELSE {}) } ELSE {}) \cup
          (IF o[1] = "dict" /\ o[4] # <<>> THEN { <<"drop", k, o[4][1][1]>> } ELSE {})
        : k \in 1..Len(s.heap) }
Plains(s) == IF Len(s.roots) < 2 \/ ~IsObj(s.roots[1]) \/ s.heap[s.roots[1][2]][1] = "rec" THEN {} ELSE { <<"plain", s.roots[1][2], 2>> }
\* roots of different kinds stay different: no need to edit them
Alike == LET K(v) == IF IsObj(v) THEN (IF st.heap[v[2]][1] = "rec" THEN st.heap[v[2]][2] ELSE st.heap[v[2]][1]) ELSE "-" IN
         \A k \in 1..Len(st.roots) : K(st.roots[k]) = K(st.roots[1])
Ops == IF Mode = "eq" THEN { <<"look">> } \cup (IF TLCGet("level") < MaxLevel + 1 /\ Alike THEN Edits(st) ELSE {}) \cup (IF TLCGet("level") = 1 THEN Plains(st) ELSE {})
       ELSE { <<"copy", 1, 2, how>> : how \in Hows } \cup Edits(st)

Init == \E x \in ToSet(Inits) : LET s == Canon(x[1], x[2]) IN st = s /\ c0 = s
Step(op) == \E x \in Outcomes(st, op) :
              /\ st' = x.post
              /\ c0' = c0
              /\ PrintT("@@" \o ToJson([c |-> c0, pre |-> st, op |-> op, res |-> x.res, post |-> x.post]))
Next == TLCGet("level") <= MaxLevel /\ \E op \in Ops : Step(op)
=============================================================================
