-------------------------------- MODULE Diff --------------------------------
(***************************************************************************)
(* Comparing two records (C18-C21).                                        *)
(*                                                                         *)
(* Values: <<"-">> nothing (an unset slot), <<"n">> None, <<"i",n>>,       *)
(* <<"b",bool>>, <<"s",chars>>, <<"rec",T,slots>>, <<"list",T,members>>,   *)
(* <<"dict",T,entries>>, with T = "py" for plain python containers.        *)
(* A difference is <<type, base path, other path>>; a path is a sequence   *)
(* of slot names, dict keys and list indices ("#0").                       *)
(* D gives the set of all acceptable results, each a set of differences.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS KeyOrder
VARIABLES st
vars == <<st>>

\* slots in order: name, flags ("x" extraneous, "c" has compare_as), type ("" is any)
Fields(T) ==
  CASE T \in {"I", "IS"} -> << <<"a", {}, "">>, <<"c", {"c"}, "">>, <<"e", {"x"}, "">>, <<"g", {}, "LC">>, <<"n", {}, "K">>, <<"z", {}, "LP">> >>
    [] T = "K" -> << <<"a", {}, "">>, <<"c", {"c"}, "">>, <<"e", {"x"}, "">>, <<"g", {}, "LC">> >>
    [] T \in {"P", "PS"} -> << <<"e", {"x"}, "">>, <<"k", {}, "">>, <<"l", {}, "">>, <<"n", {}, "K">>, <<"o", {}, "LK">>, <<"v", {}, "">> >>
    [] T = "R"  -> << <<"a", {}, "">>, <<"c", {"c"}, "">>, <<"e", {"x"}, "">>, <<"g", {}, "LS">>, <<"h", {}, "DS">>, <<"m", {}, "DI">>, <<"n", {}, "I">>,
                      <<"p", {}, "P">>, <<"pm", {}, "DP">>, <<"r", {}, "R">>, <<"u", {}, "">>, <<"w", {}, "">>, <<"x", {}, "XL">>, <<"y", {}, "LI">>, <<"ys", {}, "LP">> >>
    [] T = "XL" -> << <<"more", {"x"}, "">>, <<"tag", {}, "">> >>
    [] OTHER -> <<>>
Item(T) == CASE T \in {"LI", "DI", "XL"} -> "I" [] T \in {"LP", "DP"} -> "P" [] T = "LK" -> "K" [] OTHER -> ""
PK(T) == IF T \in {"P", "PS"} THEN <<"k", "l">> ELSE <<>>

Nothing == <<"-">>
None == <<"n">>
HasE(es, k) == \E q \in 1..Len(es) : es[q][1] = k
GetE(es, k) == IF HasE(es, k) THEN es[CHOOSE q \in 1..Len(es) : es[q][1] = k][2] ELSE Nothing
ToSet(s) == { s[k] : k \in 1..Len(s) }
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Count(s, P(_)) == Cardinality({ k \in 1..Len(s) : P(k) })
Slots(v) == IF v[1] = "rec" THEN v[3] ELSE IF Len(v) = 4 THEN v[4] ELSE <<>>   \* extra attributes of a collection come last
IsBox(v) == v[1] \in {"rec", "list", "dict"}
Idx(k) == "#" \o ToString(k - 1)
\* the items of a list or dict, with their steps
Entries(v) == CASE v = Nothing -> <<>>
                [] v[1] = "list" -> [k \in 1..Len(v[3]) |-> <<Idx(k), v[3][k]>>]
                [] v[1] = "dict" -> v[3]
SameType(u, v) == u[1] = v[1] /\ (IsBox(u) => u[2] = v[2])
\* with duck_type, records that have the same slots can be compared
SameSlots(u, v) == u[1] = "rec" /\ v[1] = "rec" /\ Fields(u[2]) = Fields(v[2])
Alike(u, v, o) == SameType(u, v) \/ (o.dt /\ SameSlots(u, v))

-----------------------------------------------------------------------------
(* == on these values *)
Num(v) == IF v = <<"b", TRUE>> THEN <<"i", 1>> ELSE IF v = <<"b", FALSE>> THEN <<"i", 0>> ELSE v
RECURSIVE Eq(_, _)
Eq(u, v) ==
  IF ~IsBox(u) \/ ~IsBox(v) THEN ~IsBox(u) /\ ~IsBox(v) /\ Num(u) = Num(v)
  ELSE CASE u[1] # v[1] -> FALSE
         [] u[1] = "rec" -> /\ u[2] = v[2]
                            /\ \A f \in ToSet(Fields(u[2])) : "x" \in f[2] \/ Eq(GetE(u[3], f[1]), GetE(v[3], f[1]))
         [] u[1] = "list" -> Len(u[3]) = Len(v[3]) /\ \A k \in 1..Len(u[3]) : Eq(u[3][k], v[3][k])
         [] u[1] = "dict" -> Len(u[3]) = Len(v[3]) /\ \A k \in 1..Len(u[3]) : Eq(u[3][k][2], GetE(v[3], u[3][k][1]))

-----------------------------------------------------------------------------
(* Normalising text.  Characters are named; "'" is a combining accent. *)
Spaces == {" ", "t", "n", "w"}
RECURSIVE Words(_, _)
Words(s, w) ==   \* w: the word being read
  IF s = <<>> THEN (IF w = <<>> THEN <<>> ELSE <<w>>)
  ELSE IF s[1] \in Spaces THEN (IF w = <<>> THEN <<>> ELSE <<w>>) \o Words(Tail(s), <<>>)
  ELSE Words(Tail(s), Append(w, s[1]))
RECURSIVE Joined(_)
Joined(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<" ">> \o Joined(Tail(ws))
Upper(c) == CASE c = "a" -> <<"A">> [] c = "b" -> <<"B">> [] c = "e" -> <<"E">> [] c = "e1" -> <<"E1">> [] c = "a1" -> <<"A1">>
              [] c = "ss" -> <<"S", "S">> [] OTHER -> <<c>>
Accented(c) == CASE c = "a" -> "a1" [] c = "A" -> "A1" [] c = "e" -> "e1" [] c = "E" -> "E1" [] OTHER -> ""
RECURSIVE Composed(_)
Composed(s) == IF Len(s) < 2 THEN s
               ELSE IF s[2] = "'" /\ Accented(s[1]) # "" THEN <<Accented(s[1])>> \o Composed(SubSeq(s, 3, Len(s)))
               ELSE <<s[1]>> \o Composed(Tail(s))
Text(s, o) ==
  LET a == IF o.ws THEN Joined(Words(s, <<>>)) ELSE s
      b == IF o.cs THEN Flat([k \in 1..Len(a) |-> Upper(a[k])]) ELSE a
  IN IF o.nf THEN Composed(b) ELSE b
Val(v, o) == LET x == IF v[1] = "s" THEN <<"s", Text(v[2], o)>> ELSE v
             IN IF o.es /\ (x = None \/ x = <<"s", <<>>>>) THEN Nothing ELSE x
\* the compare_as functions here: strike every "b"
As(v) == IF v[1] = "s" THEN <<"s", SelectSeq(v[2], LAMBDA c : c # "b")>> ELSE v
\* collections of text; items of some have a compare_item_as
ItemVal(T, v, o) == Val(IF T \in {"LC", "DS"} THEN As(v) ELSE v, o)
SlotVal(v, f, o) == LET x == IF v = Nothing THEN v ELSE GetE(Slots(v), f[1])
                    IN Val(IF x # Nothing /\ "c" \in f[2] THEN As(x) ELSE x, o)

-----------------------------------------------------------------------------
(* Filters: the set of paths selected beneath here; <<>> selects all. *)
Sub(f, k) == { Tail(p) : p \in { q \in f : q # <<>> /\ q[1] \in {k, "*"} } } \cup (f \cap {<<>>})

-----------------------------------------------------------------------------
(* What identifies a record among the items of a collection: the values of *)
(* the slots of type T, which is the declared type for records further in. *)
RECURSIVE Id(_, _, _, _), Key(_)
IdSlot(v, fl, f, o) ==
  LET x == SlotVal(v, fl, o) IN
  IF x = Nothing THEN None ELSE IF IsBox(x) THEN Id(x, fl[3], Sub(f, fl[1]), o) ELSE Num(x)
SortKeys(es) == LET has == SelectSeq(KeyOrder, LAMBDA k : HasE(es, k)) IN [q \in 1..Len(has) |-> <<has[q], GetE(es, has[q])>>]
Id(v, T, f, o) ==
  IF v[1] = "rec" THEN
    LET pk == PK(T)
        all == pk # <<>> /\ \A k \in ToSet(pk) : Sub(f, k) # {}
        cols == SelectSeq(Fields(T), LAMBDA fl : IF all THEN fl[1] \in ToSet(pk) ELSE "x" \notin fl[2] /\ Sub(f, fl[1]) # {})
    IN <<"t", [k \in 1..Len(cols) |-> IdSlot(v, cols[k], f, o)]>>
  ELSE LET es == SelectSeq(IF v[1] = "dict" THEN SortKeys(v[3]) ELSE Entries(v), LAMBDA e : Sub(f, e[1]) # {})
           ids == [k \in 1..Len(es) |-> IF IsBox(es[k][2]) THEN Id(es[k][2], Item(T), Sub(f, es[k][1]), o) ELSE Num(ItemVal(v[2], es[k][2], o))]
       IN <<"t", SelectSeq(ids, LAMBDA x : x # Nothing)>>
\* members of plain containers are compared whole
Key(v) == CASE v[1] = "list" -> <<"list", [k \in 1..Len(v[3]) |-> Key(v[3][k])]>>
            [] v[1] = "dict" -> <<"dict", LET es == SortKeys(v[3]) IN [k \in 1..Len(es) |-> <<es[k][1], Key(es[k][2])>>]>>
            [] OTHER -> Num(v)

RECURSIVE Falsy(_), Empty(_)
Falsy(x) == IF x[1] = "t" THEN x[2] = <<>> \/ \E y \in ToSet(x[2]) : Falsy(y) ELSE x \in {Nothing, None, <<"i", 0>>, <<"s", <<>>>>}
Empty(x) == IF x[1] = "t" THEN \A y \in ToSet(x[2]) : Empty(y) ELSE x \in {Nothing, None, <<"s", <<>>>>}

\* [k, v, id, n]: the n-th item with this id.  Those of dicts that have the same key on the other side are paired with that.
Numbered(es, other, dict) ==
  LET Same(e) == dict /\ \E x \in ToSet(other) : x.k = e.k /\ x.id = e.id
      Shared(e) == { x \in ToSet(es) : Same(x) /\ x.id = e.id }
      Pos(k) == CHOOSE q \in 1..Len(KeyOrder) : KeyOrder[q] = k
  IN { [k |-> es[q].k, v |-> es[q].v, id |-> es[q].id,
        n |-> IF Same(es[q]) THEN Cardinality({ x \in Shared(es[q]) : Pos(x.k) < Pos(es[q].k) })
              ELSE Cardinality(Shared(es[q])) + Cardinality({ p \in 1..(q - 1) : es[p].id = es[q].id /\ ~Same(es[p]) })] : q \in 1..Len(es) }

-----------------------------------------------------------------------------
(* Approximate matching: repeatedly the best pair of what is left. *)
Score(x, y) ==
  LET a == x.id[2] b == y.id[2]
      c == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      m == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      match == Cardinality({ k \in 1..c : a[k] = b[k] /\ ~Falsy(a[k]) })
      miss == (m - c) + Cardinality({ k \in 1..c : a[k] # b[k] })
  IN <<match, match - miss>>
RECURSIVE Matchings(_, _)
Matchings(A, B) ==
  LET cand == { p \in A \X B : Score(p[1], p[2])[1] > 0 }
      best == { p \in cand : \A q \in cand : Score(q[1], q[2])[2] <= Score(p[1], p[2])[2] }
  IN IF cand = {} THEN {{}}
     ELSE UNION { { {p} \cup m : m \in Matchings(A \ {p[1]}, B \ {p[2]}) } : p \in best }

-----------------------------------------------------------------------------
Cross(X, Y) == { x \cup y : x \in X, y \in Y }
RECURSIVE CrossAll(_)
CrossAll(XS) == IF XS = {} THEN {{}} ELSE LET X == CHOOSE x \in XS : TRUE IN Cross(X, CrossAll(XS \ {X}))
RECURSIVE D(_, _, _, _, _, _)

ItemD(u, v, p, q, f, o) == IF Alike(u, v, o) THEN D(u, v, p, q, f, o) ELSE {{<<"modified", p, q>>}}

SlotD(u, v, fl, pa, pb, f, o) ==
  LET x == SlotVal(u, fl, o)
      y == SlotVal(v, fl, o)
      p == Append(pa, fl[1])
      q == Append(pb, fl[1])
      one == (x = Nothing) # (y = Nothing)
      g == Sub(f, fl[1])
  IN IF g = {} \/ ("x" \in fl[2] /\ ~o.x) \/ (x = Nothing /\ y = Nothing) THEN {{}}
     ELSE IF (IsBox(x) \/ IsBox(y)) /\ ((~one /\ Alike(x, y, o)) \/ (o.es /\ one)) THEN
       IF ~one THEN D(x, y, p, q, g, o)
       ELSE LET types == { d[1] : d \in { d \in UNION D(x, y, p, q, g, o) : d[1] # "none" } } IN
            IF types # {} THEN { { <<t, p, q>> : t \in types } } ELSE IF o.un THEN {{<<"none", p, q>>}} ELSE {{}}
     ELSE IF one THEN {{<<IF x = Nothing THEN "added" ELSE "removed", p, q>>}}
     ELSE IF ~Eq(x, y) THEN {{<<"modified", p, q>>}}
     ELSE IF o.un THEN {{<<"none", p, q>>}} ELSE {{}}
RecD(u, v, pa, pb, f, o) ==
  LET has == { e[1] : e \in ToSet(IF u = Nothing THEN <<>> ELSE Slots(u)) \cup ToSet(IF v = Nothing THEN <<>> ELSE Slots(v)) }
      F == SelectSeq(Fields((IF u = Nothing THEN v ELSE u)[2]), LAMBDA fl : fl[1] \in has)
  IN CrossAll({ SlotD(u, v, F[k], pa, pb, f, o) : k \in 1..Len(F) })

\* pairs of items that are the same, moved or not
Stays(C, pa, pb, o) ==
  { <<IF o.mv /\ c[1].k # c[2].k THEN "moved" ELSE "none", Append(pa, c[1].k), Append(pb, c[2].k)>> :
      c \in { c \in C : (o.mv /\ c[1].k # c[2].k) \/ o.un } }
Common(A, B) == { c \in A \X B : c[1].id = c[2].id /\ c[1].n = c[2].n }
Gone(A, B) == { x \in A : ~\E y \in B : x.id = y.id /\ x.n = y.n }

\* containers whose items are compared whole
FlatD(u, v, pa, pb, f, o) ==
  LET dict == (IF u = Nothing THEN v ELSE u)[1] = "dict"
      Items(x) == LET es == SelectSeq(Entries(x), LAMBDA e : Sub(f, e[1]) # {} /\ ItemVal(x[2], e[2], o) # Nothing)
                  IN [k \in 1..Len(es) |-> [k |-> es[k][1], v |-> es[k][2], id |-> Key(ItemVal(x[2], es[k][2], o))]]
      A == Numbered(Items(u), Items(v), dict)
      B == Numbered(Items(v), Items(u), dict)
      ka == { x.k : x \in Gone(A, B) }
      kb == { x.k : x \in Gone(B, A) }
  IN { Stays(Common(A, B), pa, pb, o)
       \cup { <<"removed", Append(pa, k), pb>> : k \in ka \ kb }
       \cup { <<"added", pa, Append(pb, k)>> : k \in kb \ ka }
       \cup { <<"modified", Append(pa, k), Append(pb, k)>> : k \in ka \cap kb } }

CollD(u, v, pa, pb, f, o) ==
  LET dict == (IF u = Nothing THEN v ELSE u)[1] = "dict"
      Items(x) == LET es == SelectSeq(Entries(x), LAMBDA e : Sub(f, e[1]) # {})
                      is == [k \in 1..Len(es) |-> [k |-> es[k][1], v |-> es[k][2], id |-> Id(es[k][2], es[k][2][2], Sub(f, es[k][1]), o)]]
                  IN SelectSeq(is, LAMBDA i : ~(o.ei /\ Empty(i.id)))
      A == Numbered(Items(u), Items(v), dict)
      B == Numbered(Items(v), Items(u), dict)
      C == Common(A, B)
      GA == Gone(A, B)
      GB == Gone(B, A)
      At(p, x) == Append(p, x.k)
      Deep(c) == ItemD(c[1].v, c[2].v, At(pa, c[1]), At(pb, c[2]), Sub(f, c[1].k), o)
      Lost(X) == { <<"removed", At(pa, x), pb>> : x \in X }
      New(X) == { <<"added", pa, At(pb, x)>> : x \in X }
      Paired(m) == { LET c == x[1] ds == x[2] IN
                     ds \cup (IF o.mv /\ c[1].k # c[2].k THEN {<<"moved", At(pa, c[1]), At(pb, c[2])>>}
                              ELSE IF o.un /\ (\A d \in ds : d[1] = "none") THEN {<<"none", At(pa, c[1]), At(pb, c[2])>>} ELSE {}) : x \in {m} \X Deep(m) }
  IN IF o.rc THEN
       LET S == { c \in A \X B : c[1].k = c[2].k } IN
       Cross(CrossAll({ Deep(c) : c \in S }),
             { Lost({ x \in A : ~\E y \in B : x.k = y.k }) \cup New({ y \in B : ~\E x \in A : x.k = y.k }) })
     ELSE IF u = Nothing \/ v = Nothing THEN
       CrossAll({ D(IF u = Nothing THEN u ELSE x.v, IF u = Nothing THEN x.v ELSE v, At(pa, x), At(pb, x), Sub(f, x.k), o) : x \in GA \cup GB })
     ELSE
       UNION { Cross(CrossAll({ Deep(c) : c \in C } \cup { Paired(c) : c \in m }),
                     { Stays({ c \in C : Alike(c[1].v, c[2].v, o) \/ (o.mv /\ c[1].k # c[2].k) }, pa, pb, o)
                       \cup Lost({ x \in GA : ~\E c \in m : c[1] = x }) \cup New({ y \in GB : ~\E c \in m : c[2] = y }) })
               : m \in IF o.fz THEN Matchings(GA, GB) ELSE {{}} }

D(u, v, pa, pb, f, o) ==
  LET w == IF u = Nothing THEN v ELSE u IN
  CASE w[1] = "rec" -> RecD(u, v, pa, pb, f, o)
    [] w[2] = "py" \/ Item(w[2]) = "" -> FlatD(u, v, pa, pb, f, o)
    [] OTHER -> Cross(RecD(u, v, pa, pb, f, o), CollD(u, v, pa, pb, f, o))
\* Comparing other things with duck_type is not specified, nor along with ignore_empty_slots.
RECURSIVE Ducks(_, _)
Ducks(u, v) ==
  IF ~IsBox(u) /\ ~IsBox(v) THEN TRUE
  ELSE CASE u = Nothing \/ v = Nothing -> TRUE
         [] ~SameType(u, v) /\ ~SameSlots(u, v) -> FALSE
         [] u[2] = "py" -> TRUE
         [] u[1] = "rec" -> \A f \in ToSet(Fields(u[2])) : Ducks(GetE(u[3], f[1]), GetE(v[3], f[1]))
         [] OTHER -> /\ \A e \in ToSet(Entries(u)), g \in ToSet(Entries(v)) : Ducks(e[2], g[2])
                     /\ \A e \in ToSet(Slots(u)), g \in ToSet(Slots(v)) : (Len(u) = 4 /\ e[1] = g[1]) => Ducks(e[2], g[2])
Known(s, o) == o.dt => ~o.es /\ Ducks(s[1], s[2])
Results(s, o) == D(s[1], s[2], <<>>, <<>>, ToSet(o.f), o)

-----------------------------------------------------------------------------
Outcomes(s, op) == { [res |-> x, post |-> s] : x \in Results(s, op[2]) }
\* a comparison leaves both records as they are
Step(op) == /\ UNCHANGED st
            /\ \A x \in Outcomes(st, op) : PrintT("@@" \o ToJson([c |-> 0, pre |-> st, op |-> op, res |-> x.res, post |-> x.post]))
=============================================================================
