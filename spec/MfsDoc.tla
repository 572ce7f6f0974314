------------------------------- MODULE MfsDoc -------------------------------
(***************************************************************************)
(* Filtering, patching and deleting by multi field selector (C17), over    *)
(* the documents of Doc.tla.  A multi field selector is given as the set   *)
(* of its selectors.                                                       *)
(***************************************************************************)
EXTENDS Doc

CONSTANTS Docs, Sets, Sources, Mode, KeyOrder, MaxLevel
VARIABLES st
vars == <<st>>

W == <<"n">>
Er(k) == <<"err", k>>
OkN == <<"ok", <<"none">>>>
ToSet(s) == { s[k] : k \in 1..Len(s) }
\* a selects all that b does
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k] \/ (k = Len(a) /\ a[k] = W)
Norm(D) == { p \in D : ~\E q \in D : q # p /\ IsPrefix(q, p) }
Heads(D) == { p[1] : p \in D }
Under(D, h) == { Tail(p) : p \in { q \in D : q[1] = h } }
\* everything here
All(D) == <<>> \in D
Members(D) == D = { <<W>> }

\* entries of dict collections are listed in key order
KPos(k) == CHOOSE q \in 1..Len(KeyOrder) : KeyOrder[q] = k
RECURSIVE InsE(_, _), SortE(_)
InsE(s, e) == IF s = <<>> THEN <<e>> ELSE IF KPos(e[1]) < KPos(s[1][1]) THEN <<e>> \o s ELSE <<s[1]>> \o InsE(Tail(s), e)
SortE(s) == IF s = <<>> THEN <<>> ELSE InsE(SortE(Tail(s)), s[1])
RECURSIVE Canon(_)
Canon(nd) ==
  CASE nd[1] = "rec" -> <<"rec", nd[2], [k \in 1..Len(nd[3]) |-> <<nd[3][k][1], Canon(nd[3][k][2])>>]>>
    [] nd[1] = "list" -> <<"list", nd[2], [k \in 1..Len(nd[3]) |-> Canon(nd[3][k])]>>
    [] nd[1] = "dict" -> <<"dict", nd[2], SortE([k \in 1..Len(nd[3]) |-> <<nd[3][k][1], Canon(nd[3][k][2])>>])>>
    [] OTHER -> nd

-----------------------------------------------------------------------------
(* Filter: the value, or <<"bad">> where the selector does not apply *)
RECURSIVE Filter(_, _)
Bad == <<"bad">>
Filter(nd, D) ==
  IF All(D) \/ Members(D) THEN nd
  ELSE CASE nd[1] = "rec" ->
         IF W \in Heads(D) \/ \E h \in Heads(D) : h[1] = "i" THEN Bad
         ELSE LET es == SelectSeq(nd[3], LAMBDA e : <<"s", e[1]>> \in Heads(D))
                  fs == [k \in 1..Len(es) |-> <<es[k][1], Filter(es[k][2], Under(D, <<"s", es[k][1]>>))>>]
              IN IF \E k \in 1..Len(fs) : fs[k][2] = Bad THEN Bad
                 ELSE IF RequiredSlot(nd[2]) # "" /\ ~HasE(fs, RequiredSlot(nd[2])) THEN Bad
                 ELSE <<"rec", nd[2], fs>>
    [] nd[1] = "list" ->
         IF \E h \in Heads(D) : h[1] = "s" THEN Bad
         ELSE LET sel(k) == IF W \in Heads(D) THEN W ELSE <<"i", k - 1>>
                  has(k) == sel(k) \in Heads(D)
                  RECURSIVE F(_)
                  F(k) == IF k > Len(nd[3]) THEN <<>>
                          ELSE (IF has(k) THEN <<Filter(nd[3][k], Under(D, sel(k)))>> ELSE <<>>) \o F(k + 1)
                  vs == F(1)
              IN IF Bad \in ToSet(vs) THEN Bad ELSE <<"list", nd[2], vs>>
    [] nd[1] = "dict" ->
         LET sel(e) == IF W \in Heads(D) THEN W ELSE <<"s", e[1]>>
             es == SelectSeq(nd[3], LAMBDA e : sel(e) \in Heads(D))
             fs == [k \in 1..Len(es) |-> <<es[k][1], Filter(es[k][2], Under(D, sel(es[k])))>>]
         IN IF \E k \in 1..Len(fs) : fs[k][2] = Bad THEN Bad ELSE <<"dict", nd[2], fs>>
    [] OTHER -> Bad
\* selecting a list index that is not there may be refused
RECURSIVE Misses(_, _)
Misses(nd, D) ==
  IF All(D) \/ Members(D) THEN FALSE
  ELSE CASE nd[1] = "list" ->
         \/ \E h \in Heads(D) : h[1] = "i" /\ h[2] >= Len(nd[3])
         \/ \E k \in 1..Len(nd[3]) : \E h \in Heads(D) \cap {W, <<"i", k - 1>>} : Misses(nd[3][k], Under(D, h))
    [] nd[1] \in {"rec", "dict"} ->
         \E k \in 1..Len(nd[3]) : \E h \in Heads(D) \cap {W, <<"s", nd[3][k][1]>>} : Misses(nd[3][k][2], Under(D, h))
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Does get of selector p succeed?  Through a wildcard: if any member has it *)
RECURSIVE Gets(_, _)
Gets(nd, p) ==
  IF p = <<>> THEN TRUE
  ELSE IF p[1] = W THEN IsColl(nd) /\ LET ms == MembersOf(nd) IN
       Len(ms) = 0 \/ \E k \in 1..Len(ms) : Gets(ms[k], Tail(p))
  ELSE IF HasChild(nd, p[1]) THEN Gets(Child(nd, p[1]), Tail(p))
  ELSE Len(p) = 1 /\ nd[1] = "rec" /\ p[1][1] = "s" /\ ReadsAs(nd[2], p[1][2]) # <<"bad">>

RECURSIVE Drop(_, _), DropItems(_, _, _)
\* remove what D selects (D # {}, and not all of nd itself)
Drop(nd, D) ==
  IF IsScalar(nd) \/ (nd[1] = "rec" /\ W \in Heads(D)) THEN nd
  ELSE IF Members(D) THEN <<nd[1], nd[2], <<>>>>
  ELSE DropItems(nd, D, 1)
DropItems(nd, D, k) ==
  LET sel(c) == IF W \in Heads(D) THEN W ELSE c
      RECURSIVE F(_)
      F(j) == IF j > Len(nd[3]) THEN <<>>
              ELSE LET c == IF nd[1] = "list" THEN <<"i", j - 1>> ELSE <<"s", nd[3][j][1]>>
                       old == IF nd[1] = "list" THEN nd[3][j] ELSE nd[3][j][2]
                       U == Under(D, sel(c))
                       new == IF sel(c) \in Heads(D) THEN Drop(old, U) ELSE old
                   IN (IF sel(c) \in Heads(D) /\ All(U) THEN <<>>
                       ELSE << IF nd[1] = "list" THEN new ELSE <<nd[3][j][1], new>> >>) \o F(j + 1)
  IN <<nd[1], nd[2], F(1)>>

-----------------------------------------------------------------------------
(* Patch: t := what D selects of s.  "absent" stands for nothing there.      *)
(* Gap: the target's list would have to skip an index; not specified.        *)
Absent == <<"absent">>
Gap == <<"gap">>
HasSel(nd, D) == \* does nd have anything D selects?
  nd # Absent /\ (\E p \in D :
     LET RECURSIVE G(_, _)
         G(x, q) == IF q = <<>> THEN TRUE
                    ELSE IF q = <<W>> THEN x[1] \in {"list", "dict"}
                    ELSE IF q[1] = W THEN x[1] \in {"list", "dict"} /\ \E m \in ToSet(MembersOf(x)) : G(m, Tail(q))
                    ELSE HasChild(x, q[1]) /\ G(Child(x, q[1]), Tail(q))
     IN G(nd, p))
KindOfChild(nd, c) == IF nd[1] = "rec" THEN KindOf(nd[2], c[2]) ELSE ItemKind(nd)
ChildOr(nd, c) == IF nd # Absent /\ HasChild(nd, c) THEN Child(nd, c) ELSE Absent
AnyGap(x) == LET RECURSIVE A(_)
                 A(y) == \/ y = Gap
                         \/ y # Gap /\ y # Absent /\ y[1] = "list" /\ \E k \in 1..Len(y[3]) : A(y[3][k])
                         \/ y # Gap /\ y # Absent /\ y[1] \in {"rec", "dict"} /\ \E k \in 1..Len(y[3]) : A(y[3][k][2])
             IN A(x)
Cat(s, i) == s \o << >>

RECURSIVE Patch(_, _, _, _), Fold(_, _, _, _, _)
\* t, s: target and source node, either may be Absent; kind: of the target
Patch(t, s, D, kind) ==
  IF All(D) THEN s
  ELSE IF s = Absent \/ ~HasSel(s, D) THEN (IF t = Absent THEN Absent ELSE Drop(t, D))
  ELSE IF t # Absent /\ (t[1] # s[1] \/ (~IsScalar(t) /\ t[2] # s[2])) THEN Gap
  ELSE IF t # Absent /\ IsScalar(t) THEN Gap
  \* all members of an empty collection, for a target without one
  ELSE IF t = Absent /\ Members(D) /\ s[3] = <<>> THEN Gap
  ELSE IF t = Absent /\ kind[1] \notin {"rec", "list", "dict"} THEN Gap
  ELSE IF t = Absent /\ kind[1] = "rec" /\ RequiredSlot(kind[2]) # "" THEN Gap
  ELSE LET t0 == IF t = Absent THEN <<kind[1], kind[2], <<>>>> ELSE t IN
       IF Members(D) THEN <<t0[1], t0[2], s[3]>>
       ELSE LET n == Max2(Len(t0[3]), IF s[1] = t0[1] THEN Len(s[3]) ELSE 0)
                cs == CASE t0[1] = "list" -> SelectSeq([k \in 1..n |-> <<"i", k - 1>>], LAMBDA c : W \in Heads(D) \/ c \in Heads(D))
                        [] t0[1] = "dict" -> SelectSeq([k \in 1..Len(KeyOrder) |-> <<"s", KeyOrder[k]>>],
                                                 LAMBDA c : (W \in Heads(D) \/ c \in Heads(D)) /\ (HasChild(t0, c) \/ HasChild(s, c)))
                        [] OTHER -> SelectSeq([k \in 1..Len(Slots(t0[2])) |-> <<"s", Slots(t0[2])[k][1]>>], LAMBDA c : c \in Heads(D))
            IN Fold(t0, s, D, cs, {})
\* store the children one by one, then remove the ones that must go
Fold(t, s, D, cs, gone) ==
  IF cs = <<>>
  THEN LET G == { <<c>> : c \in gone } IN IF G = {} THEN t ELSE Drop(t, G)
  ELSE LET c == cs[1]
           U == Under(D, IF W \in Heads(D) THEN W ELSE c)
           new == Patch(ChildOr(t, c), ChildOr(s, c), U, KindOfChild(t, c))
       IN IF AnyGap(new) THEN Gap
          ELSE IF new = Absent THEN Fold(t, s, D, Tail(cs), IF HasChild(t, c) THEN gone \cup {c} ELSE gone)
          ELSE IF t[1] = "list" /\ t[2] = "py" /\ c[2] >= Len(t[3]) THEN Gap
          ELSE IF t[1] = "list" /\ c[2] = Len(t[3])
               THEN Fold(<<"list", t[2], Append(t[3], new)>>, s, D, Tail(cs), gone)
          ELSE IF t[1] = "list" /\ c[2] > Len(t[3]) THEN Gap
          ELSE Fold(PutChild(t, c, new), s, D, Tail(cs), gone)

-----------------------------------------------------------------------------
Out(r, post) == { [res |-> r, post |-> Canon(post)] }
Outcomes(nd, op) ==
  LET D == Norm(ToSet(op[2])) IN
  CASE op[1] = "filter" ->
         LET f == Filter(nd, D) IN
         (IF f = Bad THEN {} ELSE Out(<<"ok", Canon(f)>>, nd)) \cup
         (IF f # Bad /\ Misses(nd, D) THEN Out(Er("miss"), nd) ELSE {})
    [] op[1] = "delete" ->
         IF ~op[3] /\ \E p \in D : ~Gets(nd, p) THEN Out(Er("fs"), nd)
         ELSE Out(OkN, IF D = {} THEN nd ELSE Drop(nd, D))
    [] op[1] = "patch" ->
         LET r == Patch(nd, op[3], D, Kind(nd)) IN
         IF D = {} THEN Out(OkN, nd)
         ELSE IF AnyGap(r) THEN {} ELSE Out(OkN, r)

Ops == CASE Mode = "filter" -> { <<"filter", D>> : D \in Sets }
         [] Mode = "delete" -> { <<"delete", D, f>> : D \in Sets, f \in BOOLEAN }
         [] OTHER -> { <<"patch", D, s, c>> : D \in Sets, s \in Sources, c \in BOOLEAN }
Init == st \in Docs
Step(op) == \E x \in Outcomes(st, op) :
              /\ st' = x.post
              /\ PrintT("@@" \o ToJson([c |-> 0, pre |-> st, op |-> op, res |-> x.res, post |-> x.post]))
Next == TLCGet("level") <= MaxLevel /\ \E op \in Ops : Step(op)

-----------------------------------------------------------------------------
(* The properties, on the specification *)
Typed == WellTyped(st)
\* what a location holds, whichever way it is reached
RECURSIVE At(_, _)
At(nd, p) == IF nd = Absent \/ p = <<>> THEN nd ELSE IF HasChild(nd, p[1]) THEN At(Child(nd, p[1]), Tail(p)) ELSE Absent
Plain(D) == \A p \in D : \A k \in 1..Len(p) : p[k][1] = "s"
SelEq == \A op \in Ops : (op[1] = "patch" /\ Plain(ToSet(op[2]))) =>
           \A x \in Outcomes(st, op) : \A p \in Norm(ToSet(op[2])) :
              LET a == At(x.post, p)  b == At(Canon(op[3]), p) IN a = b
\* filtering twice is filtering once; filtering then deleting leaves nothing selected
FilterIdem == \A op \in Ops : op[1] = "filter" =>
           LET D == Norm(ToSet(op[2])) f == Filter(st, D) IN
           (f # Bad /\ ~Misses(st, D) /\ \A p \in D : \A k \in 1..Len(p) : p[k][1] # "i") => Filter(f, D) = f
DeleteGone == \A op \in Ops : (op[1] = "delete" /\ Plain(ToSet(op[2]))) =>
           \A x \in Outcomes(st, op) : x.res = OkN => \A p \in Norm(ToSet(op[2])) : At(x.post, p) = Absent
\* what is deleted and what is kept by the same selector make up the whole
PatchBack == \A op \in Ops : (op[1] = "patch" /\ Plain(ToSet(op[2]))) =>
           LET D == Norm(ToSet(op[2])) r == Patch(st, op[3], D, Kind(st)) IN
           (~AnyGap(r) /\ \A p \in D : Gets(st, p)) =>
              LET back == Patch(r, st, D, Kind(st)) IN
              AnyGap(back) \/ Canon(back) = Canon(st)
=============================================================================
