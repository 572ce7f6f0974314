------------------------------ MODULE Selector ------------------------------
(***************************************************************************)
(* Field selectors reading, writing, creating and deleting locations of a  *)
(* document (C13, C14).  One action per public FieldSelector call.         *)
(***************************************************************************)
EXTENDS Doc

CONSTANTS Docs, Ops, MaxLevel
VARIABLES st
vars == <<st>>

Tl(p) == SubSeq(p, 2, Len(p))
Wild == <<"n">>
OkV(v) == <<"ok", v>>
Er(k) == <<"err", k>>
IsE(r) == r[1] = "err"

-----------------------------------------------------------------------------
RECURSIVE Get(_, _)
Get(nd, p) ==
  IF p = <<>> THEN OkV(nd)
  ELSE IF p[1] = Wild
  THEN IF ~IsColl(nd) THEN Er("fs") ELSE
       LET ms == MembersOf(nd)
           rs == [k \in 1..Len(ms) |-> Get(ms[k], Tl(p))]
       IN  IF Len(rs) > 0 /\ \A k \in 1..Len(rs) : IsE(rs[k]) THEN Er("fs")
           ELSE OkV(<<"list", "py", [k \in 1..Len(rs) |-> IF IsE(rs[k]) THEN <<"none">> ELSE rs[k][2]]>>)
  ELSE IF HasChild(nd, p[1]) THEN Get(Child(nd, p[1]), Tl(p))
  ELSE IF nd[1] = "rec" /\ p[1][1] = "s" /\ ReadsAs(nd[2], p[1][2]) # <<"bad">> THEN Get(ReadsAs(nd[2], p[1][2]), Tl(p))
  ELSE Er("fs")

-----------------------------------------------------------------------------
(* put, post and delete return <<result, node afterwards>>.  Where a write *)
(* goes through a wildcard and fails part-way, the members before it have  *)
(* been written.                                                           *)
Bad == <<"bad">>     \* a value of no acceptable type
ChildKind(nd, p) == IF nd[1] = "rec" THEN KindOf(nd[2], p[2]) ELSE ItemKind(nd)
Accepts(nd, p, v) == v # Bad /\ FitsKind(v, ChildKind(nd, p))

\* write the final component
PutFinal(nd, p, v) ==
  CASE p = Wild ->
         IF ~IsColl(nd) THEN <<Er("fs"), nd>>
         ELSE IF v[1] # nd[1] \/ v[2] # "py" THEN <<Er("coerce"), nd>>
         ELSE <<OkV(1), <<nd[1], nd[2], v[3]>>>>
    [] IsScalar(nd) -> <<Er("fs"), nd>>
    [] nd[1] = "rec" /\ p[1] = "i" -> <<Er("fs"), nd>>
    [] nd[1] = "list" /\ ~HasChild(nd, p) -> <<Er(IF v = Bad THEN "coercefs" ELSE "fs"), nd>>
    [] OTHER -> IF Accepts(nd, p, v) THEN <<OkV(1), PutChild(nd, p, v)>> ELSE <<Er("coerce"), nd>>

RECURSIVE Put(_, _, _), PutMembers(_, _, _, _)
Put(nd, p, v) ==
  IF Len(p) = 1 THEN PutFinal(nd, p[1], v)
  ELSE IF p[1] = Wild THEN IF IsColl(nd) THEN PutMembers(nd, Tl(p), v, 1) ELSE <<Er("fs"), nd>>
  ELSE IF ~HasChild(nd, p[1]) THEN <<Er("fs"), nd>>
  ELSE LET r == Put(Child(nd, p[1]), Tl(p), v) IN <<r[1], PutChild(nd, p[1], r[2])>>
PutMembers(nd, p, v, k) ==
  IF k > Len(nd[3]) THEN <<OkV(0), nd>>
  ELSE LET r == Put(Mem(nd, k), p, v)
           nd2 == SetMem(nd, k, r[2])
       IN  IF IsE(r[1]) THEN <<r[1], nd2>>
           ELSE LET rest == PutMembers(nd2, p, v, k + 1)
                IN  IF IsE(rest[1]) THEN rest ELSE <<OkV(r[1][2] + rest[1][2]), rest[2]>>

\* a new, empty container of the given kind; a record with a required slot can
\* only be made when the next and last component names that slot
CanMake(kind, p) ==
  /\ kind[1] \in {"rec", "list", "dict"}
  /\ (kind[1] = "rec" /\ RequiredSlot(kind[2]) # "") => (Len(p) = 1 /\ p[1] = <<"s", RequiredSlot(kind[2])>>)
Made(kind) == <<kind[1], kind[2], <<>>>>

RECURSIVE Post(_, _, _, _), PostMembers(_, _, _, _, _)
Post(nd, p, v, keep) ==
  IF Len(p) = 1
  THEN IF nd[1] = "list" /\ nd[2] # "py" /\ p[1] = <<"i", Len(nd[3])>>
       THEN IF v # Bad /\ FitsKind(v, ItemKind(nd)) THEN <<OkV(1), <<"list", nd[2], Append(nd[3], v)>>>>
            ELSE <<Er("coerce"), nd>>
       ELSE PutFinal(nd, p[1], v)
  ELSE IF p[1] = Wild THEN IF IsColl(nd) THEN PostMembers(nd, Tl(p), v, 1, keep) ELSE <<Er("fs"), nd>>
  ELSE IF HasChild(nd, p[1])
  THEN LET r == Post(Child(nd, p[1]), Tl(p), v, keep) IN <<r[1], PutChild(nd, p[1], r[2])>>
  ELSE IF IsScalar(nd) THEN <<Er("fs"), nd>>
  ELSE IF nd[1] = "rec" /\ p[1][1] = "i" THEN <<Er("fs"), nd>>
  ELSE IF nd[1] = "rec" /\ KindOf(nd[2], p[1][2]) \in {<<"none">>, <<"any">>} THEN <<Er("fs"), nd>>
  ELSE IF nd[1] = "list" /\ p[1] # <<"i", Len(nd[3])>> THEN <<Er("gap"), nd>>
  ELSE LET kind == ChildKind(nd, p[1]) IN
       IF ~CanMake(kind, Tl(p)) THEN <<Er("make"), nd>>
       ELSE LET r == Post(Made(kind), Tl(p), v, keep)
                \* a new record that never got its value may stay behind, empty
                atonce == kind[1] = "rec" /\ Len(p) = 2 /\ IsE(r[1]) /\ ~(keep /\ RequiredSlot(kind[2]) = "")
                nd2 == IF nd[1] = "list" THEN <<"list", nd[2], Append(nd[3], r[2])>>
                       ELSE PutChild(nd, p[1], r[2])
            IN  <<r[1], IF atonce THEN nd ELSE nd2>>
PostMembers(nd, p, v, k, keep) ==
  IF k > Len(nd[3]) THEN <<OkV(0), nd>>
  ELSE LET r == Post(Mem(nd, k), p, v, keep)
           nd2 == SetMem(nd, k, r[2])
       IN  IF IsE(r[1]) THEN <<r[1], nd2>>
           ELSE LET rest == PostMembers(nd2, p, v, k + 1, keep)
                IN  IF IsE(rest[1]) THEN rest ELSE <<OkV(r[1][2] + rest[1][2]), rest[2]>>

\* deleting a slot that is not set may or may not be reported ("maybe")
RECURSIVE Delete(_, _), DeleteMembers(_, _, _, _)
Delete(nd, p) ==
  IF Len(p) = 1
  THEN IF p[1] = Wild THEN IF IsColl(nd) THEN <<"ok", <<nd[1], nd[2], <<>>>>>> ELSE <<"fs", nd>>
       ELSE IF HasChild(nd, p[1]) THEN <<"ok", DelChild(nd, p[1])>>
       ELSE <<IF IsColl(nd) \/ p[1][1] = "i" THEN IF nd[1] = "list" /\ p[1][1] = "s" THEN "maybe" ELSE "fs" ELSE "maybe", nd>>
  ELSE IF p[1] = Wild THEN IF IsColl(nd) THEN DeleteMembers(nd, Tl(p), 1, {}) ELSE <<"fs", nd>>
  ELSE IF ~HasChild(nd, p[1])
  THEN << IF nd[1] = "rec" /\ p[1][1] = "s" /\ ReadsAs(nd[2], p[1][2]) # <<"bad">> /\ Len(p) = 2 /\ p[2][1] = "s" THEN "maybe" ELSE "fs", nd>>
  ELSE LET r == Delete(Child(nd, p[1]), Tl(p)) IN <<r[1], PutChild(nd, p[1], r[2])>>
DeleteMembers(nd, p, k, seen) ==
  IF k > Len(nd[3])
  THEN << IF seen = {} \/ "ok" \in seen THEN "ok" ELSE IF "maybe" \in seen THEN "maybe" ELSE "fs", nd >>
  ELSE LET r == Delete(Mem(nd, k), p)
       IN  DeleteMembers(SetMem(nd, k, r[2]), p, k + 1, seen \cup {r[1]})

-----------------------------------------------------------------------------
Out(r, post) == { [res |-> r, post |-> post] }
\* what a failing write through wildcards may leave: nothing done, or the
\* members before the failure done
OutW(r, kinds, pre) ==
  IF IsE(r[1]) THEN UNION { { [res |-> Er(k), post |-> pre], [res |-> Er(k), post |-> r[2]] } : k \in kinds }
  ELSE { [res |-> r[1], post |-> r[2]] }
PutKinds(e) == IF e = "coercefs" THEN {"coerce", "fs"} ELSE {e}

\* a write through an integer key of a dictionary: python would take it, and
\* nothing is claimed
RECURSIVE Odd(_, _)
Odd(nd, p) ==
  IF p = <<>> THEN FALSE
  ELSE IF p[1] = Wild THEN IsColl(nd) /\ \E k \in 1..Len(nd[3]) : Odd(Mem(nd, k), Tl(p))
  ELSE IF IsDict(nd) /\ p[1][1] = "i" THEN TRUE
  ELSE HasChild(nd, p[1]) /\ Odd(Child(nd, p[1]), Tl(p))

\* the outcomes the documents allow; none for an operation nothing is said of
Outcomes(s, op) ==
  CASE op[1] \in {"put", "post", "delete"} /\ Odd(s, op[2]) -> {}
    [] op[1] = "get" -> Out(Get(s, op[2]), s)
    [] op[1] = "getn" -> LET g == Get(s, op[2]) IN Out(IF IsE(g) THEN OkV(<<"none">>) ELSE g, s)
    [] op[1] = "put" -> LET r == Put(s, op[2], op[3]) IN
         IF IsE(r[1]) THEN OutW(r, PutKinds(r[1][2]), s) ELSE Out(OkV(<<"none">>), r[2])
    [] op[1] = "post" -> UNION { OutW(Post(s, op[2], op[3], keep), {"post"}, s) : keep \in BOOLEAN }
    [] op[1] = "delete" -> LET r == Delete(s, op[2]) IN
         CASE r[1] = "ok" -> Out(OkV(<<"none">>), r[2])
           [] r[1] = "maybe" -> Out(OkV(<<"none">>), r[2]) \cup Out(Er("fs"), r[2])
           [] OTHER -> Out(Er("fs"), r[2])
    \* post every leaf value of s, in field selector order, to an empty record
    [] op[1] = "rebuild" -> Out(OkV(<<"bool", TRUE>>), s)

Init == st \in Docs
Step(op) == \E x \in Outcomes(st, op) :
              /\ st' = x.post
              /\ PrintT("@@" \o ToJson([c |-> 0, pre |-> st, op |-> op, res |-> x.res, post |-> x.post]))
\* every container has something in it, so its leaves say all there is
RECURSIVE NoEmpty(_)
NoEmpty(nd) ==
  CASE IsScalar(nd) -> TRUE
    [] nd[1] = "list" -> nd[3] # <<>> /\ \A k \in 1..Len(nd[3]) : NoEmpty(nd[3][k])
    [] OTHER -> nd[3] # <<>> /\ \A k \in 1..Len(nd[3]) : NoEmpty(nd[3][k][2])
AllOps == IF NoEmpty(st) THEN Ops \cup {<<"rebuild">>} ELSE Ops
Next == TLCGet("level") <= MaxLevel /\ \E op \in AllOps : Step(op)

-----------------------------------------------------------------------------
(* The properties, on the specification *)
Typed == WellTyped(st)
NoWild(p) == \A k \in 1..Len(p) : p[k] # Wild
NonNeg(p) == \A k \in 1..Len(p) : p[k][1] = "i" => p[k][2] >= 0
\* C13: put then get gives the value; put keeps every location it does not name
Diverge(p, q) == \E k \in 1..Min2(Len(p), Len(q)) : p[k] # q[k] /\ p[k] # Wild /\ q[k] # Wild
Paths == { o[2] : o \in { x \in Ops : x[1] \in {"get", "put", "post"} } }
PutGet == \A op \in Ops : (op[1] = "put" /\ NoWild(op[2])) =>
            \A x \in Outcomes(st, op) : x.res[1] = "ok" => Get(x.post, op[2]) = OkV(op[3])
PutFrame == \A op \in Ops : (op[1] = "put" /\ NonNeg(op[2])) =>
            \A x \in Outcomes(st, op) : \A q \in Paths :
              (NonNeg(q) /\ Diverge(op[2], q)) => Get(x.post, q) = Get(st, q)
FailFrame == \A op \in Ops : (op[1] = "put" /\ NoWild(op[2])) =>
            \A x \in Outcomes(st, op) : x.res[1] = "err" => x.post = st
\* C14: post then get; post keeps everything that existed
PostGet == \A op \in Ops : (op[1] = "post" /\ NoWild(op[2])) =>
            \A x \in Outcomes(st, op) : x.res[1] = "ok" => Get(x.post, op[2]) = OkV(op[3])
PostIsPut == \A op \in Ops : (op[1] = "post" /\ ~Odd(st, op[2])) =>
            LET r == Put(st, op[2], op[3]) IN
            ~IsE(r[1]) => \A x \in Outcomes(st, op) : x.post = r[2]
PostFrame == \A op \in Ops : (op[1] = "post" /\ NonNeg(op[2])) =>
            \A x \in Outcomes(st, op) : \A q \in Paths :
              (NonNeg(q) /\ NoWild(q) /\ Diverge(op[2], q) /\ Get(st, q)[1] = "ok") => Get(x.post, q) = Get(st, q)
DeleteGone == \A op \in Ops : (op[1] = "delete" /\ NoWild(op[2]) /\ op[2][Len(op[2])][1] = "s" /\ op[2][Len(op[2])][2] \notin {"z", "zs"}) =>
            \A x \in Outcomes(st, op) : Get(x.post, op[2]) = Er("fs")
=============================================================================
