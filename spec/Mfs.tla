--------------------------------- MODULE Mfs --------------------------------
(***************************************************************************)
(* A multi field selector as a set of locations (C16).  The state is the   *)
(* set of selectors it stands for, in normal form: a final wildcard is     *)
(* dropped (all members of x is as good as x), and nothing beneath         *)
(* something already selected is kept.                                     *)
(* Components: <<"s", name>>, <<"i", n>>, <<"n">> (the wildcard).          *)
(***************************************************************************)
EXTENDS PySeq, Json

CONSTANTS Alphabet,   \* components in the order used for listing
          Paths, Merges, MaxSize
VARIABLES st
vars == <<st>>

W == <<"n">>
Strip(p) == IF p # <<>> /\ p[Len(p)] = W THEN SubSeq(p, 1, Len(p) - 1) ELSE p
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
Norm(D) == { p \in D : ~\E q \in D : q # p /\ IsPrefix(q, p) }
\* a wildcard and a named component side by side
Mixed(D) == \E p, q \in D : \E k \in 1..Min2(Len(p), Len(q)) :
              /\ \A m \in 1..(k - 1) : p[m] = q[m]
              /\ p[k] = W /\ q[k] # W

Matches(d, p) == \A k \in 1..Min2(Len(d), Len(p)) : d[k] = W \/ d[k] = p[k]
Covers(D, p) == \E d \in D : Len(d) <= Len(p) /\ Matches(d, p)
Sub(D, p) == Norm({ SubSeq(d, Len(p) + 1, Len(d)) : d \in { x \in D : Matches(x, p) } })

\* listing
Ix(c) == CHOOSE k \in 1..Len(Alphabet) : Alphabet[k] = c
RECURSIVE Lt(_, _)
Lt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
            ELSE IF a[1] # b[1] THEN Ix(a[1]) < Ix(b[1]) ELSE Lt(Tail(a), Tail(b))
RECURSIVE List(_)
List(D) == IF D = {} THEN <<>>
           ELSE LET m == CHOOSE p \in D : \A q \in D : p = q \/ Lt(p, q) IN <<m>> \o List(D \ {m})
ToSet(s) == { s[k] : k \in 1..Len(s) }

Out(r, post) == { [res |-> r, post |-> post] }
Ok(v) == <<"ok", v>>
OkN == <<"ok", <<"n">>>>
Er(k) == <<"err", k>>

Union2(D, E) == LET U == Norm(D \cup E) IN
  IF Mixed(U) THEN Out(Er("value"), D) ELSE Out(OkN, U)

Outcomes(D, op) ==
  LET o == op[1] IN
  CASE o \in {"add", "addfirst"} -> Union2(D, {Strip(op[2])})
    [] o \in {"merge", "mergefirst"} -> Union2(D, { Strip(p) : p \in ToSet(op[2]) })
    [] o = "new" -> LET U == Norm({ Strip(p) : p \in ToSet(op[2]) }) IN
         IF Mixed(U) THEN Out(Er("value"), D) ELSE Out(OkN, U)
    [] o = "rebuild" -> Out(OkN, D)
    [] o = "enter" -> IF op[2] = <<>> THEN Out(OkN, D)
         ELSE IF Sub(D, op[2]) = {} THEN Out(Ok(<<"none">>), D) ELSE Out(OkN, Sub(D, op[2]))
    \* looks
    [] o = "enum" -> Out(Ok(List(D)), D)
    [] o \in {"path", "repr", "copy", "deepcopy", "pickle", "frompath"} -> Out(Ok(List(D)), D)
    [] o = "bool" -> Out(Ok(D # {}), D)
    [] o = "in1" -> Out(Ok(<<>> \in D \/ \E d \in D : d[1] = W \/ d[1] = op[2]), D)
    [] o = "in" -> Out(Ok(Covers(D, op[3])), D)
    [] o = "get1" -> LET s == Sub(D, <<op[2]>>) IN
         Out(IF s = {} THEN Ok(<<"none">>) ELSE Ok(List(s)), D)
    [] o = "get" -> LET s == Sub(D, op[3]) IN
         IF op[3] = <<>> /\ D = {} THEN Out(Ok(<<"none">>), D) \cup Out(Ok(<<>>), D)
         ELSE Out(IF s = {} THEN Ok(<<"none">>) ELSE Ok(List(s)), D)
    [] o = "complete" -> Out(Ok(D = {<<>>}), D)

Muts == { <<o, p>> : o \in {"add", "addfirst"}, p \in Paths } \cup
        { <<o, m>> : o \in {"merge", "mergefirst", "new"}, m \in Merges }
Enters == { <<"enter", p>> : p \in Paths } \cup { <<"rebuild">> }
Srcs == {"fs", "tuple", "list"}
Comps == ToSet(Alphabet)
Looks == { <<o>> : o \in {"enum", "path", "repr", "copy", "deepcopy", "bool", "complete", "frompath"} } \cup
         { <<"pickle", 2>> } \cup
         { <<"in1", c>> : c \in Comps } \cup { <<"get1", c>> : c \in Comps } \cup
         { <<o, src, p>> : o \in {"in", "get"}, src \in Srcs, p \in Paths }
Enabled == Looks \cup Enters \cup (IF Cardinality(st) <= MaxSize THEN Muts ELSE {})

Init == st = {}
Step(op) == \E x \in Outcomes(st, op) :
              /\ st' = x.post
              /\ PrintT("@@" \o ToJson([c |-> 0, pre |-> List(st), op |-> op, res |-> x.res, post |-> List(x.post)]))
Next == \E op \in Enabled : Step(op)

-----------------------------------------------------------------------------
(* The properties, on the specification *)
Normal == Norm(st) = st /\ ~Mixed(st)
\* membership is exactly coverage: a path is covered before or after a union
\* exactly if one side covers it, and its extensions are covered with it
UnionCovers == \A p \in Paths : \A x \in Outcomes(st, <<"add", p>>) :
    x.res = OkN => \A q \in Paths : Covers(x.post, q) = (Covers(st, q) \/ Covers({Strip(p)}, q))
Downward == \A p \in Paths : Covers(st, p) => \A c \in Comps : Covers(st, Append(p, c))
SubAgrees == \A p \in Paths : \A q \in Paths : Covers(Sub(st, p), q) = Covers(st, p \o q)
CompleteIffCovered == \A p \in Paths : (Sub(st, p) = {<<>>}) = Covers(st, p)
AnyOrder == \A p, q \in Paths :
   LET a == Norm(Norm(st \cup {Strip(p)}) \cup {Strip(q)})
       b == Norm(Norm(st \cup {Strip(q)}) \cup {Strip(p)})
   IN a = b
=============================================================================
