-------------------------------- MODULE Classes --------------------------------
(***************************************************************************)
(* Record classes, declared one after another (C24).                       *)
(*                                                                         *)
(* A class is <<bases, own, props, pk>>: the numbers of its bases, its own *)
(* properties as pairs of name and kind, all its properties as triples of  *)
(* name, kind and declaring class in the order of their names, and the     *)
(* primary key as a sequence of names, or <<"?">> if it has none of its    *)
(* own but a base has one.                                                 *)
(* Kinds: "p" plain, "i" integer, "d" default 1, "r" required, "e"         *)
(* extraneous, "o" read-only, "l" lazy with value 7.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

ToSet(s) == { s[q] : q \in 1..Len(s) }
Names == <<"a", "x", "x0", "y", "z">>
Reserved == {"properties", "eager_properties"}
NameOf(p) == p[1]
Has(ps, n) == \E q \in 1..Len(ps) : ps[q][1] = n
Get(ps, n) == ps[CHOOSE q \in 1..Len(ps) : ps[q][1] = n]
InOrder(S) == LET pick(n) == { p \in S : p[1] = n }
              IN LET ns == SelectSeq(Names, LAMBDA n : pick(n) # {}) IN [q \in 1..Len(ns) |-> CHOOSE p \in pick(ns[q]) : TRUE]
Bases(c) == c[1]
Props(c) == c[3]
Pk(c) == c[4]

\* a declaration: bases, own properties, primary key; a key is given by names <<"s",n>>, as own property objects <<"own",n>>, or as properties of
\* another class <<"of",class,n>>
NoKey == << <<"none", "">> >>
Refused(cs, d) ==
  LET bases == d[1] own == d[2]
      clash == \E q, r \in 1..Len(bases) : q < r /\ \E p \in ToSet(Props(cs[bases[q]])) : Has(Props(cs[bases[r]]), p[1])
  IN clash \/ \E p \in ToSet(own) : p[1] \in Reserved
All(cs, d) ==
  LET inherited == UNION { ToSet(Props(cs[b])) : b \in ToSet(d[1]) }
  IN InOrder({ p \in inherited : ~Has(d[2], p[1]) } \cup { <<p[1], p[2], Len(cs) + 1>> : p \in ToSet(d[2]) })
BadKey(cs, d, ps) ==
  d[3] # NoKey /\ \E k \in ToSet(d[3]) :
     CASE k[1] = "s" -> ~Has(ps, k[2])
       [] k[1] = "own" -> ~Has(d[2], k[2])
       [] k[1] = "of" -> ~(Has(ps, k[3]) /\ Get(ps, k[3])[3] = Get(Props(cs[k[2]]), k[3])[3])
KeyName(k) == IF k[1] = "of" THEN k[3] ELSE k[2]
Declared(cs, d) ==
  LET ps == All(cs, d) IN
  << d[1], d[2], ps, IF d[3] # NoKey THEN [q \in 1..Len(d[3]) |-> KeyName(d[3][q])]
                     ELSE IF \E b \in ToSet(d[1]) : Pk(cs[b]) # <<>> THEN <<"?">> ELSE <<>> >>

\* records: pairs of name and value; what a slot becomes of v
Err == <<"error">>
Conv(kind, v) == IF kind = "i" THEN (IF v[1] = "i" THEN v ELSE IF v[2] = "5" THEN <<"i", 5>> ELSE Err) ELSE v
Make(c, vs) ==
  LET ps == Props(c)
      given(p) == IF Has(vs, p[1]) THEN { <<p[1], Conv(p[2], Get(vs, p[1])[2])>> } ELSE IF p[2] = "d" THEN { <<p[1], <<"i", 1>>>> } ELSE {}
      slots == UNION { given(p) : p \in ToSet(ps) }
  IN IF (\E v \in ToSet(vs) : ~Has(ps, v[1])) \/ (\E s \in slots : s[2] = Err) \/ (\E p \in ToSet(ps) : p[2] = "r" /\ ~Has(vs, p[1]))
     THEN Err ELSE <<"ok", InOrder(slots)>>
\* what reading gives; <<>> if there is nothing
Read(c, r, n) == IF Has(r, n) THEN Get(r, n)[2] ELSE IF Has(Props(c), n) /\ Get(Props(c), n)[2] = "l" THEN <<"i", 7>> ELSE <<>>
Compared(c) == { p[1] : p \in { p \in ToSet(Props(c)) : p[2] # "e" } }
None == <<"n">>
OrNone(v) == IF v = <<>> THEN None ELSE v
Id(c, r) == LET ns == IF Pk(c) # <<>> THEN Pk(c) ELSE SelectSeq(Names, LAMBDA n : n \in Compared(c))
            IN [q \in 1..Len(ns) |-> OrNone(Read(c, r, ns[q]))]
DiffOf(c, r, s) == LET kind(n) == LET v == Read(c, r, n) w == Read(c, s, n) IN
                                  IF v = w THEN "" ELSE IF v = <<>> THEN "added" ELSE IF w = <<>> THEN "removed" ELSE "modified"
                       ns == SelectSeq(Names, LAMBDA n : n \in Compared(c) /\ kind(n) # "")
                   IN [q \in 1..Len(ns) |-> <<ns[q], kind(ns[q])>>]
RECURSIVE Sub(_, _, _)
Sub(cs, a, b) == a = b \/ \E q \in ToSet(Bases(cs[a])) : Sub(cs, q, b)

-----------------------------------------------------------------------------
O(res, post) == {[res |-> res, post |-> post]}
Outcomes(cs, op) ==
  LET c == IF op[1] \in {"declare", "classes"} THEN <<>> ELSE cs[op[2]] IN
  CASE op[1] = "declare" ->
         LET d == op[2] IN
         IF Refused(cs, d) \/ BadKey(cs, d, All(cs, d)) THEN O(<<"refused">>, cs)
         ELSE O(<<"ok">>, Append(cs, Declared(cs, d)))
    [] op[1] = "classes" -> O(<<"ok", [q \in 1..Len(cs) |-> << [r \in 1..Len(Props(cs[q])) |-> <<Props(cs[q])[r][1], Props(cs[q])[r][3]>>],
                                                              Pk(cs[q]),
                                                              [r \in 1..Len(cs) |-> Sub(cs, q, r)] >>]>>, cs)
    [] op[1] = "new" -> LET r == Make(c, op[3]) IN O(IF r = Err THEN <<"err">> ELSE <<"ok", InOrder({ <<p[1], OrNone(Read(c, r[2], p[1]))>> : p \in ToSet(Props(c)) })>>, cs)
    [] op[1] = "assign" -> LET r == Make(c, op[3]) p == Get(Props(c), op[4]) v == Conv(p[2], op[5]) IN
                           IF r = Err \/ ~Has(Props(c), op[4]) THEN {}
                           ELSE O(IF p[2] = "o" \/ v = Err THEN <<"err">> ELSE <<"ok", v>>, cs)
    [] op[1] = "id" -> LET r == Make(c, op[3]) IN IF r = Err \/ Pk(c) = <<"?">> THEN {} ELSE O(<<"ok", Id(c, r[2])>>, cs)
    [] op[1] = "same" -> LET r == Make(c, op[3]) s == Make(c, op[4]) IN
                         IF r = Err \/ s = Err THEN {} ELSE O(<<"ok", \A n \in Compared(c) : Read(c, r[2], n) = Read(c, s[2], n)>>, cs)
    [] op[1] = "diff" -> LET r == Make(c, op[3]) s == Make(c, op[4]) IN IF r = Err \/ s = Err THEN {} ELSE O(<<"ok", DiffOf(c, r[2], s[2])>>, cs)
    [] OTHER -> {}
=============================================================================
