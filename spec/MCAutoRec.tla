------------------------------ MODULE MCAutoRec ------------------------------
EXTENDS AutoRec
CONSTANTS NC, Depth, MaxSize
VARIABLES depth
i(n) == <<"i", n>>
s == <<"s", "a">>
D(es) == <<"dict", PutAll(<<>>, es)>>
L(ms) == <<"list", "py", ms>>
ab == <<"a", "B">>
a == <<"a">>
bb == <<"b", "1", "B", "b">>
nA == <<"n", "A">>
AB == <<"A", "B">>
Leaf == { i(1), <<"n">>, s }
Inner == { D(<<>>), D(<< <<ab, i(1)>> >>), D(<< <<ab, D(<< <<a, i(1)>> >>)>>, <<bb, L(<<>>)>> >>) }
Lists == { L(<<>>), L(<<i(1)>>), L(<<D(<< <<ab, i(1)>> >>), D(<<>>)>>), L(<<D(<<>>), <<"n">>>>), L(<<i(1), D(<< <<ab, i(1)>> >>)>>), L(<< L(<< D(<< <<ab, i(1)>> >>) >>) >>) }
Docs == { D(<<>>), D(<< <<JBA, D(<< <<ab, i(1)>> >>)>>, <<N, i(2)>>, <<ab, i(1)>> >>), D(<< <<N, s>> >>), D(<< <<a, i(1)>>, <<bb, i(2)>>, <<nA, s>>, <<AB, <<"n">>>> >>) }
        \cup { D(<< <<ab, v>> >>) : v \in Leaf \cup Inner \cup Lists }
        \cup { D(<< <<a, v>>, <<bb, w>> >>) : v \in Inner, w \in Lists }

Ab == <<"a", "_", "b">>
Bb == <<"b", "1", "_", "b", "b">>
Names(nc) == IF nc THEN {ab, a, BA, N} ELSE {Ab, a, BA, N, Bb}
Paths == { <<>>, << <<"k", Ab>> >>, << <<"k", ab>> >>, << <<"k", a>> >>, << <<"k", a>>, <<"k", Ab>> >>, << <<"k", a>>, <<"k", ab>> >>, << <<"k", Ab>>, <<"x", 1>> >>, << <<"k", ab>>, <<"x", 1>> >>, << <<"k", bb>>, <<"x", 2>> >>, << <<"k", Bb>>, <<"x", 1>> >> }
Lps == { << <<"k", k>> >> : k \in {ab, Ab, bb, Bb} }
Vals == { i(3), L(<<D(<< <<ab, i(1)>> >>)>>), D(<< <<ab, i(1)>> >>), <<"new", D(<< <<ab, i(1)>> >>)>> }

RECURSIVE Size(_), Sum(_)
Sum(vs) == IF vs = <<>> THEN 0 ELSE Size(vs[1]) + Sum(Tail(vs))
Size(v) == 1 + (CASE v[1] = "rec" -> Sum([q \in 1..Len(v[3]) |-> v[3][q][2]]) + Sum([q \in 1..Len(v[4]) |-> v[4][q][2]])
                  [] v[1] = "list" -> Sum(v[3]) [] v[1] = "dict" -> Sum([q \in 1..Len(v[2]) |-> v[2][q][2]]) [] OTHER -> 0)
Init == /\ depth = 0
        /\ \E d \in Docs \cup { D(<<>>) } : LoadR(NC, d[2]) # Err /\ st = <<NC, LoadR(NC, d[2])>>
Looks == { <<"write">>, <<"same">> } \cup { <<h, p, k>> : h \in {"get", "has"}, p \in Paths, k \in Names(NC) }
Makes == { <<"reload">>, <<"copy">>, <<"pickle">> } \cup { <<"set", p, k, v>> : p \in Paths, k \in Names(NC), v \in Vals } \cup { <<"del", p, k>> : p \in Paths, k \in Names(NC) }
         \cup { <<"append", p, v>> : p \in Lps, v \in { D(<<>>), D(<< <<ab, i(1)>> >>) } }
Next == \/ depth = 0 /\ st[2][4] = <<>> /\ (\E d \in Docs : Step(<<"load", d>>)) /\ UNCHANGED depth
        \/ \E op \in Looks : Step(op) /\ UNCHANGED depth
        \/ depth < Depth /\ Size(st[2]) <= MaxSize /\ (\E op \in Makes : Step(op)) /\ depth' = depth + 1
View == st
Spec == Init /\ [][Next]_<<st, depth>>

-----------------------------------------------------------------------------
\* all keys without underscores survive
Words(n) == UNION { [1..k -> {"a", "B", "1", "A", "b"}] : k \in 0..n }
ASSUME \A k \in Words(5) : Out(In(k)) = k
\* so do documents
ASSUME \A d \in Docs : LoadR(NC, d[2]) = Err \/ Write(NC, LoadR(NC, d[2])) = d
\* writing and reading again keeps what is written
AgainLaw == Clash(NC, st[2]) \/ LET d == Write(NC, st[2]) IN LoadR(NC, d[2]) = Err \/ Write(NC, LoadR(NC, d[2])) = d
\* what is read is never a plain object, unless it was put there: all attributes found in what was just read are scalars, plain lists, or records
Fresh == depth = 0 => \A e \in ToSet(st[2][4]) : e[2][1] # "dict"
=============================================================================
