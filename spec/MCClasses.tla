------------------------------- MODULE MCClasses -------------------------------
EXTENDS Classes
CONSTANTS Wide
VARIABLES cs
i(n) == <<"i", n>>
s(x) == <<"s", x>>
x(k) == <<"x", k>>
y(k) == <<"y", k>>
Own1 == { << >>, <<x("p")>>, <<x("i"), y("d")>>, <<x("r"), <<"z", "e">>>> } \cup (IF Wide THEN { <<x("o"), <<"x0", "p">>, y("l")>>, <<y("p")>>, <<x("e"), y("i")>> } ELSE {})
Own2 == { << >>, <<x("i")>>, <<x("d"), y("p")>>, <<y("e"), <<"x0", "i">>>>, <<x("o"), y("l")>> } \cup (IF Wide THEN { <<x("p"), y("r")>>, << <<"a", "p">>, x("r")>> } ELSE {})
Own3 == { << >>, <<x("p")>>, <<y("d"), <<"z", "i">>>> } \cup (IF Wide THEN { <<x("d"), y("r")>>, <<x("i"), <<"x0", "d">>>> } ELSE {})
Key(own) == {NoKey} \cup { << <<"s", "y">>, <<"s", "x">> >> } \cup (IF own # <<>> THEN { << <<"own", own[1][1]>> >> } ELSE { << <<"s", "x">> >> })
Decls == CASE Len(cs) = 0 -> UNION { { <<b, own, k>> : b \in {<<>>}, k \in Key(own) } : own \in Own1 \cup { << <<"properties", "p">> >> } }
           [] Len(cs) = 1 -> UNION { { <<b, own, k>> : b \in { <<>>, <<1>> }, k \in Key(own) \cup { << <<"of", 1, p[1]>> >> : p \in ToSet(Props(cs[1])) } } : own \in Own2 \cup { << <<"eager_properties", "p">> >> } }
           [] Len(cs) = 2 -> UNION { { <<b, own, k>> : b \in { <<2>>, <<1, 2>>, <<2, 1>> }, k \in {NoKey} \cup (IF Wide THEN { << <<"of", 1, p[1]>> >> : p \in ToSet(Props(cs[1])) } ELSE {}) } : own \in Own3 }
           [] OTHER -> {}
Vs == { << >>, << <<"x", i(1)>> >>, << <<"x", s("5")>>, <<"y", s("a")>> >>, << <<"x", i(2)>>, <<"y", i(1)>> >>, << <<"z", i(3)>>, <<"x", i(1)>> >>, << <<"x", i(1)>>, <<"x0", i(4)>>, <<"y", i(5)>> >>, << <<"x", s("a")>> >> }
Init == cs = <<>>
Say(op, o) == PrintT("@@" \o ToJson([c |-> 0, pre |-> cs, op |-> op, res |-> o.res, post |-> o.post]))
Do(op) == \E o \in Outcomes(cs, op) : Say(op, o) /\ cs' = o.post
\* the classes before the last keep what they had: looked at again by "classes", and made again
Q == Len(cs)
Next == \/ \E d \in Decls : (Refused(cs, d) \/ \A b, r \in ToSet(d[1]) : r = b \/ ~Sub(cs, b, r)) /\ Do(<<"declare", d>>)
        \/ Do(<<"classes">>)
        \/ Q > 0 /\ \E v \in Vs : Do(<<"new", Q, v>>)
        \/ Q > 0 /\ \E v \in Vs : Do(<<"id", Q, v>>)
        \/ Q > 1 /\ \E v \in { << >>, << <<"x", s("5")>>, <<"y", s("a")>> >> } : Do(<<"new", 1, v>>)
        \/ Q > 0 /\ \E v \in { << <<"x", i(1)>> >>, << <<"x", i(2)>>, <<"y", i(1)>> >> }, w \in Vs : Do(<<"same", Q, v, w>>)
        \/ Q > 0 /\ \E v \in { << <<"x", i(1)>> >> }, w \in Vs : Do(<<"diff", Q, v, w>>)
        \/ Q > 0 /\ \E n \in { p[1] : p \in ToSet(Props(cs[Q])) }, w \in {i(3), s("5"), s("a")} : Do(<<"assign", Q, << <<"x", i(1)>> >>, n, w>>)
Spec == Init /\ [][Next]_cs
-----------------------------------------------------------------------------
\* every property of a base is one of the class, unless overridden; and no class has others
Inherit == \A q \in 1..Q : /\ \A b \in ToSet(Bases(cs[q])) : \A p \in ToSet(Props(cs[b])) : p \in ToSet(Props(cs[q])) \/ Has(cs[q][2], p[1])
                           /\ \A p \in ToSet(Props(cs[q])) : (p[3] = q /\ Has(cs[q][2], p[1])) \/ \E b \in ToSet(Bases(cs[q])) : p \in ToSet(Props(cs[b]))
KeyOwn == \A q \in 1..Q : Pk(cs[q]) = <<"?">> \/ \A n \in ToSet(Pk(cs[q])) : Has(Props(cs[q]), n)
\* declared classes are never changed
Frozen == [][ Len(cs') >= Len(cs) /\ SubSeq(cs', 1, Len(cs)) = cs ]_cs
=============================================================================
