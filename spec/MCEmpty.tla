------------------------------- MODULE MCEmpty -------------------------------
EXTENDS Empty
CONSTANTS Depth, Deep
VARIABLES root, depth
i(n) == <<"i", n>>
s(x) == <<"s", x>>
none == <<"n">>
K(es) == <<"r", "K", es>>
k0 == K(<<>>)
k1 == K(<< <<"l", <<"l", "LI", <<i(0), i(2)>>>>>>, <<"x", i(0)>>, <<"y", i(3)>> >>)
k2 == K(<< <<"e1", s("")>>, <<"ee", i(0)>>, <<"l", <<"l", "LI", <<>>>>>>, <<"t", s("a")>>, <<"v", i(0)>>, <<"x", k0>>, <<"z", i(0)>> >>)
ks == <<"r", "KS", << <<"w", i(0)>>, <<"y", i(0)>> >>>>
LK(ms) == <<"l", "LK", ms>>
AnyVals == {none, i(0), s(""), i(1), k0, k1, <<"l", "py", <<>>>>, <<"d", "dict", <<>>>>, <<"d", "dict", << <<"a", none>> >>>> }
Slots == [ k |-> {k0, k1, k2, ks}, a |-> AnyVals, n |-> {i(0), i(2)}, s |-> {s(""), s("a")},
           ks |-> {LK(<<>>), LK(<<k0>>), LK(<<k1, ks>>)}, d |-> {<<"d", "DK", <<>>>>, <<"d", "DK", << <<"a", k0>>, <<"b", k1>> >>>>},
           u |-> {k1, s(""), s("a")}, uk |-> {k0, ks}, ul |-> {k0, LK(<<>>), LK(<<k1>>), <<"d", "DK", << <<"b", k0>> >>>>},
           uc |-> {i(0), <<"r", "C", << <<"n", none>> >>>>, <<"r", "G", <<>>>>},
           nl |-> {<<"l", "LLK", <<>>>>, <<"l", "LLK", <<LK(<<>>), LK(<<k0>>)>>>>},
           c |-> {<<"r", "C", <<>>>>, <<"r", "C", << <<"n", i(0)>>, <<"w", k0>> >>>>}, g |-> {<<"r", "G", <<>>>>}, dy |-> {<<"r", "DY", << <<"n", k0>> >>>>},
           q |-> {<<"r", "AR", <<>>>>, <<"r", "AR", << <<"v", k0>> >>>>},
           md |-> {<<"d", "MD", <<>>>>, <<"d", "MD", << <<"a", i(0)>> >>>>}, o |-> {<<"d", "OD", <<>>>>, <<"d", "OD", << <<"b", s("")>> >>>>},
           k2 |-> {<<"r", "K2", << <<"o", i(0)>>, <<"x", k0>> >>>>}, kk |-> {<<"r", "K2", <<>>>>, ks},
           lu |-> {LK(<<k1>>), <<"l", "py", <<none>>>>}, lv |-> {<<"l", "LK2", <<>>>>, <<"l", "LK2", << <<"r", "K2", <<>>>> >>>>},
           p |-> {<<"l", "py", <<>>>>, <<"l", "py", <<i(0), k0>>>>} ]
R(es) == <<"r", "R", es>>
Ones == { R(<< <<n, v>> >>) : <<n, v>> \in UNION { { <<n, v>> : v \in Slots[n] } : n \in DOMAIN Slots } }
Roots == IF Deep THEN { R(<<>>), <<"r", "RR", <<>>>> }
         ELSE Ones \cup { <<"r", "RR", << <<"r", R(<<>>)>>, <<"rs", <<"l", "LR", <<>>>>>> >>>>,
                          <<"r", "RR", << <<"r", R(<< <<"k", k1>>, <<"ks", LK(<<k0, k2>>)>> >>)>>, <<"rs", <<"l", "LR", <<R(<< <<"n", i(0)>> >>), R(<<>>)>>>>>> >>>>,
                          R(<< <<"a", R(<< <<"a", none>>, <<"k", k2>> >>)>>, <<"k", k1>>, <<"n", i(0)>>, <<"nl", <<"l", "LLK", <<LK(<<k1>>)>>>>>> >>) }
NamesOf(c) == { n \in UNION { { Props[c][q][1], Props[c][q][2] } : q \in 1..Len(Props[c]) } : n # "" }
Names == UNION { NamesOf(c) : c \in {"K", "K2", "KS", "C", "R", "RR", "AR"} }
Wrong == {"m", "nothing", "m0", "real", "real0", "upper", "popitem", "append", "zz", "zz0", "e10", "ee0", "v0", "t0", "maybe_t", "w", "x", "k0"}
PhNames == IF Deep THEN Names \cup Wrong ELSE {"x", "x0", "k", "zz", "y0", "real"}
Ops == IF st[1] = "ph" THEN { <<"attr", n>> : n \in PhNames } \cup { <<"set", n>> : n \in {"x", "x0", "zz"} } \cup { <<"item", 0>>, <<"item", -1>>, <<"item", 5>>, <<"key", "a">>, <<"slice">>, <<"call">>, <<"bool">>, <<"iter">>, <<"setitem">>, <<"copy">> }
       ELSE IF st[2][1] = "r" THEN { <<"attr", n>> : n \in NamesOf(st[2][2]) \cup Wrong } \cup { <<"set", n>> : n \in NamesOf(st[2][2]) }
       ELSE { <<"item", q>> : q \in -2..2 } \cup { <<"key", q>> : q \in {"a", "b"} }
Say(op, o) == PrintT("@@" \o ToJson([c |-> root, pre |-> st, op |-> op, res |-> o.res, post |-> o.post]))
Init == /\ depth = 0
        /\ \E r \in Roots : root = r /\ st = <<"val", r>>
Next == /\ UNCHANGED root
        /\ \E op \in Ops : \E o \in Outcomes(op) :
             /\ Say(op, o)
             /\ st' = o.post
             /\ depth' = depth + (IF o.post[1] = "ph" /\ o.post # st THEN 1 ELSE 0)
             /\ depth' <= Depth
View == <<root, st>>
-----------------------------------------------------------------------------
\* chains of plain attributes give a value; a chain through "0" forms gives the same value, or a placeholder that is falsy: stated on the machine
\* an empty form never fails on a record that declares it, and gives what the plain form gives whenever that gives a value
Agree == st[1] = "val" /\ st[2][1] = "r" =>
           \A q \in 1..Len(Props[st[2][2]]) :
             LET p == Props[st[2][2]][q] plain == ValStep(st[2], <<"attr", p[1]>>) zero == ValStep(st[2], <<"attr", p[2]>>) IN
             p[2] # "" => \A oz \in zero : IF oz.post[1] = "val" THEN oz \in plain ELSE \A op \in plain : op.res = <<"noattr">>
\* whatever step a declared type allows on a placeholder of it is allowed on a placeholder of a union with it
Widen == st[1] = "ph" => \A t \in ToSet(st[2]), n \in Names : Attr(t, n) # {} => \E o \in PhStep(ToSet(st[2]), <<"attr", n>>) : o.res = <<"ph">>
=============================================================================
