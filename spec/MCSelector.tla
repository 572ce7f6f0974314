----------------------------- MODULE MCSelector -----------------------------
EXTENDS Selector
N(s) == <<"s", s>>
X(i) == <<"i", i>>
W == <<"n">>
Rec(T, es) == <<"rec", T, es>>
Lst(T, es) == <<"list", T, es>>
Dct(T, es) == <<"dict", T, es>>
Leaf(k) == Rec("Leaf", << <<"w", <<"i", k>>>> >>)
Leaf0 == Rec("Leaf", <<>>)
ItemA == Rec("Item", << <<"a", <<"s", "one">>>>, <<"b", <<"i", 1>>>> >>)
Item0 == Rec("Item", <<>>)
ItemK == Rec("Item", << <<"b", <<"i", 2>>>>, <<"kids", Lst("Leaf", <<Leaf(1), Leaf0, Leaf(3)>>)>>, <<"leaf", Leaf(4)>> >>)
ItemL == Rec("Item", << <<"a", <<"s", "two">>>>, <<"kids", Lst("Leaf", <<Leaf(5)>>)>> >>)
Req1 == Rec("Req", << <<"k", <<"s", "key">>>> >>)

D0 == Rec("Root", <<>>)
D1 == Rec("Root", << <<"name", <<"s", "nm">>>>, <<"n", <<"i", 3>>>>, <<"any", <<"s", "av">>>>,
                     <<"raw", Lst("py", << <<"i", 1>>, Dct("py", << <<"k", <<"s", "v">>>> >>) >>)>>,
                     <<"sub", Rec("Sub", << <<"x", <<"i", 1>>>>, <<"leaf", Leaf(2)>>, <<"subs", Lst("Leaf", <<Leaf(6), Leaf(7)>>)>> >>)>> >>)
D2 == Rec("Root", << <<"sub", Rec("Sub", <<>>)>>, <<"items", Lst("Item", <<ItemA, Item0, ItemK>>)>>,
                     <<"nums", Lst("int", << <<"i", 1>>, <<"i", 2>>, <<"i", 3>> >>)>> >>)
D3 == Rec("Root", << <<"raw", Dct("py", << <<"p", <<"i", 1>>>>, <<"items", <<"i", 2>>>> >>)>>,
                     <<"map", Dct("Item", << <<"p", ItemA>>, <<"q", Item0>>, <<"keys", ItemL>> >>)>>,
                     <<"cnt", Dct("int", << <<"p", <<"i", 1>>>>, <<"q", <<"i", 2>>>> >>)>>,
                     <<"reqs", Lst("Req", <<Req1>>)>> >>)
D4 == Rec("Root", << <<"items", Lst("Item", <<>>)>>, <<"map", Dct("Item", <<>>)>>, <<"nums", Lst("int", <<>>)>>,
                     <<"reqs", Lst("Req", <<>>)>>, <<"req", Req1>> >>)
D5 == Rec("Root", << <<"n", <<"i", 0>>>>, <<"items", Lst("Item", <<ItemL, ItemA>>)>>,
                     <<"map", Dct("Item", << <<"q", ItemL>>, <<"p", ItemA>> >>)>>,
                     <<"nums", Lst("int", << <<"i", 5>> >>)>>, <<"reqs", Lst("Req", <<Req1, Req1>>)>> >>)
None == <<"none">>
ItemN == Rec("Item", << <<"v", None>> >>)
D6 == Rec("Root", << <<"any", None>>, <<"raw", Lst("py", <<None, <<"i", 1>>>>)>>, <<"items", Lst("Item", <<ItemN, ItemA>>)>>,
                     <<"map", Dct("Item", << <<"p", ItemA>>, <<"q", ItemN>> >>)>> >>)
D7 == Rec("Root", << <<"raw", Dct("py", << <<"p", None>> >>)>>, <<"items", Lst("Item", <<Item0, ItemN, ItemK>>)>> >>)
DocsS == {D0, D1, D2, D3, D4, D5, D6, D7}
DocsP == {D0, D2, D3, D4, D6}

\* value to write at each (well-typed) path
Int9 == <<"i", 9>>
PV == { << <<N("z")>>, Int9 >>, << <<N("zs")>>, Leaf(3) >>, << <<N("zs"), N("w")>>, Int9 >>, << <<N("raw"), N("p")>>, <<"none">> >>, << <<N("name")>>, <<"s", "z">> >>, << <<N("n")>>, Int9 >>, << <<N("any")>>, Int9 >>,
  << <<N("sub")>>, Rec("Sub", << <<"x", Int9>> >>) >>, << <<N("sub"), N("x")>>, Int9 >>,
  << <<N("sub"), N("leaf")>>, Leaf(8) >>, << <<N("sub"), N("leaf"), N("w")>>, Int9 >>,
  << <<N("sub"), N("subs"), X(0), N("w")>>, Int9 >>, << <<N("sub"), N("subs"), W, N("w")>>, Int9 >>,
  << <<N("sub"), N("subs"), X(1)>>, Leaf(8) >>,
  << <<N("items")>>, Lst("Item", <<ItemA>>) >>, << <<N("items"), X(0)>>, ItemL >>, << <<N("items"), X(1)>>, ItemL >>,
  << <<N("items"), X(-1)>>, ItemL >>, << <<N("items"), X(3)>>, ItemL >>,
  << <<N("items"), W>>, <<"list", "py", <<ItemL, ItemA>>>> >>,
  << <<N("items"), X(0), N("a")>>, <<"s", "z">> >>, << <<N("items"), X(1), N("b")>>, Int9 >>,
  << <<N("items"), X(0), N("kids"), X(0), N("w")>>, Int9 >>, << <<N("items"), X(2), N("kids"), X(1), N("w")>>, Int9 >>,
  << <<N("items"), X(3), N("leaf"), N("w")>>, Int9 >>, << <<N("items"), X(5), N("a")>>, <<"s", "z">> >>,
  << <<N("items"), W, N("a")>>, <<"s", "z">> >>, << <<N("items"), W, N("v")>>, <<"none">> >>, << <<N("items"), X(0), N("v")>>, <<"none">> >>,
  << <<N("map"), W, N("v")>>, Int9 >>, << <<N("any"), N("zz")>>, Int9 >>, << <<N("items"), W, N("kids"), W, N("w")>>, Int9 >>,
  << <<N("items"), W, N("leaf"), N("w")>>, Int9 >>, << <<N("items"), W, N("kids"), X(0), N("w")>>, Int9 >>,
  << <<N("items"), W, N("kids"), X(1)>>, Leaf(8) >>,
  << <<N("map"), N("p")>>, ItemL >>, << <<N("map"), N("r")>>, ItemL >>, << <<N("map"), N("p"), N("a")>>, <<"s", "z">> >>,
  << <<N("map"), N("r"), N("a")>>, <<"s", "z">> >>, << <<N("map"), N("q"), N("kids"), X(0), N("w")>>, Int9 >>,
  << <<N("map"), N("r"), N("leaf"), N("w")>>, Int9 >>, << <<N("map"), N("r"), N("leaf"), N("b")>>, Int9 >>, << <<N("items"), X(3), N("leaf"), N("b")>>, Int9 >>, << <<N("map"), N("r"), N("kids"), X(0), N("w")>>, Int9 >>,
  << <<N("nums"), X(0)>>, Int9 >>, << <<N("nums"), X(1)>>, Int9 >>, << <<N("nums"), X(3)>>, Int9 >>,
  << <<N("nums"), X(-1)>>, Int9 >>, << <<N("nums"), X(7)>>, Int9 >>, << <<N("nums"), X(-5)>>, Int9 >>,
  << <<N("nums"), W>>, <<"list", "py", <<Int9, Int9>>>> >>,
  << <<N("cnt"), N("p")>>, Int9 >>, << <<N("cnt"), N("r")>>, Int9 >>,
  << <<N("raw"), X(0)>>, Int9 >>, << <<N("raw"), X(2)>>, Int9 >>, << <<N("raw"), X(1), N("k")>>, Int9 >>,
  << <<N("map"), W, N("b")>>, Int9 >>, << <<N("map"), W, N("kids"), X(0), N("w")>>, Int9 >>,
  << <<N("map"), N("keys")>>, ItemA >>, << <<N("map"), N("keys"), N("a")>>, <<"s", "z">> >>, << <<N("map"), N("values"), N("a")>>, <<"s", "z">> >>,
  << <<N("map"), W>>, Dct("py", << <<"q", ItemA>> >>) >>,
  << <<N("reqs"), X(0), N("k")>>, <<"s", "z">> >>, << <<N("reqs"), X(0), N("o")>>, Int9 >>,
  << <<N("reqs"), X(1), N("k")>>, <<"s", "z">> >>, << <<N("reqs"), W, N("o")>>, Int9 >>,
  << <<N("req"), N("k")>>, <<"s", "z">> >>, << <<N("req"), N("o")>>, Int9 >> }
\* no such attribute, whatever the document
Nowhere == { <<N("zz"), N("x")>>, <<N("sub"), N("zz"), N("x")>>, <<N("name"), N("zz")>>, <<N("any"), N("zz"), N("yy")>>,
             <<N("items"), X(0), N("zz"), N("x")>>, <<N("map"), N("p"), N("zz"), N("x")>> }
\* components that do not fit what is there
Misfit == { <<N("name"), W>>, <<N("n"), X(0)>>, <<W>>, <<X(0)>>, <<N("sub"), X(1)>>, <<N("sub"), W>>, <<N("items"), N("zz"), N("a")>>,
            <<N("items"), X(0), W>>, <<N("items"), W, X(0)>>, <<N("nums"), X(0), X(0)>>, <<N("nums"), W, W>>, <<N("map"), W, X(0)>>, <<N("name"), X(0)>> }
GetOnly == { <<>>, <<N("zz")>>, <<N("sub"), N("zz")>>, <<N("items"), W, N("zz")>>, <<N("items"), W, W>> } \ { <<N("items"), W, W>> }
\* required slots cannot be deleted, so they are not part of this module's deletes
NoDel == { <<N("reqs"), X(0), N("k")>>, <<N("reqs"), X(1), N("k")>>, <<N("req"), N("k")>> }
PPs == { pv[1] : pv \in PV } \cup Nowhere
\* a value of the wrong type, where the target is an int, a record or a list
BadAt == { <<N("n")>>, <<N("sub")>>, <<N("sub"), N("leaf"), N("w")>>, <<N("items"), X(0)>>, <<N("items"), X(1), N("b")>>,
           <<N("items"), W, N("b")>>, <<N("nums"), X(0)>>, <<N("nums"), X(3)>>, <<N("nums"), X(7)>>, <<N("map"), N("r")>>,
           <<N("map"), N("r"), N("b")>>, <<N("items"), X(0), N("kids"), X(0), N("w")>>, <<N("reqs"), X(1), N("o")>> }
OpsS == { <<"get", p>> : p \in PPs \cup GetOnly \cup Misfit } \cup { <<"getn", p>> : p \in PPs \cup GetOnly \cup Misfit } \cup
        { <<"put", pv[1], pv[2]>> : pv \in PV } \cup { <<"put", p, Int9>> : p \in Nowhere } \cup
        { <<"put", p, Bad>> : p \in BadAt } \cup { <<"put", p, Int9>> : p \in Misfit } \cup
        { <<"delete", p>> : p \in (PPs \cup Misfit) \ NoDel }
OpsP == { <<"get", p>> : p \in PPs } \cup
        { <<"post", pv[1], pv[2]>> : pv \in PV } \cup { <<"post", p, Int9>> : p \in Nowhere \ { <<N("name"), N("zz")>> } } \cup
        { <<"post", p, Int9>> : p \in {<<W>>, <<X(0)>>, <<N("sub"), X(1)>>, <<N("items"), X(0), W>>, <<N("items"), N("zz"), N("a")>>} } \cup
        { <<"post", p, Bad>> : p \in BadAt }
=============================================================================
