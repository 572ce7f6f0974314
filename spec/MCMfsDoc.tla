------------------------------ MODULE MCMfsDoc ------------------------------
EXTENDS MfsDoc
N(s) == <<"s", s>>
X(i) == <<"i", i>>
Rec(T, es) == <<"rec", T, es>>
Lst(T, es) == <<"list", T, es>>
Dct(T, es) == <<"dict", T, es>>
Leaf(k) == Rec("Leaf", << <<"w", <<"i", k>>>> >>)
Leaf0 == Rec("Leaf", <<>>)
ItemA == Rec("Item", << <<"a", <<"s", "one">>>>, <<"b", <<"i", 1>>>> >>)
Item0 == Rec("Item", <<>>)
ItemK == Rec("Item", << <<"b", <<"i", 2>>>>, <<"kids", Lst("Leaf", <<Leaf(1), Leaf0, Leaf(3)>>)>>, <<"leaf", Leaf(4)>> >>)
ItemL == Rec("Item", << <<"a", <<"s", "two">>>>, <<"kids", Lst("Leaf", <<Leaf(5)>>)>> >>)
Req1 == Rec("Req", << <<"k", <<"s", "key">>>> >>)
D0 == Rec("Root", <<>>)
D1 == Rec("Root", << <<"name", <<"s", "nm">>>>, <<"n", <<"i", 3>>>>, <<"any", <<"s", "av">>>>,
                     <<"raw", Lst("py", << <<"i", 1>>, Dct("py", << <<"k", <<"s", "v">>>>, <<"p", Lst("py", << <<"i", 4>> >>)>> >>) >>)>>,
                     <<"sub", Rec("Sub", << <<"x", <<"i", 1>>>>, <<"leaf", Leaf(2)>>, <<"subs", Lst("Leaf", <<Leaf(6), Leaf(7)>>)>> >>)>> >>)
D2 == Rec("Root", << <<"name", <<"s", "two">>>>, <<"sub", Rec("Sub", <<>>)>>, <<"items", Lst("Item", <<ItemA, Item0, ItemK>>)>>,
                     <<"nums", Lst("int", << <<"i", 1>>, <<"i", 2>>, <<"i", 3>> >>)>> >>)
D3 == Rec("Root", << <<"raw", Dct("py", << <<"items", <<"i", 2>>>>, <<"p", <<"i", 1>>>> >>)>>, <<"items", Lst("Item", <<ItemL>>)>>,
                     <<"map", Dct("Item", << <<"p", ItemA>>, <<"q", Item0>>, <<"r", ItemK>> >>)>>,
                     <<"cnt", Dct("int", << <<"p", <<"i", 1>>>>, <<"q", <<"i", 2>>>> >>)>>,
                     <<"reqs", Lst("Req", <<Req1>>)>> >>)
D4 == Rec("Root", << <<"items", Lst("Item", <<>>)>>, <<"map", Dct("Item", <<>>)>>, <<"nums", Lst("int", <<>>)>>,
                     <<"reqs", Lst("Req", <<>>)>>, <<"req", Req1>> >>)
D5 == Rec("Root", << <<"n", <<"i", 0>>>>, <<"raw", Dct("py", << <<"p", Lst("py", << <<"i", 7>> >>)>> >>)>>, <<"sub", Rec("Sub", << <<"x", <<"i", 9>>>> >>)>>, <<"items", Lst("Item", <<ItemL, ItemA, ItemL, ItemK>>)>>,
                     <<"map", Dct("Item", << <<"keys", ItemK>>, <<"p", ItemL>>, <<"q", ItemA>> >>)>>,
                     <<"nums", Lst("int", << <<"i", 5>> >>)>>, <<"reqs", Lst("Req", <<Req1, Req1>>)>> >>)
D6 == Rec("Root", << <<"any", <<"none">>>>, <<"raw", Dct("py", << <<"k", <<"none">>>>, <<"p", <<"s", "">>>> >>)>>,
                     <<"items", Lst("Item", <<Rec("Item", << <<"a", <<"s", "">>>>, <<"v", <<"none">>>> >>), ItemA>>)>>, <<"z", <<"i", 0>>>>, <<"zs", Leaf(5)>> >>)
DocsS == {D6, D0, D1, D2, D3, D4, D5}
Keys == <<"items", "k", "keys", "p", "q", "r">>

SetsS == { <<>>, << <<N("name")>> >>, << <<N("name")>>, <<N("n")>> >>, << <<N("sub")>> >>, << <<N("sub"), N("x")>> >>,
  << <<N("sub"), N("leaf"), N("w")>>, <<N("sub"), N("x")>>, <<N("any")>> >>,
  << <<N("sub"), N("subs"), W, N("w")>> >>, << <<N("sub"), N("subs"), X(1)>>, <<N("sub"), N("subs"), X(0)>> >>,
  << <<N("items")>> >>, << <<N("items"), W>>, <<N("name")>> >>, << <<N("items"), X(0)>>, <<N("items"), X(1)>>, <<N("n")>> >>,
  << <<N("items"), X(0)>>, <<N("items"), X(2)>> >>, << <<N("items"), X(1), N("a")>>, <<N("items"), X(0)>> >>,
  << <<N("items"), W, N("a")>> >>, << <<N("items"), W, N("a")>>, <<N("items"), W, N("kids"), W, N("w")>> >>,
  << <<N("items"), W, N("kids"), X(0)>>, <<N("nums")>> >>, << <<N("items"), W, N("leaf")>>, <<N("items"), W, N("b")>> >>,
  << <<N("items"), X(0), N("kids"), X(0), N("w")>> >>, << <<N("items"), X(2), N("kids"), X(0)>>, <<N("items"), X(2), N("kids"), X(1)>> >>,
  << <<N("nums"), X(0)>>, <<N("nums"), X(1)>> >>, << <<N("nums"), W>> >>, << <<N("nums"), X(2)>>, <<N("nums"), X(0)>> >>,
  << <<N("map"), N("p")>> >>, << <<N("map"), N("p"), N("a")>>, <<N("map"), N("r")>> >>, << <<N("map"), N("q"), N("b")>>, <<N("cnt"), N("q")>> >>,
  << <<N("cnt")>>, <<N("map")>> >>, << <<N("map"), N("r"), N("kids"), W, N("w")>> >>,
  << <<N("raw")>> >>, << <<N("raw"), X(1), N("p")>>, <<N("raw"), X(0)>> >>, << <<N("raw"), N("p")>> >>, << <<N("raw"), W>>, <<N("map"), N("keys"), N("leaf")>> >>,
  << <<N("raw"), W, N("k")>> >>, << <<N("map"), W, N("b")>>, <<N("cnt"), W>> >>, << <<N("map"), W>> >>,
  << <<N("reqs"), W, N("o")>> >>, << <<N("req")>> >>, << <<N("req"), N("k")>> >>,
  << <<N("any")>>, <<N("z")>> >>, << <<N("zs")>>, <<N("name")>> >>, << <<N("zs"), N("w")>> >>, << <<N("z")>>, <<N("items"), W, N("v")>> >>, << <<N("items"), X(0), N("v")>>, <<N("items"), X(0), N("a")>>, <<N("raw"), N("k")>> >> }
\* wildcards over dict collections can be filtered by
FilterSets == SetsS \cup { << <<N("map"), W, N("a")>> >>, << <<N("map"), W>> >>, << <<N("cnt"), W>>, <<N("map"), W, N("kids"), X(0)>> >>,
  << <<N("reqs"), W>> >>, << <<N("reqs"), X(0), N("k")>>, <<N("req"), N("k")>> >> }
\* required slots are never deleted
DeleteSets == SetsS \ { << <<N("req"), N("k")>> >> }
PatchSets == (SetsS \ { << <<N("req"), N("k")>> >>, << <<N("reqs"), W, N("o")>> >> }) \cup { << <<N("map"), W, N("a")>> >>, << <<N("map"), W, N("b")>>, <<N("map"), W, N("leaf")>> >> }
NoDocs == {}
=============================================================================
