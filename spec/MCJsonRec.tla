----------------------------- MODULE MCJsonRec -----------------------------
EXTENDS JsonRec
i(n) == <<"i", n>>
s(t) == <<"s", t>>
nul == <<"n">>
b(x) == <<"b", x>>
big(d) == <<"big", d>>
A(xs) == <<"arr", xs>>
O(es) == <<"obj", es>>
Keys == <<"", "C", "ID", "Name", "Ps", "V", "W", "X", "Y", "a", "any", "b", "blank", "c", "cash", "cv", "d", "e", "in", "jList", "jd", "jll", "jlp", "jn", "k", "keep",
          "kp", "kq", "leaf", "n", "name", "nums", "opt", "pSub", "pd", "pl", "pll", "plp", "remark", "secret", "sub", "t", "unknown_json_keys", "x", "y", "zz", "zy">>
B1 == big("1125899906842625")
B0 == big("1125899906842624")
PI == O(<< <<"k", s("a")>>, <<"V", i(2)>> >>)
\* (key, value) pairs: conforming, then not
Good == { <<"n", i(1)>>, <<"n", s("7")>>, <<"n", B1>>, <<"n", B0>>, <<"n", big("-1125899906842625")>>, <<"n", b(TRUE)>>, <<"n", <<"f", "1.5">>>>,
  <<"Name", s("nm")>>, <<"Name", i(5)>>, <<"Name", nul>>, <<"remark", s("rm")>>, <<"cv", s("x1")>>, <<"cash", s("m1")>>,
  <<"any", nul>>, <<"any", A(<<i(1), O(<< <<"a", nul>> >>)>>)>>, <<"any", O(<< <<"zz", B1>> >>)>>, <<"d", i(2)>>,
  <<"sub", O(<<>>)>>, <<"sub", nul>>, <<"sub", O(<< <<"X", i(1)>>, <<"zz", A(<<i(1)>>)>>, <<"leaf", PI>> >>)>>,
  <<"pSub", O(<< <<"Y", i(3)>>, <<"in", O(<< <<"X", i(1)>>, <<"x", i(2)>> >>)>>, <<"Ps", A(<<PI, PI>>)>> >>)>>, <<"pSub", nul>>,
  <<"keep", O(<< <<"", i(3)>>, <<"a", i(1)>> >>)>>, <<"keep", O(<< <<"a", i(1)>>, <<"zz", O(<< <<"zy", i(1)>> >>)>> >>)>>,
  <<"jList", A(<<>>)>>, <<"jList", A(<<O(<< <<"ID", i(1)>>, <<"zz", s("q")>> >>), O(<< <<"ID", s("2")>>, <<"t", s("u")>>, <<"sub", O(<< <<"X", i(4)>> >>)>> >>)>>)>>, <<"jList", nul>>,
  <<"jlp", A(<<PI, O(<< <<"k", s("b")>>, <<"e", i(1)>> >>)>>)>>, <<"jn", A(<<i(1), s("2"), B1>>)>>,
  <<"pl", A(<<O(<< <<"ID", i(1)>>, <<"zz", i(1)>> >>)>>)>>, <<"plp", A(<<PI, PI>>)>>, <<"nums", A(<<i(1), B1, s("7")>>)>>,
  <<"jd", O(<< <<"kp", O(<< <<"ID", i(1)>> >>)>>, <<"kq", O(<< <<"ID", i(2)>>, <<"t", s("")>> >>)>> >>)>>, <<"jd", O(<<>>)>>,
  <<"pd", O(<< <<"kp", PI>>, <<"kq", O(<< <<"k", s("c")>>, <<"e", i(2)>> >>)>> >>)>>,
  <<"opt", nul>>, <<"opt", i(0)>>, <<"opt", s("7")>>, <<"jll", A(<<A(<<O(<< <<"ID", i(1)>> >>)>>), A(<<>>)>>)>>, <<"pll", A(<<A(<<PI>>), A(<<PI, PI>>), nul>>)>>,
  <<"zz", i(1)>>, <<"zz", A(<<i(1), O(<< <<"zy", B1>> >>)>>)>>, <<"name", s("py")>>, <<"secret", s("hush")>>, <<"unknown_json_keys", O(<< <<"zz", i(3)>> >>)>> }
Wrong == { <<"opt", s("w")>>, <<"jll", A(<<A(<<>>), A(<<O(<<>>)>>)>>)>>, <<"jll", A(<<i(5)>>)>>, <<"jll", i(5)>>, <<"pll", A(<<A(<<PI>>), A(<<PI, O(<<>>)>>)>>)>>, <<"pll", A(<<A(<<PI, O(<< <<"k", s("a")>>, <<"V", nul>> >>)>>)>>)>>, <<"pll", A(<<A(<<>>), i(5)>>)>>,
  <<"n", nul>>, <<"n", s("zzz")>>, <<"cv", s("bad")>>, <<"cv", s("bt")>>, <<"cv", s("bk")>>, <<"cv", s("ba")>>, <<"cv", s("br")>>, <<"cv", i(1)>>, <<"cash", s("t")>>, <<"cash", s("a")>>, <<"cv", s("xz")>>, <<"cash", s("k")>>, <<"cash", nul>>,
  <<"sub", i(5)>>, <<"sub", O(<< <<"X", s("zzz")>> >>)>>, <<"sub", O(<< <<"leaf", O(<< <<"V", i(1)>> >>)>> >>)>>,
  <<"sub", O(<< <<"leaf", O(<< <<"k", s("a")>>, <<"zz", i(1)>> >>)>> >>)>>, <<"sub", A(<<>>)>>,
  <<"pSub", i(5)>>, <<"pSub", O(<< <<"zz", i(1)>> >>)>>, <<"pSub", O(<< <<"y", i(1)>> >>)>>, <<"pSub", O(<< <<"Y", nul>> >>)>>,
  <<"pSub", O(<< <<"in", O(<< <<"leaf", O(<<>>)>> >>)>> >>)>>, <<"pSub", O(<< <<"Ps", A(<<PI, O(<<>>)>>)>> >>)>>, <<"pSub", O(<< <<"Ps", A(<<PI, O(<< <<"k", s("a")>>, <<"V", s("w")>> >>)>>)>> >>)>>,
  <<"keep", O(<< <<"a", nul>> >>)>>, <<"keep", O(<< <<"", nul>> >>)>>, <<"keep", O(<< <<"blank", i(1)>>, <<"", s("w")>> >>)>>,
  <<"jList", i(5)>>, <<"jList", O(<<>>)>>, <<"jList", A(<<i(5)>>)>>, <<"jList", A(<<O(<< <<"ID", i(1)>> >>), O(<<>>)>>)>>, <<"jList", A(<<O(<< <<"ID", s("zzz")>> >>), O(<< <<"ID", nul>> >>)>>)>>,
  <<"jList", A(<<O(<< <<"ID", i(1)>>, <<"sub", O(<< <<"leaf", O(<< <<"k", s("a")>>, <<"V", s("w")>> >>)>> >>)>> >>)>>)>>,
  <<"jlp", A(<<PI, O(<< <<"k", s("a")>>, <<"zz", i(1)>> >>)>>)>>, <<"jlp", A(<<i(5)>>)>>, <<"jn", A(<<i(1), s("zzz")>>)>>, <<"jn", i(5)>>,
  <<"pl", A(<<O(<< <<"ID", i(1)>> >>), O(<<>>)>>)>>, <<"plp", A(<<PI, PI, O(<< <<"k", s("a")>>, <<"V", nul>> >>)>>)>>, <<"plp", A(<<PI, i(5)>>)>>, <<"plp", i(5)>>,
  <<"nums", A(<<i(1), nul>>)>>, <<"nums", i(5)>>,
  <<"jd", O(<< <<"kp", O(<< <<"ID", i(1)>> >>)>>, <<"kq", O(<<>>)>> >>)>>, <<"jd", i(5)>>, <<"jd", A(<<>>)>>, <<"jd", O(<< <<"kp", i(5)>> >>)>>,
  <<"pd", O(<< <<"kp", PI>>, <<"kq", O(<< <<"k", s("c")>>, <<"V", s("w")>> >>)>> >>)>>, <<"pd", i(5)>>, <<"pd", O(<< <<"kp", O(<< <<"zz", i(1)>> >>)>> >>)>> }
One(S) == { <<"JRoot", O(<<e>>)>> : e \in S }
Two(S, R) == { <<"JRoot", O(SortE(<<e, f>>))>> : <<e, f>> \in { x \in S \X R : x[1][1] # x[2][1] } }
Others == { <<"JRoot", O(<<>>)>>, <<"JRoot", nul>>, <<"JRoot", i(5)>>, <<"JRoot", A(<<>>)>>,
  <<"PRoot", O(<<>>)>>, <<"PRoot", O(<< <<"C", i(1)>>, <<"a", O(<< <<"X", i(1)>>, <<"zz", i(1)>> >>)>> >>)>>, <<"PRoot", O(<< <<"b", A(<<PI, PI>>)>> >>)>>,
  <<"PRoot", O(<< <<"zz", i(1)>> >>)>>, <<"PRoot", O(<< <<"c", i(1)>> >>)>>, <<"PRoot", O(<< <<"C", nul>> >>)>>, <<"PRoot", i(5)>>,
  <<"PRoot", O(<< <<"a", O(<< <<"leaf", O(<<>>)>> >>)>> >>)>>, <<"PRoot", O(<< <<"b", A(<<PI, O(<< <<"k", s("a")>>, <<"V", s("w")>> >>)>>)>> >>)>>,
  <<"JItem", O(<<>>)>>, <<"JItem", nul>>, <<"JItem", O(<< <<"ID", i(1)>>, <<"zz", i(1)>> >>)>>, <<"PItem", PI>>, <<"PItem", O(<<>>)>>, <<"PItem", O(<< <<"k", s("a")>>, <<"e", i(1)>> >>)>>,
  <<"JKeep", O(<< <<"a", i(1)>>, <<"zz", i(1)>> >>)>>,
  <<"JL", A(<<>>)>>, <<"JL", A(<<O(<< <<"ID", i(1)>>, <<"zz", i(1)>> >>)>>)>>, <<"JL", A(<<O(<< <<"ID", i(1)>> >>), O(<< <<"sub", O(<< <<"X", nul>> >>)>>, <<"ID", i(2)>> >>)>>)>>, <<"JL", O(<<>>)>>,
  <<"JL", nul>>, <<"JD", O(<< <<"kp", O(<< <<"ID", i(1)>> >>)>> >>)>>, <<"JD", O(<< <<"kp", O(<< <<"t", s("a")>> >>)>> >>)>>, <<"JD", i(5)>>, <<"JD", nul>>,
  <<"PL", A(<<PI, PI>>)>>, <<"PL", A(<<PI, O(<<>>)>>)>>, <<"PL", A(<<>>)>>, <<"PD", O(<< <<"kp", PI>> >>)>>, <<"PD", O(<< <<"kp", O(<< <<"k", s("a")>>, <<"V", nul>> >>)>> >>)>> }
Extra == { <<"zz", i(1)>>, <<"zz", A(<<i(1), O(<< <<"zy", B1>> >>)>>)>>, <<"name", s("py")>>, <<"secret", s("hush")>>, <<"zy", nul>> }
Few == { <<"n", i(1)>>, <<"remark", s("rm")>>, <<"cv", s("x1")>>, <<"jList", A(<<O(<< <<"ID", i(1)>>, <<"zz", s("q")>> >>)>>)>> }
Docs10 == One(Good) \cup Others \cup Two(Good, Few)
Docs10T == Docs10 \cup Two(Good, Good)
Docs11 == One(Good) \cup Others \cup Two(Good, Extra)
Docs11T == Docs11 \cup Two(Good, Good)
Docs12 == One(Good \cup Wrong) \cup Others \cup Two(Wrong, Few) \cup Two(Wrong, { <<"cv", s("bad")>>, <<"n", nul>> })
Docs12T == Docs12 \cup Two(Good, Wrong) \cup Two(Wrong, Wrong)
Sub2 == <<"rec", "JSub2", << <<"x", i(1)>>, <<"w", i(2)>> >>, <<"none">> >>
PyItem == <<"rec", "PItem", << <<"k", s("a")>>, <<"e", i(1)>> >>, <<"none">> >>
JMore == <<"rec", "JSub", << <<"x", i(1)>> >>, O(<< <<"zz", B1>> >>)>>
Anys == { <<"pylist", <<PyItem, B1>>>>, <<"pytup", <<PyItem, <<"pylist", <<JMore>>>> >>>>, <<"pyset", <<PyItem>>>>, <<"pyfset", <<<<"money", 1>>>>>>, JMore, <<"money", 2>>,
          <<"pydict", << <<"kp", PyItem>>, <<"kq", <<"pydict", << <<"a", JMore>> >>>>>> >>>>, <<"pydict", << <<"kp", <<"pytup", <<nul>>>>>> >>>> }
Edits10 == { <<"set", "any", v>> : v \in Anys } \cup { <<"set", "sub", Sub2>>, <<"set", "opt", i(0)>>, <<"set", "secret", s("h")>>, <<"set", "any", A(<<B1>>)>>, <<"set", "cv", i(2)>>, <<"set", "n", B1>>, <<"del", "n">>, <<"del", "dflt">> }
EditsS == { <<"setu", "zz", i(9)>>, <<"setu", "Name", s("u")>>, <<"setu", "n", i(9)>>, <<"delu", "zz">>,
           <<"set", "secret", s("h")>>, <<"set", "note", s("r2")>>, <<"set", "any", A(<<i(4)>>)>>, <<"set", "cv", i(2)>>, <<"set", "n", B1>>,
           <<"del", "name">>, <<"del", "n">>, <<"del", "dflt">>, <<"del", "sub">> }
\* more steps, from few documents
DocsD == { <<"JRoot", O(<< <<"any", nul>>, <<"zz", A(<<i(1)>>)>> >>)>>, <<"JRoot", O(<< <<"n", i(0)>>, <<"Name", s("")>>, <<"any", A(<<>>)>>, <<"opt", nul>>, <<"sub", nul>> >>)>>,
           <<"JRoot", O(<< <<"remark", s("rm")>>, <<"name", i(1)>>, <<"zy", nul>> >>)>> }
EditsD == { <<"setu", k, v>> : k \in {"zz", "any", "n", "Name", "name", "opt", "sub", "remark", "d", "secret"}, v \in {i(9), nul} } \cup { <<"setu", "zz", v>> : v \in Anys } \cup
          { <<"delu", "zz">>, <<"set", "secret", s("h")>>, <<"del", "any">>, <<"del", "n">>, <<"del", "dflt">>, <<"set", "any", nul>>, <<"set", "opt", i(0)>> }
NoDocs == {}
=============================================================================
