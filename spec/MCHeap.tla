------------------------------- MODULE MCHeap -------------------------------
EXTENDS Heap
i(n) == <<"i", n>>
s(t) == <<"s", t>>
o(k) == <<"o", k>>
nul == <<"n">>
None == <<"-">>
N(es) == <<"rec", "N", es>>
L(T, ms) == <<"list", T, <<>>, ms>>
D(T, ms) == <<"dict", T, <<>>, ms>>
\* graphs to copy
G1 == << N(<< <<"a", i(1)>>, <<"b", o(2)>>, <<"chk", i(3)>>, <<"e", s("x")>>, <<"ro", s("r")>> >>), N(<< <<"a", o(3)>>, <<"z", i(5)>> >>), <<"rec", "P", << <<"k", i(1)>>, <<"e", i(2)>> >>>> >>
\* one child twice
G2 == << N(<< <<"a", o(2)>>, <<"b", o(2)>> >>), N(<< <<"a", i(1)>> >>) >>
\* a ring
G3 == << N(<< <<"b", o(2)>> >>), <<"rec", "NS", << <<"a", i(1)>>, <<"b", o(1)>> >>>> >>
G4 == << <<"rec", "C", << <<"items", o(2)>>, <<"ps", o(4)>>, <<"u", o(3)>> >>>>, L("LN", <<o(3), o(3)>>), N(<< <<"a", i(1)>> >>), L("LP", <<o(5)>>), <<"rec", "P", << <<"k", i(1)>> >>>> >>
G5 == << <<"rec", "C", << <<"m", o(2)>>, <<"js", o(4)>>, <<"any", o(6)>> >>>>, D("DN", << <<"q", o(3)>>, <<"p", o(3)>> >>), N(<< <<"a", i(1)>> >>),
         L("JL", <<o(5)>>), <<"rec", "J", << <<"a", i(1)>>, <<"unknown_json_keys", o(7)>> >>>>, L("py", <<i(1), o(3), o(7)>>), D("py", << <<"zz", i(1)>> >>) >>
G6 == << <<"list", "XL", << <<"tag", s("t")>>, <<"more", o(2)>> >>, <<o(2)>>>>, N(<< <<"a", i(1)>> >>) >>
G7 == << <<"dict", "XD", << <<"tag", s("t")>> >>, << <<"p", o(2)>> >>>>, N(<< <<"ro", i(1)>> >>) >>
\* a list that contains the record holding it
G8 == << <<"rec", "C", << <<"items", o(2)>>, <<"xl", o(4)>> >>>>, L("LN", <<o(3)>>), N(<< <<"a", o(1)>> >>), <<"list", "XL", << <<"tag", i(1)>> >>, <<o(3)>>>> >>
G9 == << <<"rec", "D", << <<"k", s("q")>> >>>> >>
G10 == << <<"rec", "D", << <<"d", i(5)>>, <<"k", s("q")>>, <<"_w", s("u")>> >>>> >>
G11 == << L("LN", <<o(2), o(3), o(2)>>), N(<<>>), <<"rec", "NS", << <<"e", i(1)>> >>>> >>
G12 == << <<"list", "LN", <<>>, <<>>>> >>
G13 == << D("DN", <<>>) >>
G14 == << N(<<>>) >>
G15 == << <<"list", "JL", <<>>, <<o(2)>>>>, <<"rec", "J", << <<"a", o(3)>> >>>>, N(<< <<"b", o(4)>> >>), N(<< <<"chk", i(2)>>, <<"z", i(5)>> >>) >>
Graphs == <<G1, G2, G3, G4, G5, G6, G7, G8, G9, G10, G11, G12, G13, G14, G15>>
CopyInits == [k \in 1..Len(Graphs) |-> << <<o(1), None>>, Graphs[k] >>]

\* values to compare: each a heap whose first object is meant
U == <<
  <<N(<<>>)>>, <<N(<< <<"a", i(1)>> >>)>>, <<N(<< <<"a", <<"b", TRUE>>>> >>)>>, <<N(<< <<"a", <<"f", "1.0">>>> >>)>>, <<N(<< <<"a", nul>> >>)>>, <<N(<< <<"a", s("")>> >>)>>,
  <<N(<< <<"a", i(1)>>, <<"e", i(2)>> >>)>>, <<N(<< <<"a", i(1)>>, <<"z", i(5)>> >>)>>, <<N(<< <<"ro", i(1)>> >>)>>, <<<<"rec", "NS", <<>>>>>>, <<<<"rec", "NS", << <<"a", i(1)>> >>>>>>,
  <<N(<< <<"b", o(2)>> >>), N(<<>>)>>, <<N(<< <<"b", o(2)>> >>), <<"rec", "NS", <<>>>>>>, <<N(<< <<"b", o(2)>> >>), N(<< <<"e", i(1)>> >>)>>, <<N(<< <<"a", o(2)>> >>), N(<<>>)>>,
  <<N(<< <<"a", o(2)>> >>), <<"rec", "P", << <<"k", i(1)>> >>>>>>,
  <<<<"rec", "P", <<>>>>>>, <<<<"rec", "P", << <<"k", i(1)>> >>>>>>, <<<<"rec", "P", << <<"k", i(1)>>, <<"v", i(1)>> >>>>>>, <<<<"rec", "P", << <<"k", i(1)>>, <<"v", nul>> >>>>>>, <<<<"rec", "P", << <<"k", i(1)>>, <<"e", i(1)>> >>>>>>,
  <<<<"rec", "P", << <<"k", i(2)>> >>>>>>, <<<<"rec", "P", << <<"k", nul>> >>>>>>,
  <<<<"rec", "J", << <<"a", i(1)>> >>>>>>, <<<<"rec", "J", << <<"a", i(1)>>, <<"unknown_json_keys", o(2)>> >>>>, D("py", << <<"zz", i(1)>> >>)>>,
  <<<<"rec", "D", << <<"d", i(5)>>, <<"k", s("q")>> >>>>>>, <<<<"rec", "D", << <<"k", s("q")>> >>>>>>, <<<<"rec", "D", << <<"d", i(5)>>, <<"k", s("q")>>, <<"_w", i(1)>> >>>>>>,
  <<<<"rec", "C", <<>>>>>>, <<<<"rec", "C", << <<"u", o(2)>> >>>>, N(<<>>)>>, <<<<"rec", "C", << <<"u", o(2)>> >>>>, <<"rec", "P", <<>>>>>>, <<<<"rec", "C", << <<"u", o(2)>> >>>>, <<"rec", "NS", <<>>>>>>,
  <<<<"rec", "C", << <<"u", o(2)>> >>>>, <<"rec", "P", << <<"k", i(1)>> >>>>>>, <<<<"rec", "C", << <<"u", o(2)>> >>>>, N(<< <<"a", i(1)>> >>)>>,
  <<<<"rec", "C", << <<"items", o(2)>> >>>>, L("LN", <<>>)>>, <<<<"rec", "C", << <<"items", o(2)>> >>>>, L("LN", <<o(3), o(4)>>), N(<<>>), N(<< <<"a", i(1)>> >>)>>,
  <<<<"rec", "C", << <<"items", o(2)>> >>>>, L("LN", <<o(3), o(4)>>), N(<< <<"a", i(1)>> >>), N(<<>>)>>,
  <<<<"rec", "C", << <<"items", o(2)>> >>>>, L("LN", <<o(3), o(4)>>), N(<< <<"e", i(1)>> >>), N(<< <<"a", <<"b", TRUE>>>> >>)>>,
  <<<<"rec", "C", << <<"m", o(2)>> >>>>, D("DN", << <<"p", o(3)>>, <<"q", o(4)>> >>), N(<<>>), N(<< <<"a", i(1)>> >>)>>,
  <<<<"rec", "C", << <<"m", o(2)>> >>>>, D("DN", << <<"q", o(4)>>, <<"p", o(3)>> >>), N(<<>>), N(<< <<"a", i(1)>> >>)>>,
  <<<<"rec", "C", << <<"m", o(2)>> >>>>, D("DN", << <<"p", o(4)>>, <<"q", o(3)>> >>), N(<<>>), N(<< <<"a", i(1)>> >>)>>, <<<<"rec", "C", << <<"m", o(2)>> >>>>, D("DN", <<>>)>>,
  <<<<"rec", "C", << <<"ps", o(2)>> >>>>, L("LP", <<o(3)>>), <<"rec", "P", << <<"k", i(1)>> >>>>>>, <<<<"rec", "C", << <<"ps", o(2)>> >>>>, L("LP", <<o(3)>>), <<"rec", "P", << <<"k", i(1)>>, <<"v", i(2)>> >>>>>>,
  <<<<"rec", "C", << <<"js", o(2)>>, <<"xl", o(3)>> >>>>, L("JL", <<>>), <<"list", "XL", << <<"tag", i(1)>> >>, <<>>>>>>, <<<<"rec", "C", << <<"js", o(2)>>, <<"xl", o(3)>> >>>>, L("JL", <<>>), L("XL", <<>>)>>,
  <<L("LN", <<>>)>>, <<L("LN", <<o(2)>>), N(<<>>)>>, <<L("LN", <<o(2)>>), <<"rec", "NS", <<>>>>>>, <<L("LN", <<o(2), o(3)>>), N(<<>>), N(<< <<"a", i(1)>> >>)>>, <<L("LN", <<o(3), o(2)>>), N(<<>>), N(<< <<"a", i(1)>> >>)>>,
  <<<<"list", "XL", << <<"tag", i(1)>> >>, <<o(2)>>>>, N(<<>>)>>, <<L("XL", <<o(2)>>), N(<< <<"e", i(1)>> >>)>>, <<L("LP", <<>>)>>, <<L("JL", <<>>)>>, <<L("py", <<o(2)>>), N(<<>>)>>,
  <<D("DN", <<>>)>>, <<D("DN", << <<"p", o(2)>>, <<"q", o(3)>> >>), N(<<>>), N(<< <<"a", i(1)>> >>)>>, <<D("DN", << <<"q", o(3)>>, <<"p", o(2)>> >>), N(<<>>), N(<< <<"a", i(1)>> >>)>>,
  <<<<"dict", "XD", << <<"tag", i(1)>> >>, << <<"p", o(2)>> >>>>, N(<<>>)>>, <<D("DN", << <<"p", o(2)>> >>), N(<<>>)>>, <<D("DN", << <<"q", o(2)>> >>), N(<<>>)>>, <<D("py", << <<"p", o(2)>> >>), N(<<>>)>>,
  <<>>
  >>
Shift(ob, n) == MapObj(ob, LAMBDA v : IF IsObj(v) THEN <<"o", v[2] + n>> ELSE v)
Join(x, y) == x \o [k \in 1..Len(y) |-> Shift(y[k], Len(x))]
\* <<>> stands for a scalar
Pair(x, y) == << <<IF x = <<>> THEN i(1) ELSE o(1), IF y = <<>> THEN i(1) ELSE o(Len(x) + 1)>>, Join(x, y) >>
IsColl(x) == x # <<>> /\ x[1][1] # "rec"
\* comparing a plain container with a collection means converting its members, so only those of the right type
PairOk(x, y) == ~(IsColl(x) /\ IsColl(y) /\ ((x[1][2] = "py" /\ ItemOf(y[1][2]) # "N") \/ (y[1][2] = "py" /\ ItemOf(x[1][2]) # "N")))
EqInits == LET n == Len(U) IN SelectSeq([q \in 1..(n * n) |-> LET j == ((q - 1) \div n) + 1 k == ((q - 1) % n) + 1 IN
                                   IF j <= k /\ PairOk(U[j], U[k]) THEN Pair(U[j], U[k]) ELSE <<>>], LAMBDA p : p # <<>>)

-----------------------------------------------------------------------------
\* Eq is an equivalence on everything compared here
Reflexive == ~AnyCycle(st) => \A r \in ToSet(st.roots) : Eq(st.heap, r, r)
Symmetric == ~AnyCycle(st) => \A q, r \in ToSet(st.roots) : Eq(st.heap, q, r) = Eq(st.heap, r, q)
\* over the whole universe at once
AllHeap == LET RECURSIVE J(_) J(k) == IF k = 0 THEN <<>> ELSE Join(J(k - 1), U[k]) IN J(Len(U))
AllRoots == LET RECURSIVE R(_, _) R(k, n) == IF k > Len(U) THEN <<>> ELSE (IF U[k] = <<>> THEN <<>> ELSE <<o(n + 1)>>) \o R(k + 1, n + Len(U[k])) IN R(1, 0)
ASSUME Mode = "eq" =>
  LET h == AllHeap
      R == { r \in ToSet(AllRoots) : h[r[2]][2] # "py" }
      E == { p \in R \X R : Eq(h, p[1], p[2]) }
  IN \A p \in E : \A q \in R : <<p[2], q>> \in E => <<p[1], q>> \in E

\* a copy is equal, and of the same shape; a deep one shares nothing
CopySound ==
  Mode # "copy" \/ ~IsObj(st.roots[1]) \/
  \A how \in Hows :
    LET v == st.roots[1]
        r == Copy(st.heap, v, how)
        one == Canon(<<v>>, st.heap)
        two == Canon(<<r[2]>>, r[1])
    IN (how = "repr" /\ ~Printable(st.heap, v)) \/
       (/\ (~Cyclic(st.heap, v) => Eq(r[1], v, r[2]))
        /\ (how \notin {"copy", "repr"} => (one = two /\ ToSet(Walk(r[1], <<r[2]>>, <<>>)) \cap (1..Len(st.heap)) = {}))
        /\ (how = "repr" => ToSet(Walk(r[1], <<r[2]>>, <<>>)) \cap (1..Len(st.heap)) = {})
        /\ (how = "copy" => (\A k \in ToSet(Walk(r[1], Kids(r[1][r[2][2]]), <<>>)) : k <= Len(st.heap))))
=============================================================================
