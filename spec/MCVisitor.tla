------------------------------ MODULE MCVisitor ------------------------------
EXTENDS Visitor
CONSTANTS What, Size
KeyOrderDef == <<"p", "q", "r">>
i(n) == <<"i", n>>
s(c) == <<"s", <<c>>>>
R(es) == <<"rec", "R", es>>
N(es) == <<"rec", "N", es>>
NS(es) == <<"rec", "NS", es>>
K(es) == <<"rec", "K", es>>
L(T, ms) == <<"list", T, ms>>
M1(T, es) == <<"dict", T, es>>
D(es) == M1("py", es)
PL(ms) == L("py", ms)
X(ms, as) == <<"list", "XL", ms, as>>
One(nm, v) == R(<< <<nm, v>> >>)

Base == [x |-> FALSE, nn |-> TRUE, es |-> FALSE, em |-> FALSE, f |-> << <<>> >>, ap |-> "id", st |-> ""]
AllOpts == { [Base EXCEPT !.x = a, !.nn = b, !.es = c, !.em = d, !.ap = e] : a, b, c, d \in BOOLEAN, e \in {"id", "odd"} }
StopOpts == { [Base EXCEPT !.nn = b, !.em = d, !.st = z] : b, d \in BOOLEAN, z \in {"value", "class"} }

\* ---- records
Leaves == { i(0), i(1), i(3), None, NoText, s("a"), <<"b", TRUE>> }
Ns == { N(<<>>), N(<< <<"x", i(0)>>, <<"y", i(3)>> >>), N(<< <<"e", i(1)>>, <<"x", None>> >>), N(<< <<"e", i(1)>> >>), N(<< <<"k", K(<< <<"c", s("a")>>, <<"g", L("LS", << s("b") >>)>> >>)>>, <<"y", i(1)>> >>),
        N(<< <<"x", N(<< <<"e", i(1)>>, <<"y", i(1)>> >>)>> >>), N(<< <<"k", K(<<>>)>> >>), NS(<< <<"w", i(1)>>, <<"y", i(1)>> >>) }
Few == { N(<<>>), N(<< <<"x", i(1)>>, <<"y", i(0)>> >>), N(<< <<"e", i(1)>>, <<"k", K(<< <<"c", i(3)>> >>)>> >>) }
Plains == { PL(<<>>), PL(<< None, i(0), NoText >>), D(<<>>), D(<< <<"p", None>>, <<"q", PL(<< i(1) >>)>> >>) }
Seqs(A, n) == UNION { [1..k -> A] : k \in 0..n }
Dicts(A, n) == { M1("DN", [q \in 1..Len(vs) |-> <<KeyOrder[q], vs[q]>>]) : vs \in Seqs(A, n) } \cup { M1("DN", << <<"q", v>> >>) : v \in A }
Lists(A, n) == { L("LN", x) : x \in Seqs(A, n) }
Texts(n) == { L("LS", x) : x \in Seqs({ NoText, s("a"), s("b") }, n) }
Xs(A, n) == { X(x, <<>>) : x \in Seqs(A, n) } \cup { X(x, << <<"tag", v>> >>) : x \in Seqs(A, n), v \in {i(0), s("a"), None} }
Pieces(n) ==
  { One("a", v) : v \in Leaves \cup Ns \cup Plains \cup Texts(1) \cup Lists({N(<<>>), NS(<< <<"e", i(1)>>, <<"w", i(1)>> >>)}, 1) \cup Dicts({N(<<>>)}, 1) \cup Xs({N(<<>>)}, 1) }
  \cup { One("e", v) : v \in {i(0), s("a"), N(<< <<"e", i(1)>>, <<"x", i(1)>> >>)} }
  \cup { One("n", v) : v \in Ns } \cup { One("t", v) : v \in Ns \cup {None, NoText, s("a")} }
  \cup { One("z", <<"rec", "E", es>>) : es \in { <<>>, << <<"e", i(1)>> >> } }
  \cup { One("d", v) : v \in Dicts(Few, n) } \cup { One("l", v) : v \in Lists(Few, n) \cup Lists(Ns, 1) } \cup { One("u", v) : v \in Lists(Few, 1) \cup {NoText, s("b")} }
  \cup { One("g", v) : v \in Texts(n) } \cup { One("x", v) : v \in Xs(Few, n - 1) }
Rich == { R(<< <<"a", i(0)>>, <<"d", M1("DN", << <<"p", N(<< <<"x", i(1)>> >>)>>, <<"q", N(<< <<"y", i(0)>> >>)>> >>)>>, <<"e", i(1)>>, <<"g", L("LS", << s("a"), NoText >>)>>,
               <<"l", L("LN", << N(<< <<"k", K(<< <<"c", i(1)>>, <<"g", L("LS", << s("b") >>)>> >>)>>, <<"x", i(1)>> >>), N(<<>>), N(<< <<"e", i(1)>>, <<"x", i(2)>>, <<"y", i(3)>> >>) >>)>>,
               <<"n", N(<< <<"e", i(1)>>, <<"k", K(<< <<"c", None>>, <<"g", L("LS", <<>>)>> >>)>>, <<"x", N(<< <<"y", i(1)>> >>)>>, <<"y", i(1)>> >>)>>,
               <<"t", N(<< <<"x", i(1)>>, <<"y", i(2)>> >>)>>, <<"u", L("LN", << N(<< <<"y", i(1)>> >>) >>)>>, <<"x", X(<< N(<< <<"x", i(1)>>, <<"y", i(1)>> >>) >>, << <<"tag", i(1)>> >>)>>, <<"z", <<"rec", "E", << <<"e", i(1)>> >>>>>> >>),
          R(<< <<"a", L("LN", << N(<< <<"x", i(1)>>, <<"y", i(1)>> >>), NS(<< <<"w", i(1)>>, <<"x", i(2)>> >>) >>)>>, <<"t", s("a")>>, <<"u", s("b")>>, <<"x", X(<< N(<< <<"x", i(1)>> >>), N(<< <<"y", i(1)>> >>) >>, <<>>)>> >>) }
Tops == Ns \cup { K(<< <<"c", i(1)>> >>) } \cup Lists(Few, 1) \cup Xs(Few, 1) \cup Dicts(Few, 1) \cup Texts(2)
Filters == { << <<"a">> >>, << <<"e">> >>, << <<"n">> >>, << <<"n", "y">> >>, << <<"n", "e">> >>, << <<"n", "k", "g">> >>, << <<"n", "k", "g", "#0">> >>, << <<"n", "x", "y">> >>, << <<"d">> >>, << <<"d", "p">> >>, << <<"d", "*", "x">> >>, << <<"d", "q", "y">>, <<"d", "p", "x">> >>,
             << <<"g">> >>, << <<"g", "#1">> >>, << <<"g", "*">> >>, << <<"l">> >>, << <<"l", "*">> >>, << <<"l", "*", "x">> >>, << <<"l", "#0">> >>, << <<"l", "#2", "x">> >>, << <<"l", "#2", "x">>, <<"l", "#0", "k", "c">> >>, << <<"l", "*", "k", "g", "*">> >>, << <<"l", "*", "e">> >>,
             << <<"t">> >>, << <<"t", "x">> >>, << <<"u", "*", "y">> >>, << <<"u">> >>, << <<"x">> >>, << <<"x", "tag">> >>, << <<"x", "*", "x">> >>, << <<"x", "*">> >>, << <<"x", "#0">> >>, << <<"x", "#0", "y">>, <<"x", "tag">> >>, << <<"z">> >>, << <<"z", "e">> >>,
             << <<"a", "*", "x">> >>, << <<"a", "#1">> >>, << <<"a">>, <<"l", "*", "y">>, <<"n", "x">> >>, << <<"l", "*", "x">>, <<"l", "*", "k", "c">> >> }
FilterOpts == { [Base EXCEPT !.f = g, !.x = a, !.em = b] : g \in Filters, a, b \in BOOLEAN }

\* ---- plain data to cast
Leaves1 == { i(0), i(1), i(3), None, NoText, s("a"), PL(<<>>), D(<<>>) }
NTrees == { D(<<>>), D(<< <<"x", i(0)>>, <<"y", i(1)>> >>), D(<< <<"e", i(1)>>, <<"w", i(1)>>, <<"x", None>> >>), D(<< <<"y", s("a")>> >>), D(<< <<"y", None>> >>), D(<< <<"k", D(<< <<"c", PL(<< i(1) >>)>>, <<"g", PL(<< s("a") >>)>> >>)>> >>),
            D(<< <<"k", PL(<<>>)>> >>), D(<< <<"k", D(<< <<"g", i(1)>> >>)>> >>), D(<< <<"k", None>> >>), D(<< <<"x", D(<< <<"y", s("a")>> >>)>> >>), i(1), None, s("a"), PL(<<>>), D(<< <<"x", NoText>>, <<"y", i(0)>> >>), D(<< <<"y", i(3)>> >>) }
Trees == { D(<< <<nm, v>> >>) : nm \in {"a", "e", "q"}, v \in Leaves1 } \cup { D(<< <<nm, v>> >>) : nm \in {"n", "t", "u", "x", "l", "d", "z", "g"}, v \in NTrees }
         \cup { D(<< <<nm, PL(v)>> >>) : nm \in {"l", "u"}, v \in Seqs(NTrees, 1) } \cup { D(<< <<"d", D(<< <<"p", v>> >>)>> >>) : v \in NTrees }
         \cup { D(<< <<"d", D(<< <<"p", v>>, <<"q", w>> >>)>> >>) : v, w \in { D(<<>>), D(<< <<"x", i(0)>>, <<"y", i(1)>> >>), i(1) } }
         \cup { D(<< <<"l", PL(<<v, w>>)>> >>) : v, w \in { D(<<>>), D(<< <<"x", i(0)>>, <<"y", i(1)>> >>), None } }
         \cup { D(<< <<"x", D(<< <<"tag", v>>, <<"values", w>> >>)>> >>) : v \in {i(0), s("a"), None}, w \in { PL(<<>>), PL(<< D(<< <<"e", i(1)>>, <<"y", i(1)>> >>) >>), PL(<< i(1) >>), i(1), D(<<>>) } }
         \cup { D(<< <<"x", D(<< <<"values", PL(<< D(<< <<"x", i(1)>> >>) >>)>> >>)>> >>), D(<< <<"g", PL(<< s("a"), NoText >>)>> >>), D(<< <<"z", D(<< <<"e", i(1)>> >>)>> >>) }
         \cup { i(1), None, PL(<<>>), s("a"), D(<<>>), D(<< <<"a", i(1)>>, <<"l", PL(<< D(<< <<"k", D(<< <<"c", i(0)>>, <<"g", PL(<< s("a") >>)>> >>)>>, <<"x", i(1)>>, <<"y", i(1)>> >>) >>)>>, <<"n", D(<< <<"x", i(1)>>, <<"y", i(3)>> >>)>>,
                      <<"t", D(<< <<"x", i(1)>>, <<"y", i(2)>> >>)>>, <<"u", PL(<< D(<< <<"y", i(1)>> >>) >>)>> >>) }
TopTrees == { <<"N", v>> : v \in NTrees } \cup { <<"LN", PL(v)>> : v \in Seqs(NTrees, 1) } \cup { <<"DN", D(<< <<"q", v>> >>)>> : v \in NTrees } \cup { <<"LS", PL(v)>> : v \in Seqs({NoText, s("a")}, 2) }
            \cup { <<"XL", D(<< <<"tag", i(0)>>, <<"values", PL(v)>> >>)>> : v \in Seqs(NTrees, 1) } \cup { <<"LN", i(1)>>, <<"DN", None>>, <<"LS", None>>, <<"XL", PL(<<>>)>>, <<"XL", i(1)>> }
\* ---- plain data to visit as if it were of a type: that which visiting gives
Full == [Base EXCEPT !.x = TRUE, !.nn = FALSE]
Wide(n) == { v \in Pieces(n) \cup Rich : ~HasE(v[3], "x") }
Types == {"R", "N", "NS", "K", "E", "XL", "LN", "DN", "LS"}
Inst(T) == IF Kind(T) = "rec" THEN <<"rec", T, <<>>>> ELSE IF T = "XL" THEN X(<<>>, <<>>) ELSE <<Kind(T), T, <<>>>>
ReflFilters == { << <<>> >>, << <<"a">> >>, << <<"n">> >>, << <<"n", "y">>, <<"n", "k", "g">> >>, << <<"l">> >>, << <<"l", "*", "x">> >>, << <<"d", "*", "k", "c">>, <<"g">> >>, << <<"x", "tag">> >>, << <<"x", "*", "y">> >>, << <<"z", "e">>, <<"e">> >>, << <<"t">>, <<"u">> >>, << <<"n", "e">> >> }

Init == \/ What \in {"opts", "filter"} /\ st \in IF What = "opts" THEN Pieces(Size) \cup Rich \cup Tops ELSE Rich \cup { One("x", x) : x \in Xs(Few, 2) } \cup { One("l", x) : x \in Lists(Few, 2) } \cup { One("d", x) : x \in Dicts(Few, 2) }
        \/ What = "cast" /\ (st \in Trees \/ \E x \in TopTrees : st = x[2])
        \/ What = "as" /\ \E v \in Wide(Size) : st = Visit(v, Full).v
        \/ What = "reflect" /\ \E T \in Types : st = Inst(T)
CastFs == { << <<>> >>, << <<"n", "y">>, <<"l", "*", "x">> >>, << <<"x", "*", "y">>, <<"a">>, <<"g", "#1">> >>, << <<"d", "q">>, <<"l", "#1">>, <<"t">> >>, << <<"x", "tag">>, <<"e">>, <<"u">> >> }
CastOpts == AllOpts \cup { [Base EXCEPT !.f = g, !.nn = b, !.em = d] : g \in CastFs, b, d \in BOOLEAN }
Ops == CASE What = "opts" -> { <<"visit", o>> : o \in AllOpts \cup StopOpts } \cup { <<"trip", [o EXCEPT !.ap = "id"]>> : o \in AllOpts }
         [] What = "filter" -> IF st[2] = "R" THEN { <<h, o>> : h \in {"visit", "trip"}, o \in FilterOpts } ELSE {}
         [] What = "cast" -> { <<"cast", "R", o>> : o \in IF st \in Trees THEN CastOpts ELSE {} } \cup { <<"cast", T, o>> : T \in { x[1] : x \in { x \in TopTrees : x[2] = st } }, o \in AllOpts }
         [] What = "as" -> { <<"as", "R", o>> : o \in AllOpts \cup { [Base EXCEPT !.f = g] : g \in Filters } }
         [] What = "reflect" -> { <<h, [Base EXCEPT !.x = a, !.f = g]>> : h \in {"reflect", "reflect1"}, a \in BOOLEAN, g \in IF st[2] = "R" THEN ReflFilters ELSE {<< <<>> >>} }
Next == \E op \in Ops : Step(op)

-----------------------------------------------------------------------------
\* the value without what is not written
RECURSIVE Whole(_), Strip(_, _, _)
Whole(v) == CASE v[1] = "rec" -> v[2] # "NS" /\ \A k \in 1..Len(v[3]) : Whole(v[3][k][2]) /\ (\A fl \in ToSet(Fields(v[2])) : fl[1] = v[3][k][1] => (fl[3] = "" => ~Typed(v[3][k][2])))
              [] IsBox(v) -> \A k \in 1..Len(Entries(v)) : Whole(Entries(v)[k][2])
              [] OTHER -> TRUE
Slim(v, T, o) == LET fs == SelectSeq(Fields(T), LAMBDA fl : (o.x \/ ~fl[2]) /\ HasE(Slots(v), fl[1]) /\ Kept(GetE(Slots(v), fl[1]), o)) IN [k \in 1..Len(fs) |-> <<fs[k][1], Strip(GetE(Slots(v), fs[k][1]), "", o)>>]
Strip(v, T, o) == CASE ~Typed(v) -> v
                 [] v[1] = "rec" -> <<"rec", v[2], Slim(v, v[2], o)>>
                 [] v[1] = "list" -> LET ms == SelectSeq(v[3], LAMBDA m : Kept(m, o)) IN
                                     IF Len(v) = 4 THEN <<"list", v[2], [k \in 1..Len(ms) |-> Strip(ms[k], "", o)], Slim(v, v[2], o)>> ELSE <<"list", v[2], [k \in 1..Len(ms) |-> Strip(ms[k], "", o)]>>
                 [] OTHER -> <<"dict", v[2], [k \in 1..Len(v[3]) |-> <<v[3][k][1], Strip(v[3][k][2], "", o)>>]>>
TripLaw == What = "opts" => \A o \in AllOpts : (~o.em /\ o.ap = "id" /\ Whole(st)) => Cast(st[2], Visit(st, o).v, o).v = Strip(st, "", o)
\* every hook call is made once, and a filter leaves those at the places it selects
Hit(f, p) == \E q \in f : \A k \in 1..(IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)) : q[k] = "*" \/ q[k] = p[k]
OnceLaw == What \in {"opts", "filter"} => \A op \in Ops : op[1] = "visit" => LET g == Visit(st, op[2]).log IN Cardinality({ g[k][1] : k \in 1..Len(g) }) = Len(g)
FilterLaw == (What = "filter" /\ st[2] = "R") => \A o \in FilterOpts : ToSet(Visit(st, o).log) = { c \in ToSet(Visit(st, [o EXCEPT !.f = << <<>> >>]).log) : Hit(ToSet(o.f), c[1]) }
\* the calls of a plain visit are made for what is set in the value
RECURSIVE At(_, _)
At(v, p) == IF p = <<>> \/ v = Nothing THEN v ELSE At(IF v[1] # "rec" /\ HasE(Entries(v), p[1]) THEN GetE(Entries(v), p[1]) ELSE GetE(Slots(v), p[1]), Tail(p))
TrueLaw == What \in {"opts", "filter"} => \A op \in Ops : op[1] = "visit" => \A c \in ToSet(Visit(st, op[2]).log) : At(st, c[1]) = c[3]
\* an empty option set gives no None and no extraneous slots; visiting plain data again gives the same
AgainLaw == What = "opts" => \A o \in AllOpts : (o.ap = "id" /\ ~o.em /\ st[2] = "R" /\ Whole(st) /\ ~HasE(st[3], "x")) => LET v == Visit(st, o).v IN As("R", v, o).v \in {v, Free}
=============================================================================
