------------------------------- MODULE MCDiff -------------------------------
EXTENDS Diff
CONSTANTS What, Size
i(n) == <<"i", n>>
s(cs) == <<"s", cs>>
sa == s(<<"a">>)
t == <<"b", TRUE>>
R(es) == <<"rec", "R", es>>
I(es) == <<"rec", "I", es>>
IS(es) == <<"rec", "IS", es>>
K(es) == <<"rec", "K", es>>
P(k, l, es) == <<"rec", "P", << <<"k", k>>, <<"l", l>> >> \o es>>
L(T, ms) == <<"list", T, ms>>
M(T, es) == <<"dict", T, es>>
One(nm, v) == R(<< <<nm, v>> >>)
KeyOrderDef == <<"p", "q", "r">>

Plain == [ws |-> FALSE, cs |-> FALSE, nf |-> FALSE, un |-> FALSE, mv |-> FALSE, es |-> FALSE, ei |-> FALSE, x |-> FALSE, fz |-> TRUE, rc |-> FALSE, dt |-> FALSE, f |-> << <<>> >>]
Dflt == [Plain EXCEPT !.ws = TRUE, !.nf = TRUE]
Moved == [Plain EXCEPT !.mv = TRUE]
Tell == [Plain EXCEPT !.un = TRUE]
Both == [Moved EXCEPT !.un = TRUE]

\* ---- C18: records of all kinds, compared with each other
Scalars == << i(0), i(1), t, None, s(<<>>), sa, s(<<"a", " ">>) >>
SmallI == << I(<<>>), I(<< <<"a", i(1)>> >>), I(<< <<"a", None>> >>), IS(<< <<"a", i(1)>> >>), I(<< <<"a", t>>, <<"e", i(1)>> >>),
             I(<< <<"a", i(1)>>, <<"n", I(<<>>)>> >>), I(<< <<"a", i(1)>>, <<"n", IS(<<>>)>> >>), I(<< <<"g", L("LC", <<sa>>)>> >>), I(<< <<"g", L("LC", <<>>)>> >>) >>
PlainLists == << L("py", <<>>), L("py", <<i(1)>>), L("py", <<t, i(1)>>), L("py", <<i(1), i(2)>>), L("py", <<i(2), i(1)>>), L("py", <<None, i(1)>>),
                 L("py", <<L("py", <<i(1)>>)>>), L("py", <<L("py", <<t>>)>>), L("py", <<M("py", << <<"p", i(1)>>, <<"q", i(2)>> >>)>>), L("py", <<M("py", << <<"q", i(2)>>, <<"p", i(1)>> >>)>>),
                 M("py", <<>>), M("py", << <<"p", i(1)>>, <<"q", i(1)>> >>), M("py", << <<"q", i(1)>>, <<"p", i(1)>> >>), M("py", << <<"q", i(1)>>, <<"p", i(2)>> >>), M("py", << <<"p", L("py", <<i(1)>>)>> >>) >>
Colls == << One("g", L("LS", <<sa, s(<<>>)>>)), One("g", L("LS", <<s(<<>>), sa>>)), One("g", L("LS", <<>>)), One("h", M("DS", << <<"p", sa>>, <<"q", sa>> >>)), One("h", M("DS", << <<"q", sa>>, <<"p", sa>> >>)),
            One("y", L("LI", <<I(<<>>)>>)), One("y", L("LI", <<I(<< <<"a", i(1)>> >>), I(<<>>)>>)), One("y", L("LI", <<I(<<>>), I(<< <<"a", i(1)>> >>)>>)), One("y", L("LI", <<IS(<<>>)>>)),
            One("y", L("LI", <<I(<< <<"a", i(1)>>, <<"c", sa>> >>)>>)), One("y", L("LI", <<I(<< <<"a", i(1)>>, <<"c", i(2)>> >>)>>)),
            One("ys", L("LP", <<P(i(1), None, <<>>)>>)), One("ys", L("LP", <<P(i(1), None, << <<"v", i(1)>> >>)>>)), One("ys", L("LP", <<P(i(2), None, << <<"v", i(1)>> >>), P(i(1), None, <<>>)>>)),
            One("m", M("DI", << <<"p", I(<<>>)>>, <<"q", I(<<>>)>> >>)), One("m", M("DI", << <<"q", I(<<>>)>>, <<"p", I(<<>>)>> >>)), One("m", M("DI", << <<"q", I(<<>>)>>, <<"r", I(<<>>)>> >>)), One("m", M("DI", << <<"p", I(<< <<"a", i(1)>> >>)>>, <<"q", IS(<<>>)>> >>)),
            One("pm", M("DP", << <<"p", P(i(1), i(1), <<>>)>> >>)), One("pm", M("DP", << <<"q", P(i(1), i(1), << <<"n", I(<<>>)>> >>)>> >>)),
            One("y", L("LI", <<I(<< <<"z", L("LP", <<P(i(1), None, <<>>)>>)>> >>)>>)), One("y", L("LI", <<I(<< <<"z", L("LP", <<P(i(1), None, << <<"v", i(1)>> >>)>>)>> >>)>>)) >>
Univ == << R(<<>>) >> \o [k \in 1..Len(Scalars) |-> One("a", Scalars[k])] \o << One("e", i(1)), One("e", i(2)) >>
        \o [k \in 1..Len(SmallI) |-> One("n", SmallI[k])] \o [k \in 1..Len(PlainLists) |-> One("w", PlainLists[k])]
        \o << One("u", i(1)), One("u", I(<<>>)), One("u", IS(<<>>)), One("u", L("py", <<>>)), One("r", R(<<>>)), One("r", One("r", R(<<>>))), One("r", One("a", i(1))), One("r", One("y", L("LI", <<I(<<>>)>>))) >> \o Colls
        \o << R(<< <<"a", i(1)>>, <<"n", I(<< <<"a", i(1)>> >>)>>, <<"y", L("LI", <<I(<<>>)>>)>> >>), R(<< <<"a", i(2)>>, <<"n", I(<<>>)>>, <<"y", L("LI", <<I(<<>>), I(<<>>)>>)>> >>) >>
Univ1 == ToSet(Univ)
\* those that have something to do with each other
Related(x, y) == x[3] = <<>> \/ y[3] = <<>> \/ \E e \in ToSet(x[3]) : HasE(y[3], e[1])
C18Opts == { Plain, Dflt, Moved, Tell, Both, [Both EXCEPT !.rc = TRUE], [Both EXCEPT !.fz = FALSE], [Tell EXCEPT !.x = TRUE], [Tell EXCEPT !.es = TRUE], [Tell EXCEPT !.dt = TRUE] }

\* ---- C21: collections
Seqs(A, n) == UNION { [1..k -> A] : k \in 0..n }
Pool == { I(<<>>), I(<< <<"a", i(1)>> >>), I(<< <<"a", i(1)>>, <<"n", I(<< <<"a", i(1)>> >>)>> >>), IS(<< <<"a", i(1)>> >>) }
PoolP == { P(i(1), None, <<>>), P(i(1), None, << <<"v", i(1)>> >>), P(i(1), i(2), << <<"v", i(1)>> >>), P(None, None, <<>>) }
Big == { I(<< <<"a", i(1)>>, <<"c", i(1)>> >>), I(<< <<"a", i(1)>>, <<"c", i(2)>> >>), I(<< <<"a", i(2)>>, <<"c", i(2)>> >>), I(<< <<"a", i(2)>>, <<"c", i(1)>>, <<"e", i(1)>> >>) }
\* that which has more in common fits less well
Odd == { I(<< <<"a", i(1)>>, <<"c", i(1)>> >>), I(<< <<"a", i(1)>>, <<"c", i(2)>> >>),
         I(<< <<"a", i(1)>>, <<"c", i(1)>>, <<"g", L("LC", <<sa>>)>>, <<"n", K(<< <<"a", i(1)>> >>)>>, <<"z", L("LP", <<P(i(1), None, <<>>)>>)>> >>) }
\* collections inside of items
Nest == { P(k, None, << <<"o", L("LK", ks)>> >>) : k \in {i(1), i(2)}, ks \in Seqs({K(<< <<"a", i(1)>> >>), K(<< <<"a", i(2)>> >>)}, 2) }
CheckNest == { x \in Nest : x[3][1][2] = i(1) /\ Len(x[3][3][2][3]) = 2 }
Dicts(T, A, n) == { M(T, [q \in 1..Len(ks) |-> <<ks[q], vs[q]>>]) : <<ks, vs>> \in
                    { x \in Seqs({"p", "q", "r"}, n) \X Seqs(A, n) : Len(x[1]) = Len(x[2]) /\ \A j, k \in 1..Len(x[1]) : x[1][j] = x[1][k] => j = k } }
C21Opts == { Plain, Both, [Both EXCEPT !.fz = FALSE] }
C21More == C21Opts \cup { Moved, Tell, [Tell EXCEPT !.ei = TRUE], [Both EXCEPT !.x = TRUE], [Both EXCEPT !.rc = TRUE], [Both EXCEPT !.dt = TRUE] }

\* ---- C20: text, empty values, filters, compare_as
Texts == { None, s(<<>>), s(<<" ">>), sa, s(<<"A">>), s(<<"t", "a", "n">>), s(<<"a", " ", " ", "e1">>), s(<<"a", "w", "e", "'">>), s(<<"a", "e1">>), s(<<"ss">>), s(<<"S", "S">>), s(<<"E1">>), s(<<"b">>), s(<<"a", "b">>) }
Spot(x, k) == CASE k = 1 -> One("a", x) [] k = 2 -> One("c", x) [] k = 3 -> One("n", I(<< <<"a", x>>, <<"c", x>> >>)) [] k = 4 -> One("g", L("LS", IF x = None THEN <<>> ELSE <<x>>))
                [] k = 5 -> One("w", L("py", <<x>>)) [] k = 6 -> One("w", M("py", << <<"p", x>> >>)) [] k = 7 -> One("y", L("LI", <<I(<< <<"a", x>> >>)>>))
                [] k = 8 -> One("y", L("LI", <<I(<< <<"a", i(1)>>, <<"c", x>> >>)>>)) [] k = 9 -> One("y", L("LI", IF x = None THEN <<I(<<>>)>> ELSE <<I(<< <<"g", L("LC", <<x>>)>> >>)>>))
                [] k = 10 -> One("ys", L("LP", <<P(x, None, <<>>)>>)) [] k = 11 -> One("h", M("DS", IF x = None THEN <<>> ELSE << <<"q", x>> >>))
                [] k = 13 -> One("y", L("LI", <<I(<< <<"c", x>> >>), I(<< <<"a", i(1)>> >>)>>))
                [] k = 12 -> One("m", M("DI", << <<"p", I(<< <<"n", I(<< <<"a", x>> >>)>> >>)>> >>))
\* compare_as here works on text and numbers only
Fits(x, k) == x = None => k \notin {2, 3, 8, 13}
TextOpts == { [Tell EXCEPT !.ws = a, !.cs = b, !.nf = c, !.es = d] : a, b, c, d \in BOOLEAN }
EmptyUniv == { R(<<>>), One("a", None), One("a", s(<<>>)), One("n", I(<<>>)), One("n", I(<< <<"a", None>> >>)), One("n", I(<< <<"a", i(1)>> >>)), One("w", L("py", <<>>)), One("w", L("py", <<None>>)), One("w", L("py", <<None, i(1)>>)),
               One("w", M("py", <<>>)), One("w", M("py", << <<"p", None>> >>)), One("g", L("LS", <<>>)), One("g", L("LS", <<s(<<>>)>>)), One("g", L("LS", <<s(<<>>), sa>>)), One("y", L("LI", <<>>)), One("y", L("LI", <<I(<<>>)>>)),
               One("y", L("LI", <<I(<<>>), I(<< <<"a", i(1)>> >>)>>)), One("y", L("LI", <<I(<< <<"a", i(0)>> >>)>>)), One("y", L("LI", <<I(<< <<"n", I(<<>>)>> >>)>>)), One("y", L("LI", <<I(<< <<"e", i(1)>> >>)>>)),
               One("m", M("DI", << <<"p", I(<< <<"a", s(<<>>)>> >>)>> >>)), One("ys", L("LP", <<P(None, None, << <<"v", i(1)>> >>)>>)), One("ys", L("LP", <<P(i(1), None, <<>>)>>)), One("p", P(None, s(<<>>), <<>>)),
               One("r", One("y", L("LI", <<I(<<>>)>>))), One("y", L("LI", <<I(<< <<"g", L("LC", <<s(<<>>)>>)>> >>)>>)), One("y", L("LI", <<I(<< <<"g", L("LC", <<>>)>> >>)>>)) }
EmptyOpts == { [Plain EXCEPT !.un = a, !.es = b, !.ei = c, !.rc = d] : a, b, c, d \in BOOLEAN } \cup { [Plain EXCEPT !.dt = TRUE], [Tell EXCEPT !.dt = TRUE] }
FilterUniv == { R(<< <<"a", i(1)>>, <<"n", I(<< <<"a", i(1)>>, <<"c", i(1)>> >>)>>, <<"w", L("py", <<i(1), i(2)>>)>>, <<"y", L("LI", <<I(<< <<"a", i(1)>>, <<"c", i(1)>> >>), I(<< <<"a", i(2)>> >>)>>)>> >>),
                R(<< <<"a", i(2)>>, <<"n", I(<< <<"a", i(2)>>, <<"c", i(1)>> >>)>>, <<"w", L("py", <<i(2), i(3)>>)>>, <<"y", L("LI", <<I(<< <<"a", i(2)>>, <<"c", i(1)>> >>), I(<< <<"a", i(1)>> >>)>>)>> >>),
                R(<< <<"a", i(1)>>, <<"n", I(<< <<"a", i(1)>>, <<"c", i(2)>> >>)>>, <<"y", L("LI", <<I(<< <<"a", i(1)>>, <<"c", i(2)>> >>)>>)>>, <<"ys", L("LP", <<P(i(1), i(1), << <<"v", i(1)>> >>), P(i(1), i(2), <<>>)>>)>> >>),
                R(<< <<"m", M("DI", << <<"p", I(<< <<"a", i(1)>> >>)>>, <<"q", I(<<>>)>> >>)>>, <<"ys", L("LP", <<P(i(1), i(2), << <<"v", i(2)>> >>), P(i(2), i(1), << <<"n", I(<< <<"a", i(1)>> >>)>> >>)>>)>> >>),
                R(<< <<"m", M("DI", << <<"p", I(<< <<"a", i(2)>> >>)>>, <<"q", I(<< <<"c", i(1)>> >>)>> >>)>>, <<"r", R(<< <<"y", L("LI", <<I(<< <<"a", i(1)>> >>)>>)>> >>)>>, <<"w", M("py", << <<"p", i(1)>>, <<"q", i(2)>> >>)>> >>),
                R(<< <<"g", L("LS", <<sa>>)>>, <<"m", M("DI", << <<"q", I(<< <<"a", i(1)>>, <<"n", I(<< <<"a", i(1)>> >>)>> >>)>> >>)>>, <<"r", R(<< <<"y", L("LI", <<I(<< <<"a", i(2)>> >>)>>)>> >>)>>, <<"w", M("py", << <<"p", i(3)>>, <<"q", i(2)>> >>)>> >>),
                R(<< <<"g", L("LS", <<s(<<"A">>), sa>>)>>, <<"h", M("DS", << <<"p", sa>>, <<"q", sa>> >>)>> >>), R(<< <<"h", M("DS", << <<"p", s(<<"A">>)>> >>)>> >>) }
FilterSets == { << <<"a">> >>, << <<"n", "a">> >>, << <<"n">> >>, << <<"a">>, <<"n", "c">> >>, << <<"w">> >>, << <<"y">> >>, << <<"y", "*">> >>, << <<"y", "*", "a">> >>, << <<"y", "*", "c">> >>, << <<"y", "*", "a">>, <<"y", "*", "c">> >>,
                << <<"ys", "*", "v">> >>, << <<"ys", "*", "k">>, <<"ys", "*", "v">> >>, << <<"ys", "*", "k">>, <<"ys", "*", "l">>, <<"ys", "*", "v">> >>, << <<"ys", "*", "n", "a">> >>, << <<"m", "*", "a">> >>, << <<"m", "p">> >>, << <<"m", "p", "a">> >>,
                << <<"m", "q", "a">>, <<"m", "p", "a">> >>, << <<"r">> >>, << <<"r", "y", "*", "a">> >>, << <<"r", "y", "*", "c">>, <<"g">> >>, << <<"g", "#0">> >>, << <<"y", "#0">> >>, << <<"y", "#0", "a">> >>, << <<"w", "#0">> >>, << <<"w", "p">> >>, << <<"h", "p">> >>, << <<"g", "*">> >> }
FilterOpts == { [Tell EXCEPT !.f = x] : x \in FilterSets } \cup { [Both EXCEPT !.f = x, !.fz = FALSE] : x \in FilterSets }

Between(S) == \E x, y \in S : st = <<x, y>>
Init ==
  \/ What = "univ" /\ \E x, y \in Univ1 : (Size > 2 \/ Related(x, y)) /\ st = <<x, y>>
  \/ What = "colls" /\
     \/ \E A \in {Pool, Big, Odd} : \E x, y \in Seqs(A, Size) : st = <<One("y", L("LI", x)), One("y", L("LI", y))>>
     \/ \E x, y \in Seqs(PoolP, Size) : st = <<One("ys", L("LP", x)), One("ys", L("LP", y))>>
     \/ \E x, y \in Dicts("DI", {I(<<>>), I(<< <<"a", i(1)>> >>)}, Size) : st = <<One("m", x), One("m", y)>>
     \/ \E x, y \in Dicts("DP", {P(i(1), None, <<>>), P(i(1), None, << <<"v", i(1)>> >>)}, Size) : st = <<One("pm", x), One("pm", y)>>
  \/ What = "nest" /\ \E x, y \in Seqs(Nest, Size) : Len(x) = Size /\ Len(y) = Size /\ (Size > 1 => x[1] \in CheckNest /\ y[2] \in CheckNest) /\ st = <<One("ys", L("LP", x)), One("ys", L("LP", y))>>
  \/ What = "text" /\ \E k \in 1..13 : \E x \in Texts : Fits(x, k) /\
                      \/ st = <<Spot(x, k), R(<<>>)>>
                      \/ \E y \in Texts : Fits(y, k) /\ st = <<Spot(x, k), Spot(y, k)>>
  \/ What = "empty" /\ Between(EmptyUniv)
  \/ What = "filter" /\ Between(FilterUniv)
Options == CASE What = "univ" -> C18Opts [] What = "colls" -> IF Size > 2 THEN C21Opts ELSE C21More [] What = "text" -> TextOpts
             [] What = "nest" -> {Plain, Both}
             [] What = "empty" -> EmptyOpts [] What = "filter" -> FilterOpts
Next == \E o \in { x \in Options : Known(st, x) } : Step(<<"diff", o>>)

-----------------------------------------------------------------------------
\* equal records do not differ
SameLaw == Eq(st[1], st[2]) => \A o \in { z \in Options : Known(st, z) } : (o.un \/ o.x) \/ Results(st, o) = {{}}
\* unequal ones do, as long as nothing is asked to be ignored
Strict(o) == ~o.ws /\ ~o.cs /\ ~o.nf /\ ~o.es /\ ~o.ei /\ ~o.dt /\ o.mv /\ o.f = << <<>> >>
DifferLaw == ~Eq(st[1], st[2]) => \A o \in { z \in Options : Known(st, z) } : Strict(o) => \A ds \in Results(st, o) : \E d \in ds : d[1] # "none"
Mir(d) == <<CASE d[1] = "added" -> "removed" [] d[1] = "removed" -> "added" [] OTHER -> d[1], d[3], d[2]>>
MirrorLaw == \A o \in { z \in Options : Known(st, z) } : { { Mir(d) : d \in ds } : ds \in Results(st, o) } = Results(<<st[2], st[1]>>, o)
RECURSIVE At(_, _)
At(v, p) == IF p = <<>> \/ v = Nothing THEN v ELSE At(IF v[1] = "rec" THEN GetE(v[3], p[1]) ELSE GetE(Entries(v), p[1]), Tail(p))
\* whatever is said is true
TrueLaw == \A o \in { z \in Options : Known(st, z) } : \A ds \in Results(st, o) : \A d \in ds :
             LET x == At(st[1], d[2]) y == At(st[2], d[3]) IN
             CASE d[1] = "added" -> y # Nothing /\ (d[2] = d[3] => (x = Nothing \/ Val(x, o) = Nothing \/ o.es))
               [] d[1] = "removed" -> x # Nothing /\ (d[2] = d[3] => (y = Nothing \/ Val(y, o) = Nothing \/ o.es))
               [] d[1] = "modified" -> ~Eq(x, y)
               [] d[1] = "moved" -> d[2] # d[3] /\ x # Nothing /\ y # Nothing
               [] OTHER -> (x # Nothing /\ y # Nothing) \/ o.es
\* every item is told of once, when all is told
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Below(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
OnceLaw == \A o \in { z \in Options : Known(st, z) } : \A ds \in Results(st, o) :
             \A nm \in {"y", "ys", "m", "pm"} :
               LET a == GetE(st[1][3], nm) b == GetE(st[2][3], nm) IN
               (a # Nothing /\ b # Nothing) =>
                 /\ \A e \in ToSet(Entries(a)) : LET p == <<nm, e[1]>> IN
                      /\ \A mv \in BOOLEAN : Cardinality({ d \in ds : d[2] = p /\ (d[1] = "moved") = mv }) <= 1
                      /\ (o.un /\ ~o.ei /\ ~o.rc) => \E d \in ds : Below(p, d[2])
                 /\ \A e \in ToSet(Entries(b)) : LET p == <<nm, e[1]>> IN
                      /\ \A mv \in BOOLEAN : Cardinality({ d \in ds : d[3] = p /\ (d[1] = "moved") = mv }) <= 1
                      /\ (o.un /\ ~o.ei /\ ~o.rc) => \E d \in ds : Below(p, d[3])
                 \* as many are lost as are not paired
                 /\ (~o.ei) => Len(Entries(a)) - Cardinality({ d \in ds : d[1] = "removed" /\ Len(d[2]) = 2 /\ d[2][1] = nm }) = Len(Entries(b)) - Cardinality({ d \in ds : d[1] = "added" /\ Len(d[3]) = 2 /\ d[3][1] = nm })
\* a filter leaves the differences at the places it selects
Hit(f, p) == \E q \in f : \A k \in 1..(IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)) : q[k] = "*" \/ q[k] = p[k]
FilterLaw == \A o \in { z \in Options : Known(st, z) } : \A ds \in Results(st, o) : \A d \in ds : Hit(ToSet(o.f), d[2]) /\ Hit(ToSet(o.f), d[3])
=============================================================================
