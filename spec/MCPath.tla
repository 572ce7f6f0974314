------------------------------- MODULE MCPath -------------------------------
EXTENDS Path
St(cs) == <<"s", cs>>
Ix(n) == <<"i", n>>
W == <<"n">>
\* a b ' \ ] [ . newline space 1 e-acute
CompsS == { St(<<97>>), St(<<>>), St(<<39>>), St(<<92>>), St(<<93, 39>>), Ix(0), Ix(-1), Ix(10) }
CompsL == CompsS \cup { St(<<98, 233>>), St(<<97, 10>>), St(<<49>>), St(<<39, 93>>), St(<<92, 39>>), St(<<95, 48>>), Ix(2) }
\* every string of up to three of the characters that matter to the syntax
Chars == {97, 39, 92, 93, 91, 46, 10, 49, 233, 45, 42}
Strs(n) == UNION { [1..k -> Chars] : k \in 0..n }
AllStarts == { <<St(s)>> : s \in Strs(3) } \cup { <<St(s), St(t)>> : s, t \in Strs(1) } \cup
             { <<St(s), c>> : s \in Strs(2), c \in {Ix(0), Ix(-12), W, St(<<97>>)} } \cup
             { <<Ix(n)>> : n \in -120..120 }
AllStartsL == AllStarts \cup { <<St(s), St(t)>> : s, t \in Strs(2) }
OthersS == { <<>>, <<St(<<97>>)>>, <<St(<<97>>), St(<<98>>)>>, <<St(<<97>>), Ix(10)>>, <<St(<<97>>), Ix(2)>>,
             <<St(<<97, 98>>)>>, <<Ix(0)>>, <<Ix(-1)>>, <<Ix(0), St(<<97>>)>>, <<W>>, <<W, St(<<39>>)>>, <<St(<<>>)>> }
OthersT == { <<>>, <<St(<<97>>)>>, <<St(<<97>>), Ix(10)>>, <<St(<<97>>), Ix(2)>>, <<Ix(-1)>>, <<Ix(0), St(<<97>>)>>, <<W>> }
BoundsS == { <<>>, <<0>>, <<1>>, <<-1>>, <<5>> }
BoundsL == { <<>>, <<0>>, <<1>>, <<2>>, <<-1>>, <<-2>>, <<-5>>, <<5>> }
Empty == { <<>> }
\* text only: every single selector of AllStarts
TextOps == { <<"path">>, <<"reparse">>, <<"repr">>, <<"pickle", 2>> }
TextNext == \E op \in TextOps : Step(op)
=============================================================================
