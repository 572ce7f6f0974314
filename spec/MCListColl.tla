---------------------------- MODULE MCListColl ----------------------------
EXTENDS ListColl
T(k) == <<"t", k>>
C(k) == <<"c", k>>
Bd == <<"b">>
BoundsS == {<<>>, <<-4>>, <<-2>>, <<-1>>, <<0>>, <<1>>, <<2>>, <<4>>}
BoundsL == {<<>>, <<-5>>, <<-3>>, <<-2>>, <<-1>>, <<0>>, <<1>>, <<2>>, <<3>>, <<5>>}
IndexesS == -4..4
StepsS == {1, 2, -1}
StepsL == {1, 2, 3, -1, -2}
ArgsS == {<<>>, <<T(1)>>, <<C(2)>>, <<Bd>>, <<T(2), C(1)>>, <<C(1), Bd>>}
ArgsT == {<<>>, <<T(1)>>, <<T(101)>>, <<C(101), T(1)>>}
ArgsL == ArgsS \cup {<<T(1), T(2), C(1)>>, <<T(2), Bd, T(1)>>}
=============================================================================
