---------------------------- MODULE MCDictColl ----------------------------
EXTENDS DictColl
T(k) == <<"t", k>>
C(k) == <<"c", k>>
Bd == <<"b">>
Ka == <<"s", "a">>
Kb == <<"s", "b">>
Kc == <<"s", "c">>
K0 == <<"i", 0>>
KeysS == {Ka, Kb, K0}
KeysL == {Ka, Kb, Kc, K0}
PairsS == { <<>>, << <<Ka, T(1)>> >>, << <<Kb, C(2)>> >>, << <<Ka, T(2)>>, <<Kb, T(1)>> >>,
            << <<Kb, T(1)>>, <<Ka, Bd>> >>, << <<Ka, Bd>> >>, << <<Kb, T(1)>>, <<Ka, T(2)>>, <<Kb, C(2)>> >> }
PairsL == PairsS \cup { << <<Kc, T(1)>>, <<Ka, C(1)>>, <<Kb, T(2)>> >>, << <<Ka, C(1)>>, <<Ka, T(2)>> >>,
            << <<Kb, C(2)>>, <<Kc, Bd>>, <<Ka, T(1)>> >> }
KwsS == { <<>>, << <<Ka, T(1)>> >>, << <<Kb, C(2)>>, <<Ka, T(2)>> >>, << <<Ka, Bd>> >> }
ValsS == { <<>>, <<T(1)>>, <<C(2), T(1)>>, <<T(1), Bd>> }
=============================================================================
