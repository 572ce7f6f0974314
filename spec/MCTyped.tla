------------------------------- MODULE MCTyped -------------------------------
EXTENDS Typed
VARIABLES T, slot
d(s) == <<"s", s>>
Texts == { <<>>, <<"0">>, <<"1", "2">>, <<"-", "3">>, <<"+", "4">>, <<" ", "5", " ">>, <<"0", "0", "7">>, <<"1", "_", "0">>, <<"1", "_">>, <<"_", "1">>, <<"1", "_", "_", "0">>, <<"-">>, <<"+", "-", "1">>, <<"-", " ", "1">>,
           <<"1", ".", "5">>, <<"2", ".", "0">>, <<".", "5">>, <<"5", ".">>, <<".">>, <<"1", "e", "2">>, <<"1", "e", "-", "2">>, <<"-", "1", ".", "5", "e", "+", "1">>, <<"1", "e">>, <<"e", "1">>, <<"1", ".", "2", ".", "3">>,
           <<"n", "a", "n">>, <<"i", "n", "f">>, <<"a">>, <<"T", "a">>, <<"1", "a">>, <<" ">>, <<"1", " ", "2">>, <<"-", "0">>, <<"0", "x", "1">> }
Dates == { Chars(y, 4) \o <<"-">> \o Chars(m, 2) \o <<"-">> \o Chars(n, 2) : y \in {1, 1999, 2000, 2100}, m \in {1, 2, 12, 13}, n \in {0, 1, 28, 29, 31} }
         \cup { <<"2", "0", "1", "2", "0", "2", "2", "9">>, <<"2", "0", "1", "2", "-", "0", "2">>, <<"2", "0", "1", "2", "1", "2", "3", "1">>, <<"1", "2", "0", "2", "2", "9">> }
Times == { Chars(h, 2) \o <<":">> \o Chars(mi, 2) \o x : h \in {0, 23, 24}, mi \in {0, 59, 60}, x \in { <<>>, <<":", "0", "0">>, <<":", "5", "9">>, <<":", "3", "0", ".", "0", "0", "0", "0", "0", "7">>, <<":", "3", "0", ".", "9", "0", "0", "0", "0", "0">>, <<"Z">>, <<":", "0">> } }
Stamps == { x \o <<c>> \o t : x \in { Chars(2012, 4) \o <<"-", "0", "2", "-", "2", "9">>, Chars(1999, 4) \o <<"1", "2", "3", "1">> }, c \in {"T", " "}, t \in Times }
Numbers == { <<"n">>, <<"b", 0>>, <<"b", 1>>, <<"i", 0>>, <<"i", -7>>, <<"i", 120>>, <<"mi", 3>>, <<"f", 0, 0>>, <<"f", 15, -1>>, <<"f", -15, -1>>, <<"f", 3, 0>>, <<"f", 2, 2>>, <<"f", 5, -3>>, <<"nan">>, <<"inf">>,
             <<"dec", 15, -1>>, <<"dec", 12, 1>>, <<"dec", 0, 0>>, <<"c">>, <<"l">>, <<"t">>, <<"ms", <<"1">>>>, <<"ms", <<"a">>>>, <<"by", <<"1">>>> }
Days == { <<"d", 2012, 2, 29>>, <<"md", 2012, 2, 29>>, <<"d", 1, 1, 1>>, <<"d", 9999, 12, 31>>, <<"dt", 2012, 2, 29, 0, 0, 0, 0>>, <<"dt", 1, 1, 1, 23, 59, 59, 999999>>, <<"dt", 1999, 12, 31, 1, 2, 3, 4>>, <<"dt", 1999, 12, 31, 1, 2, 3, 450000>>, <<"dt", 1999, 12, 31, 12, 0, 0, 0>> }
Values == { d(x) : x \in Texts \cup Dates } \cup Numbers \cup Days
Few == { d(<<"1", "2">>), d(<<"2", "0", "1", "2", "-", "0", "2", "-", "2", "9">>), <<"n">>, <<"f", 15, -1>>, <<"i", 0>>, <<"d", 2012, 2, 29>>, <<"dt", 1999, 12, 31, 1, 2, 3, 4>> }
Pool == IF slot = <<>> THEN Values \cup (IF T \in {"date", "datetime"} THEN { d(x) : x \in Stamps } ELSE {}) ELSE Few
Init == T \in TypeNames /\ slot = <<>>
Say(op, o) == PrintT("@@" \o ToJson([c |-> T, pre |-> slot, op |-> op, res |-> o.res, post |-> o.post]))
Next == /\ UNCHANGED T
        /\ \E op \in { <<h, v>> : h \in {"set", "new", "load"}, v \in Pool } \cup { <<"get">>, <<"json">>, <<"reload">> } :
             \E o \in Outcomes(T, slot, op) : Say(op, o) /\ slot' = o.post
Spec == Init /\ [][Next]_<<T, slot>>
-----------------------------------------------------------------------------
\* a slot only ever holds a value of its kind
Kept == slot = <<>> \/ Conforms(T, slot[1])
\* converting what is converted changes nothing
Stable == slot = <<>> \/ Convert(T, slot[1]) = {slot[1]}
\* dates and times survive being written and read
Survive == T \in {"date", "datetime"} /\ slot # <<>> => Convert(T, Json1(slot[1])) = { IF slot[1][1] = "md" THEN [slot[1] EXCEPT ![1] = "d"] ELSE slot[1] }
\* a date property holds the day of the datetime it is given
ASSUME \A v \in Days : v[1] = "dt" => Convert("date", v) = {<<"d", v[2], v[3], v[4]>>}
\* what is written of an integer reads as the integer
ASSUME \A n \in 0..200 : \A w \in 3..5 : ParseInt(Chars(n, w)) = <<"i", n>> /\ ParseInt(<<"-">> \o Chars(n, w)) = <<"i", -n>> /\ ParseFloat(Chars(n, w)) \in ToFloat(<<"i", n>>)
=============================================================================
