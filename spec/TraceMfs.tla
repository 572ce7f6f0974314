------------------------------ MODULE TraceMfs ------------------------------
(* Judges recorded executions of real MultiFieldSelector objects. *)
EXTENDS Mfs, IOUtils
VARIABLES l, cur
Tr == ndJsonDeserialize(IOEnv.TRACE)
AlphabetT == <<W, <<"i", -2>>, <<"i", -1>>, <<"i", 0>>, <<"i", 1>>, <<"i", 2>>, <<"i", 10>>,
               <<"s", "">>,
               <<"s", "'">>,
               <<"s", "(a|b)">>,
               <<"s", ")">>,
               <<"s", "*">>,
               <<"s", ".x">>,
               <<"s", "1">>,
               <<"s", "1a">>,
               <<"s", "\\">>,
               <<"s", "a">>,
               <<"s", "a\n">>,
               <<"s", "a'">>,
               <<"s", "a(">>,
               <<"s", "a)">>,
               <<"s", "a-b">>,
               <<"s", "a.b">>,
               <<"s", "a\\'">>,
               <<"s", "a]">>,
               <<"s", "a|b">>,
               <<"s", "b">>,
               <<"s", "b[0]">>,
               <<"s", "c d">>,
               <<"s", "d">>,
               <<"s", "|">> >>
TInit == l = 0 /\ cur = <<>> /\ st = {}
Pre(e) == IF e.first THEN {} ELSE ToSet(cur)
Says(x) == ToJson([res |-> x.res, post |-> List(x.post)])
Judge(e) ==
  IF \E x \in Outcomes(Pre(e), e.op) : Says(x) = ToJson([res |-> e.res, post |-> e.post]) THEN TRUE
  ELSE PrintT("@@" \o ToJson([t |-> e.t, l |-> e.n, why |-> [pre |-> List(Pre(e)), allowed |-> { Says(x) : x \in Outcomes(Pre(e), e.op) }]]))
TNext == /\ l < Len(Tr)
         /\ l' = l + 1
         /\ Judge(Tr[l + 1])
         /\ cur' = Tr[l + 1].post
         /\ UNCHANGED st
         /\ (l + 1 = Len(Tr) => PrintT("@@" \o ToJson([consumed |-> l + 1])))
=============================================================================
