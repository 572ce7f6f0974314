--------------------------- MODULE TraceMfsDoc ---------------------------
(* Judges recorded executions of real multi field selectors. *)
EXTENDS MfsDoc, IOUtils
VARIABLES l, cur
Tr == ndJsonDeserialize(IOEnv.TRACE)
KeysT == <<"items", "keys", "p", "pop", "q", "r", "s t", "x.y">>
TInit == l = 0 /\ cur = <<>> /\ st = <<>>
Pre(e) == IF e.first THEN e.init ELSE cur
Judge(e) ==
  IF Outcomes(Pre(e), e.op) = {} \/ \E x \in Outcomes(Pre(e), e.op) : ToJson(x) = ToJson([res |-> e.res, post |-> e.post]) THEN TRUE
  ELSE PrintT("@@" \o ToJson([t |-> e.t, l |-> e.n, why |-> [pre |-> Pre(e), allowed |-> Outcomes(Pre(e), e.op)]]))
TNext == /\ l < Len(Tr)
         /\ l' = l + 1
         /\ Judge(Tr[l + 1])
         /\ cur' = Tr[l + 1].post
         /\ UNCHANGED st
         /\ (l + 1 = Len(Tr) => PrintT("@@" \o ToJson([consumed |-> l + 1])))
=============================================================================
