--------------------------- MODULE TraceDictColl ---------------------------
(* Judges recorded executions of real dict collections. *)
EXTENDS DictColl, IOUtils
VARIABLES l, cur
Tr == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 0 /\ cur = <<>> /\ st = <<>>
Pre(e) == IF e.first THEN <<>> ELSE cur
Judge(e) ==
  IF \E x \in Outcomes(Pre(e), e.op) : ToJson(x) = ToJson([res |-> e.res, post |-> e.post]) THEN TRUE
  ELSE PrintT("@@" \o ToJson([t |-> e.t, l |-> e.n, why |-> [pre |-> Pre(e), allowed |-> Outcomes(Pre(e), e.op)]]))
TNext == /\ l < Len(Tr)
         /\ l' = l + 1
         /\ Judge(Tr[l + 1])
         /\ cur' = Tr[l + 1].post
         /\ UNCHANGED st
         /\ (l + 1 = Len(Tr) => PrintT("@@" \o ToJson([consumed |-> l + 1])))
=============================================================================
