----------------------------- MODULE TraceAutoRec -----------------------------
(* Judges recorded uses of auto JSON records. *)
EXTENDS AutoRec, IOUtils
VARIABLES l
Tr == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 0 /\ st = <<>>
Judge(e) ==
  LET out == Outcomes(e.pre, e.op) IN
  IF out = {} \/ \E o \in out : ToJson(o.res) = ToJson(e.res) /\ ToJson(o.post) = ToJson(e.post) THEN TRUE
  ELSE PrintT("@@" \o ToJson([t |-> e.t, l |-> e.n, why |-> out]))
TNext == /\ l < Len(Tr)
         /\ l' = l + 1
         /\ Judge(Tr[l + 1])
         /\ UNCHANGED st
         /\ (l + 1 = Len(Tr) => PrintT("@@" \o ToJson([consumed |-> l + 1])))
=============================================================================
