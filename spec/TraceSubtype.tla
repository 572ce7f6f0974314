---------------------------- MODULE TraceSubtype ----------------------------
(* Judges recorded uses of subtypes. *)
EXTENDS Subtype, IOUtils
VARIABLES l
Tr == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 0
Judge(e) ==
  LET out == Outcomes(e.c, e.pre, e.op) IN
  IF out = {} \/ \E o \in out : ToJson(o.res) = ToJson(e.res) /\ ToJson(o.post) = ToJson(e.post) THEN TRUE
  ELSE PrintT("@@" \o ToJson([t |-> e.t, l |-> e.n, why |-> out]))
TNext == /\ l < Len(Tr)
         /\ l' = l + 1
         /\ Judge(Tr[l + 1])
         /\ (l + 1 = Len(Tr) => PrintT("@@" \o ToJson([consumed |-> l + 1])))
=============================================================================
