---------------------------- MODULE TraceClasses ----------------------------
(* Judges recorded declarations and uses of record classes; an event       *)
(* "begin" starts a new history.                                           *)
EXTENDS Classes, IOUtils
VARIABLES l, cs, lost
Tr == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 0 /\ cs = <<>> /\ lost = FALSE
TNext == /\ l < Len(Tr)
         /\ l' = l + 1
         /\ LET e == Tr[l + 1] IN
            IF e.op[1] = "begin" THEN cs' = <<>> /\ lost' = FALSE
            ELSE LET out == IF lost THEN {} ELSE Outcomes(cs, e.op)
                     ok == { o \in out : ToJson(o.res) = ToJson(e.res) } IN
                 /\ (IF out = {} \/ ok # {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> e.t, l |-> e.n, why |-> out])))
                 /\ cs' = IF ok = {} THEN cs ELSE (CHOOSE o \in ok : TRUE).post
                 /\ lost' = (lost \/ (out # {} /\ ok = {}))
         /\ (l + 1 = Len(Tr) => PrintT("@@" \o ToJson([consumed |-> l + 1])))
=============================================================================
