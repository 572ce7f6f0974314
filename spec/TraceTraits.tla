----------------------------- MODULE TraceTraits -----------------------------
(* Judges recorded processes declaring and using properties.               *)
EXTENDS Traits, IOUtils
VARIABLES l, p, lost
Tr == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 0 /\ p = Fresh /\ lost = FALSE
TNext == /\ l < Len(Tr)
         /\ l' = l + 1
         /\ LET e == Tr[l + 1]
                q == IF e.first THEN Fresh ELSE p
                gone == lost /\ ~e.first
                out == IF gone THEN {} ELSE Outcomes(q, e.op)
                ok == { o \in out : ToJson(o.res) = ToJson(e.res) } IN
            /\ (IF out = {} \/ ok # {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> e.t, l |-> e.n, why |-> { o.res : o \in out }])))
            /\ p' = IF ok = {} THEN q ELSE (CHOOSE o \in ok : TRUE).post
            /\ lost' = (gone \/ (out # {} /\ ok = {}))
         /\ (l + 1 = Len(Tr) => PrintT("@@" \o ToJson([consumed |-> l + 1])))
=============================================================================
