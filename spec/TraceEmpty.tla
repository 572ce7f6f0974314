----------------------------- MODULE TraceEmpty -----------------------------
(* Judges recorded chains; an event "root" begins one at a record. *)
EXTENDS Empty, IOUtils
VARIABLES l
Tr == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 0 /\ st = <<"n">>
TNext == /\ l < Len(Tr)
         /\ l' = l + 1
         /\ LET e == Tr[l + 1]
                out == IF st[1] = "n" \/ e.op[1] = "root" THEN {} ELSE Outcomes(e.op)
                ok == { o \in out : ToJson(o.res) = ToJson(e.res) } IN
            /\ (IF out = {} \/ ok # {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> e.t, l |-> e.n, why |-> out])))
            /\ st' = IF e.op[1] = "root" THEN <<"val", e.op[2]>>
                     ELSE IF ok = {} THEN <<"n">> ELSE (CHOOSE o \in ok : TRUE).post
         /\ (l + 1 = Len(Tr) => PrintT("@@" \o ToJson([consumed |-> l + 1])))
=============================================================================
