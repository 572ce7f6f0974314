----------------------------- MODULE TraceSlot -----------------------------
(* Judges recorded uses of one record with a slot declared as in e.cfg.   *)
EXTENDS Slot, IOUtils
VARIABLES l, cur, lost
Tr == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 0 /\ cur = Dead /\ lost = FALSE /\ cfg = <<>> /\ st = Dead
TNext == /\ l < Len(Tr)
         /\ l' = l + 1
         /\ LET e == Tr[l + 1]
                q == IF e.first THEN Dead ELSE cur
                gone == lost /\ ~e.first
                out == IF gone THEN {} ELSE Outcomes(e.cfg, q, e.op)
                ok == { o \in out : ToJson(o.res) = ToJson(e.res) } IN
            /\ (IF gone \/ ok # {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> e.t, l |-> e.n, why |-> [pre |-> q, allowed |-> { o.res : o \in out }]])))
            /\ cur' = IF ok = {} THEN q ELSE (CHOOSE o \in ok : TRUE).post
            /\ lost' = (gone \/ ok = {})
         /\ UNCHANGED <<cfg, st>>
         /\ (l + 1 = Len(Tr) => PrintT("@@" \o ToJson([consumed |-> l + 1])))
=============================================================================
