----------------------------- MODULE TraceVisitor -----------------------------
(* Judges recorded visits, casts and reflections. *)
EXTENDS Visitor, IOUtils
VARIABLES l
KeyOrderT == <<"p", "q", "r">>
Tr == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 0 /\ st = <<>>
Judge(e) ==
  LET out == Outcomes(e.pre, e.op)
      want == CHOOSE x \in out : TRUE
  IN IF out = {} THEN TRUE
     ELSE IF /\ e.res[1] = want.res[1]
             /\ e.res[1] = "ok" => /\ ToJson(e.res[2]) = ToJson(want.res[2])
                                   /\ Len(e.res[3]) = Len(want.res[3]) /\ ToSet(e.res[3]) = ToSet(want.res[3]) THEN TRUE
     ELSE PrintT("@@" \o ToJson([t |-> e.t, l |-> e.n, why |-> [pre |-> e.pre, want |-> want.res]]))
TNext == /\ l < Len(Tr)
         /\ l' = l + 1
         /\ Judge(Tr[l + 1])
         /\ UNCHANGED st
         /\ (l + 1 = Len(Tr) => PrintT("@@" \o ToJson([consumed |-> l + 1])))
=============================================================================
