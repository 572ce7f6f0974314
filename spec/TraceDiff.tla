------------------------------ MODULE TraceDiff ------------------------------
(* Judges recorded diffs.  Each event: the two records, the options and the *)
(* reported differences.                                                    *)
EXTENDS Diff, IOUtils
VARIABLES l
KeyOrderT == <<"p", "q", "r">>
Tr == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 0 /\ st = <<>>
Judge(e) ==
  LET all == Results(e.pre, e.op[2])
      res == e.res[2]
  IN IF ~Known(e.pre, e.op[2]) THEN TRUE
     ELSE IF e.res[1] = "ok" /\ Cardinality(ToSet(res)) = Len(res) /\ ToSet(res) \in all THEN TRUE
     ELSE PrintT("@@" \o ToJson([t |-> e.t, l |-> e.n, why |-> [pre |-> e.pre, allowed |-> all]]))
TNext == /\ l < Len(Tr)
         /\ l' = l + 1
         /\ Judge(Tr[l + 1])
         /\ UNCHANGED st
         /\ (l + 1 = Len(Tr) => PrintT("@@" \o ToJson([consumed |-> l + 1])))
=============================================================================
