--------------------------- MODULE TraceJsonRec ---------------------------
(* Judges recorded executions of JSON input and output. *)
EXTENDS JsonRec, IOUtils
VARIABLES l, cur
Tr == ndJsonDeserialize(IOEnv.TRACE)
Keys == <<"", "C", "ID", "Name", "Ps", "V", "W", "X", "Y", "a", "any", "b", "blank", "c", "cash", "cv", "d", "e", "in", "jList", "jd", "jll", "jlp", "jn", "k", "keep",
          "kp", "kq", "leaf", "n", "name", "nums", "opt", "pSub", "pd", "pl", "pll", "plp", "remark", "secret", "sub", "t", "unknown_json_keys", "x", "y", "zz", "zy">>
TInit == l = 0 /\ cur = <<>> /\ st = <<>>
Pre(e) == IF e.first THEN NoRec ELSE cur
Judge(e) ==
  IF \E x \in Outcomes(Pre(e), e.op) : ToJson(x) = ToJson([res |-> e.res, post |-> e.post]) THEN TRUE
  ELSE PrintT("@@" \o ToJson([t |-> e.t, l |-> e.n, why |-> [pre |-> Pre(e), allowed |-> Outcomes(Pre(e), e.op)]]))
TNext == /\ l < Len(Tr)
         /\ l' = l + 1
         /\ Judge(Tr[l + 1])
         /\ cur' = Tr[l + 1].post
         /\ UNCHANGED st
         /\ (l + 1 = Len(Tr) => PrintT("@@" \o ToJson([consumed |-> l + 1])))
=============================================================================
