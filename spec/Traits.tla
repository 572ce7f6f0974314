------------------------------- MODULE Traits -------------------------------
(***************************************************************************)
(* Declaring properties from sets of options (C05).  The state is what has *)
(* been declared in one process, in order: each declaration's options, and *)
(* one record using it.  What a declaration gives depends on its options   *)
(* only: not on how they were passed (keywords, traits=, property classes, *)
(* defaults of made property types), nor on what was declared before.      *)
(*                                                                         *)
(* Values are tokens, per type: G H C the values 5 6 3 of the type; g hr   *)
(* cr the same as text (or containers of texts), b something which cannot  *)
(* be converted, N None, E the empty string, Z an empty container.         *)
(*                                                                         *)
(* o: [type, json, ro, lazy, v1, cmp, req, chk, unsafe, ext, def]          *)
(***************************************************************************)
EXTENDS Values

Types == {"any", "int", "list", "dict", "date"}
Jsons == {"no", "name", "fn"}     \* json_name; json_name, json_in and json_out
Defs  == {"no", "fun", "falsy"}

NonDefault(o) == Cardinality({ k \in {"ro", "lazy", "v1", "cmp", "req", "chk", "unsafe", "ext"} : o[k] })
                 + (IF o.json = "no" THEN 0 ELSE 1) + (IF o.def = "no" THEN 0 ELSE 1)
\* a lazy property needs something to evaluate
Sensible(o) == o.lazy => o.def = "fun"
Declarations(n) ==
  { o \in [type: Types, json: Jsons, ro: BOOLEAN, lazy: BOOLEAN, v1: BOOLEAN, cmp: BOOLEAN, req: BOOLEAN,
           chk: BOOLEAN, unsafe: BOOLEAN, ext: BOOLEAN, def: Defs] : NonDefault(o) <= n /\ Sensible(o) }

\* v1_none= makes a property which always checks
Refused(o) == o.unsafe /\ o.v1

Upgraded(o) == o.def = "falsy" /\ ~o.v1    \* the default is what reading an unset slot gives
IsV1(o)     == o.v1 \/ o.def = "falsy"
HasDflt(o)  == o.def # "no" /\ ~Upgraded(o)
Checked(o)  == ~o.ro /\ (IsV1(o) \/ (~o.unsafe /\ (o.type # "any" \/ o.req \/ o.chk)))

Conv(t, v) ==
  IF t = "any" THEN Ok(v)
  ELSE CASE v \in {"G", "g"} -> Ok("G")
         [] v \in {"H", "hr"} -> Ok("H")
         [] v \in {"C", "cr"} -> Ok("C")
         [] v = "Z" -> Ok("Z")
         [] v = "N" /\ t \in {"list", "dict"} -> Ok("Z")
         [] OTHER -> Err("coerce")

TypeSafe(o, v) ==
  IF v = "N" /\ o.req /\ o.type = "any" THEN Err("required")
  ELSE LET r == Conv(o.type, v) IN
       IF IsErr(r) THEN r ELSE IF o.chk /\ r[2] = "C" THEN Err("check") ELSE r

-----------------------------------------------------------------------------
Dead == "dead"       \* no record made yet
NoVal == "unset"

\* <<result, slot>>
New(o, v) ==
  IF v # "absent"
  THEN LET r == TypeSafe(o, v) IN IF IsErr(r) THEN <<r, Dead>> ELSE <<Ok("new"), r[2]>>
  ELSE IF o.lazy \/ (~HasDflt(o) /\ ~o.req) THEN <<Ok("new"), NoVal>>
  ELSE IF ~HasDflt(o) THEN <<Err("required"), Dead>>
  ELSE LET r == TypeSafe(o, IF o.def = "fun" THEN "g" ELSE "E") IN
       IF IsErr(r) THEN <<r, Dead>> ELSE <<Ok("new"), r[2]>>

\* how often the default function ran is part of the result
Calls(o, x) == IF o.lazy /\ x = NoVal THEN 1 ELSE 0
Read(o, x) ==
  IF x # NoVal THEN <<Ok(x), x>>
  ELSE IF o.lazy THEN LET r == TypeSafe(o, "g") IN <<r, r[2]>>
  ELSE IF IsV1(o) THEN <<Ok("E"), x>>
  ELSE <<Err("attr"), x>>

Empty(o, x) ==
  IF o.v1 THEN <<Err("attr"), x>>
  ELSE LET r == Read(o, x) IN IF r[1] = Err("attr") THEN <<Ok("empty"), x>> ELSE r

Clear(o, x) == IF o.req THEN <<Err("required"), x>> ELSE <<Ok("done"), NoVal>>
Assign(o, x, v) ==
  IF o.ro THEN <<Err("readonly"), x>>
  ELSE IF ~Checked(o) THEN <<Ok("done"), v>>
  ELSE LET r == TypeSafe(o, v) IN
       IF ~IsErr(r) THEN <<Ok("done"), r[2]>>
       ELSE IF r = Err("coerce") /\ IsV1(o) /\ v \in {"N", "E"} THEN Clear(o, x)
       ELSE <<r, x>>
Delete(o, x) ==
  IF o.ro THEN <<Err("readonly"), x>>
  ELSE IF Checked(o) /\ o.req THEN <<Err("required"), x>>
  ELSE IF x = NoVal THEN <<Err("attr"), x>>
  ELSE <<Ok("done"), NoVal>>

\* dates are converted to text by default, which is a JSON option too
IsJson(o) == o.json # "no" \/ o.type = "date"
JKey(o) == IF o.json = "no" THEN "p" ELSE "J"
JText(o, x) == IF o.json = "fn" THEN "out"
               ELSE IF o.type = "date" THEN CASE x = "G" -> "g" [] x = "H" -> "hr" [] x = "C" -> "cr"
               ELSE x
\* a lazy slot is evaluated to be written
Written(o, x) == IF x = NoVal /\ o.lazy THEN TypeSafe(o, "g")[2] ELSE x
ToJ(o, x) == LET y == Written(o, x) IN
             IF y \in {"G", "H", "C"} \/ (o.type = "any" /\ y \in {"g", "hr", "cr", "b"})
             THEN { [res |-> <<"ok", <<JKey(o), JText(o, y)>> >>, post |-> y] }
             ELSE {}
FromJ(o, key, v) == IF key # JKey(o) THEN New(o, "absent") ELSE New(o, IF o.json = "fn" THEN "hr" ELSE v)

\* two records made with 5 and 6
Equal(o) == o.ext
Differ(o) == ~o.ext /\ ~o.cmp

Kinds(o) == << IsJson(o), o.lazy, o.ro, IsV1(o), o.cmp, o.type = "list", o.type = "dict", o.type = "date" >>
\* public attributes of the property itself
About(o) == << "p", o.req, o.ext, IF IsJson(o) THEN JKey(o) ELSE "-" >>

One(r) == { [res |-> r[1], post |-> r[2]] }
Count(outs, n) == { [res |-> out.res \o <<n>>, post |-> out.post] : out \in outs }
\* calls of the default function while making a record
NewCalls(o, given) == IF ~given /\ HasDflt(o) /\ o.def = "fun" /\ ~o.lazy THEN 1 ELSE 0

Use(o, x, op) ==
  CASE op[1] = "new" -> Count(One(New(o, op[3])), NewCalls(o, op[3] # "absent"))
    [] op[1] = "from" -> Count(One(FromJ(o, op[3], op[4])), NewCalls(o, op[3] = JKey(o)))
    [] op[1] = "kinds" -> { [res |-> <<"ok", Kinds(o)>>, post |-> x] }
    [] op[1] = "about" -> { [res |-> <<"ok", About(o)>>, post |-> x] }
    [] op[1] = "equal" -> { [res |-> <<"ok", Equal(o)>>, post |-> x] }
    [] op[1] = "differ" -> { [res |-> <<"ok", Differ(o)>>, post |-> x] }
    [] x = Dead -> {}
    [] op[1] = "get" -> Count(One(Read(o, x)), Calls(o, x))
    [] op[1] = "get0" -> Count(One(Empty(o, x)), IF o.v1 THEN 0 ELSE Calls(o, x))
    [] op[1] = "set" -> Count(One(Assign(o, x, op[3])), 0)
    [] op[1] = "del" -> Count(One(Delete(o, x)), 0)
    [] op[1] = "to" -> ToJ(o, x)

\* an operation in process p: a sequence of [o, x]; or a sequence whose first
\* member is <<"class", names>> for property classes made by hand
Outcomes(p, op) ==
  CASE op[1] = "declare" ->
         IF Refused(op[2]) THEN { [res |-> <<"refused">>, post |-> p] }
         ELSE { [res |-> <<"ok">>, post |-> [p EXCEPT !.ds = Append(@, [o |-> op[2], x |-> Dead])]] }
    \* a property class by hand: once for each set of bases
    [] op[1] = "class" ->
         IF op[2] \in ToSet(p.made) THEN { [res |-> <<"refused">>, post |-> p] }
         ELSE { [res |-> <<"ok">>, post |-> [p EXCEPT !.made = Append(@, op[2])]] }
    [] OTHER -> LET q == op[2] IN
         { [res |-> u.res, post |-> [p EXCEPT !.ds[q].x = u.post]] : u \in Use(p.ds[q].o, p.ds[q].x, op) }

Fresh == [ds |-> <<>>, made |-> <<>>]
=============================================================================
