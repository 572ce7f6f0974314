------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Tagged Python values, shared by every module of the specification.      *)
(*   <<"i",n>> int   <<"s",str>> str   <<"n">> None   <<"b",bool>> bool    *)
(*   <<"l",n>> a list of n members                                         *)
(*   <<"o">>  an opaque object that nothing converts                       *)
(*   <<"mi",n>>, <<"ms",str>>  instances of subclasses of int and str      *)
(*   <<"unset">>  not a value: the slot / entry is not there               *)
(* The tag always differs where the payload types differ, so comparing two *)
(* values never compares an int with a string.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

I(n) == <<"i", n>>
S(s) == <<"s", s>>
None == <<"n">>
Obj  == <<"o">>
Unset == <<"unset">>
B(b) == <<"b", b>>
Absent == <<"absent">>

\* int() applied to the strings of the domain
StrInts == ("5" :> 5) @@ ("7" :> 7) @@ ("12" :> 12) @@ ("-3" :> -3) @@ ("0" :> 0) @@ ("9" :> 9)
           @@ ("8" :> 8) @@ ("100" :> 100) @@ ("-12" :> -12)
IsIntLike(v) == v[1] \in {"i", "b", "mi"}
IntOf(v) == IF v[1] # "b" THEN v[2] ELSE IF v[2] THEN 1 ELSE 0
IsStrLike(v) == v[1] \in {"s", "ms"}
\* a == b
PyEq(a, b) == CASE IsIntLike(a) /\ IsIntLike(b) -> IntOf(a) = IntOf(b)
                [] IsStrLike(a) /\ IsStrLike(b) -> a[2] = b[2]
                [] OTHER -> a = b

Range1(f) == { f[k] : k \in DOMAIN f }

Ok(v)  == <<"ok", v>>
Err(k) == <<"err", k>>
IsErr(r) == r[1] = "err"

\* everything a harness needs to know about one transition
Say(rec) == PrintT("@@" \o ToJson(rec))
=============================================================================
