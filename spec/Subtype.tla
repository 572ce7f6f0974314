-------------------------------- MODULE Subtype --------------------------------
(***************************************************************************)
(* Subtypes (C27): a base type and layers of conditions on it, each with   *)
(* an optional function for values which do not conform; a property and a  *)
(* list of values of the outermost layer.                                  *)
(*                                                                         *)
(* A configuration is <<base, layers>>, a layer <<condition, coerce>>.     *)
(* Values: <<"n">>, <<"b",0|1>>, <<"i",n>>, <<"f",n>> (n/2), <<"s",chars>>,*)
(* <<"k",slot>> (a record with one integer slot), <<"l">>.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Err == <<"error">>
OfBase(b, v) == CASE b = "int" -> v[1] \in {"i", "b"} [] b = "number" -> v[1] \in {"i", "b", "f"} [] b = "str" -> v[1] = "s" [] b = "K" -> v[1] = "k"
\* conditions; one that fails with an error does not hold
Twice(v) == IF v[1] = "f" THEN v[2] ELSE 2 * v[2]
IsNum(v) == v[1] \in {"i", "b", "f"}
Holds(c, v) ==
  CASE c = "all" -> TRUE
    [] c = "none" -> FALSE
    [] c = "boom" -> FALSE
    [] c = "pos" -> IsNum(v) /\ Twice(v) > 0
    [] c = "le9" -> IsNum(v) /\ Twice(v) <= 18
    [] c = "even" -> IsNum(v) /\ Twice(v) % 4 = 0
    [] c = "full" -> v[1] = "s" /\ Len(v[2]) > 0
    [] c = "short" -> v[1] = "s" /\ Len(v[2]) <= 1
    [] c = "set" -> v[1] = "k" /\ v[2] # <<>> /\ v[2][1] > 0
RECURSIVE Inst(_, _, _)
\* is v an instance of the q-th layer (0: the base)
Inst(c, q, v) == IF q = 0 THEN OfBase(c[1], v) ELSE Inst(c, q - 1, v) /\ Holds(c[2][q][1], v)
Abs(n) == IF n < 0 THEN -n ELSE n
AsInt(v) == CASE v[1] \in {"i", "b"} -> <<"i", v[2]>> [] v[1] = "f" -> <<"i", IF v[2] >= 0 THEN v[2] \div 2 ELSE -((-v[2]) \div 2)>>
              [] v[1] = "s" -> IF v[2] = <<"7">> THEN <<"i", 7>> ELSE IF v[2] = <<"-", "7">> THEN <<"i", -7>> ELSE Err [] OTHER -> Err
Apply(f, v) ==
  CASE f = "null" -> <<"n">>
    [] f = "same" -> v
    [] f = "int" -> AsInt(v)
    [] f = "absint" -> LET w == AsInt(v) IN IF w = Err THEN Err ELSE <<"i", Abs(w[2])>>
    [] f = "neg" -> IF v[1] \in {"i", "b"} THEN <<"i", -v[2]>> ELSE IF v[1] = "f" THEN <<"f", -v[2]>> ELSE Err
    [] f = "first" -> IF v[1] = "s" /\ Len(v[2]) > 0 THEN <<"s", <<v[2][1]>>>> ELSE Err
    [] f = "a" -> <<"s", <<"a">>>>
    [] f = "mk" -> <<"k", <<5>>>>
    [] OTHER -> Err            \* none at all, or one that fails
Top(c) == Len(c[2])
\* what v becomes as a value of layer q
New(c, q, v) == IF Inst(c, q, v) THEN v ELSE LET w == Apply(c[2][q][2], v) IN IF w # Err /\ Inst(c, q, w) THEN w ELSE Err

-----------------------------------------------------------------------------
\* s = <<slot, members>>
O(res, post) == {[res |-> res, post |-> post]}
Outcomes(c, s, op) ==
  LET q == Top(c) v == IF Len(op) > 1 THEN op[2] ELSE <<>> IN
  CASE op[1] = "isinstance" -> O(<<"ok", Inst(c, op[3], v)>>, s)
    [] op[1] = "issubclass" -> O(<<"ok", op[2] >= op[3]>>, s)
    [] op[1] = "make" -> LET w == New(c, op[3], v) IN O(IF w = Err THEN <<"err">> ELSE <<"ok", w>>, s)
    [] op[1] = "set" -> LET w == New(c, q, v) IN IF w = Err THEN O(<<"err">>, s) ELSE O(<<"ok">>, << <<w>>, s[2] >>)
    [] op[1] \in {"new", "load"} ->
         IF op[1] = "load" /\ v[1] \in {"k", "n"} THEN {} ELSE
         LET w == New(c, q, v) IN
         IF w # Err THEN O(<<"ok">>, << <<w>>, s[2] >>)
         ELSE IF Apply(c[2][q][2], v) = <<"n">> THEN O(<<"ok">>, << <<>>, s[2] >>)     \* leaves an optional slot unset
         ELSE O(<<"err">>, s)
    [] op[1] = "append" -> LET w == New(c, q, v) IN IF w = Err THEN O(<<"err">>, s) ELSE O(<<"ok">>, << s[1], Append(s[2], w) >>)
    [] op[1] = "get" -> O(IF s[1] = <<>> THEN <<"unset">> ELSE <<"ok", s[1][1]>>, s)
    \* the record in the slot changes
    [] op[1] = "change" -> IF s[1] = <<>> \/ s[1][1][1] # "k" THEN {} ELSE O(<<"ok">>, << << <<"k", v>> >>, s[2] >>)
    [] op[1] = "held" -> IF s[1] = <<>> THEN {} ELSE O(<<"ok", Inst(c, op[2], s[1][1])>>, s)
    [] OTHER -> {}
=============================================================================
