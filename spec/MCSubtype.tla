------------------------------ MODULE MCSubtype ------------------------------
EXTENDS Subtype
CONSTANTS Layers
VARIABLES c, st
Cond(b) == CASE b = "str" -> {"full", "short", "pos"} [] b = "K" -> {"set", "all", "boom"} [] b = "number" -> {"pos", "even", "full"} [] OTHER -> {"all", "boom", "pos", "le9", "even"}
Coerce(b) == CASE b = "str" -> {"-", "first", "a", "null", "same"} [] b = "K" -> {"-", "mk", "same", "null"} [] b = "number" -> {"-", "neg", "int"} [] OTHER -> {"-", "absint", "int", "neg", "null", "same", "boom"}
Inner(b) == { <<x, f>> : x \in Cond(b), f \in {"-", CHOOSE g \in Coerce(b) : g # "-"} }
Outer(b) == { <<x, f>> : x \in Cond(b), f \in Coerce(b) }
Stacks(b) == UNION { { Append(p, o) : p \in [1..n -> Inner(b)], o \in Outer(b) } : n \in 0..(Layers - 1) }
Vals(b) == { <<"n">>, <<"i", 0>>, <<"i", -3>>, <<"i", 8>>, <<"s", <<"7">>>>, <<"l">> }
           \cup (CASE b = "str" -> { <<"s", <<>>>>, <<"s", <<"a", "b">>>>, <<"s", <<"a">>>> }
                   [] b = "K" -> { <<"k", <<>>>>, <<"k", <<1>>>>, <<"k", <<-1>>>> }
                   [] OTHER -> { <<"b", 1>>, <<"b", 0>>, <<"f", 3>>, <<"f", -8>>, <<"s", <<"-", "7">>>>, <<"i", 12>> })
Init == /\ \E b \in {"int", "str", "number", "K"} : \E ls \in Stacks(b) : c = <<b, ls>>
        /\ st = << <<>>, <<>> >>
Looks == { <<"isinstance", v, q>> : v \in Vals(c[1]), q \in 0..Top(c) } \cup { <<"issubclass", q, r>> : q, r \in 0..Top(c) } \cup { <<"make", v, q>> : v \in Vals(c[1]), q \in 1..Top(c) }
Small == { <<"get">> } \cup { <<"held", q>> : q \in 0..Top(c) }
Makes == { <<h, v>> : h \in {"set", "new", "load", "append"}, v \in Vals(c[1]) }
Few == { <<h, v>> : h \in {"set", "new"}, v \in { <<"n">>, <<"i", -3>>, <<"s", <<>>>> } } \cup { <<"change", x>> : x \in { <<>>, <<-1>>, <<4>> } }
Next == /\ UNCHANGED c
        /\ \E op \in Small \cup (IF st = << <<>>, <<>> >> THEN Looks \cup Makes ELSE IF st[2] = <<>> THEN Few ELSE {}) :
             \E o \in Outcomes(c, st, op) :
               /\ st' = o.post
               /\ PrintT("@@" \o ToJson([c |-> c, pre |-> st, op |-> op, res |-> o.res, post |-> o.post]))
-----------------------------------------------------------------------------
\* what is stored conforms, unless it is a record that was changed since
Kept == (st[1] # <<>> /\ c[1] # "K" => Inst(c, Top(c), st[1][1])) /\ \A q \in 1..Len(st[2]) : Inst(c, Top(c), st[2][q])
\* an instance of a layer is an instance of all below it, and made of itself
Nested == \A v \in Vals(c[1]), q \in 1..Top(c) : Inst(c, q, v) => Inst(c, q - 1, v) /\ New(c, q, v) = v
=============================================================================
