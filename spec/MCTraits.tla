------------------------------ MODULE MCTraits ------------------------------
EXTENDS Traits
CONSTANTS Most,     \* options other than the default, in the first declaration
          Second,   \* and in a second one, if there is one: 99 is none
          Tokens
VARIABLES c, p
Firsts == Declarations(Most)
Seconds == IF Second = 99 THEN {} ELSE { o \in Declarations(Second) : o.type \in {"int", "list"} }
AllTokens == {"g", "b", "C", "N", "E", "H"}
FewTokens == {"g", "b", "C", "E"}
Init == c \in Firsts /\ p = Fresh
Say2(op, o) == PrintT("@@" \o ToJson([c |-> c, pre |-> p, op |-> op, res |-> o.res, post |-> o.post]))
Do(op) == \E o \in Outcomes(p, op) : Say2(op, o) /\ p' = o.post /\ UNCHANGED c
Q == Len(p.ds)
Next == \/ Q = 0 /\ Do(<<"declare", c>>)
        \/ Q = 1 /\ Second # 99 /\ p.ds[1].x = Dead /\ \E o \in Seconds : Do(<<"declare", o>>)
        \/ Q > 0 /\ Q < 3 /\
           (\/ \E v \in Tokens \cup {"absent"} : Do(<<"new", Q, v>>)
            \/ \E v \in {"g", "b"} : Do(<<"from", Q, "J", v>>)
            \/ Do(<<"from", Q, "p", "g">>)
            \/ \E k \in {"kinds", "about", "equal", "differ"} : Do(<<k, Q>>)
            \/ /\ p.ds[Q].x # Dead
               /\ \/ \E k \in {"get", "get0", "del", "to"} : Do(<<k, Q>>)
                  \/ \E v \in Tokens : Do(<<"set", Q, v>>))
Spec == Init /\ [][Next]_<<c, p>>
-----------------------------------------------------------------------------
\* what is in a checked slot is of the type and passes the check
Held == \A q \in 1..Q : LET o == p.ds[q].o x == p.ds[q].x IN
          (o.type # "any" /\ (Checked(o) \/ o.ro) /\ x \notin {Dead, NoVal}) =>
             x \in {"G", "H", "C", "Z"} /\ (o.chk => x # "C")
\* a read-only slot never changes while the record lives
ReadOnly == [][ \A q \in 1..Q : LET o == p.ds[q].o x == p.ds[q].x IN
                  (o.ro /\ x \notin {Dead, NoVal} /\ p'.ds[q].x # x) =>
                     \E v \in Tokens \cup {"absent", "hr"} : New(o, v)[2] = p'.ds[q].x ]_<<c, p>>
=============================================================================
