------------------------------- MODULE Visitor -------------------------------
(***************************************************************************)
(* Visiting, casting and reflecting (C22, C23).                            *)
(*                                                                         *)
(* Values as in Diff.tla; the members of plain ("py") containers are plain *)
(* too.  A visit yields a plain value, a cast a typed one, and both call   *)
(* the apply hook: a call is <<path, property name, value>>, with "" for   *)
(* items of collections, and <<"-">> as the value of an unset slot.        *)
(* Slots and dict entries are written in the order of their names.         *)
(*                                                                         *)
(* Options: x extraneous, nn ignore_none, es ignore_empty_string,          *)
(* em apply_empty_slots, f filter (a sequence of paths, <<>> for all),     *)
(* ap which apply hook ("id", "odd"), st what unpack does with a K.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS KeyOrder
VARIABLES st
vars == <<st>>

\* slots: name, extraneous, type ("" any, "N?" N, str or None, "LN?" LN or str)
Fields(T) ==
  CASE T = "R"  -> << <<"a", FALSE, "">>, <<"d", FALSE, "DN">>, <<"e", TRUE, "">>, <<"g", FALSE, "LS">>, <<"l", FALSE, "LN">>, <<"n", FALSE, "N">>,
                      <<"t", FALSE, "N?">>, <<"u", FALSE, "LN?">>, <<"x", FALSE, "XL">>, <<"z", FALSE, "E">> >>
    [] T = "N"  -> << <<"e", TRUE, "">>, <<"k", FALSE, "K">>, <<"x", FALSE, "">>, <<"y", FALSE, "int">> >>
    [] T = "NS" -> << <<"e", TRUE, "">>, <<"k", FALSE, "K">>, <<"w", FALSE, "">>, <<"x", FALSE, "">>, <<"y", FALSE, "int">> >>
    [] T = "K"  -> << <<"c", FALSE, "">>, <<"g", FALSE, "LS">> >>
    [] T = "E"  -> << <<"e", TRUE, "">> >>
    [] T = "XL" -> << <<"tag", FALSE, "">> >>
    [] OTHER -> <<>>
Item(T) == CASE T \in {"LN", "DN", "XL"} -> "N" [] T = "LS" -> "str" [] OTHER -> ""
Kind(T) == CASE T \in {"R", "N", "NS", "K", "E"} -> "rec" [] T \in {"LN", "LS", "XL"} -> "list" [] T = "DN" -> "dict" [] OTHER -> ""

Nothing == <<"-">>
None == <<"n">>
Err == <<"err">>
Free == <<"?">>       \* nothing is said about this
Bad(v) == v \in {Err, Free}
NoText == <<"s", <<>>>>
HasE(es, k) == \E q \in 1..Len(es) : es[q][1] = k
GetE(es, k) == IF HasE(es, k) THEN es[CHOOSE q \in 1..Len(es) : es[q][1] = k][2] ELSE Nothing
ToSet(s) == { s[k] : k \in 1..Len(s) }
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
IsBox(v) == v[1] \in {"rec", "list", "dict"}
Typed(v) == IsBox(v) /\ v[2] # "py"
Idx(k) == "#" \o ToString(k - 1)
Entries(v) == IF v[1] = "list" THEN [k \in 1..Len(v[3]) |-> <<Idx(k), v[3][k]>>] ELSE v[3]
\* the slots of a record (or collection), or the entries of the dict that stands for it
Slots(v) == IF v[1] \in {"rec", "dict"} THEN v[3] ELSE IF Len(v) = 4 THEN v[4] ELSE <<>>
Sub(f, k) == { Tail(p) : p \in { q \in f : q # <<>> /\ q[1] \in {k, "*"} } } \cup (f \cap {<<>>})

-----------------------------------------------------------------------------
Hook(v, o) == IF v = Nothing THEN None ELSE IF o.ap = "odd" /\ v = <<"i", 0>> THEN None ELSE IF o.ap = "odd" /\ v = <<"i", 3>> THEN NoText ELSE v
Apply(v, nm, p, o) == [v |-> Hook(v, o), log |-> << <<p, nm, v>> >>]
Says(v) == [v |-> v, log |-> <<>>]
Kept(v, o) == ~(v = None /\ o.nn) /\ ~(v = NoText /\ o.es)
Wanted(fl, f, o) == Sub(f, fl[1]) # {} /\ (o.x \/ ~fl[2])
Worst(rs) == IF \E k \in 1..Len(rs) : rs[k].v = Free THEN Free ELSE IF \E k \in 1..Len(rs) : rs[k].v = Err THEN Err ELSE Nothing
Logs(rs) == Flat([k \in 1..Len(rs) |-> rs[k].log])
\* what a constructor makes of a value for a slot
Made(x, t) == CASE t = "int" -> IF x[1] \in {"i", "b"} THEN x ELSE Err
                [] t = "N?"  -> IF x[1] \in {"s", "n"} \/ (x[1] = "rec" /\ x[2] \in {"N", "NS"}) THEN x ELSE Err
                [] t = "LN?" -> IF x[1] = "s" \/ (x[1] = "list" /\ x[2] = "LN") THEN x ELSE Err
                [] t = ""    -> x
                [] OTHER     -> IF x = None THEN Free ELSE x

RECURSIVE M(_, _, _, _, _, _)
\* one slot
SlotM(v, fl, p, f, o, how) ==
  LET t == fl[3] IN
  CASE v = Nothing -> Apply(v, fl[1], p, o)
    [] t \in {"", "int"} -> IF Typed(v) THEN M(v, v[2], p, f, o, how) ELSE Apply(v, fl[1], p, o)
    [] t = "N?" -> IF v[1] \in {"s", "n"} THEN Apply(v, fl[1], p, o)
                   ELSE IF Typed(v) THEN M(v, "N", p, f, o, how)
                   ELSE IF v[1] = "dict" THEN LET r == M(v, "N", p, f, o, how) IN IF how = "as" /\ (r.v = Err \/ (r.v[1] = "dict" /\ r.v[3] = <<>>)) THEN Says(Free) ELSE r
                   ELSE IF how = "as" THEN Says(Free) ELSE Apply(v, fl[1], p, o)
    [] t = "LN?" -> IF v[1] = "s" THEN Apply(v, fl[1], p, o)
                    ELSE IF Typed(v) THEN M(v, "LN", p, f, o, how)
                    ELSE IF v[1] = "list" THEN LET r == M(v, "LN", p, f, o, how) IN IF how = "as" /\ (r.v = Err \/ (r.v[1] = "list" /\ r.v[3] = <<>>)) THEN Says(Free) ELSE r
                    ELSE IF how = "as" \/ v[1] = "dict" THEN Says(Free) ELSE Apply(v, fl[1], p, o)
    [] OTHER -> M(v, t, p, f, o, how)
\* those slots of v (whose type is T) that are of interest, with what becomes of them
SlotsM(v, T, p, f, o, how) ==
  LET fs == SelectSeq(Fields(T), LAMBDA fl : Wanted(fl, f, o) /\ (o.em \/ HasE(Slots(v), fl[1])))
  IN TLCEval([k \in 1..Len(fs) |-> LET r == SlotM(GetE(Slots(v), fs[k][1]), fs[k], Append(p, fs[k][1]), Sub(f, fs[k][1]), o, how)
                           IN [nm |-> fs[k][1], v |-> IF ~Bad(r.v) /\ how = "cast" /\ Kept(r.v, o) THEN Made(r.v, fs[k][3]) ELSE r.v, log |-> r.log]])
Keeps(rs, o) == LET ks == SelectSeq(rs, LAMBDA r : Kept(r.v, o)) IN [k \in 1..Len(ks) |-> <<ks[k].nm, ks[k].v>>]
ItemsM(v, T, p, f, o, how) ==
  LET es == SelectSeq(Entries(v), LAMBDA e : Sub(f, e[1]) # {})
  IN TLCEval([k \in 1..Len(es) |-> LET r == IF Item(T) = "str" THEN Apply(es[k][2], "", Append(p, es[k][1]), o)
                                    ELSE M(es[k][2], Item(T), Append(p, es[k][1]), Sub(f, es[k][1]), o, how)
                           IN [nm |-> es[k][1], log |-> r.log,
                               v |-> IF how = "cast" /\ Item(T) = "str" /\ Kept(r.v, o) /\ r.v[1] # "s" THEN Free ELSE r.v]])

Rec(v, T, p, f, o, how) ==
  IF ~Typed(v) /\ v[1] # "dict" THEN Says(IF how = "cast" THEN Err ELSE Free)
  ELSE LET rs == SlotsM(v, T, p, f, o, how)
       IN [v |-> IF Worst(rs) # Nothing THEN Worst(rs) ELSE IF how = "cast" THEN <<"rec", T, Keeps(rs, o)>> ELSE <<"dict", "py", Keeps(rs, o)>>, log |-> Logs(rs)]
\* a collection is written as its items, or, if it has slots of interest, as the dict of those and of its items as "values"
Coll(v, T, p, f, o, how) ==
  LET own == \E k \in 1..Len(Fields(T)) : Wanted(Fields(T)[k], f, o)
      boxed == ~Typed(v) /\ how = "cast" /\ own
      vs == IF ~boxed THEN v ELSE GetE(Slots(v), "values")
  IN IF boxed /\ v[1] # "dict" THEN Says(Err)
     ELSE IF ~Typed(v) /\ how = "as" /\ own THEN Says(Free)
     ELSE IF vs = Nothing \/ (~Typed(vs) /\ vs[1] # Kind(T)) THEN Says(IF ~IsBox(vs) /\ vs[1] \notin {"-", "s"} THEN Err ELSE Free)
     ELSE LET is == ItemsM(vs, T, p, f, o, how)
              ss == IF own THEN SlotsM(v, T, p, f, o, how) ELSE <<>>
              ks == Keeps(is, o)
              all == IF Kind(T) = "dict" THEN ks ELSE [k \in 1..Len(ks) |-> ks[k][2]]
              w == Worst(is \o ss)
          IN [v |-> IF w # Nothing THEN w
                    ELSE IF how = "cast" THEN (IF Fields(T) = <<>> THEN <<Kind(T), T, all>> ELSE <<Kind(T), T, all, Keeps(ss, o)>>)
                    ELSE IF own THEN <<"dict", "py", Append(Keeps(ss, o), <<"values", <<Kind(T), "py", all>>>>)>>
                    ELSE <<Kind(T), "py", all>>,
              log |-> Logs(is) \o Logs(ss)]
M(v, T, p, f, o, how) ==
  IF o.st # "" /\ T = "K" /\ how # "cast" THEN Says(IF o.st = "value" THEN <<"s", <<"k">>>> ELSE None)
  ELSE IF Kind(T) = "rec" THEN Rec(v, T, p, f, o, how) ELSE Coll(v, T, p, f, o, how)

Visit(v, o) == M(v, v[2], <<>>, ToSet(o.f), o, "visit")
As(T, v, o) == M(v, T, <<>>, ToSet(o.f), o, "as")
Cast(T, v, o) == M(v, T, <<>>, ToSet(o.f), o, "cast")

-----------------------------------------------------------------------------
(* What a type looks like: <<name, slots, type of items>>; slots that may   *)
(* be of several types are just listed.                                     *)
RECURSIVE Refl(_, _, _)
Refl(T, f, o) ==
  IF Kind(T) = "" THEN <<T, <<>>, <<>>>>
  ELSE LET fs == SelectSeq(Fields(T), LAMBDA fl : Wanted(fl, f, o))
           Of(fl) == CASE fl[3] \in {"N?", "LN?"} -> "?" [] fl[3] \in {"", "int"} -> fl[3] [] OTHER -> Refl(fl[3], Sub(f, fl[1]), o)
       IN <<T, [k \in 1..Len(fs) |-> <<fs[k][1], Of(fs[k])>>], IF Kind(T) = "rec" THEN <<>> ELSE Refl(Item(T), Sub(f, "*"), o)>>

-----------------------------------------------------------------------------
Plain(o) == [o EXCEPT !.ap = "id", !.st = ""]
Outcome(s, op) ==
  CASE op[1] = "visit" -> LET r == Visit(s, op[2]) IN <<"ok", r.v, r.log>>
    [] op[1] = "as"    -> LET r == As(op[2], s, op[3]) IN <<"ok", r.v, r.log>>
    [] op[1] = "cast"  -> LET r == Cast(op[2], s, op[3]) IN <<"ok", r.v, r.log>>
    [] op[1] = "trip"  -> <<"ok", Cast(s[2], Visit(s, op[2]).v, op[2]).v, <<>>>>
    [] op[1] \in {"reflect", "reflect1"} -> <<"ok", Refl(s[2], ToSet(op[2].f), op[2]), <<>>>>
Outcomes(s, op) == LET r == Outcome(s, op) IN
  IF r[2] = Free THEN {} ELSE {[res |-> IF r[2] = Err THEN <<"err">> ELSE r, post |-> s]}
Step(op) == /\ UNCHANGED st
            /\ \A x \in Outcomes(st, op) : PrintT("@@" \o ToJson([c |-> 0, pre |-> st, op |-> op, res |-> x.res, post |-> x.post]))
=============================================================================
