-------------------------------- MODULE Slot --------------------------------
(***************************************************************************)
(* One record with a slot x declared with the options in cfg, and a plain  *)
(* int slot y on which x's method default may depend.  Covers slot type    *)
(* safety (C01), read-only slots (C02), lazy defaults (C03) and            *)
(* construction / defaults / unset slots (C04).                            *)
(*                                                                         *)
(* The linearization point of every action is the return of the public     *)
(* call; a result is <<"ok", value, n>> or <<"err", kind, n>> where n is   *)
(* the number of calls of x's default function made by that operation.     *)
(***************************************************************************)
EXTENDS Values

CONSTANTS Family,       \* which declarations to explore
          ArgVals       \* values offered to construct / assign

VARIABLES cfg, st

vars == <<cfg, st>>

-----------------------------------------------------------------------------
(* Declarations *)
Isas    == {"any", "int", "str", "intstr", "pos", "posabs"}
Coerces == {"dflt", "plus", "swallow", "bad", "text"}
Checks  == {"none", "lt9"}
Dflts   == {"unset", "i3", "s5", "sx", "i12", "n", "z", "e", "f3", "fx", "fn", "fl", "fl2", "m"}
Mixes   == {"none", "json", "jsonnull", "diffas", "extran"}
Traits  == {"plain", "unsafe", "ro", "lazy", "lazyunsafe", "rolazy", "v1", "v1e"}

IsLazyT(t)  == t \in {"lazy", "lazyunsafe", "rolazy"}
Falsy(d)    == d \in {"n", "z", "e"}
Callable(d) == d \in {"f3", "fx", "fn", "fl", "fl2", "m"}

WellFormed(c) ==
  /\ c.isa = "any" => c.coerce = "dflt"
  /\ c.coerce = "text" => c.isa \in {"intstr", "int"}
  /\ c.dflt \in {"fl", "fl2"} => c.isa = "any"
  /\ IsLazyT(c.trait) => (c.dflt # "unset" /\ ~Falsy(c.dflt))

AllCfgs == { c \in [isa: Isas, coerce: Coerces, check: Checks, req: BOOLEAN,
                    dflt: Dflts, trait: Traits, mix: Mixes] : WellFormed(c) }

SafeCfgs == { c \in AllCfgs : /\ c.trait \in {"plain", "v1"} /\ c.mix = "none"
                              /\ c.dflt \in {"unset","i3","s5","sx","i12","n","fx"} }
ROCfgs   == { c \in AllCfgs : /\ c.trait \in {"ro", "rolazy"} /\ c.coerce \in {"dflt","plus"}
                              /\ (c.isa \in {"any", "int", "pos"} \/ c.mix = "none") }
LazyCfgs == { c \in AllCfgs : IsLazyT(c.trait) /\ c.mix = "none" }
DfltCfgs == { c \in AllCfgs : /\ c.trait \in {"plain","unsafe","v1","v1e"}
                              /\ c.isa \in {"any","int","str"}
                              /\ c.coerce \in {"dflt","swallow"}
                              /\ (c.mix # "none" => c.check = "none" /\ c.coerce = "dflt") }

Cfgs == CASE Family = "safe" -> SafeCfgs
          [] Family = "ro"   -> ROCfgs
          [] Family = "lazy" -> LazyCfgs
          [] Family = "dflt" -> DfltCfgs
          [] OTHER           -> AllCfgs

(* What a declaration means *)
IsRO(c)     == c.trait \in {"ro", "rolazy"}
IsLazy(c)   == IsLazyT(c.trait)
V1Given(c)  == c.trait \in {"v1", "v1e"}
Upgraded(c) == Falsy(c.dflt) /\ ~V1Given(c)    \* falsy default: reads as itself
IsV1(c)     == V1Given(c) \/ Upgraded(c)
ConstVal(d) == CASE d = "i3" -> I(3) [] d = "s5" -> S("5") [] d = "sx" -> S("x")
                 [] d = "i12" -> I(12) [] d = "n" -> None [] d = "z" -> I(0)
                 [] d = "e" -> S("")
V1None(c)   == IF Upgraded(c) THEN ConstVal(c.dflt)
               ELSE IF c.trait = "v1e" THEN S("") ELSE None
HasDflt(c)  == c.dflt # "unset" /\ ~Upgraded(c)
Checked(c)  == \/ IsV1(c)
               \/ /\ c.trait \in {"plain", "lazy"}
                  /\ (c.req \/ c.isa # "any" \/ c.check # "none")
HasEmptyAttr(c) == ~V1Given(c)

-----------------------------------------------------------------------------
(* Type checking and coercion *)
Conforms(isa, v) ==
  CASE isa = "any" -> TRUE
    [] isa = "int" -> IsIntLike(v)
    [] isa = "str" -> IsStrLike(v)
    [] isa = "intstr" -> IsIntLike(v) \/ IsStrLike(v)
    [] isa \in {"pos", "posabs"} -> IsIntLike(v) /\ IntOf(v) > 0

IntConv(v) ==   \* int(v)
  CASE IsIntLike(v) -> Ok(I(IntOf(v)))
    [] IsStrLike(v) /\ v[2] \in DOMAIN StrInts -> Ok(I(StrInts[v[2]]))
    [] OTHER -> Err("coerce")

StrConv(v) ==   \* str(v)
  CASE v[1] \in {"i", "mi"} -> Ok(S(ToString(v[2])))
    [] v[1] = "b" -> Ok(S(IF v[2] THEN "True" ELSE "False"))
    [] v[1] = "n" -> Ok(S("None"))
    [] IsStrLike(v) -> Ok(S(v[2]))
    [] OTHER -> Ok(S("<obj>"))

Abs(n) == IF n < 0 THEN -n ELSE n

\* what the coerce function returns for a non-conforming v
CoerceFn(c, v) ==
  CASE c.coerce = "plus" ->
         LET r == IntConv(v) IN IF IsErr(r) THEN r ELSE Ok(I(r[2][2] + 1))
    [] c.coerce = "swallow" ->
         LET r == IntConv(v) IN IF IsErr(r) THEN Ok(None) ELSE r
    [] c.coerce = "bad" -> Ok(Obj)
    [] c.coerce = "text" -> IF v = Obj THEN Err("coerce") ELSE StrConv(v)
    [] c.coerce = "dflt" ->
         CASE c.isa = "int" -> IntConv(v)
           [] c.isa = "str" -> StrConv(v)
           [] c.isa = "posabs" ->
                LET r == IntConv(v) IN
                IF IsErr(r) THEN r ELSE Ok(I(Abs(r[2][2])))
           [] OTHER -> Err("coerce")

CheckOk(c, v) == c.check = "none" \/ ~(IsIntLike(v) /\ IntOf(v) >= 9)

\* Ok(v) | Ok(Unset) when a coerce function swallowed the value | Err(kind)
TypeSafe(c, v, noneOk) ==
  IF v = None /\ c.req /\ c.isa = "any" THEN Err("required")
  ELSE IF Conforms(c.isa, v)
       THEN IF CheckOk(c, v) THEN Ok(v) ELSE Err("check")
       ELSE LET r == CoerceFn(c, v) IN
            IF IsErr(r) THEN r
            ELSE IF Conforms(c.isa, r[2])
                 THEN IF CheckOk(c, r[2]) THEN r ELSE Err("check")
                 ELSE IF noneOk /\ r[2] = None /\ ~c.req THEN Ok(Unset)
                      ELSE Err("coerce")

\* the declared default, before type checking: <<result, calls>>
RawDefault(c, y) ==
  CASE c.dflt = "f3" -> <<Ok(I(3)), 1>>
    [] c.dflt = "fx" -> <<Ok(S("x")), 1>>
    [] c.dflt = "fn" -> <<Ok(None), 1>>
    \* a new list each time: from the list type, and from a function
    [] c.dflt = "fl" -> <<Ok(<<"l", 0>>), 0>>
    [] c.dflt = "fl2" -> <<Ok(<<"l", 0>>), 1>>
    [] c.dflt = "m"  -> <<IF y = Unset THEN Err("attr") ELSE Ok(I(y[2] + 1)), 1>>
    [] OTHER -> <<Ok(ConstVal(c.dflt)), 0>>

-----------------------------------------------------------------------------
(* Operations: the set of allowed [res, post] *)
R(ok, n) == ok \o <<n>>
Out(res, post) == { [res |-> res, post |-> post] }

Dead == [alive |-> FALSE, x |-> Unset, y |-> Unset]
Alive(x, y) == [alive |-> TRUE, x |-> x, y |-> y]

New(c, xarg, yarg) ==
  IF xarg # Absent
  THEN LET r == TypeSafe(c, xarg, TRUE) IN
       IF IsErr(r) THEN Out(R(r, 0), Dead)
       ELSE IF r[2] = Unset /\ c.req THEN Out(R(Err("required"), 0), Dead)
       ELSE Out(R(Ok(None), 0), Alive(r[2], yarg))
  ELSE IF IsLazy(c) \/ (~HasDflt(c) /\ ~c.req)
  THEN Out(R(Ok(None), 0), Alive(Unset, yarg))
  ELSE IF ~HasDflt(c) THEN Out(R(Err("required"), 0), Dead)
  ELSE LET d == RawDefault(c, yarg) IN
       IF IsErr(d[1]) THEN Out(R(d[1], d[2]), Dead)
       ELSE LET r == TypeSafe(c, d[1][2], TRUE) IN
            IF IsErr(r) THEN Out(R(r, d[2]), Dead)
            ELSE IF r[2] = Unset /\ c.req THEN Out(R(Err("required"), d[2]), Dead)
            ELSE Out(R(Ok(None), d[2]), Alive(r[2], yarg))

\* <<result, calls, new x>>
Read(c, s) ==
  IF s.x # Unset THEN <<Ok(s.x), 0, s.x>>
  ELSE IF IsLazy(c)
  THEN LET d == RawDefault(c, s.y) IN
       IF IsErr(d[1]) THEN <<d[1], d[2], Unset>>
       ELSE LET r == TypeSafe(c, d[1][2], FALSE) IN
            IF IsErr(r) THEN <<r, d[2], Unset>> ELSE <<r, d[2], r[2]>>
  ELSE IF IsV1(c) THEN <<Ok(V1None(c)), 0, Unset>>
  ELSE <<Err("attr"), 0, Unset>>

Get(c, s) == LET g == Read(c, s) IN Out(R(g[1], g[2]), [s EXCEPT !.x = g[3]])
\* a bystander: another instance of the same class, made with y = 1 only (if
\* that is allowed).  Whatever is done to the first, its slots are its own.
GetO(c, s) ==
  LET o == CHOOSE o \in New(c, Absent, I(1)) : TRUE IN
  IF IsErr(o.res) THEN Out(<<"ok", <<"none">>>>, s)
  ELSE LET g == Read(c, o.post) IN Out(g[1], s)

Has(c, s) == LET g == Read(c, s) IN
  IF g[1] = Err("attr") THEN Out(R(Ok(B(FALSE)), g[2]), [s EXCEPT !.x = g[3]])
  ELSE IF IsErr(g[1]) THEN Out(R(g[1], g[2]), [s EXCEPT !.x = g[3]])
  ELSE Out(R(Ok(B(TRUE)), g[2]), [s EXCEPT !.x = g[3]])
Get0(c, s) == LET g == Read(c, s) IN
  IF ~HasEmptyAttr(c) THEN Out(R(Err("attr"), 0), s)
  ELSE IF g[1] = Err("attr") THEN Out(R(Ok(<<"empty">>), g[2]), [s EXCEPT !.x = g[3]])
  ELSE Out(R(g[1], g[2]), [s EXCEPT !.x = g[3]])

Delete(c, s) ==
  IF IsRO(c) THEN Out(R(Err("readonly"), 0), s)
  ELSE IF Checked(c) /\ c.req THEN Out(R(Err("required"), 0), s)
  ELSE IF s.x = Unset THEN Out(R(Err("attr"), 0), s)
  ELSE Out(R(Ok(None), 0), [s EXCEPT !.x = Unset])

Clear(c, s) ==
  IF c.req THEN Out(R(Err("required"), 0), s)
  ELSE Out(R(Ok(None), 0), [s EXCEPT !.x = Unset])

Assign(c, s, v) ==
  IF IsRO(c) THEN Out(R(Err("readonly"), 0), s)
  ELSE IF ~Checked(c) THEN Out(R(Ok(None), 0), [s EXCEPT !.x = v])
  ELSE LET r == TypeSafe(c, v, FALSE) IN
       IF ~IsErr(r) THEN Out(R(Ok(None), 0), [s EXCEPT !.x = r[2]])
       ELSE IF r = Err("coerce") /\ IsV1(c) /\ (v = None \/ PyEq(v, V1None(c)))
       THEN Clear(c, s)
       ELSE Out(R(r, 0), s)

YVals == {I(1), I(4)}

Ops(s) ==
  IF ~s.alive
  THEN (   { <<"new", f, x, y>> : f \in {"kw", "dict"}, x \in ArgVals \cup {Absent}, y \in {I(1), Absent} }
      \cup { <<"new_unknown">>, <<"new_both">> } )
  ELSE { <<"set", v>> : v \in ArgVals } \cup
       { <<"get">>, <<"has">>, <<"get0">>, <<"geto">>, <<"del">>, <<"gety">>, <<"dely">>, <<"sety", I(4)>> }
       \* append to the list in the slot
       \cup (IF s.x[1] = "l" /\ s.x[2] = 0 /\ ~IsRO(cfg) THEN { <<"mut">> } ELSE {})

Outcomes(c, s, op) ==
  CASE op[1] = "new" -> New(c, op[3], IF op[4] = Absent THEN Unset ELSE op[4])
    [] op[1] = "new_unknown" -> Out(R(Err("unknown"), 0), Dead) \cup
         (IF c.req THEN Out(R(Err("required"), 0), Dead) ELSE {})
    [] op[1] = "new_both" -> Out(R(Err("ambiguous"), 0), Dead)
    [] op[1] = "get" -> Get(c, s)
    [] op[1] = "geto" -> GetO(c, s)
    [] op[1] = "has" -> Has(c, s)
    [] op[1] = "get0" -> Get0(c, s)
    [] op[1] = "set" -> Assign(c, s, op[2])
    [] op[1] = "del" -> Delete(c, s)
    [] op[1] = "gety" -> Out(R(IF s.y = Unset THEN Err("attr") ELSE Ok(s.y), 0), s)
    [] op[1] = "dely" -> IF s.y = Unset THEN Out(R(Err("attr"), 0), s)
                         ELSE Out(R(Ok(None), 0), [s EXCEPT !.y = Unset])
    [] op[1] = "mut" -> Out(R(Ok(None), 0), [s EXCEPT !.x = <<"l", s.x[2] + 1>>])
    [] op[1] = "sety" -> Out(R(Ok(None), 0), [s EXCEPT !.y = op[2]])

-----------------------------------------------------------------------------
Init == cfg \in Cfgs /\ st = Dead

Step(op) == \E o \in Outcomes(cfg, st, op) :
              /\ st' = o.post /\ UNCHANGED cfg
              /\ Say([c |-> cfg, pre |-> st, op |-> op, res |-> o.res, post |-> o.post])

Next == \E op \in Ops(st) : Step(op)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The listed properties, on the specification *)

\* C01: a checked slot never holds a non-conforming or unchecked value
TypeSafety == (Checked(cfg) \/ IsRO(cfg)) /\ st.x # Unset =>
                 (Conforms(cfg.isa, st.x) /\ CheckOk(cfg, st.x))
RequiredSet == (cfg.req /\ st.alive /\ ~IsLazy(cfg) /\ (Checked(cfg) \/ IsRO(cfg))) => st.x # Unset
\* C02: read-only slots, once set, never change
ReadOnly == [][(IsRO(cfg) /\ st.alive /\ st.x # Unset) => st'.x = st.x]_vars
ReadOnlyUnset == [][(IsRO(cfg) /\ ~IsLazy(cfg) /\ st.alive) => st'.x = st.x]_vars
\* C03: only a read fills a lazy slot by itself, and never overwrites it
NoAliveLost == [][st.alive => st'.alive]_vars
=============================================================================
