-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The properties about the behaviour of builders, stated over histories   *)
(* and checked by TLC on every transition of Machine that small alphabets  *)
(* reach, for a family of configurations.  The statements use only the     *)
(* options as written, what happened before (the history variable `hist`)  *)
(* and what a step did, not the operators by which Machine computes it.    *)
(*                                                                         *)
(* hist[h][i]: the operations that gave field i of builder h its contents: *)
(* the last one that replaced them and the item-adding ones after it.      *)
(* env: PROP, SEED, CONFIGS (about how many members of the family), DEPTH  *)
(***************************************************************************)
EXTENDS Exhaust, IOUtils
Prop == IOEnv.PROP
Depth == atoi(IOEnv.DEPTH)
Configs == atoi(IOEnv.CONFIGS)
Seed == atoi(IOEnv.SEED)

HS == 1..2
VARIABLES c, al, st, hist, op, res, n
vars == <<c, al, st, hist, op, res, n>>
View == <<c, st, hist>>

Family ==
  LET own == SetToSeq({x \in RunFamily(Prop) : WellTyped(x)})
      skip == IF Len(own) <= Configs THEN 1 ELSE (Len(own) + Configs - 1) \div Configs
  IN {own[i] : i \in {i \in 1..Len(own) : Sampled(Seed, i, skip)}}

\* the alphabet of Exhaust works on builder 1; here both builders play both parts
Other2(h) == IF h = 1 THEN 2 ELSE IF h = 2 THEN 1 ELSE h
Swap(o) == [o EXCEPT !.h = Other2(@), !.d = Other2(@)]
OpsOf(x) == LET a == Range(Alphabet(x)) IN a \union {Swap(o) : o \in a}

NoOp == Op("none", 1, 0, "", 0, "", <<>>)
NoRes == Result(<<>>, "", <<>>, 0, 0)
Nothing(x) == [i \in 1..Len(x.fields) |-> <<>>]
Init ==
  /\ c \in Family
  /\ al = OpsOf(c)
  /\ st = [h \in HS |-> IF h = 1 THEN EmptyBuilder(c) ELSE NoHandle]
  /\ hist = [h \in HS |-> Nothing(c)]
  /\ op = NoOp /\ res = NoRes /\ n = 0

F == c.fields
\* the builder a storing operation leaves its result in
Dest(o) == IF FieldPattern(c, F[o.f]) = "mutable" THEN o.h ELSE o.d
Taken(o) == FieldPattern(c, F[o.f]) = "owned"
Stored(r) == r.out \in {"ok", "same"}
NextHist(o, r) ==
  LET put(b) == [[hist EXCEPT ![o.h] = IF Taken(o) THEN Nothing(c) ELSE @] EXCEPT ![Dest(o)] = b] IN
  CASE o.k = "new" -> [hist EXCEPT ![o.h] = Nothing(c)]
    [] o.k \in {"set", "try"} /\ Stored(r) -> put([hist[o.h] EXCEPT ![o.f] = <<o>>])
    [] o.k = "each" -> put([hist[o.h] EXCEPT ![o.f] = Append(@, o)])
    [] o.k = "try" -> IF Taken(o) THEN [hist EXCEPT ![o.h] = Nothing(c)] ELSE hist
    [] o.k = "poke" -> [hist EXCEPT ![o.h][o.f] = IF o.a = "-" THEN <<>> ELSE <<o>>]
    [] o.k = "clone" -> [hist EXCEPT ![o.d] = hist[o.h]]
    [] o.k = "build" -> IF c.pattern = "owned" THEN [hist EXCEPT ![o.h] = Nothing(c)] ELSE hist
    [] OTHER -> hist
Do(kinds) ==
  \E o \in al :
    /\ o.k \in kinds
    /\ Enabled(c, st, o)
    /\ op' = o /\ n' = n + 1 /\ c' = c /\ al' = al
    /\ LET r == Step(c, st, o) IN res' = r /\ st' = r.st /\ hist' = NextHist(o, r)
New == Do({"new"})
Set == Do({"set"})
TrySet == Do({"try"})
Each == Do({"each"})
Assign == Do({"poke"})
CloneIt == Do({"clone"})
Build == Do({"build"})
Next == n < Depth /\ (New \/ Set \/ TrySet \/ Each \/ Assign \/ CloneIt \/ Build)
Spec == Init /\ [][Next]_vars

(******************************** vocabulary *******************************)
Ix == 1..Len(F)
Kept(f) == FieldEnabled(c, f)
Precise(f) == Kept(f) /\ f.fld.ty # "none"
Block(f) == Kept(f) /\ f.fld.build # "none"
Given(h, i) == hist[h][i] # <<>>
Into(f) == f.set.into = "true" \/ (f.set.into = "none" /\ c.sset.into = "true")
StripAsked(f) == f.set.strip = "true" \/ (f.set.strip = "none" /\ c.sset.strip = "true")
OptionTexts == {"OV", "ON", "OX", "OL", "OOV", "OT", "SV", "KV", "GV", "OI", "OBX", "OVE", "E10", "E11", "E14", "E15", "E18",
                "E23", "E25", "E33", "E35", "E36", "E38", "E39", "E43", "E44", "E45", "E47"}
Stripped(f) == StripAsked(f) /\ SlotTy(f) \in OptionTexts
\* what one replacing operation stores, as the caller sees it
Gave(f, o) ==
  LET some(t) == IF Stripped(f) THEN "Some(" \o t \o ")" ELSE t IN
  CASE o.k = "poke" -> SubSeq(o.a, 2, Len(o.a))
    [] o.k = "set" -> some(IF Into(f) THEN IntoTerm(ArgKey(c, f), o.a) ELSE o.a)
    [] o.k = "try" -> some(TryTerm(ArgKey(c, f), o.a))
\* an empty collection of the kind that field f collects in
EmptyColl(f) == IF f.ty \in {"VE", "OVE"} THEN "[" ELSE "[z;"
RECURSIVE Items(_, _)
Items(f, os) == IF os = <<>> THEN ""
                ELSE (IF f.set.each_into THEN "into(" \o os[1].a \o ")" ELSE os[1].a) \o ";" \o Items(f, Tail(os))
\* the contents of field i as its history tells them
Told(i, os) ==
  LET f == F[i]
      fresh == os[1].k = "each"
      adds == IF fresh THEN os ELSE Tail(os)
      base == IF fresh THEN (IF Stripped(f) THEN "None" ELSE EmptyColl(f)) ELSE Gave(f, os[1])
  IN IF adds = <<>> THEN base
     ELSE IF ~Stripped(f) THEN base \o Items(f, adds)
     ELSE IF base = "None" THEN "Some(" \o EmptyColl(f) \o Items(f, adds) \o ")"
     ELSE SubSeq(base, 1, Len(base) - 1) \o Items(f, adds) \o ")"
Holds(i, os) ==
  IF ~Kept(F[i]) THEN "~"
  ELSE IF Precise(F[i]) THEN "!" \o (IF os = <<>> THEN DefTerm(F[i].fld.ty) ELSE Told(i, os))
  ELSE IF os = <<>> THEN "-" ELSE "=" \o Told(i, os)

Building == op'.k = "build"
StartsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x
Succeeded == StartsWith(res'.out, "Ok:")
Vetoed == c.bf.validate /\ op'.v # "ok"
NoFailures == ~Vetoed /\ op'.x = <<>>
\* fields that nothing can make up for
MustBeGiven(i) == Kept(F[i]) /\ ~Precise(F[i]) /\ ~Block(F[i]) /\ F[i].dflt = "none" /\ c.dflt = "none"
Lacking == {i \in Ix : MustBeGiven(i) /\ ~Given(op'.h, i)}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Missing(i) == res'.out \in {"Err:U:" \o F[i].id \o ":`" \o F[i].id \o "` must be initialized",
                            "Err:CU:" \o F[i].id \o ":Field not initialized: " \o F[i].id}
At(log, e) == {i \in 1..Len(log) : log[i] = e}
Evaluated(e) == At(res'.log, e) # {}
DExpr(f) == f.dflt \in {"expr", "fallible", "self"}
Body == IF c.bf.validate THEN Tail(res'.log) ELSE res'.log

(******************************* the properties ****************************)
(* every field of every builder holds what its own history tells, whatever *)
(* happened to other fields and other builders                             *)
Contents == \A h \in HS : st[h].live => \A i \in Ix : st[h].s[i] = Holds(i, hist[h][i])

P01 == (Building /\ Succeeded) =>
         \A i \in Ix : (Kept(F[i]) /\ ~Block(F[i]) /\ Given(op'.h, i)) => res'.vals[i] = Told(i, hist[op'.h][i])
P02 == Building =>
         /\ NoFailures => (Succeeded <=> Lacking = {})
         /\ NoFailures /\ Lacking # {} => Missing(First(Lacking))
         /\ \A i \in Ix : Missing(i) => Lacking # {} /\ i = First(Lacking)
         /\ Succeeded => Lacking = {}
\* everything a build evaluates when nothing stops it
Needs(i) == IF Block(F[i]) THEN <<"bld:" \o F[i].id>>
            ELSE IF DExpr(F[i]) /\ (~Kept(F[i]) \/ ~Given(op'.h, i)) THEN <<"dflt:" \o F[i].id>> ELSE <<>>
StructNeeds == IF c.dflt # "none" THEN <<"sdflt">> ELSE <<>>
UpTo(k) == StructNeeds \o Flat([i \in 1..k |-> Needs(i)])
Message(m) == res'.out \in {"Err:V:" \o m \o ":" \o m, "Err:CV:" \o m}
P03 == (Building /\ ~Vetoed) =>
         /\ Succeeded => Body = UpTo(Len(F))
         /\ \A i \in Ix : Missing(i) => Body = UpTo(i - 1)
         /\ \A i \in Ix : Message("fail:" \o F[i].id) =>
              Body = UpTo(i) /\ (F[i].dflt = "fallible" \/ F[i].fld.build = "fallible") /\ F[i].id \in Range(op'.x)
         /\ Message("fail:*") => Body = <<"sdflt">>
         /\ (c.dflt = "fallible" /\ "*" \in Range(op'.x)) => Message("fail:*")
         /\ Succeeded => \A i \in Ix :
              LET f == F[i] IN
              (~Kept(f) \/ (~Given(op'.h, i) /\ ~Precise(f) /\ ~Block(f))) =>
                 res'.vals[i] = (CASE f.dflt \in {"word", "lit0"} -> DefTerm(f.ty)
                                   [] f.dflt = "lit" -> LitTerm(f.ty, "lit")
                                   [] f.dflt = "self" -> MkTerm(f.ty, "self(" \o Holds(1, hist[op'.h][1]) \o ")")
                                   [] f.dflt \in {"expr", "fallible"} -> MkTerm(f.ty, "d:" \o f.id)
                                   [] f.dflt = "none" /\ c.dflt # "none" -> MkTerm(f.ty, "sd:" \o f.id)
                                   [] OTHER -> DefTerm(f.ty))
P04 == /\ (Building /\ c.pattern # "owned") =>
            /\ st' = st
            /\ LET again == Step(c, st', op') IN again.out = res'.out /\ again.log = res'.log
       /\ op'.k = "clone" => st'[op'.d] = st[op'.h] /\ \A h \in HS \ {op'.d} : st'[h] = st[h]
       /\ \A h \in HS \ {op'.h, op'.d} : st'[h] = st[h]
PatternOf(f) == IF f.pattern # "none" THEN f.pattern ELSE IF c.pattern # "none" THEN c.pattern ELSE "mutable"
Storing == op'.k \in {"set", "each"} \/ (op'.k = "try" /\ Stored(res'))
P05 == /\ Storing =>
            LET f == F[op'.f]
                others == HS \ {op'.h, op'.d}
                rest(x, y) == \A j \in Ix \ {op'.f} : x.s[j] = y.s[j]
            IN CASE PatternOf(f) = "mutable" -> res'.out = "same" /\ rest(st'[op'.h], st[op'.h]) /\ \A h \in HS \ {op'.h} : st'[h] = st[h]
                 [] PatternOf(f) = "immutable" -> res'.out = "ok" /\ rest(st'[op'.d], st[op'.h]) /\ \A h \in HS \ {op'.d} : st'[h] = st[h]
                 [] PatternOf(f) = "owned" -> res'.out = "ok" /\ rest(st'[op'.d], st[op'.h]) /\ (op'.d # op'.h => ~st'[op'.h].live)
                                              /\ \A h \in others : st'[h] = st[h]
       /\ Building => (st'[op'.h].live <=> c.pattern # "owned")
P06 == op'.k = "try" =>
         LET f == F[op'.f] IN
         /\ Kept(f) /\ f.set.custom # "true" /\ (f.try \/ c.try)
         /\ IF SubSeq(op'.a, 1, 1) = "e"
            THEN res'.out = "err:" \o op'.a /\ (PatternOf(f) # "owned" => st' = st)
            ELSE LET plain == [c EXCEPT !.fields[op'.f].set.into = "false"]
                     r == Step(plain, st, [op' EXCEPT !.k = "set", !.a = TryTerm(ArgKey(c, f), @)])
                 IN res'.st = r.st /\ res'.out = r.out /\ res'.log = r.log
P07 == op'.k = "each" =>
         LET f == F[op'.f]
             d == Dest(op')
             held == st[op'.h].s[op'.f]
             now == st'[d].s[op'.f]
             item == (IF f.set.each_into THEN "into(" \o op'.a \o ")" ELSE op'.a) \o ";"
             close == IF Stripped(f) THEN ")" ELSE ""
         IN IF held \in {"-", "=None"}
            THEN now = "=" \o (IF Stripped(f) THEN "Some(" ELSE "") \o EmptyColl(f) \o item \o close
            ELSE now = SubSeq(held, 1, Len(held) - Len(close)) \o item \o close
P08 == op'.k = "set" =>
         LET f == F[op'.f] IN
         st'[Dest(op')].s[op'.f] = (IF Precise(f) THEN "!" ELSE "=") \o Gave(f, op')
P09 == (Building /\ c.bf.validate) =>
         LET shown == "validate:" \o Join(st[op'.h].s, ",")
             bare == Step([c EXCEPT !.bf.validate = FALSE], st, [op' EXCEPT !.v = "ok"])
         IN /\ At(res'.log, shown) = {1}
            /\ \A i \in 2..Len(res'.log) : ~StartsWith(res'.log[i], "validate:")
            /\ Vetoed => Len(res'.log) = 1 /\ Message(op'.v) /\ res'.cmax = 0
            /\ ~Vetoed => res'.out = bare.out /\ Tail(res'.log) = bare.log /\ res'.st = bare.st
NoCause == {"", "none"}
P10 == (Building /\ ~Succeeded) =>
         LET own == c.bf.err \in {"custom", "customG", "customNU"}
             cause(m) == res'.out = (IF own THEN "Err:CV:" ELSE "Err:V:") \o m \o (IF own THEN "" ELSE ":" \o m)
             missed(i) == Missing(i) /\ (StartsWith(res'.out, "Err:CU:") <=> own)
         IN IF Vetoed THEN cause(op'.v)
            ELSE \/ c.dflt = "fallible" /\ "*" \in Range(op'.x) /\ cause("fail:*")
                 \/ \E i \in Ix : missed(i) \/ (F[i].id \in Range(op'.x) /\ cause("fail:" \o F[i].id))
\* the field's own mention of `setter`, other than skip and custom
Mentioned(f) == f.set.form = "word" \/ \E k \in {"prefix", "name", "into", "strip", "each"} : f.set[k] # "none"
HasSetters(f) == /\ f.set.skip # "true" /\ f.set.custom # "true"
                 /\ (c.sset.skip # "true" \/ f.set.skip = "false" \/ Mentioned(f))
P11 == /\ op'.k \in {"set", "try", "each"} => HasSetters(F[op'.f])
       /\ op'.k = "poke" => (F[op'.f].set.skip # "true" /\ (c.sset.skip # "true" \/ F[op'.f].set.skip = "false" \/ Mentioned(F[op'.f])))
       /\ (Building /\ Succeeded) => \A i \in Ix : (F[i].set.skip = "true" /\ F[i].dflt # "self") =>
              res'.vals[i] = IF F[i].dflt = "lit" THEN LitTerm(F[i].ty, "lit")
                             ELSE IF F[i].dflt \in {"expr", "fallible"} THEN MkTerm(F[i].ty, "d:" \o F[i].id)
                             ELSE IF F[i].dflt = "none" /\ c.dflt # "none" THEN MkTerm(F[i].ty, "sd:" \o F[i].id)
                             ELSE DefTerm(F[i].ty)
Everything == c.pattern = "owned" /\ \A i \in Ix : F[i].pattern \in {"none", "owned"}
Counted(i) == Kept(F[i]) /\ ~Precise(F[i]) /\ ~Block(F[i]) /\ Given(op'.h, i) /\ TypeTable[F[i].ty].ct
              /\ Told(i, hist[op'.h][i]) \notin {"None", "Some(None)"}
P16 == /\ Everything => (IF op'.k = "clone" THEN "Clone" \in Range(c.derive) ELSE res'.cmax = 0)
       /\ (Building /\ Succeeded /\ c.pattern # "owned") =>
            res'.cmin = Cardinality({i \in Ix : Counted(i)}) /\ res'.cmax = res'.cmin
       /\ (Building /\ c.pattern = "owned") => res'.cmax = 0
       /\ (op'.k \in {"set", "try", "each"} /\ PatternOf(F[op'.f]) # "immutable") => res'.cmax = 0
P17 == op'.k = "new" => /\ st'[op'.h].live
                        /\ \A i \in Ix : st'[op'.h].s[i] = IF ~Kept(F[i]) THEN "~"
                                                          ELSE IF Precise(F[i]) THEN "!" \o DefTerm(F[i].fld.ty) ELSE "-"
                        /\ \A h \in HS \ {op'.h} : st'[h] = st[h]
P18 == /\ (Building /\ Succeeded) => \A i \in Ix :
            /\ Block(F[i]) => res'.vals[i] = MkTerm(F[i].ty, "b(" \o st[op'.h].s[i] \o ")")
            /\ (Precise(F[i]) /\ ~Block(F[i])) => "!" \o res'.vals[i] = st[op'.h].s[i]
       /\ Building => \A i \in Ix : (Block(F[i]) \/ Precise(F[i])) => ~Missing(i)
       /\ (Building /\ Succeeded) => \A i \in Ix : Cardinality(At(res'.log, "bld:" \o F[i].id)) = IF Block(F[i]) THEN 1 ELSE 0
Holding ==
  CASE Prop = "P01" -> P01 [] Prop = "P02" -> P02 [] Prop = "P03" -> P03 [] Prop = "P04" -> P04 [] Prop = "P05" -> P05
    [] Prop = "P06" -> P06 [] Prop = "P07" -> P07 [] Prop = "P08" -> P08 [] Prop = "P09" -> P09 [] Prop = "P10" -> P10
    [] Prop = "P11" -> P11 [] Prop = "P16" -> P16 [] Prop = "P17" -> P17 [] Prop = "P18" -> P18
    [] OTHER -> P01 /\ P02 /\ P03 /\ P04 /\ P05 /\ P06 /\ P07 /\ P08 /\ P09 /\ P10 /\ P11 /\ P16 /\ P17 /\ P18
TheProperty == [][Holding]_vars
=============================================================================
