------------------------------ MODULE SurfProps ------------------------------
(***************************************************************************)
(* The properties about what is generated.  States are configurations; a   *)
(* step changes one setting.  Invariants state what every configuration    *)
(* gives; action properties state what a setting may and may not influence.*)
(* env: PROP, SEED, CONFIGS (about how many members of the family)         *)
(***************************************************************************)
EXTENDS Matrix, IOUtils
Prop == IOEnv.PROP
Configs == atoi(IOEnv.CONFIGS)
Seed == atoi(IOEnv.SEED)
VARIABLES c, step, ok, facts, keys
vars == <<c, step, ok, facts, keys>>

Plain == {C0(<<[F0("foo", "V") EXCEPT !.set = s], [F0("bar", "OL") EXCEPT !.try = TRUE]>>) : s \in {NoSet, ListSet}}
Family ==
  LET all == SetToSeq({x \in SurfMatrix(Prop) \union Plain : UniqueNames(x)})
      skip == IF Len(all) <= Configs THEN 1 ELSE (Len(all) + Configs - 1) \div Configs
  IN {all[i] : i \in {i \in 1..Len(all) : Sampled(Seed, i, skip)}}

Fine(x) == Outcome(x) = "items" /\ UniqueNames(x)
Present(fs) == {f.k : f \in {f \in fs : f.v # Absent}}
Init == /\ c \in Family /\ step = "start"
        /\ ok = Fine(c) /\ facts = (IF ok THEN Range(Facts(c)) ELSE {}) /\ keys = Present(facts)
F == c.fields
Ix == 1..Len(F)
\* one setting changes
To(kind, x) == /\ step' = kind /\ c' = x /\ x # c
               /\ ok' = Fine(x) /\ facts' = (IF ok' THEN Range(Facts(x)) ELSE {}) /\ keys' = Present(facts')
OnField(kind, H(_)) == \E i \in Ix : F[i].set.form # "word" /\ To(kind, [c EXCEPT !.fields[i] = H(@)])
Listed(s) == [s EXCEPT !.form = "list"]
Next ==
  /\ step = "start"
  /\ \/ \E v \in {"pub", "", "pub(crate)"} : To("struct vis", [c EXCEPT !.vis = v])
     \/ \E v \in {NoVis, Pub, Priv} : To("builder vis", [c EXCEPT !.bvis = v])
     \/ \E v \in {NoVis, Pub, Priv} : To("fields vis", [c EXCEPT !.fvis = v])
     \/ \E v \in {NoVis, Pub, Priv} : To("build vis", [c EXCEPT !.bf.vis = v])
     \/ \E v \in {NoVis, Pub, Priv} : OnField("setter vis", LAMBDA f : [f EXCEPT !.vis = v])
     \/ \E v \in {NoVis, Pub, Priv} : OnField("slot vis", LAMBDA f : [f EXCEPT !.fld.vis = v])
     \/ \E p \in Pats : To("pattern", [c EXCEPT !.pattern = p])
     \/ \E p \in Pats : OnField("field pattern", LAMBDA f : [f EXCEPT !.pattern = p])
     \/ \E t \in Tri3 : OnField("into", LAMBDA f : [f EXCEPT !.set = Listed([@ EXCEPT !.into = t])])
     \/ \E t \in Tri3 : OnField("strip", LAMBDA f : [f EXCEPT !.set = Listed([@ EXCEPT !.strip = t])])
     \/ \E t \in Tri3 : To("struct into", [c EXCEPT !.sset.into = t])
     \/ \E t \in Tri3 : To("struct strip", [c EXCEPT !.sset.strip = t])
     \/ \E t \in Tri3 : To("struct skip", [c EXCEPT !.sset.skip = t])
     \/ \E t \in Tri3 : OnField("skip", LAMBDA f : [f EXCEPT !.set = Listed([@ EXCEPT !.skip = t])])
     \/ \E t \in Tri3 : OnField("custom", LAMBDA f : [f EXCEPT !.set = Listed([@ EXCEPT !.custom = t])])
     \/ \E t \in {"none", "zz_push"} : OnField("each", LAMBDA f : [f EXCEPT !.set = Listed([@ EXCEPT !.each = t])])
     \/ \E b \in B2 : OnField("try", LAMBDA f : [f EXCEPT !.try = b])
     \/ \E b \in B2 : To("struct try", [c EXCEPT !.try = b])
     \/ \E x \in {"none", "zz_name"} : OnField("name", LAMBDA f : [f EXCEPT !.set = Listed([@ EXCEPT !.name = x])])
     \/ \E x \in {"none", "zz"} : OnField("prefix", LAMBDA f : [f EXCEPT !.set = Listed([@ EXCEPT !.prefix = x])])
     \/ \E x \in {"none", "zz"} : To("struct prefix", [c EXCEPT !.sset.prefix = x])
     \/ \E x \in {"none", "Zed"} : To("builder name", [c EXCEPT !.bname = x])
     \/ \E x \in {"none", "zz_build"} : To("build name", [c EXCEPT !.bf.name = x])
     \/ \E x \in {"none", "zz_empty"} : To("empty name", [c EXCEPT !.empty = x])
     \/ To("build skip", [c EXCEPT !.bf.skip = ~@])
     \/ To("validate", [c EXCEPT !.bf.validate = ~@])
     \/ \E e \in {"none", "gen_true", "gen_false", "custom", "customG", "customNU"} : To("error", [c EXCEPT !.bf.err = e])
     \/ To("ctor", [c EXCEPT !.ctor = ~@])
     \/ To("no_std", [c EXCEPT !.nostd = ~@])
     \/ \E x \in {"none", "::zz"} : To("crate", [c EXCEPT !.crate = x])
     \/ \E d \in {<<>>, <<"Debug">>, <<"Clone">>} : To("derive", [c EXCEPT !.derive = d])
     \/ \E d \in {"none", "word", "expr", "fallible"} : To("struct default", [c EXCEPT !.dflt = d])
     \/ \E d \in {"none", "word", "expr", "fallible"} : OnField("default", LAMBDA f : [f EXCEPT !.dflt = d])
     \/ \E t \in {"none", "C"} : OnField("slot type", LAMBDA f : [f EXCEPT !.fld.ty = t])
     \/ \E b \in {"none", "expr"} : OnField("slot build", LAMBDA f : [f EXCEPT !.fld.build = b])
     \/ \E k \in FieldKinds : OnField("attribute", LAMBDA f : [f EXCEPT !.attrs = Append(@, AT(k, "9"))])
     \/ \E k \in FieldKinds : To("struct attribute", [c EXCEPT !.attrs = Append(@, AT(k, "9"))])
Spec == Init /\ [][Next]_vars

(******************************** vocabulary *******************************)
Has(k) == k \in keys
Val(k) == (CHOOSE f \in facts : f.k = k /\ f.v # Absent).v
Declared(v) == v.p \/ v.r \/ v.v # "none"
Says(v) == IF v.p THEN "pub" ELSE IF v.r THEN "" ELSE v.v
Mentioned(f) == f.set.form = "word" \/ \E k \in {"prefix", "name", "into", "strip", "each"} : f.set[k] # "none"
IsKept(f) == f.set.skip # "true" /\ (c.sset.skip # "true" \/ f.set.skip = "false" \/ Mentioned(f))
HasSetter(f) == IsKept(f) /\ f.set.custom # "true"
NameOf(f) == LET pre == IF f.set.prefix # "none" THEN f.set.prefix ELSE c.sset.prefix IN
             IF f.set.name # "none" THEN f.set.name
             ELSE IF pre # "none" THEN Unraw(pre) \o "_" \o Unraw(f.id) ELSE f.id
FnsOf(f) == IF ~HasSetter(f) THEN {}
            ELSE {NameOf(f)} \union (IF f.try \/ c.try THEN {"try_" \o Unraw(NameOf(f))} ELSE {})
                 \union (IF f.set.each # "none" THEN {f.set.each} ELSE {})
TheBuilder == IF c.bname # "none" THEN c.bname ELSE Unraw(c.name) \o "Builder"
OwnError == c.bf.err \in {"custom", "customG", "customNU"}
Ok == ok
StartsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x
\* fields of builders whose slots may be missing at build
Lackable(f) == IsKept(f) /\ f.fld.ty = "none" /\ f.fld.build = "none" /\ f.dflt = "none" /\ c.dflt = "none"

(******************************* invariants ********************************)
I06 == Ok => \A i \in Ix : LET f == F[i] IN
         (HasSetter(f) /\ (f.try \/ c.try)) =>
            /\ Has("fn:try_" \o Unraw(NameOf(f)))
            /\ StartsWith(Val("fn:try_" \o Unraw(NameOf(f)) \o ":arg"), "tryinto:")
I08 == Ok => \A i \in Ix : LET f == F[i]
                              into == f.set.into = "true" \/ (f.set.into = "none" /\ c.sset.into = "true")
                              strip == f.set.strip = "true" \/ (f.set.strip = "none" /\ c.sset.strip = "true")
                              ty == TypeTable[IF f.fld.ty # "none" THEN f.fld.ty ELSE f.ty]
                          IN HasSetter(f) => Val("fn:" \o NameOf(f) \o ":arg") =
                               (IF into THEN "into:" ELSE "exact:") \o (IF strip /\ ty.itxt # "" THEN ty.itxt ELSE ty.txt)
I10 == Ok => /\ Has("enum:" \o Unraw(TheBuilder) \o "Error") <=> ~OwnError
             /\ Has("ev:ValidationError") <=> c.bf.err \in {"none", "gen_true"}
             /\ Has("ei:From<String>") <=> c.bf.err \in {"none", "gen_true"}
             /\ Has("ei:Error") <=> (~OwnError /\ ~c.nostd)
             /\ ~OwnError => Has("ev:UninitializedField")
I11 == Ok => \A i \in Ix : LET f == F[i] IN
         /\ HasSetter(f) <=> SetFacts(c, f) # <<>>
         /\ \A fn \in FnsOf(f) : Has("fn:" \o fn)
         /\ ~HasSetter(f) => ~Has("fn:" \o NameOf(f)) \/ \E j \in Ix \ {i} : NameOf(f) \in FnsOf(F[j])
                                \/ NameOf(f) \in {BuildName(c), EmptyName(c)}
         /\ StartsWith(Val("slot:" \o f.id \o ":ty"), "phantom:") <=> ~IsKept(f)
I12 == Ok => /\ Has("struct:" \o TheBuilder)
             /\ (~OwnError) => Has("enum:" \o Unraw(TheBuilder) \o "Error")
             /\ ~c.bf.skip => Has("fn:" \o (IF c.bf.name # "none" THEN c.bf.name ELSE "build"))
             /\ Has("fn:" \o (IF c.empty # "none" THEN c.empty ELSE "create_empty"))
             /\ {f.k : f \in {x \in facts : x.a \in {"set.exist", "try.exist", "each.exist"}}}
                = UNION {{"fn:" \o fn : fn \in FnsOf(F[i])} : i \in Ix}
BVis == IF Declared(c.bvis) THEN Says(c.bvis) ELSE c.vis
I13 == Ok => /\ Val("struct:vis") = BVis
             /\ ~OwnError => Val("enum:vis") = BVis
             /\ ~c.bf.skip => Val("fn:" \o BuildName(c) \o ":vis") = IF Declared(c.bf.vis) THEN Says(c.bf.vis) ELSE BVis
             /\ Val("fn:" \o EmptyName(c) \o ":vis") = ""
             /\ \A i \in Ix : LET f == F[i] IN
                  /\ \A fn \in FnsOf(f) : Val("fn:" \o fn \o ":vis") =
                       IF Declared(f.vis) THEN Says(f.vis) ELSE IF Declared(c.bvis) THEN Says(c.bvis) ELSE "pub"
                  /\ Val("slot:" \o f.id \o ":vis") =
                       IF Declared(f.fld.vis) THEN Says(f.fld.vis) ELSE IF IsKept(f) /\ Declared(c.fvis) THEN Says(c.fvis) ELSE ""
\* where one attribute goes
Goes(k, place) == CASE place = "slot" -> k \in {"doc", "cfg", "allow", "bfa"}
                    [] place = "setter" -> k \in {"doc", "cfg", "allow", "bsa"}
                    [] place = "struct" -> k \in {"cfg", "allow", "bsta"}
                    [] place = "impl" -> k \in {"cfg", "allow", "bia"}
                    [] OTHER -> FALSE
I14 == Ok => \A f \in Range(AttrFacts(c)) :
         LET place == SubSeq(f.a, 6, Len(f.a))
             src == IF place \in {"struct", "impl"} THEN c.attrs
                    ELSE IF place = "slot" THEN F[CHOOSE i \in Ix : f.k = "slot:" \o F[i].id].attrs
                    ELSE IF place = "setter" THEN F[CHOOSE i \in Ix : f.k \in {"fn:" \o x : x \in FnsOf(F[i])}].attrs ELSE <<>>
             want == SelectSeq(src, LAMBDA a : Goes(a.k, place))
         IN f.v = [i \in 1..Len(want) |-> want[i].t]
TwoVis(v) == (v.p /\ v.r) \/ ((v.p \/ v.r) /\ v.v # "none")
Bad(f) == \/ TwoVis(f.vis) \/ TwoVis(f.fld.vis) \/ f.bad # "" \/ f.dflt = "empty" \/ f.fld.build = "empty"
          \/ (f.dflt # "none" /\ (f.fld.ty # "none" \/ f.fld.build # "none"))
          \/ \E i \in 1..Len(f.attrs) : f.attrs[i].k \in {"bfa_word", "bfa_nv", "bsa_word", "bsa_nv"}
I15 == Accepts(c) <=> /\ c.kind = "named" /\ c.bad = "" /\ c.dflt # "empty"
                      /\ ~TwoVis(c.bvis) /\ ~TwoVis(c.fvis) /\ ~TwoVis(c.bf.vis)
                      /\ ~(c.bf.validate /\ c.bf.err = "gen_false")
                      /\ ~\E i \in 1..Len(c.attrs) : c.attrs[i].k \in {"bsta_word", "bsta_nv", "bia_word", "bia_nv"}
                      /\ ~\E i \in Ix : Bad(F[i])
I16 == Ok => LET all == c.pattern = "owned" /\ \A i \in Ix : F[i].pattern \in {"none", "owned"} IN
             /\ Has("derive:Clone") <=> (~all \/ "Clone" \in Range(c.derive))
             /\ \A i \in 1..Len(G(c).tps) :
                  LET t == G(c).tps[i]
                      users == \E j \in 1..Len(G(c).ub) : G(c).ub[j] = <<t, "Clone">>
                  IN /\ Has("sg:b:" \o t \o ":Clone") <=> users
                     /\ Has("ig:b:" \o t \o ":Clone") <=> (users \/ c.pattern # "owned")
                     /\ ~c.ctor => (Has("dg:b:" \o t \o ":Clone") <=> (users \/ c.pattern # "owned"))
I17 == Ok => /\ Has("impl:Default") <=> ~c.ctor
             /\ Val("struct:fields") = Join([i \in Ix |-> F[i].id], ",")
             /\ Val("sg:params") = G(c).params /\ Val("ig:params") = G(c).params
             /\ \A i \in 1..Len(G(c).ub) : Has("sg:b:" \o G(c).ub[i][1] \o ":" \o G(c).ub[i][2])
             /\ \A d \in Range(c.derive) : Has("derive:" \o d)
             /\ ~c.bf.skip => StartsWith(Val("fn:" \o BuildName(c) \o ":ret"), "Result<" \o c.name \o G(c).args)
I18 == Ok => \A i \in Ix : LET f == F[i] IN
         /\ (IsKept(f) /\ f.fld.ty # "none") => Val("slot:" \o f.id \o ":ty") = "precise:" \o TypeTable[f.fld.ty].txt
         /\ (f.fld.ty # "none" \/ f.fld.build # "none") => WhenUnset(c, f) # "missing"
I19 == /\ Ok => /\ \A f \in facts : f.a = "root" => (f.v # Absent <=> f.k = "xp:" \o (IF c.crate = "none" THEN "::derive_builder" ELSE c.crate))
                /\ c.nostd => ~Has("ei:Error")
       /\ Outcome(c) = "mixed" <=> (Accepts(c) /\ c.lib = "none" /\ c.bf.err \in {"none", "gen_true"})
\* what a crate needs that documents its struct and denies missing_docs
Told(f, kind) == \E i \in 1..Len(f.attrs) : f.attrs[i].k \in {"doc", kind} /\ StartsWith(f.attrs[i].t, "doc=")
I21 == Ok => /\ Has("doc:struct") /\ Has("says:struct:" \o Unraw(c.name))
             /\ ~OwnError => Has("says:enum:" \o Unraw(TheBuilder))
             /\ \A f \in facts : (f.v = "1" /\ f.a \in {"build.exist", "empty.exist"}) => Has("doc:" \o f.k)
             /\ Has("doc:enum") <=> ~OwnError
             /\ \A v \in {"ev:UninitializedField", "ev:ValidationError"} : Has(v) <=> Has("doc:" \o v)
             /\ \A i \in Ix : /\ Has("doc:slot:" \o F[i].id) <=> Told(F[i], "bfa")
                              /\ \A fn \in FnsOf(F[i]) : Has("doc:fn:" \o fn) <=> Told(F[i], "bsa")
Invariants == Prop # "P00" => (I21 /\ I06 /\ I08 /\ I10 /\ I11 /\ I12 /\ I13 /\ I14 /\ I15 /\ I16 /\ I17 /\ I18 /\ I19)

(************************ what a setting may influence *********************)
Documenting(s) ==
  CASE s \in {"skip", "struct skip", "custom", "each", "try", "struct try", "name", "prefix", "struct prefix", "attribute"} -> {"doc.field"}
    [] s \in {"build name", "build skip", "empty name", "error"} -> {"doc.auto", "doc.says"}
    [] s = "builder name" -> {"doc.says"}
    [] OTHER -> {}
AspectsOf(s) ==
  CASE s = "struct vis" -> {"b.vis", "err.vis", "build.vis"}
    [] s = "builder vis" -> {"b.vis", "err.vis", "build.vis", "set.vis", "try.vis", "each.vis"}
    [] s = "fields vis" -> {"slot.vis"}
    [] s = "build vis" -> {"build.vis"}
    [] s = "setter vis" -> {"set.vis", "try.vis", "each.vis"}
    [] s = "slot vis" -> {"slot.vis"}
    [] s = "pattern" -> {"set.pattern", "try.pattern", "each.pattern", "build.recv", "b.clone", "i.gen.clone", "d.gen.clone"}
    [] s = "field pattern" -> {"set.pattern", "try.pattern", "each.pattern", "b.clone"}
    [] s \in {"into"} -> {"set.arg"}
    [] s \in {"strip"} -> {"set.arg", "try.arg", "each.arg"}
    [] s = "struct into" -> {"set.arg"}
    [] s = "struct strip" -> {"set.arg", "try.arg", "each.arg"}
    [] s \in {"struct skip", "skip"} -> {"slot.ty", "slot.vis", "fn.absent", "set.exist", "set.vis", "set.pattern", "set.arg", "try.exist",
                                        "try.vis", "try.pattern", "try.arg", "each.exist", "each.vis", "each.pattern", "each.arg"}
    [] s = "custom" -> {"fn.absent", "set.exist", "set.vis", "set.pattern", "set.arg", "try.exist", "try.vis", "try.pattern", "try.arg",
                        "each.exist", "each.vis", "each.pattern", "each.arg"}
    [] s = "each" -> {"fn.absent", "each.exist", "each.vis", "each.pattern", "each.arg"}
    [] s \in {"try", "struct try"} -> {"fn.absent", "try.exist", "try.vis", "try.pattern", "try.arg"}
    [] s \in {"name", "prefix", "struct prefix"} -> {"fn.absent", "set.exist", "set.vis", "set.pattern", "set.arg", "try.exist", "try.vis",
                        "try.pattern", "try.arg"}
    [] s = "builder name" -> {"b.name", "err.name", "err.exist", "i.gen", "d.impl", "build.sig"}
    [] s = "build name" -> {"build.exist", "build.vis", "build.recv", "build.sig", "fn.absent"}
    [] s = "empty name" -> {"empty.exist", "empty.vis", "empty.sig", "fn.absent"}
    [] s = "build skip" -> {"build.exist", "build.vis", "build.recv", "build.sig", "fn.absent"}
    [] s \in {"validate", "struct default", "default"} -> {}
    [] s = "error" -> {"err.exist", "err.name", "err.vis", "err.shape", "err.std", "build.sig"}
    [] s = "ctor" -> {"d.impl", "d.gen", "d.gen.clone"}
    [] s = "no_std" -> {"err.std"}
    [] s = "crate" -> {"root"}
    [] s = "derive" -> {"b.derive", "b.clone"}
    [] s = "slot type" -> {"root", "slot.ty", "set.arg", "try.arg", "each.arg"}
    [] s = "slot build" -> {}
    [] s \in {"attribute", "struct attribute"} -> {}
\* under a struct-level skip a mention of setter on a field also decides whether it has setters
Mentioning == step' \in {"into", "strip", "each", "name", "prefix"}
Revived == \E i \in Ix : IsKept(F[i]) # FieldEnabled(c', c'.fields[i])
Influence ==
  (ok /\ ok' /\ ~(Mentioning /\ Revived)) =>
    /\ \A f \in (facts \ facts') \union (facts' \ facts) : f.a \in AspectsOf(step') \union Documenting(step')
    \* the other fields are generated as before
    /\ \A i \in Ix : c'.fields[i] # F[i] => \A j \in Ix \ {i} :
         /\ SetFacts(c, F[j]) = SetFacts(c', F[j]) /\ TryFacts(c, F[j]) = TryFacts(c', F[j]) /\ EachFacts(c, F[j]) = EachFacts(c', F[j])
         /\ SlotKind(c, F[j]) = SlotKind(c', F[j]) /\ SlotVis(c, F[j]) = SlotVis(c', F[j])
\* a setting that is accepted or not does not make others so
Independent == (Accepts(c) /\ step' \in {"struct vis", "pattern", "field pattern", "into", "strip", "struct into", "struct strip", "struct skip",
                                        "skip", "custom", "each", "try", "struct try", "name", "prefix", "struct prefix", "builder name",
                                        "build name", "empty name", "build skip", "ctor", "no_std", "crate", "derive", "attribute",
                                        "struct attribute"}) => Accepts(c')
Influences == [][Influence /\ Independent]_vars
=============================================================================
