------------------------------ MODULE Scenario ------------------------------
(***************************************************************************)
(* Generation of configurations and operation histories.  p is the property*)
(* whose neighbourhood is to be explored: it changes how likely each option*)
(* is, never what may happen.                                              *)
(***************************************************************************)
EXTENDS Domain, Chooser, Grammar
SE == INSTANCE SequencesExt
SetToSeq(S) == SE!SetToSeq(S)

(***************************** option likelihoods **************************)
Base == [
  pat_s |-> 65, pat_f |-> 20, prefix_s |-> 15, into_s |-> 20, strip_s |-> 25, skip_s |-> 10, try_s |-> 20,
  fset |-> 45, word |-> 8, fprefix |-> 15, fname |-> 15, finto |-> 30, fstrip |-> 35, fskip |-> 18,
  fcustom |-> 12, feach |-> 50, ftry |-> 20, fdflt |-> 35, sdflt |-> 20, fldty |-> 10, fldbuild |-> 10,
  validate |-> 20, err |-> 30, bfskip |-> 3, bfname |-> 12, vis |-> 10, attrs |-> 10, derive |-> 15, ctor |-> 10,
  empty |-> 12, gen |-> 25, crate |-> 8, bname |-> 15, nostd |-> 10, odd |-> 25, opt |-> 40, coll |-> 15,
  conflict |-> 0, bad |-> 0, big |-> 0, huge |-> 2 ]
Boosts == [
  P01 |-> [huge |-> 6, fdflt |-> 45, feach |-> 60, coll |-> 30, fldty |-> 20, pat_f |-> 30],
  P02 |-> [fdflt |-> 25, sdflt |-> 8, fldty |-> 15, fldbuild |-> 15, fskip |-> 20, big |-> 50, huge |-> 8],
  P03 |-> [huge |-> 7, fdflt |-> 60, sdflt |-> 50, fskip |-> 30, fset |-> 60, skip_s |-> 20],
  P04 |-> [pat_s |-> 40, fldty |-> 20, fldbuild |-> 20, validate |-> 35],
  P05 |-> [pat_s |-> 85, pat_f |-> 50, try_s |-> 40, coll |-> 35],
  P06 |-> [try_s |-> 40, ftry |-> 50, pat_s |-> 80, pat_f |-> 35, fldty |-> 25, opt |-> 55, fstrip |-> 45],
  P07 |-> [coll |-> 75, feach |-> 90, fset |-> 90, fskip |-> 8, fstrip |-> 60, pat_s |-> 75, pat_f |-> 35],
  P08 |-> [into_s |-> 50, strip_s |-> 50, fset |-> 70, finto |-> 50, fstrip |-> 55, opt |-> 75],
  P09 |-> [validate |-> 85, fdflt |-> 50, sdflt |-> 35],
  P10 |-> [validate |-> 50, err |-> 75, fdflt |-> 40, odd |-> 50, bname |-> 40],
  P11 |-> [skip_s |-> 55, fset |-> 80, fskip |-> 35, fcustom |-> 40, word |-> 20, try_s |-> 35, ftry |-> 30, feach |-> 40],
  P12 |-> [prefix_s |-> 45, fset |-> 80, fprefix |-> 40, fname |-> 40, feach |-> 50, coll |-> 30, bname |-> 45,
           bfname |-> 45, empty |-> 45, odd |-> 60, try_s |-> 40, ftry |-> 35],
  P13 |-> [vis |-> 55, try_s |-> 35, coll |-> 30, feach |-> 70, fskip |-> 25, fset |-> 55, fcustom |-> 30, fldty |-> 30,
           fldbuild |-> 25, bfname |-> 25, empty |-> 30, err |-> 45, ctor |-> 30, gen |-> 30],
  P14 |-> [attrs |-> 80, try_s |-> 35, coll |-> 30, feach |-> 70],
  P15 |-> [fprefix |-> 25, fname |-> 30, ftry |-> 30, coll |-> 30, conflict |-> 45, bad |-> 40, vis |-> 45, attrs |-> 40, validate |-> 40, err |-> 50, fldty |-> 30,
           fldbuild |-> 30, fdflt |-> 50, fset |-> 60, fskip |-> 35, fcustom |-> 30],
  P16 |-> [huge |-> 8, pat_s |-> 80, pat_f |-> 40, gen |-> 60, derive |-> 40],
  P17 |-> [gen |-> 70, derive |-> 50, ctor |-> 40, empty |-> 40, fldty |-> 25, fskip |-> 30],
  P18 |-> [fldty |-> 60, fldbuild |-> 55, sdflt |-> 40, fskip |-> 12, try_s |-> 35, into_s |-> 40, strip_s |-> 40, fdflt |-> 15],
  P19 |-> [crate |-> 70, nostd |-> 50, err |-> 45, derive |-> 5],
  P20 |-> [fset |-> 70, into_s |-> 40, strip_s |-> 40, prefix_s |-> 30, try_s |-> 35, vis |-> 35, pat_f |-> 30, attrs |-> 25],
  P21 |-> [vis |-> 25, attrs |-> 60, err |-> 45, validate |-> 40, try_s |-> 35, pat_f |-> 35, bfname |-> 25, empty |-> 25, feach |-> 60, coll |-> 25]
]
W(p, k) == IF p \in DOMAIN Boosts /\ k \in DOMAIN Boosts[p] THEN Boosts[p][k] ELSE Base[k]
Yes(p, sd, n, k) == Chance(sd, n, W(p, k))

(********************************* identifiers *****************************)
PlainIds == <<"foo", "bar", "baz", "lorem", "ipsum", "dolor", "amet", "x", "y1", "long_field_name", "a_b">>
OddIds == <<"r#type", "r#fn", "r#match", "value", "new", "converted", "item", "_under", "result", "größe",
            "camelCase", "r#plain", "VALUE", "__x", "clone", "default", "into", "self_", "build_fn", "error",
            "name", "s", "f", "with_foo", "set", "set_value", "with", "in_x", "p_q_r", "try_on", "push_all", "builder", "Self_",
            "o_O", "l1l", "target", "VALUE2">>
SetterIds == <<"assign", "put", "r#loop", "give", "übergib", "with_it", "try_it", "set_value", "_s">>
PrefixIds == <<"with", "set", "r#in", "r#try", "p_q">>
EachIds == <<"push", "add", "r#use", "extend_one", "append", "try_push", "hinzu">>
StructIds == <<"Foo", "Bar", "Channel", "LongName", "Übung", "r#Rawly", "F", "Bar_", "r#Raw_", "_Foo", "FooBuilder", "lower_case", "V2">>
Visibilities == <<"pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate)", "pub(in super)", "">>

\* a different identifier for every field
FieldId(p, sd, i) ==
  IF Chance(sd, 100 * i + 1, W(p, "odd"))
  THEN OddIds[((Num(sd, 2, 997) + 5 * i) % Len(OddIds)) + 1] \o (IF i > 9 THEN "_" \o ToString(i) ELSE "")
  ELSE PlainIds[((Num(sd, 3, 997) + 3 * i) % Len(PlainIds)) + 1] \o (IF i > 9 THEN ToString(i) ELSE "")

(********************************** settings *******************************)
Tri(sd, n) == Pick(sd, n, <<"true", "true", "true", "false">>)
Opt(p, sd, n, k, val) == IF Yes(p, sd, n, k) THEN val ELSE "none"
GenVis(p, sd, n) ==
  IF ~Yes(p, sd, n, "vis") THEN NoVis
  ELSE IF Yes(p, sd, n + 1, "conflict") /\ Chance(sd, n + 2, 30)
  THEN Pick(sd, n + 3, << [p |-> TRUE, r |-> TRUE, v |-> "none"], [p |-> TRUE, r |-> FALSE, v |-> "pub(crate)"],
                          [p |-> FALSE, r |-> TRUE, v |-> "pub"], [p |-> TRUE, r |-> TRUE, v |-> ""],
                          [p |-> FALSE, r |-> TRUE, v |-> ""], [p |-> TRUE, r |-> FALSE, v |-> "pub"] >>)
  ELSE Pick(sd, n + 4, << [p |-> TRUE, r |-> FALSE, v |-> "none"], [p |-> FALSE, r |-> TRUE, v |-> "none"],
                          [p |-> FALSE, r |-> FALSE, v |-> Pick(sd, n + 5, Visibilities)] >>)

\* what may stand in a pass-through attribute; the rich ones need not make sense to a compiler
Bodies == <<"doc", "cfg", "allow", "doc", "cfg", "allow", "allow2", "cfgany", "clippy">>
RichBodies == Bodies \o <<"must_use", "deprecated", "alias", "cfg_attr", "serde", "path", "expect", "hidden">>
AttrBody(b, t) ==
  CASE b = "doc" -> "doc=\"" \o t \o "\""
    [] b = "docq" -> "doc=\"" \o t \o " {0} \\\"q\\\" \\n * [`x`] \""
    [] b = "docm" -> "doc=concat!(\"" \o t \o "\",\"x\")"
    [] b = "cfg" -> "cfg(not(" \o t \o "))"
    [] b = "cfgany" -> "cfg(any(not(" \o t \o "),feature=\"" \o t \o "\"))"
    [] b = "allow" -> "allow(" \o t \o ")"
    [] b = "allow2" -> "allow(" \o t \o "," \o t \o "b)"
    [] b = "clippy" -> "allow(clippy::" \o t \o ")"
    [] b = "must_use" -> "must_use=\"" \o t \o "\""
    [] b = "deprecated" -> "deprecated(note=\"" \o t \o "\")"
    [] b = "alias" -> "doc(alias=\"" \o t \o "\")"
    [] b = "cfg_attr" -> "cfg_attr(" \o t \o ",inline)"
    [] b = "serde" -> "serde(default,rename=\"" \o t \o "\",with={x+1})"
    [] b = "path" -> "my::" \o t \o "[a b]"
    [] b = "expect" -> "expect(" \o t \o ",reason=\"x\")"
    [] b = "hidden" -> "doc(hidden," \o t \o ")"
GenAttrs(p, sd, n, onField, surf) ==
  IF ~Yes(p, sd, n, "attrs") THEN <<>>
  ELSE LET len == 1 + Num(sd, n + 1, IF p = "P14" THEN 8 ELSE 4)
           fk == <<"doc", "cfg", "allow", "bfa", "bsa", "bfa", "bsa", "other", "bsta", "bia">>
           sk == <<"doc", "cfg", "allow", "bsta", "bia", "bsta", "bia", "other", "bfa", "bsa">>
           \* one kind may be in favour, so that long lists for one place occur
           kinds == IF Chance(sd, n + 3, 30) THEN <<Pick(sd, n + 4, fk), Pick(sd, n + 5, IF onField THEN fk ELSE sk)>>
                    ELSE IF onField THEN fk ELSE sk
           tag(i) == "t" \o ToString(n) \o "x" \o ToString(i)
           one(i) == LET kind == Pick(sd, n + 6 + i, kinds)
                         body == Pick(sd, n + 20 + i, IF surf THEN RichBodies ELSE Bodies)
                         fwd == Pick(sd, n + 30 + i, <<"cfg", "cfgany">>)
                         alw == Pick(sd, n + 30 + i, <<"allow", "allow2", "clippy">>)
                     IN [k |-> kind,
                         t |-> CASE kind = "doc" -> AttrBody(Pick(sd, n + 80 + i, <<"doc", "doc", "doc", "docq", "docm">>), tag(i)) [] kind = "cfg" -> AttrBody(fwd, tag(i))
                                 [] kind = "allow" -> AttrBody(alw, tag(i))
                                 [] kind = "other" -> IF surf /\ body \notin {"doc", "cfg", "cfgany", "allow", "allow2", "clippy", "alias", "hidden"}
                                                      THEN IF Chance(sd, n + 60 + i, 40) THEN AttrBody(body, tag(i)) ELSE Pick(sd, n + 70 + i, Foreign)
                                                      ELSE "warn(" \o tag(i) \o ")"
                                 [] OTHER -> AttrBody(body, tag(i))]
           \* some are repeated as they are
           good == [i \in 1..len |-> one(IF i > 1 /\ Chance(sd, n + 40 + i, 15) THEN i - 1 ELSE i)]
           badk == IF onField THEN <<"bfa_word", "bfa_nv", "bsa_word", "bsa_nv">>
                   ELSE <<"bsta_word", "bsta_nv", "bia_word", "bia_nv">>
       IN IF Yes(p, sd, n + 50, "conflict") /\ Chance(sd, n + 51, 25)
          THEN good \o << [k |-> Pick(sd, n + 52, badk), t |-> "bad" \o ToString(n)] >> ELSE good

GenSet(p, sd, n, i, ty) ==
  LET none == [form |-> "none", prefix |-> "none", name |-> "none", into |-> "none", strip |-> "none",
               skip |-> "none", custom |-> "none", each |-> "none", each_into |-> FALSE]
      idx == ToString(i)
  IN IF Yes(p, sd, n, "word") THEN [none EXCEPT !.form = "word"]
     ELSE IF ~Yes(p, sd, n + 1, "fset") THEN none
     ELSE [ form |-> "list",
            prefix |-> Opt(p, sd, n + 2, "fprefix", Pick(sd, n + 3, PrefixIds)),
            name |-> Opt(p, sd, n + 4, "fname", Pick(sd, n + 5, SetterIds) \o idx),
            into |-> Opt(p, sd, n + 6, "finto", Tri(sd, n + 7)),
            strip |-> Opt(p, sd, n + 8, "fstrip", Tri(sd, n + 9)),
            skip |-> Opt(p, sd, n + 10, "fskip", Tri(sd, n + 11)),
            custom |-> Opt(p, sd, n + 12, "fcustom", Tri(sd, n + 13)),
            each |-> IF ty \in {"L", "OL", "VE", "OVE"} \/ Chance(sd, n + 14, 6)
                     THEN Opt(p, sd, n + 15, "feach", Pick(sd, n + 16, EachIds) \o idx) ELSE "none",
            each_into |-> ty \notin {"VE", "OVE"} /\ Chance(sd, n + 17, 40) ]

GenSSet(p, sd, n) ==
  [ prefix |-> Opt(p, sd, n, "prefix_s", Pick(sd, n + 1, PrefixIds)),
    into |-> Opt(p, sd, n + 2, "into_s", Tri(sd, n + 3)),
    strip |-> Opt(p, sd, n + 4, "strip_s", Tri(sd, n + 5)),
    skip |-> Opt(p, sd, n + 6, "skip_s", Tri(sd, n + 7)) ]

Patterns == <<"mutable", "immutable", "owned", "owned">>

(********************************** fields *********************************)
RunTypes(p, sd, n, owned) ==
  IF Yes(p, sd, n, "coll") THEN <<"L", "OL", "L", "OL", "VE", "OVE">>
  ELSE IF Yes(p, sd, n + 1, "opt")
  THEN <<"OV", "OV", "OL", "OOV", "SV", "KV", "GV", "AV", "MV", "QV", "OX", "OI", "OI", "OBX", "OVE">> \o (IF owned THEN <<"ON", "ON">> ELSE <<>>)
  ELSE <<"V", "V", "V", "C", "X", "B", "I", "S", "UN", "PD", "CH", "TP", "AR", "BX", "VE">> \o (IF owned THEN <<"N", "N">> ELSE <<>>)
SurfTypes == <<"E1", "E2", "E3", "E4", "E5", "E6", "E7", "E8", "E9", "E10", "E11", "E12", "E13", "E14", "E15",
               "E16", "E17", "E18", "E19", "E20", "E21", "E22", "E23", "E24", "E25", "E26", "E27", "E28", "E29", "E30", "E31", "E32", "E33", "E34", "E35", "E36", "E37", "E38", "E39", "E40", "E41", "E42", "E43", "E44", "E45", "E46", "E47", "N", "ON", "X">>
\* the first fields mention the generic parameters
ParSeq(g) ==
  (IF "T" \in GenTable[g].pars THEN <<"T">> ELSE <<>>) \o (IF "U" \in GenTable[g].pars THEN <<"U">> ELSE <<>>)
  \o (IF "'a" \in GenTable[g].pars THEN <<"'a">> ELSE <<>>)
  \o (IF "'b" \in GenTable[g].pars THEN <<"'b">> ELSE <<>>) \o (IF "M" \in GenTable[g].pars THEN <<"M">> ELSE <<>>)
ParType(par, g, sd, n) ==
  CASE g = "sz" -> "BT" [] par = "'b" -> "RB" [] par = "T" -> Pick(sd, n, <<"T", "OT">>) [] par = "U" -> "U" [] par = "'a" -> "RA" [] par = "M" -> "AM"
GenTy(p, sd, n, i, g, owned, surf) ==
  IF i <= Len(ParSeq(g)) THEN ParType(ParSeq(g)[i], g, sd, n)
  ELSE IF g \in {"ti", "tiw"} /\ Chance(sd, n + 5, 40) THEN "TI"
  ELSE IF surf /\ Chance(sd, n + 1, 30) THEN Pick(sd, n + 2, SurfTypes)
  ELSE Pick(sd, n + 3, RunTypes(p, sd, n + 4, owned))

FieldBads == SetToSeq(OutsideField) \o <<"foo", "setter(foo)", "setter(prefix=\"a b\")", "setter(prefix=\"\")", "setter(each)",
  "setter(each(into))", "setter(each=3)", "setter(each(name=\"x\",zip))", "setter=\"x\"", "setter(name)",
  "setter(into=3)", "setter(strip_option=\"maybe\")", "setter(name=\"1x\")", "default=\"\"", "default=\"}\"",
  "default=\"let\"", "default=\"  \"", "default=\"// c\"", "default=\"/* c */\"", "field(build=\" \")", "default(1)", "field(build=\"\")", "field(build)", "field(ty=\"\")", "field(ty=\"<\")",
  "field(foo)", "field(vis=\"pub(\")", "field", "pattern=\"x\"", "pattern", "skip", "name=\"x\"",
  "derive(Debug)", "build_fn(skip)", "crate=\"x\"", "no_std", "try_setter(x)", "try_setter=true", "vis=\"public\"",
  "vis=3", "public=true", "private(x)", "validate=\"x\"", "custom_constructor", "create_empty=\"x\"",
  "setter(skip),setter(into)", "pattern=\"owned\",pattern=\"owned\"", "default,default",
  "try_setter,try_setter", "setter(into,into)", "setter(name=\"q1\",name=\"q1\")", "field(ty=\"V\",ty=\"V\")",
  "\"lit\"", "setter(\"lit\")">>
StructBads == SetToSeq(OutsideStruct) \o <<"foo", "name=3", "name=\"a b\"", "name=\"\"", "name", "name(x)", "pattern=\"weird\"", "pattern", "setter",
  "setter(name=\"x\")", "setter(custom)", "setter(each=\"x\")", "setter(foo)", "setter(prefix=\"\")", "field(ty=\"u8\")",
  "field(build=\"1\")", "field", "field=\"x\"", "build_fn", "build_fn=\"x\"", "build_fn(error)", "build_fn(error(foo))",
  "build_fn(error(validation_error=3))", "build_fn(error())", "build_fn(foo)", "build_fn(name=\"\")", "build_fn(validate)",
  "build_fn(validate=\"1x\")", "build_fn(private,public)", "try_setter=false", "try_setter(x)", "derive=\"Clone\"",
  "derive(3)", "derive(Clone=3)", "default=\" \\t\"", "default=\"// c\"", "default=\"\"", "default=\"}\"", "default(1)", "crate=\"1x\"", "crate", "create_empty=\"\"",
  "create_empty", "public(x)", "public=true", "private=false", "vis=\"public\"", "vis", "no_std=true", "no_std(x)",
  "custom_constructor=true", "default,default", "pattern=\"owned\",pattern=\"owned\"", "derive(Debug),derive(Hash)",
  "build_fn(skip),build_fn(skip)", "name=\"A\",name=\"A\"", "no_std,no_std", "\"lit\"", "each=\"x\"", "strip_option", "into">>

GenField(p, sd, i, g, spat, surf) ==
  LET n == 100 * i
      fpat == Opt(p, sd, n + 2, "pat_f", Pick(sd, n + 3, Patterns))
      ty == GenTy(p, sd, n + 4, i, g, Or(spat, "mutable") = "owned" /\ fpat \in {"none", "owned"}, surf)
      fldty == Opt(p, sd, n + 60, "fldty",
                   IF TypeTable[ty].par = "" /\ TypeTable[ty].run /\ Chance(sd, n + 61, 50) THEN ty
                   ELSE Pick(sd, n + 62, <<"V", "C", "L", "OV", "C", "V", "I", "S", "UN", "VE", "BX", "TP">>))
      canbuild == Yes(p, sd, n + 63, "fldbuild")
                  \/ (fldty # "none" /\ fldty # ty)
                  \/ (fldty # "none" /\ Or(spat, "mutable") # "owned" /\ ~TypeTable[fldty].cp)
      fldbuild == IF canbuild THEN Pick(sd, n + 64, <<"expr", "expr", "fallible">>) ELSE "none"
      nofld == fldty = "none" /\ fldbuild = "none"
      dkinds == IF ty \in LitTypes THEN <<"word", "expr", "lit", "lit0", "lit", "lit0">>
                ELSE <<"word", "expr", "expr", "fallible", "self">>
      dfl == IF nofld \/ (Yes(p, sd, n + 65, "conflict") /\ Chance(sd, n + 66, 50))
             THEN Opt(p, sd, n + 67, "fdflt", Pick(sd, n + 68, dkinds)) ELSE "none"
  IN [ id |-> FieldId(p, sd, i), ty |-> ty, pattern |-> fpat,
       vis |-> GenVis(p, sd, n + 6), set |-> GenSet(p, sd, n + 12, i, ty),
       try |-> Yes(p, sd, n + 33, "ftry"), dflt |-> dfl,
       fld |-> [vis |-> GenVis(p, sd, n + 34), ty |-> fldty, build |-> fldbuild],
       attrs |-> GenAttrs(p, sd, 10000 + n, TRUE, surf),
       bad |-> IF surf /\ Yes(p, sd, n + 69, "bad") /\ Chance(sd, n + 70, 20) THEN Pick(sd, n + 71, FieldBads) ELSE "" ]

\* most fields of a wide struct have no settings, so that the few that have meet few others
PlainField(p, sd, i) ==
  [ id |-> FieldId(p, sd, i), ty |-> Pick(sd, 100 * i + 4, <<"V", "V", "C">>), pattern |-> "none", vis |-> NoVis,
    set |-> [form |-> "none", prefix |-> "none", name |-> "none", into |-> "none", strip |-> "none",
             skip |-> "none", custom |-> "none", each |-> "none", each_into |-> FALSE],
    try |-> FALSE, dflt |-> Opt(p, sd, 100 * i + 67, "fdflt", Pick(sd, 100 * i + 68, <<"word", "expr", "expr">>)),
    fld |-> [vis |-> NoVis, ty |-> "none", build |-> "none"], attrs |-> <<>>, bad |-> "" ]

(******************************** structs **********************************)
GenName(p, sd) == IF Yes(p, sd, 10, "odd") THEN Pick(sd, 11, StructIds) ELSE "Foo"
Derives == <<<<"Debug">>, <<"Clone">>, <<"Debug", "PartialEq">>, <<"PartialEq", "Eq", "Hash">>, <<"Clone", "Debug">>,
             <<"Debug", "Clone", "PartialEq">>, <<"Hash">>, <<"Default">>, <<"Default", "Debug", "Clone">> >>
SurfDerives == <<<<"PartialEq", "PartialOrd">>, <<"Eq", "PartialEq", "Ord", "PartialOrd">>, <<"Copy", "Clone">> >>

\* env: how and where the code is compiled (module Domain); lib: features of the library
\*   std       a module of its own            alias, reexport   the library under another name, through another crate
\*   shadow    names of the prelude are taken, another struct derives a builder in the same module
\*   macro     the item comes out of a macro_rules macro that got some of its types, names, expressions, literals,
\*             attributes and visibilities as fragments          local   inside of a function
\*   nostd     no_std with alloc              noalloc           no_std without
Environments(p) == IF p = "P19"
  THEN <<"std", "alias", "reexport", "shadow", "shadow", "nostd", "noalloc", "macro", "macro", "local">>
  ELSE <<"std", "std", "std", "std", "std", "std", "std", "macro", "macro", "local">>
CratePaths == <<"::db_alias", "::reexp::db", "crate::inner::db", "my::path", "::a::b::c">>

GenCfg(p, sd, surf) ==
  LET g == IF Yes(p, sd, 20, "gen") THEN Pick(sd, 21, <<"t", "tm", "td", "tw", "tu", "tud", "lt", "ltt", "cn", "cnd", "all",
                                                     "ltb", "ltw", "ti", "tiw", "hr", "cb", "tdd">> \o (IF surf THEN <<"sz">> ELSE <<>>))
           ELSE "none"
      spat == Opt(p, sd, 22, "pat_s", Pick(sd, 23, Patterns))
      big == Yes(p, sd, 24, "big")
      wide == Yes(p, sd, 24, "huge")
      nf == IF surf /\ Chance(sd, 25, 4) THEN 0
            ELSE (IF Len(ParSeq(g)) > 0 THEN Len(ParSeq(g)) ELSE 1) + (IF wide THEN 8 + Num(sd, 26, 58) ELSE Num(sd, 26, IF big THEN 6 ELSE 4))
      env == Pick(sd, 27, Environments(p))
      lib == IF env = "nostd" THEN "alloc" ELSE IF env = "noalloc" THEN "none"
             ELSE IF surf /\ p = "P19" THEN Pick(sd, 28, <<"std", "alloc", "none">>) ELSE "std"
      crate == IF env = "alias" THEN "::db_alias" ELSE IF env = "reexport" THEN "::reexp::db"
               ELSE IF surf /\ Yes(p, sd, 29, "crate") THEN Pick(sd, 30, CratePaths) ELSE "none"
      err == Opt(p, sd, 31, "err", Pick(sd, 32, IF lib = "none" THEN <<"gen_false", "custom", "gen_false", "customNU", "customG">>
                                                ELSE <<"custom", "gen_true", "gen_false", "customNU", "customG", "gen_true">>))
      validate == Yes(p, sd, 33, "validate")
      kind == IF surf /\ Yes(p, sd, 34, "conflict") /\ Chance(sd, 35, 12)
              THEN Pick(sd, 36, <<"tuple", "unit", "enum", "union">>) ELSE "named"
      fields == [i \in 1..(IF kind = "named" THEN nf ELSE 0) |->
                  IF wide /\ i > Len(ParSeq(g)) /\ Chance(sd, 100 * i + 99, 88) THEN PlainField(p, sd, i)
                  ELSE GenField(p, sd, i, g, spat, surf)]
      ctor == Yes(p, sd, 37, "ctor")
      dset == Pick(sd, 38, IF surf THEN Derives \o SurfDerives ELSE Derives)
  IN [ name |-> GenName(p, sd), vis |-> Pick(sd, 12, <<"pub", "pub", "", "pub(crate)", "pub(super)">>),
       kind |-> kind, gen |-> g, pattern |-> spat,
       bname |-> Opt(p, sd, 13, "bname", Pick(sd, 14, <<"Maker", "r#Fab", "FooBuilder2", "Bauer_">>)),
       bvis |-> GenVis(p, sd, 40), fvis |-> GenVis(p, sd, 50), sset |-> GenSSet(p, sd, 60),
       try |-> Yes(p, sd, 70, "try_s"),
       dflt |-> Opt(p, sd, 71, "sdflt", Pick(sd, 72, <<"word", "expr", "expr", "fallible">>)),
       bf |-> [ skip |-> Yes(p, sd, 73, "bfskip"), name |-> Opt(p, sd, 74, "bfname", Pick(sd, 75, <<"finish", "r#do", "make_it", "try_build">>)),
                validate |-> validate /\ ~(err = "gen_false" /\ ~(Yes(p, sd, 76, "conflict") /\ Chance(sd, 77, 60))),
                vis |-> GenVis(p, sd, 78), err |-> err ],
       derive |-> IF Yes(p, sd, 84, "derive") /\ (ctor \/ "Default" \notin Range(dset)) THEN dset ELSE <<>>,
       ctor |-> ctor, empty |-> Opt(p, sd, 85, "empty", Pick(sd, 86, <<"empty", "r#new", "blank_">>)),
       nostd |-> env \in {"nostd", "noalloc"} \/ Yes(p, sd, 87, "nostd"),
       crate |-> crate, env |-> env, lib |-> lib,
       attrs |-> GenAttrs(p, sd, 9000, FALSE, surf), fields |-> fields,
       bad |-> IF surf /\ Yes(p, sd, 88, "bad") /\ Chance(sd, 89, 35) THEN Pick(sd, 90, StructBads) ELSE "" ]

\* the first well-typed configuration reached from a seed
RECURSIVE RunCfgFrom(_, _, _)
RunCfgFrom(p, sd, n) ==
  LET c == GenCfg(p, sd, FALSE) IN
  IF WellTyped(c) \/ n = 0 THEN c ELSE RunCfgFrom(p, sd + 7919, n - 1)
RunCfg(p, sd) == RunCfgFrom(p, sd, 80)

RECURSIVE SurfCfgFrom(_, _, _)
SurfCfgFrom(p, sd, n) ==
  LET c == GenCfg(p, sd, TRUE) IN
  IF UniqueNames(c) \/ n = 0 THEN c ELSE SurfCfgFrom(p, sd + 7919, n - 1)
SurfCfg(p, sd) == SurfCfgFrom(p, sd, 40)

(******************************** histories ********************************)
Handles == 1..3
KindWeights(p) ==
  LET base == <<"set", "set", "set", "set", "try", "each", "build", "build", "poke", "clone", "new">> IN
  CASE p = "P04" -> base \o <<"build", "build", "build", "clone", "clone">>
    [] p \in {"P02", "P03", "P09", "P10", "P18"} -> base \o <<"build", "build", "build", "new", "poke">>
    [] p = "P06" -> base \o <<"try", "try", "try", "try", "try">>
    [] p = "P07" -> base \o <<"each", "each", "each", "each", "each", "poke", "clone">>
    [] OTHER -> base
Messages == <<"bad", "", "x {} {y}", "größer ≠ 1", "a:b \"q\" \\n", "bad", "`foo` must be initialized",
  "  both sides  ", "two\nlines", "\ttab", "ends in newline\n", " ", "%s {0} {:?} {{}}", "Validation failed", "field", "E: E: E",
  "a message that is much longer than the ones that people write when they are in a hurry, which goes on and on without saying anything more than that it is long, and then says it again, just to be sure that nobody cuts it off">>
FieldsWith(c, Test(_)) == SelectSeq([i \in 1..Len(c.fields) |-> i], LAMBDA i : Test(c.fields[i]))
\* a literal of type t
RECURSIVE Literal(_, _, _)
Literal(t, l, m) ==
  IF IsOptTerm(t)
  THEN IF m % 3 = 0 THEN "None" ELSE "Some(" \o Literal(TypeTable[t].ikey, l, m \div 3) \o ")"
  ELSE IF t = "B" THEN (IF m % 2 = 0 THEN "true" ELSE "false")
  ELSE IF t = "I" THEN <<"0", "5", "-3", "7", "2147483647">>[(m % 5) + 1]
  ELSE IF Fixed(t) # "" THEN Fixed(t)
  ELSE IF t \in Colls THEN (IF m % 4 = 0 THEN "[" ELSE IF m % 4 = 1 THEN "[" \o l \o ";q" \o l \o ";" ELSE "[" \o l \o ";")
  ELSE l
Arg(c, f, l, m) == IF IntoOn(c, f) THEN l ELSE Literal(ArgKey(c, f), l, m)
PokeSlot(c, f, l, m) ==
  IF SlotKind(c, f) = "precise" THEN "!" \o Literal(f.fld.ty, l, m)
  ELSE IF m % 3 = 0 THEN "-" ELSE "=" \o Literal(f.ty, l, m \div 3)
FailSet(c, sd, n) ==
  LET ids == (IF c.dflt = "fallible" THEN <<"*">> ELSE <<>>)
             \o Flat([i \in 1..Len(c.fields) |->
                  IF c.fields[i].dflt = "fallible" \/ c.fields[i].fld.build = "fallible" THEN <<c.fields[i].id>> ELSE <<>>])
  IN Flat([i \in 1..Len(ids) |-> IF Chance(sd, n + i, 30) THEN <<ids[i]>> ELSE <<>>])

GenOp(p, c, st, sd, n, try) ==
  LET live == SelectSeq(<<1, 2, 3>>, LAMBDA h : st[h].live)
      kind == Pick(sd, n + 1, KindWeights(p))
      h == Pick(sd, n + 2, live)
      d == Pick(sd, n + 3, <<1, 2, 3, h, h, h>>)
      cand == CASE kind = "set" -> FieldsWith(c, LAMBDA f : SetterEnabled(c, f))
                [] kind = "try" -> FieldsWith(c, LAMBDA f : TrySetter(c, f))
                [] kind = "each" -> FieldsWith(c, LAMBDA f : CanEach(c, f))
                [] kind = "poke" -> FieldsWith(c, LAMBDA f : SlotKind(c, f) # "phantom")
                [] OTHER -> <<0>>
      i == Pick(sd, n + 4, cand)
      f == c.fields[i]
      l == "r" \o ToString(n)
      m == Num(sd, n + 5, 36)
  IN IF live = <<>> THEN Op("new", Pick(sd, n + 6, <<1, 2, 3>>), 0, "", 0, "", <<>>)
     ELSE IF cand = <<>> THEN Op("none", 0, 0, "", 0, "", <<>>)
     ELSE CASE kind = "new" -> Op("new", d, 0, IF c.ctor THEN "e" ELSE Pick(sd, n + 6, <<"d", "e">>), 0, "", <<>>)
            [] kind = "set" -> Op("set", h, i, Arg(c, f, l, m), d, "", <<>>)
            [] kind = "try" -> Op("try", h, i, (IF m % 3 = 0 THEN "e" ELSE "r") \o ToString(n), d, "", <<>>)
            [] kind = "each" -> Op("each", h, i, l, d, "", <<>>)
            [] kind = "poke" -> Op("poke", h, i, PokeSlot(c, f, l, m), 0, "", <<>>)
            [] kind = "clone" -> Op("clone", h, 0, "", d, "", <<>>)
            [] kind = "build" -> Op("build", h, 0, "", 0,
                 IF c.bf.validate /\ Chance(sd, n + 7, 30) THEN Pick(sd, n + 8, Messages) ELSE "ok",
                 FailSet(c, sd, n + 10))

RECURSIVE GenOps(_, _, _, _, _, _)
\* len operations from position n on, over handles st
GenOps(p, c, st, sd, n, len) ==
  IF len = 0 THEN <<>>
  ELSE LET op == GenOp(p, c, st, sd, 100 * n, 0) IN
       IF op.k = "none" \/ ~Enabled(c, st, op) THEN GenOps(p, c, st, sd, n + 1, len - 1)
       ELSE <<op>> \o GenOps(p, c, Step(c, st, op).st, sd, n + 1, len - 1)
Start == [h \in Handles |-> NoHandle]
\* a history ends by building every live handle
RECURSIVE After(_, _, _, _)
After(c, st, ops, i) == IF i > Len(ops) THEN st ELSE After(c, Step(c, st, ops[i]).st, ops, i + 1)
Lit(t, l) == IF IsOptTerm(t) \/ Fixed(t) # "" THEN MkTerm(t, l) ELSE IF t \in Colls THEN "[" \o l \o ";" ELSE l
\* gives every field of the builder a value
FillAll(c) ==
  Flat([i \in 1..Len(c.fields) |->
     LET f == c.fields[i]
         l == "o" \o ToString(i)
     IN CASE SlotKind(c, f) = "option" -> <<Op("poke", 1, i, "=" \o Lit(f.ty, l), 0, "", <<>>)>>
          [] SlotKind(c, f) = "precise" -> <<Op("poke", 1, i, "!" \o Lit(f.fld.ty, l), 0, "", <<>>)>>
          [] OTHER -> <<>>])
\* assigns every field that would otherwise be missing
Fill(c) ==
  Flat([i \in 1..Len(c.fields) |->
     LET f == c.fields[i] IN
     IF WhenUnset(c, f) = "missing" THEN <<Op("poke", 1, i, "=" \o Lit(f.ty, "q" \o ToString(i)), 0, "", <<>>)>> ELSE <<>>])
\* all of it but at most one, so that builds that succeed and builds that lack one field are common
Filling(c, sd) ==
  LET needed == Fill(c)
      \* and, in large structs, more than that
      more == Flat([i \in 1..Len(c.fields) |->
                LET f == c.fields[i]
                    l == "g" \o ToString(i)
                IN IF WhenUnset(c, f) = "missing" \/ ~Chance(sd, 1000 + i, 50) THEN <<>>
                   ELSE IF SetterEnabled(c, f) THEN <<Op("set", 1, i, IF IntoOn(c, f) THEN l ELSE Lit(ArgKey(c, f), l), 1, "", <<>>)>>
                   ELSE IF SlotKind(c, f) = "option" THEN <<Op("poke", 1, i, "=" \o Lit(f.ty, l), 0, "", <<>>)>> ELSE <<>>])
      ops == IF Len(c.fields) > 8 THEN needed \o more ELSE needed
      skip == Num(sd, 4, 2 * Len(ops) + 1)
  IN IF Chance(sd, 5, IF Len(c.fields) > 8 THEN 90 ELSE 45) THEN SelectSeq(ops, LAMBDA o : ~(skip \in 1..Len(ops) /\ ops[skip] = o)) ELSE <<>>
History(p, c, sd, len) ==
  LET first == <<Op("new", 1, 0, IF c.ctor THEN "e" ELSE "d", 0, "", <<>>)>> \o Filling(c, sd)
      mid == GenOps(p, c, After(c, Start, first, 1), sd, 2, len)
      st == After(c, Start, first \o mid, 1)
      last == SelectSeq([h \in Handles |-> Op("build", h, 0, "", 0, "ok", <<>>)], LAMBDA o : Enabled(c, st, o))
  IN first \o mid \o last
=============================================================================
