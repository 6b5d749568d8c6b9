------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* The vocabulary of field types and generics lists used by configurations *)
(* (module Options), and the value terms that the runtime model (module    *)
(* Machine) stores in builder slots.                                       *)
(*                                                                         *)
(* Values are symbolic: a string term tells how a value came about.        *)
(*   r1            literal made by the caller                              *)
(*   into(r1)      conversion by Into         try(r1)  conversion by TryInto*)
(*   d:f           own default of field f     sd:f     struct-level default *)
(*   b(<slot>)     build expression over the slot contents                 *)
(*   self(<slot>)  default that read another slot of the builder           *)
(*   V0 ...        Default of the type        None / Some(t)   options     *)
(*   [a;b;         collection holding a then b; [z; is the Default one     *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets, TLC

Unraw(s) == IF Len(s) > 2 /\ SubSeq(s, 1, 2) = "r#" THEN SubSeq(s, 3, Len(s)) ELSE s

RECURSIVE JoinFrom(_, _, _)
JoinFrom(s, sep, i) ==
  IF i > Len(s) THEN "" ELSE IF i = Len(s) THEN s[i] ELSE s[i] \o sep \o JoinFrom(s, sep, i + 1)
Join(s, sep) == JoinFrom(s, sep, 1)

RECURSIVE FlattenFrom(_, _)
FlattenFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlattenFrom(ss, i + 1)
Flat(ss) == FlattenFrom(ss, 1)

Range(s) == {s[i] : i \in 1..Len(s)}
Digit == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>

(***************************************************************************)
(* txt   the type as written (canonical spacing)                           *)
(* itxt  what strip_option makes of it: the inner type's text when the type*)
(*       is *written* Option<X>, std::option::Option<X> or                 *)
(*       core::option::Option<X>; "" when strip_option leaves it alone     *)
(* ikey  key of the inner type (of any option-like type) or "-"            *)
(* coll  usable with item-adding setters                                   *)
(* cl    implements Clone      cp  implements Copy    df  implements Default*)
(* dt    term of its Default   ct  its clones are logged                   *)
(* par   generic parameter it mentions ("" if none)                        *)
(* run   usable by the runtime layer (else only by the surface layer)      *)
(***************************************************************************)
Ty(txt, itxt, ikey, coll, cl, cp, df, dt, ct, par, run) ==
  [txt |-> txt, itxt |-> itxt, ikey |-> ikey, coll |-> coll, cl |-> cl, cp |-> cp,
   df |-> df, dt |-> dt, ct |-> ct, par |-> par, run |-> run]

SurfOnly(txt, itxt) == Ty(txt, itxt, "-", FALSE, TRUE, FALSE, TRUE, "", FALSE, "", FALSE)

TypeTable == [
  \* plain values: V clones visibly, N is not Clone, X has no Default, C is Copy
  V   |-> Ty("V", "", "-", FALSE, TRUE, FALSE, TRUE, "V0", TRUE, "", TRUE),
  N   |-> Ty("N", "", "-", FALSE, FALSE, FALSE, TRUE, "N0", FALSE, "", TRUE),
  X   |-> Ty("X", "", "-", FALSE, TRUE, FALSE, FALSE, "", TRUE, "", TRUE),
  C   |-> Ty("C", "", "-", FALSE, TRUE, TRUE, TRUE, "C0", FALSE, "", TRUE),
  \* values of the language itself: literals can be written for them (see LitTerm)
  B   |-> Ty("bool", "", "-", FALSE, TRUE, TRUE, TRUE, "false", FALSE, "", TRUE),
  I   |-> Ty("i32", "", "-", FALSE, TRUE, TRUE, TRUE, "0", FALSE, "", TRUE),
  S   |-> Ty("String", "", "-", FALSE, TRUE, FALSE, TRUE, "", FALSE, "", TRUE),
  OI  |-> Ty("Option<i32>", "i32", "I", FALSE, TRUE, TRUE, TRUE, "None", FALSE, "", TRUE),
  \* types of the language and its library that a derive could be tempted to treat specially
  UN  |-> Ty("()", "", "-", FALSE, TRUE, TRUE, TRUE, "()", FALSE, "", TRUE),
  PD  |-> Ty("core::marker::PhantomData<V>", "", "-", FALSE, TRUE, TRUE, TRUE, "ph", FALSE, "", TRUE),
  CH  |-> Ty("char", "", "-", FALSE, TRUE, TRUE, FALSE, "", FALSE, "", TRUE),
  TP  |-> Ty("(C,u8)", "", "-", FALSE, TRUE, TRUE, TRUE, "C0", FALSE, "", TRUE),
  AR  |-> Ty("[C;2]", "", "-", FALSE, TRUE, TRUE, TRUE, "C0", FALSE, "", TRUE),
  BX  |-> Ty("Box<V>", "", "-", FALSE, TRUE, FALSE, TRUE, "V0", TRUE, "", TRUE),
  OBX |-> Ty("Option<Box<V>>", "Box<V>", "BX", FALSE, TRUE, FALSE, TRUE, "None", TRUE, "", TRUE),
  VE  |-> Ty("Vec<C>", "", "-", TRUE, TRUE, FALSE, TRUE, "[", FALSE, "", TRUE),
  OVE |-> Ty("Option<Vec<C>>", "Vec<C>", "VE", TRUE, TRUE, FALSE, TRUE, "None", FALSE, "", TRUE),
  \* a collection
  L   |-> Ty("L", "", "-", TRUE, TRUE, FALSE, TRUE, "[z;", TRUE, "", TRUE),
  \* options, in every written form
  OV  |-> Ty("Option<V>", "V", "V", FALSE, TRUE, FALSE, TRUE, "None", TRUE, "", TRUE),
  ON  |-> Ty("Option<N>", "N", "N", FALSE, FALSE, FALSE, TRUE, "None", FALSE, "", TRUE),
  OX  |-> Ty("Option<X>", "X", "X", FALSE, TRUE, FALSE, TRUE, "None", TRUE, "", TRUE),
  OL  |-> Ty("Option<L>", "L", "L", TRUE, TRUE, FALSE, TRUE, "None", TRUE, "", TRUE),
  OOV |-> Ty("Option<Option<V>>", "Option<V>", "OV", FALSE, TRUE, FALSE, TRUE, "None", TRUE, "", TRUE),
  SV  |-> Ty("std::option::Option<V>", "V", "V", FALSE, TRUE, FALSE, TRUE, "None", TRUE, "", TRUE),
  KV  |-> Ty("core::option::Option<V>", "V", "V", FALSE, TRUE, FALSE, TRUE, "None", TRUE, "", TRUE),
  GV  |-> Ty("::std::option::Option<V>", "V", "V", FALSE, TRUE, FALSE, TRUE, "None", TRUE, "", TRUE),
  \* option types that are not written as one: strip_option leaves them alone
  AV  |-> Ty("OptV", "", "V", FALSE, TRUE, FALSE, TRUE, "None", TRUE, "", TRUE),
  MV  |-> Ty("option::Option<V>", "", "V", FALSE, TRUE, FALSE, TRUE, "None", TRUE, "", TRUE),
  QV  |-> Ty("<V as HasOpt>::O", "", "V", FALSE, TRUE, FALSE, TRUE, "None", TRUE, "", TRUE),
  \* generic types
  T   |-> Ty("T", "", "-", FALSE, TRUE, FALSE, TRUE, "V0", TRUE, "T", TRUE),
  OT  |-> Ty("Option<T>", "T", "T", FALSE, TRUE, FALSE, TRUE, "None", TRUE, "T", TRUE),
  U   |-> Ty("U", "", "-", FALSE, TRUE, FALSE, TRUE, "V0", TRUE, "U", TRUE),
  RA  |-> Ty("&'a str", "", "-", FALSE, TRUE, TRUE, TRUE, "", FALSE, "'a", TRUE),
  RB  |-> Ty("&'b str", "", "-", FALSE, TRUE, TRUE, TRUE, "", FALSE, "'b", TRUE),
  TI  |-> Ty("T::Item", "", "-", FALSE, TRUE, FALSE, TRUE, "V0", TRUE, "T", TRUE),
  BT  |-> Ty("Box<T>", "", "-", FALSE, TRUE, FALSE, TRUE, "", FALSE, "T", FALSE),
  AM  |-> Ty("Arr<M>", "", "-", FALSE, TRUE, TRUE, TRUE, "A0", FALSE, "M", TRUE),
  \* surface layer only: shapes that must or must not count as an option
  E1  |-> SurfOnly("(V,V)", ""),
  E2  |-> SurfOnly("[V;2]", ""),
  E3  |-> SurfOnly("fn(V)->V", ""),
  E4  |-> SurfOnly("Vec<Option<V>>", ""),
  E5  |-> SurfOnly("my::Option<V>", ""),
  E6  |-> SurfOnly("std::Option<V>", ""),
  E7  |-> SurfOnly("Result<Option<V>,V>", ""),
  E8  |-> SurfOnly("(Option<V>)", ""),
  E9  |-> SurfOnly("&'static Option<V>", ""),
  E10 |-> SurfOnly("Option<Vec<Option<V>>>", "Vec<Option<V>>"),
  E11 |-> SurfOnly("::core::option::Option<(V,V)>", "(V,V)"),
  E12 |-> SurfOnly("Option", ""),
  E13 |-> SurfOnly("alloc::option::Option<V>", ""),
  E14 |-> SurfOnly("Option<&'static str>", "&'static str"),
  E15 |-> SurfOnly("Option<std::option::Option<V>>", "std::option::Option<V>"),
  E16 |-> SurfOnly("Box<dyn Fn(V)->V+'static>", ""),
  E17 |-> SurfOnly("OptionV<V>", ""),
  E18 |-> SurfOnly("Option<fn(V)->V>", "fn(V)->V"),
  E19 |-> SurfOnly("(V,Option<V>)", ""),
  E20 |-> SurfOnly("option::Option<V>", ""),
  E21 |-> SurfOnly("<V as my::Tr>::Option<V>", ""),
  E22 |-> SurfOnly("*const Option<V>", ""),
  E23 |-> SurfOnly("std::option::Option<Option<(V,)>>", "Option<(V,)>"),
  E24 |-> SurfOnly("[Option<V>;1]", ""),
  E25 |-> SurfOnly("Option<[V;2]>", "[V;2]"),
  E26 |-> SurfOnly("Box<dyn Fn(Option<V>)->Option<V>>", ""),
  E27 |-> SurfOnly("Optional<V>", ""),
  E28 |-> SurfOnly("core::Option<V>", ""),
  E29 |-> SurfOnly("std::option<V>", ""),
  E30 |-> SurfOnly("core::std::option::Option<V>", ""),
  E31 |-> SurfOnly("my::std::option::Option<V>", ""),
  E32 |-> SurfOnly("Option<V>::Option<V>", ""),
  E33 |-> SurfOnly("Option<Option<Option<Option<V>>>>", "Option<Option<Option<V>>>"),
  E34 |-> SurfOnly("option::Some<V>", ""),
  E35 |-> SurfOnly("Option<my::Option<V>>", "my::Option<V>"),
  E36 |-> SurfOnly("core::option::Option<core::option::Option<V>>", "core::option::Option<V>"),
  E37 |-> SurfOnly("std::core::option::Option<V>", ""),
  E38 |-> SurfOnly("Option<Box<dyn Fn()->Option<V>>>", "Box<dyn Fn()->Option<V>>"),
  E39 |-> SurfOnly("Option::<V>", "V"),
  E40 |-> SurfOnly("m!(Option<V>)", ""),
  E41 |-> SurfOnly("dyn Fn(V)->Option<V>", ""),
  E42 |-> SurfOnly("fn()->Option<V>", ""),
  E43 |-> SurfOnly("std::option::Option::<(V,V)>", "(V,V)"),
  E44 |-> SurfOnly("Option<<V as HasOpt>::O>", "<V as HasOpt>::O"),
  E45 |-> SurfOnly("Option<m!(V)>", "m!(V)"),
  E46 |-> SurfOnly("&'static mut[Option<V>]", ""),
  E47 |-> SurfOnly("Option<!>", "!")
]
TypeKeys == DOMAIN TypeTable
\* collections: L is the harness's, with a Default that is not empty; VE is a Vec
Colls == {"L", "VE"}
\* types that a module with types named like those of the prelude cannot write, and that one without std cannot
PreludeTypes == {"OV", "ON", "OX", "OL", "OOV", "OT", "OI", "S", "BX", "OBX", "VE", "OVE"}
StdTypes == {"SV", "GV", "S", "BX", "OBX", "VE", "OVE"}
Txt(t) == TypeTable[t].txt
IsOptTerm(t) == TypeTable[t].ikey # "-"

(***************************************************************************)
(* Generics lists.  decl: as written after the struct name; wh: the where  *)
(* clause; params / args: canonical; tps: type parameters; ub: the user's   *)
(* bounds as <<subject, bound>>; dfs: parameter defaults; pars: what must  *)
(* be mentioned by a field; mk: type parameters with the harness trait Mk  *)
(* (so that expressions can make values of them) ; dfp: those with Default  *)
(***************************************************************************)
Gen(decl, wh, params, args, inst, tps, ub, dfs, pars, mk, dfp) ==
  [decl |-> decl, wh |-> wh, params |-> params, args |-> args, inst |-> inst, tps |-> tps,
   ub |-> ub, dfs |-> dfs, pars |-> pars, mk |-> mk, dfp |-> dfp]
GenTable == [
  none |-> Gen("", "", "", "", "", <<>>, <<>>, <<>>, {}, {}, {}),
  t    |-> Gen("<T>", "", "T", "<T>", "<V>", <<"T">>, <<>>, <<>>, {"T"}, {}, {}),
  tm   |-> Gen("<T: Mk+Default>", "", "T", "<T>", "<V>", <<"T">>,
               << <<"T", "Mk">>, <<"T", "Default">> >>, <<>>, {"T"}, {"T"}, {"T"}),
  td   |-> Gen("<T=V>", "", "T", "<T>", "<V>", <<"T">>, <<>>, << <<"T", "V">> >>, {"T"}, {}, {}),
  tw   |-> Gen("<T>", "where T: Mk, Option<T>: Mk", "T", "<T>", "<V>", <<"T">>,
               << <<"T", "Mk">>, <<"Option<T>", "Mk">> >>, <<>>, {"T"}, {"T"}, {}),
  tu   |-> Gen("<T, U: Mk+Default>", "where T: Show", "T,U", "<T,U>", "<V,V>", <<"T", "U">>,
               << <<"U", "Mk">>, <<"U", "Default">>, <<"T", "Show">> >>, <<>>, {"T", "U"}, {"U"}, {"U"}),
  tud  |-> Gen("<T: Clone, U: Mk=V>", "", "T,U", "<T,U>", "<V,V>", <<"T", "U">>,
               << <<"T", "Clone">>, <<"U", "Mk">> >>, << <<"U", "V">> >>, {"T", "U"}, {"U"}, {}),
  lt   |-> Gen("<'a>", "", "'a", "<'a>", "<'static>", <<>>, <<>>, <<>>, {"'a"}, {}, {}),
  ltt  |-> Gen("<'a, T: 'a+Mk>", "", "'a,T", "<'a,T>", "<'static,V>", <<"T">>,
               << <<"T", "'a">>, <<"T", "Mk">> >>, <<>>, {"'a", "T"}, {"T"}, {}),
  cn   |-> Gen("<const M: usize>", "", "const M:usize", "<M>", "<3>", <<>>, <<>>, <<>>, {"M"}, {}, {}),
  cnd  |-> Gen("<T: Mk, const M: usize=2>", "", "T,const M:usize", "<T,M>", "<V,3>", <<"T">>,
               << <<"T", "Mk">> >>, << <<"M", "2">> >>, {"T", "M"}, {"T"}, {}),
  all  |-> Gen("<'a, T, U: Mk+'a, const M: usize>", "where T: Mk", "'a,T,U,const M:usize", "<'a,T,U,M>",
               "<'static,V,V,3>", <<"T", "U">>,
               << <<"U", "Mk">>, <<"U", "'a">>, <<"T", "Mk">> >>, <<>>, {"'a", "T", "U", "M"}, {"T", "U"}, {}),
  ltb  |-> Gen("<'a, 'b: 'a>", "", "'a,'b", "<'a,'b>", "<'static,'static>", <<>>, << <<"'b", "'a">> >>, <<>>, {"'a", "'b"}, {}, {}),
  ltw  |-> Gen("<'a, 'b, T: 'b+Mk>", "where 'a: 'b, T: Show+'a", "'a,'b,T", "<'a,'b,T>", "<'static,'static,V>", <<"T">>,
               << <<"T", "'b">>, <<"T", "Mk">>, <<"'a", "'b">>, <<"T", "Show">>, <<"T", "'a">> >>, <<>>, {"'a", "'b", "T"}, {"T"}, {}),
  ti   |-> Gen("<T: HasItem<Item=V>+Mk>", "", "T", "<T>", "<V>", <<"T">>,
               << <<"T", "HasItem<Item=V>">>, <<"T", "Mk">> >>, <<>>, {"T"}, {"T"}, {}),
  tiw  |-> Gen("<T>", "where T: Mk+HasItem, T::Item: Mk+Default+Clone", "T", "<T>", "<V>", <<"T">>,
               << <<"T", "Mk">>, <<"T", "HasItem">>, <<"T::Item", "Mk">>, <<"T::Item", "Default">>, <<"T::Item", "Clone">> >>,
               <<>>, {"T"}, {"T"}, {}),
  hr   |-> Gen("<T: Mk>", "where for<'z> T: Lent<'z>", "T", "<T>", "<V>", <<"T">>,
               << <<"T", "Mk">>, <<"for<'z>T", "Lent<'z>">> >>, <<>>, {"T"}, {"T"}, {}),
  cb   |-> Gen("<const M: usize, const W: bool=true>", "", "const M:usize,const W:bool", "<M,W>", "<3,false>", <<>>, <<>>,
               << <<"W", "true">> >>, {"M"}, {}, {}),
  tdd  |-> Gen("<T: Mk, U: Mk=Option<T>>", "", "T,U", "<T,U>", "<V,V>", <<"T", "U">>,
               << <<"T", "Mk">>, <<"U", "Mk">> >>, << <<"U", "Option<T>">> >>, {"T", "U"}, {"T", "U"}, {}),
  \* surface layer only
  sz   |-> Gen("<T: ?Sized>", "", "T", "<T>", "<V>", <<"T">>, << <<"T", "?Sized">> >>, <<>>, {"T"}, {}, {})
]
GenKeys == DOMAIN GenTable
\* declarations without the defaults of parameters, which functions and impls may not have
FnDecls == [
  td |-> "<T>", tud |-> "<T: Clone, U: Mk>", cnd |-> "<T: Mk, const M: usize>", cb |-> "<const M: usize, const W: bool>",
  tdd |-> "<T: Mk, U: Mk>" ]
FnDecl(g) == IF g \in DOMAIN FnDecls THEN FnDecls[g] ELSE GenTable[g].decl

(***************************************************************************)
(* Terms                                                                   *)
(***************************************************************************)
RECURSIVE MkTerm(_, _), IntoTerm(_, _), TryTerm(_, _)
\* a value of a type that cannot tell labels apart
Fixed(t) == CASE t = "B" -> "true" [] t = "I" -> "7" [] t = "UN" -> "()" [] t = "PD" -> "ph" [] t = "CH" -> "c" [] OTHER -> ""
\* the value an expression makes of type t out of a label
MkTerm(t, l) ==
  IF Fixed(t) # "" THEN Fixed(t)
  ELSE IF IsOptTerm(t) THEN "Some(" \o MkTerm(TypeTable[t].ikey, l) \o ")"
  ELSE IF t \in Colls THEN "[" \o l \o ";" ELSE l
\* Into: base types convert from Raw; an option type only from its inner type (core's From<T> for Option<T>)
IntoTerm(t, l) ==
  IF Fixed(t) # "" THEN Fixed(t)
  ELSE IF IsOptTerm(t) THEN "Some(" \o MkTerm(TypeTable[t].ikey, l) \o ")"
  ELSE IF t \in Colls THEN "[into(" \o l \o ");" ELSE "into(" \o l \o ")"
\* TryInto: from Tr for base types, inside Some for option types
TryTerm(t, l) ==
  IF Fixed(t) # "" THEN Fixed(t)
  ELSE IF IsOptTerm(t) THEN "Some(" \o TryTerm(TypeTable[t].ikey, l) \o ")"
  ELSE IF t \in Colls THEN "[try(" \o l \o ");" ELSE "try(" \o l \o ")"
DefTerm(t) == TypeTable[t].dt
(***************************************************************************)
(* Defaults that are literals: "lit" is one that says something, "lit0" the *)
(* one that is also the type's Default.  Evaluating them leaves no trace.   *)
(***************************************************************************)
LitTypes == {"B", "I", "S", "OI", "RA"}
LitTerm(t, d) ==
  IF d = "lit0" THEN DefTerm(t)
  ELSE CASE t = "B" -> "true" [] t = "I" -> "5" [] t = "OI" -> "Some(5)" [] OTHER -> "lit"
\* the same as code
LitCode(t, d) ==
  CASE t = "B" -> IF d = "lit" THEN "true" ELSE "false"
    [] t = "I" -> IF d = "lit" THEN "5" ELSE "0"
    [] t = "OI" -> IF d = "lit" THEN "Some(5)" ELSE "None"
    [] t = "RA" -> IF d = "lit" THEN "\"lit\"" ELSE "\"\""
    [] t = "S" -> IF d = "lit" THEN "\"lit\".into()" ELSE "\"\".into()"
    [] OTHER -> ""
\* how many logged clones cloning one value of type t makes
ClonesOf(t, term) ==
  IF ~TypeTable[t].ct THEN 0 ELSE IF term \in {"None", "Some(None)"} THEN 0 ELSE 1
=============================================================================
