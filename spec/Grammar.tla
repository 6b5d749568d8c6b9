------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The option language: which options there are at every place, what kind  *)
(* of value each of them takes, and from that the texts that are not in    *)
(* it: values of another kind, options that do not exist there, options    *)
(* given twice.  A derive with one of them answers with errors (P15).      *)
(*                                                                         *)
(* A place is a path of nested lists: <<>> is #[builder(..)] itself.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

O(n, k) == [n |-> n, k |-> k]
VisOptions == {O("public", "flag"), O("private", "flag"), O("vis", "vis")}
FieldPlaces == [
  top    |-> [at |-> <<>>, opts |-> VisOptions \union {O("pattern", "pattern"), O("setter", "wlist"), O("default", "code"),
                                                       O("try_setter", "flag"), O("field", "list")}],
  setter |-> [at |-> <<"setter">>, opts |-> {O("prefix", "ident"), O("name", "name"), O("into", "bool"), O("strip_option", "bool"),
                                             O("skip", "bool"), O("custom", "bool"), O("each", "namelist")}],
  each   |-> [at |-> <<"setter", "each">>, opts |-> {O("name", "name"), O("into", "bool")}],
  field  |-> [at |-> <<"field">>, opts |-> VisOptions \union {O("ty", "type"), O("build", "block")}] ]
StructPlaces == [
  top    |-> [at |-> <<>>, opts |-> VisOptions \union {O("pattern", "pattern"), O("name", "name"), O("setter", "list"), O("field", "list"),
                                                       O("try_setter", "flag"), O("default", "code"), O("build_fn", "list"), O("derive", "paths"),
                                                       O("custom_constructor", "flag"), O("create_empty", "name"), O("no_std", "flag"),
                                                       O("crate", "path")}],
  setter |-> [at |-> <<"setter">>, opts |-> {O("prefix", "ident"), O("into", "bool"), O("strip_option", "bool"), O("skip", "bool")}],
  field  |-> [at |-> <<"field">>, opts |-> VisOptions],
  bf     |-> [at |-> <<"build_fn">>, opts |-> VisOptions \union {O("skip", "bool"), O("name", "name"), O("validate", "path"), O("error", "pathlist")}],
  error  |-> [at |-> <<"build_fn", "error">>, opts |-> {O("validation_error", "bool")}] ]
PlacesOf(t) == {t[x] : x \in DOMAIN t}

\* what may not follow the name of an option of some kind
WrongIdent == {"", "(x)", "(\"x\")", "()", "=3", "=\"\"", "=\"a b\"", "=\"1x\"", "=\"a-b\"", "=\"a::b\"", "=\"x()\"", "='c'", "=a::b", "=x()",
               "=\"fn\"", "=\"<T>\"", "=true", "=\"r#\"", "=\"x y\"", "=\"'a\"", "=b\"x\"", "=1.5"}
Wrong(k) ==
  CASE k = "flag"    -> {"=true", "=\"x\"", "=3", "(x)", "(true)", "()", "=x"}
    [] k = "bool"    -> {"=3", "=\"maybe\"", "=\"\"", "='c'", "(x)", "(true)", "()", "=1.5", "=b\"true\"", "=!true", "=True"}
    [] k = "ident"   -> WrongIdent
    \* a name is an identifier with which an item is called, so no keyword
    [] k = "name"    -> WrongIdent \union {"=self", "=Self", "=crate", "=super", "=\"self\"", "=\"_\"", "=_"}
    [] k = "pattern" -> {"", "(x)", "()", "=\"x\"", "=\"Owned\"", "=\"\"", "=3", "=true", "=\"owned \"", "=\"mut\"", "='c'"}
    [] k = "vis"     -> {"", "(x)", "()", "=3", "=\"public\"", "=\"pub(\"", "=\"pub fn\"", "=\"pub(a b)\"", "=true", "=\"pub()\"", "=\"private\""}
    [] k = "path"    -> {"", "(x)", "()", "=3", "=\"\"", "=\"1x\"", "=\"a b\"", "=\"a::\"", "=\"a.b\"", "=true", "=\"a()\"", "=x()", "='c'", "=\"&a\""}
    [] k = "pathlist"-> {"", "(x)", "=3", "=\"\"", "=\"1x\"", "=\"a b\"", "=\"a::\"", "=\"a.b\"", "=true", "=\"a()\""}
    [] k = "paths"   -> {"=\"Clone\"", "=Clone", "=3", "(3)", "(\"Clone\")", "(Clone=3)", "(Clone(x))", "(Clone Debug)", "(,)"}
    [] k = "type"    -> {"", "(u8)", "()", "=\"\"", "=\"<\"", "=\"a b\"", "=\"Vec<\"", "=\"u8,\"", "=3", "=true", "=\"1\""}
    [] k = "code"    -> {"(1)", "()", "=\"\"", "=\"}\"", "=\"let\"", "=\"1 +\"", "=\"(\"", "=\" \"", "=\"// c\"", "=\"1,2\"", "=\"fn\""}
    [] k = "block"   -> {"", "(1)", "()", "=\"\"", "=\"}\"", "=\"let\"", "=\"1 +\"", "=\"(\"", "=\" \"", "=\"// c\"", "=\"1,2\"", "=\"fn\""}
    [] k = "list"    -> {"", "=\"x\"", "=3", "=true", "=x"}
    [] k = "wlist"   -> {"=\"x\"", "=3", "=true", "=x"}
    [] k = "namelist"-> {"", "=\"\"", "=\"a b\"", "=3", "=\"1x\"", "=true", "=a::b", "()", "=self", "=crate"}
\* something that may
Usual(k) ==
  CASE k \in {"flag", "bool", "wlist"} -> "" [] k \in {"ident", "name"} -> "=\"x1\"" [] k = "pattern" -> "=\"owned\"" [] k = "vis" -> "=\"pub\""
    [] k = "path" -> "=\"a::b\"" [] k = "pathlist" -> "=\"a::b\"" [] k = "paths" -> "(Debug)" [] k = "type" -> "=\"u8\"" [] k \in {"code", "block"} -> "=\"1\""
    [] k = "list" -> "()" [] k = "namelist" -> "=\"x1\""
\* options of other places, and of none
Strange == {"foo", "Name", "skipp", "r#into", "into_", "_", "setters", "default_value", "rename"}
Everywhere == UNION {{o.n : o \in pl.opts} : pl \in PlacesOf(FieldPlaces) \union PlacesOf(StructPlaces)}
Unknown(pl) == (Strange \union Everywhere) \ {o.n : o \in pl.opts}
OutsideOf(pl) ==
  UNION {{o.n \o w : w \in Wrong(o.k)} : o \in pl.opts}
  \union UNION {{u, u \o "=\"x\"", u \o "(x)"} : u \in Unknown(pl)}
  \union {"\"lit\"", "3", "true", "a::b", "::x=\"y\"", "\"lit\"=3"}
  \union {o.n \o Usual(o.k) \o "," \o o.n \o Usual(o.k) : o \in pl.opts}
  \union {o.n \o Usual(o.k) \o "," \o q.n : o \in pl.opts, q \in {O("foo", "")}}
RECURSIVE In(_, _)
In(at, t) == IF at = <<>> THEN t ELSE In(SubSeq(at, 1, Len(at) - 1), at[Len(at)] \o "(" \o t \o ")")
Outside(places) == UNION {{In(pl.at, t) : t \in OutsideOf(pl)} : pl \in PlacesOf(places)}
OutsideField == Outside(FieldPlaces)
OutsideStruct == Outside(StructPlaces)
=============================================================================
