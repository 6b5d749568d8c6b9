------------------------------- MODULE Soup -------------------------------
(***************************************************************************)
(* Option lists without any meaning: names and values of the option        *)
(* language thrown together.  Nothing is specified about them except that  *)
(* the derive answers with a builder or with errors (P15).                 *)
(***************************************************************************)
EXTENDS Matrix

Names == <<"name", "pattern", "setter", "default", "field", "build_fn", "try_setter", "public", "private", "vis", "derive",
  "custom_constructor", "create_empty", "no_std", "crate", "into", "strip_option", "skip", "custom", "prefix", "each", "ty",
  "build", "validate", "error", "validation_error", "foo", "r#type", "a::b", "::x", "self", "Self", "__none{into}", "__none{default}", "r#try", "doc", "cfg", "super">>
Values == <<"\"\"", "\"x\"", "\"a b\"", "\"pub\"", "\"pub(\"", "\"owned\"", "\"mutable\"", "3", "-1", "1.5", "true", "false", "'c'",
  "b\"x\"", "\"fn\"", "\"r#fn\"", "\"1 + 1\"", "x + 1", "{}", "{ let a = 1; a }", "[1, 2]", "a::b", "|x| x", "\"}\"", "\"// c\"",
  "\"/* c\"", "\"{\"", "r#\"x\"#", "\"größe\"", "crate::x", "self", "!", "\"\\n\"", "\"_\"", "_", "x!()", "vec![1; 2]", "\"let x = 1;\"",
  "\"return\"", "\"Vec<u8>\"", "\"&'a str\"", "\"dyn Fn()\"", "(1, 2)", "#x", "..", "\"'\"", "\"\\\"\"", "\"\\u{0}\"", "c\"x\"", "__none{\"x\"}", "__none{3}", "__none{}", "__none{a::b}", "__none{__none{x}}", "__none{\"\"}", "__none{a + b}", "if a { b } else { c }">>
RECURSIVE Meta(_, _, _), Metas(_, _, _, _)
Meta(sd, n, d) ==
  LET k == Num(sd, n, 10)
      nm == Pick(sd, n + 1, Names)
  IN IF k < 2 THEN nm
     ELSE IF k < 5 \/ (d = 0 /\ k < 9) THEN nm \o " = " \o Pick(sd, n + 2, Values)
     ELSE IF k < 9 THEN nm \o "(" \o Metas(sd, 7 * n + 11, d - 1, Num(sd, n + 3, 4)) \o ")"
     ELSE Pick(sd, n + 4, Values)
Metas(sd, n, d, len) ==
  IF len = 0 THEN ""
  ELSE Meta(sd, 5 * n + len, d) \o (IF len = 1 THEN IF Chance(sd, n + 1, 10) THEN "," ELSE ""
                                    ELSE (IF Chance(sd, n + 2, 95) THEN ", " ELSE " ") \o Metas(sd, 3 * n + 2, d, len - 1))
SoupText(sd) == Metas(sd, 1, 2, 1 + Num(sd, 3, 3))
PassText(sd) == Pick(sd, 4, <<"doc", "doc = \"x\"", "doc = 3", "cfg(a)", "cfg", "", "derive(X)", "a b", "a, b", "a = ", "= 3", "#", "\"x\"", "3", "a(b c)",
                             "a[b]", "a{b}", "::a::b", "unsafe(no_mangle)", "allow(a), allow(b)", "r#type", "fn", "a::<b>", "a = {}", "()", "__none{doc = \"x\"}", "a = __none{\"x\"}", "__none{}">>)
\* where the text is put: an option list of the struct or of a field, or a pass-through attribute
SoupCfg(sd) ==
  LET w == Num(sd, 90, 10)
      f == F0("foo", Pick(sd, 91, <<"V", "OV", "L", "E16">>))
      pk == Pick(sd, 92, <<"bfa", "bsa", "bsta", "bia">>)
      at == << [k |-> pk, t |-> PassText(sd)] >>
  IN CASE w < 4 -> C0(<<[f EXCEPT !.bad = SoupText(sd)], Other>>)
       [] w < 8 -> [C0(<<f, Other>>) EXCEPT !.bad = SoupText(sd)]
       [] w = 8 -> C0(<<[f EXCEPT !.attrs = at], Other>>)
       [] w = 9 -> [C0(<<f, Other>>) EXCEPT !.attrs = at]
=============================================================================
