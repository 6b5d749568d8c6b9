------------------------------- MODULE Matrix -------------------------------
(***************************************************************************)
(* Exhaustive families of configurations: for each property, the full      *)
(* product of the settings it speaks about, everything else at its default.*)
(***************************************************************************)
EXTENDS Scenario

NoSet == [form |-> "none", prefix |-> "none", name |-> "none", into |-> "none", strip |-> "none",
          skip |-> "none", custom |-> "none", each |-> "none", each_into |-> FALSE]
ListSet == [NoSet EXCEPT !.form = "list"]
Fld0 == [vis |-> NoVis, ty |-> "none", build |-> "none"]
F0(id, ty) == [id |-> id, ty |-> ty, pattern |-> "none", vis |-> NoVis, set |-> NoSet, try |-> FALSE,
               dflt |-> "none", fld |-> Fld0, attrs |-> <<>>, bad |-> ""]
SSet0 == [prefix |-> "none", into |-> "none", strip |-> "none", skip |-> "none"]
Bf0 == [skip |-> FALSE, name |-> "none", validate |-> FALSE, vis |-> NoVis, err |-> "none"]
C0(fields) == [name |-> "Foo", vis |-> "pub", kind |-> "named", gen |-> "none", pattern |-> "none", bname |-> "none",
               bvis |-> NoVis, fvis |-> NoVis, sset |-> SSet0, try |-> FALSE, dflt |-> "none", bf |-> Bf0,
               derive |-> <<>>, ctor |-> FALSE, empty |-> "none", nostd |-> FALSE, crate |-> "none", env |-> "std",
               lib |-> "std", attrs |-> <<>>, fields |-> fields, bad |-> ""]
Pats == {"none", "mutable", "immutable", "owned"}
Tri3 == {"none", "true", "false"}
B2 == {TRUE, FALSE}
Pub == [NoVis EXCEPT !.p = TRUE]
Priv == [NoVis EXCEPT !.r = TRUE]
VisOf(t) == [NoVis EXCEPT !.v = t]
Other == F0("other", "V")

(* P05: patterns on both levels for all three kinds of setters, next to another field with each pattern *)
M05 == {[C0(<<[F0("foo", ty) EXCEPT !.pattern = fp, !.try = TRUE,
                !.set = [ListSet EXCEPT !.each = "push", !.each_into = ei, !.strip = st]],
              [Other EXCEPT !.pattern = op]>>) EXCEPT !.pattern = sp] :
          fp \in Pats, op \in Pats, sp \in Pats, ei \in B2, st \in {"none", "true"}, ty \in {"L", "OL", "VE", "OVE"}}
(* P06: existence and signature of fallible setters *)
M06 == {[C0(<<[F0("foo", ty) EXCEPT !.pattern = fp, !.try = ft,
                !.set = [ListSet EXCEPT !.skip = sk, !.custom = cu, !.strip = st, !.into = it]], Other>>)
          EXCEPT !.pattern = sp, !.try = s] :
          ft \in B2, s \in B2, sk \in Tri3, cu \in {"none", "true"}, st \in {"none", "true"}, it \in {"none", "true"},
          ty \in {"V", "OV"}, fp \in {"none", "owned"}, sp \in {"none", "immutable"}}
(* P07 *)
M07 == {[C0(<<[F0("foo", ty) EXCEPT !.pattern = fp,
                !.set = [ListSet EXCEPT !.each = "push", !.each_into = ei, !.strip = st, !.into = it, !.name = nm]], Other>>)
          EXCEPT !.sset.strip = ss] :
          ei \in B2, st \in Tri3, it \in {"none", "true"}, nm \in {"none", "all"}, ss \in Tri3, ty \in {"L", "OL", "VE", "OVE", "E10"},
          fp \in {"none", "immutable", "owned"}}
(* P08: into and strip_option on both levels, for every written form of type *)
M08 == {[C0(<<[F0("foo", ty) EXCEPT !.set = IF fi = "none" /\ fs = "none" THEN NoSet
                                               ELSE [ListSet EXCEPT !.into = fi, !.strip = fs]]>>)
          EXCEPT !.sset.into = si, !.sset.strip = ss] :
          si \in Tri3, ss \in Tri3, fi \in Tri3, fs \in Tri3, ty \in TypeKeys \ {"T", "OT", "U", "RA", "RB", "AM", "TI", "BT"}}
(* P11: everything that decides whether setters exist *)
Mentions == {NoSet, [NoSet EXCEPT !.form = "word"], ListSet, [ListSet EXCEPT !.prefix = "with"], [ListSet EXCEPT !.name = "put"],
             [ListSet EXCEPT !.into = "true"], [ListSet EXCEPT !.into = "false"], [ListSet EXCEPT !.strip = "true"],
             [ListSet EXCEPT !.strip = "false"], [ListSet EXCEPT !.each = "push"]}
M11 == {[C0(<<[F0("foo", "L") EXCEPT !.set = [m EXCEPT !.form = IF sk # "none" \/ cu # "none" THEN "list" ELSE m.form,
                                                            !.skip = sk, !.custom = cu],
                                      !.try = ft, !.dflt = d], Other>>) EXCEPT !.sset.skip = ss, !.try = st] :
          m \in Mentions, sk \in Tri3, cu \in Tri3, ss \in Tri3, ft \in B2, st \in B2, d \in {"none", "word"}}
\* a word cannot be combined with a list of options
M11ok == {c \in M11 : TRUE}
(* P12: names *)
Ids == {"foo", "r#type", "_under", "größe", "value", "try_x", "with_foo", "set_it", "with", "set"}
M12 == {[C0(<<[F0(id, "L") EXCEPT !.set = [ListSet EXCEPT !.prefix = fp, !.name = nm, !.each = ea], !.try = TRUE], Other>>)
          EXCEPT !.sset.prefix = sp] :
          id \in Ids, fp \in {"none", "set", "r#in"}, sp \in {"none", "with", "r#try"}, nm \in {"none", "put", "r#loop"},
          ea \in {"none", "push", "r#use", "value", "foo"}}
       \union
       {[C0(<<Other>>) EXCEPT !.name = n, !.bname = b, !.bf.name = bn, !.bf.err = e, !.empty = em, !.gen = "none"] :
          n \in {"Foo", "r#Rawly", "Übung", "Bar_", "r#Raw_", "_Foo", "FooBuilder", "lower_case"}, b \in {"none", "Maker", "r#Fab"}, bn \in {"none", "finish", "r#do"},
          e \in {"none", "gen_true", "gen_false", "custom"}, em \in {"none", "empty", "r#new"}}
(* P13: visibilities on every level *)
M13 == {[C0(<<[F0("foo", "L") EXCEPT !.vis = fv, !.fld.vis = fd, !.try = TRUE, !.set = [ListSet EXCEPT !.each = "push", !.skip = sk]],
              Other>>) EXCEPT !.vis = v, !.bvis = bv, !.fvis = sv, !.bf.vis = bfv] :
          v \in {"pub", "", "pub(crate)"}, bv \in {NoVis, Pub, Priv, VisOf("pub(super)")}, sv \in {NoVis, Pub, VisOf("pub(crate)")},
          fv \in {NoVis, Pub, Priv, VisOf("pub(self)")}, fd \in {NoVis, Pub, Priv, VisOf("")},
          bfv \in {NoVis, Pub, Priv, VisOf("pub(crate)")}, sk \in {"none", "true"}}
       \union
       {[C0(<<[F0("foo", "V") EXCEPT !.fld = [vis |-> fd, ty |-> ft, build |-> IF ft = "C" THEN "expr" ELSE "none"], !.dflt = IF ft = "none" THEN d ELSE "none",
                !.set = [ListSet EXCEPT !.skip = sk, !.custom = cu, !.into = it]], Other>>) EXCEPT !.bvis = bv, !.fvis = sv, !.sset.skip = ss] :
          fd \in {NoVis, Pub, Priv}, sv \in {NoVis, Pub, VisOf("pub(crate)")}, ft \in {"none", "V", "C"}, d \in {"none", "word"},
          sk \in Tri3, cu \in {"none", "true"}, it \in {"none", "true"}, ss \in {"none", "true"}, bv \in {NoVis, Priv}}
(* P14: each kind of attribute in each place, alone and in pairs *)
FieldKinds == {"doc", "cfg", "allow", "bfa", "bsa", "other", "bsta", "bia"}
AT(k, n) == [k |-> k, t |-> CASE k = "doc" -> "doc=\"a" \o n \o "\"" [] k = "cfg" -> "cfg(not(a" \o n \o "))"
                             [] k = "allow" -> "allow(a" \o n \o ")" [] k = "other" -> "warn(a" \o n \o ")"
                             [] OTHER -> "doc=\"p" \o n \o "\""]
Pairs == {<<AT(a, "1")>> : a \in FieldKinds} \union {<<AT(a, "1"), AT(b, "2")>> : a \in FieldKinds, b \in FieldKinds}
         \union {<<AT(a, "1"), AT(a, "1"), AT(b, "2"), AT(a, "3"), AT(b, "2"), AT(a, "4"), AT(a, "5"), AT(a, "6")>> :
                   a \in FieldKinds, b \in FieldKinds}
M14 == {[C0(<<[F0("foo", "L") EXCEPT !.attrs = p, !.try = TRUE, !.set = [ListSet EXCEPT !.each = "push"]], Other>>)
          EXCEPT !.pattern = pt] : p \in Pairs, pt \in {"none", "owned"}}
       \union
       {[C0(<<Other>>) EXCEPT !.attrs = p, !.derive = d] : p \in Pairs, d \in {<<>>, <<"Debug">>}}
       \union
       {[C0(<<[F0("foo", "V") EXCEPT !.attrs = <<AT("cfg", "1"), [k |-> "other", t |-> o], AT("bfa", "2"), AT("bsa", "3")>>, !.try = TRUE], Other>>)
          EXCEPT !.attrs = <<[k |-> "other", t |-> o], AT("allow", "4"), AT("bsta", "5"), AT("bia", "6")>>] : o \in Range(Foreign)}
(* P21: who documents what *)
M21 == {[C0(<<[F0("foo", "L") EXCEPT !.attrs = a, !.try = TRUE, !.set = [ListSet EXCEPT !.each = "push", !.skip = sk, !.name = nm]],
              [Other EXCEPT !.attrs = IF a = <<>> THEN <<AT("doc", "5")>> ELSE <<>>]>>)
          EXCEPT !.bf.err = e, !.bf.skip = bs, !.bvis = bv, !.nostd = n, !.empty = em, !.pattern = sp] :
          a \in {<<>>, <<AT("doc", "1")>>, <<AT("allow", "2"), AT("doc", "1")>>, <<AT("bsa", "1")>>, <<AT("bfa", "1")>>}, sk \in {"none", "true"},
          nm \in {"none", "put"}, e \in {"none", "gen_true", "gen_false", "custom"}, bs \in B2, bv \in {NoVis, Priv}, n \in B2,
          em \in {"none", "blank"}, sp \in {"none", "owned"}}
(* P15: every single conflict and malformed option; the conflict-free neighbours *)
M15 == {[C0(<<[F0("foo", "V") EXCEPT !.bad = b], Other>>) EXCEPT !.gen = "none"] : b \in Range(FieldBads)}
       \union {[C0(<<Other>>) EXCEPT !.bad = b] : b \in Range(StructBads)}
       \union {[C0(<<>>) EXCEPT !.kind = k] : k \in {"named", "tuple", "unit", "enum", "union"}}
       \union {C0(<<[F0("foo", "V") EXCEPT !.dflt = d, !.fld = [Fld0 EXCEPT !.ty = t, !.build = b],
                                           !.set = [NoSet EXCEPT !.form = IF s = "none" /\ cu = "none" THEN "none" ELSE "list", !.skip = s, !.custom = cu]], Other>>) :
               d \in {"none", "word", "expr", "empty"}, t \in {"none", "V"}, b \in {"none", "expr", "empty"},
               s \in {"none", "true"}, cu \in {"none", "true"}}
       \union {[C0(<<Other>>) EXCEPT !.bf.err = e, !.bf.validate = v, !.dflt = d, !.nostd = n, !.bf.skip = s] :
               e \in {"none", "gen_true", "gen_false", "custom"}, v \in B2, d \in {"none", "word", "empty"}, n \in B2, s \in B2}
       \union {[C0(<<[F0("foo", "V") EXCEPT !.vis = a, !.fld.vis = b], Other>>) EXCEPT !.bvis = d] :
               a \in {NoVis, Pub, [Pub EXCEPT !.r = TRUE], [Pub EXCEPT !.v = "pub(crate)"], [Priv EXCEPT !.v = ""]},
               b \in {NoVis, Priv, [Pub EXCEPT !.r = TRUE], [Priv EXCEPT !.v = "pub"]},
               d \in {NoVis, Pub, [Pub EXCEPT !.r = TRUE], [Pub EXCEPT !.v = "pub"]}}
       \union {[C0(<<Other>>) EXCEPT !.fvis = a, !.bf.vis = b] :
               a \in {NoVis, Pub, [Pub EXCEPT !.r = TRUE], [Priv EXCEPT !.v = "pub(crate)"]},
               b \in {NoVis, Priv, [Pub EXCEPT !.r = TRUE], [Pub EXCEPT !.v = ""]}}
       \* no combination of what does not conflict is rejected
       \union {C0(<<[F0("foo", "OL") EXCEPT !.pattern = fp, !.try = t,
                     !.set = [NoSet EXCEPT !.form = "list", !.prefix = pr, !.name = nm, !.into = i, !.strip = s, !.skip = sk,
                                           !.custom = cu, !.each = e]], Other>>) :
               fp \in {"none", "owned"}, t \in B2, pr \in {"none", "with"}, nm \in {"none", "put"}, i \in Tri3, s \in Tri3, sk \in Tri3,
               cu \in Tri3, e \in {"none", "push"}}
       \union {[C0(<<Other>>) EXCEPT !.pattern = sp, !.try = t, !.ctor = ct, !.dflt = d, !.bf.skip = bs,
                     !.sset = [@ EXCEPT !.prefix = pr, !.into = i, !.strip = s, !.skip = sk]] :
               sp \in {"none", "immutable", "owned"}, t \in B2, ct \in B2, d \in {"none", "word"}, bs \in B2, pr \in {"none", "with"}, i \in Tri3, s \in Tri3, sk \in Tri3}
(* P16 *)
M16 == {[C0(<<[F0("foo", ty) EXCEPT !.pattern = fp, !.set.form = "list", !.set.skip = sk],
              [Other EXCEPT !.pattern = op]>>) EXCEPT !.pattern = sp, !.gen = g, !.derive = d] :
          fp \in Pats, op \in {"none", "mutable", "immutable", "owned"}, sp \in Pats, sk \in {"none", "true"}, g \in {"none", "tud", "all"}, ty \in {"N", "V"},
          d \in {<<>>, <<"Clone">>, <<"Debug", "Clone">>}}
(* P17 *)
GenFields(g) == [i \in 1..Len(ParSeq(g)) |-> F0(PlainIds[i], CASE ParSeq(g)[i] = "'a" -> "RA" [] ParSeq(g)[i] = "'b" -> "RB"
                                                              [] ParSeq(g)[i] = "M" -> "AM" [] g = "sz" -> "BT"
                                                              [] OTHER -> ParSeq(g)[i])]
M17 == {[C0(GenFields(g) \o <<Other>>) EXCEPT !.gen = g, !.pattern = sp, !.ctor = ct, !.empty = em, !.derive = d] :
          g \in GenKeys, sp \in Pats, ct \in B2, em \in {"none", "blank"}, d \in {<<>>, <<"Debug", "PartialEq">>, <<"Hash">>, <<"Clone">>}}
(* P18 *)
M18 == {[C0(<<[F0("foo", ty) EXCEPT !.fld = [Fld0 EXCEPT !.ty = ft, !.build = b], !.try = TRUE,
                !.set = [ListSet EXCEPT !.into = it, !.strip = st, !.skip = sk]], Other>>) EXCEPT !.pattern = sp, !.dflt = d] :
          ty \in {"V", "OV"}, ft \in {"none", "V", "OV", "C"}, b \in {"none", "expr", "fallible"}, it \in {"none", "true"},
          st \in {"none", "true"}, sp \in {"none", "owned"}, d \in {"none", "expr"}, sk \in {"none", "true"}}
(* P10 / P19: error types and environments *)
M19 == {[C0(<<[F0("foo", "L") EXCEPT !.dflt = d, !.try = TRUE, !.set = [ListSet EXCEPT !.each = "push"]], Other>>)
          EXCEPT !.crate = cr, !.lib = l, !.nostd = n, !.bf.err = e, !.bf.validate = v, !.dflt = sd] :
          cr \in {"none", "::db_alias", "my::path", "crate::inner::db"}, l \in {"std", "alloc", "none"}, n \in B2,
          e \in {"none", "gen_true", "gen_false", "custom", "customNU"}, v \in B2, d \in {"none", "word", "expr"}, sd \in {"none", "expr"}}
M10 == {[C0(<<[F0(id, "V") EXCEPT !.dflt = d]>>) EXCEPT !.lib = l, !.nostd = n, !.bf.err = e, !.bf.validate = v, !.bname = b,
                                                              !.bf.skip = sk, !.dflt = sd, !.bvis = bv] :
          id \in {"foo", "r#type"}, l \in {"std", "alloc", "none"}, n \in B2, b \in {"none", "r#Fab"}, sk \in B2,
          e \in {"none", "gen_true", "gen_false", "custom", "customNU"}, v \in B2, d \in {"none", "word"}, sd \in {"none", "expr"},
          bv \in {NoVis, Priv}}

(***************************************************************************)
(* A member of a family in company: settings that its property is not about *)
(* get values of their own, and other fields may stand beside its fields.   *)
(***************************************************************************)
\* names that occur in generated code
TakenIds == <<"value", "new", "item", "converted", "result", "VALUE", "default", "clone", "into", "error", "f", "s", "name">>
DressId(sd, i) == IF Chance(sd, 306, 50) THEN TakenIds[((Num(sd, 307, 997) + 5 * i) % Len(TakenIds)) + 1] ELSE OddIds[((Num(sd, 302, 997) + 5 * i) % Len(OddIds)) + 1]
Dressed(p, c, sd, surf) ==
  LET vis(v, n) == IF v = NoVis THEN GenVis(p, sd, n) ELSE v
      maybe(old, n, pct, s) == IF old = "none" /\ Chance(sd, n, pct) THEN Pick(sd, n + 1, s) ELSE old
      rename == Chance(sd, 300, 55)
      fld(i) == LET f == c.fields[i] IN
        [f EXCEPT !.id = IF rename THEN DressId(sd, i) ELSE @,
                  !.vis = vis(@, 310 + 10 * i),
                  !.attrs = IF @ = <<>> THEN GenAttrs(p, sd, 20000 + 100 * i, TRUE, surf) ELSE @]
      old == [i \in 1..Len(c.fields) |-> fld(i)]
      extra(i) == GenField(p, sd + 3, i, c.gen, c.pattern, surf)
      fields == IF c.kind # "named" THEN old
                ELSE (IF Chance(sd, 301, 12) THEN <<extra(8)>> ELSE <<>>) \o old
                     \o (IF Chance(sd, 303, 20) THEN <<extra(9)>> ELSE <<>>)
  IN [c EXCEPT !.fields = fields,
               !.name = IF @ = "Foo" /\ Chance(sd, 304, 25) THEN Pick(sd, 305, StructIds) ELSE @,
               !.bname = maybe(@, 306, 12, <<"Maker", "r#Fab", "Bauer_">>),
               !.bvis = vis(@, 340), !.fvis = vis(@, 350), !.bf.vis = vis(@, 360),
               !.bf.name = maybe(@, 370, 10, <<"finish", "r#do", "try_build">>),
               !.empty = maybe(@, 372, 10, <<"blank_", "r#new">>),
               !.sset.prefix = maybe(@, 374, 8, PrefixIds),
               !.derive = IF @ = <<>> /\ Chance(sd, 376, 15) THEN <<"Debug">> ELSE @,
               !.env = IF @ = "std" /\ Chance(sd, 380, 35) THEN Pick(sd, 381, <<"macro", "macro", "local">>) ELSE @,
               !.attrs = IF @ = <<>> THEN GenAttrs(p, sd, 22000, FALSE, surf) ELSE @]
\* half of them, where the result means no less
Dress(p, c, sd, surf) ==
  IF Chance(sd, 299, 45) THEN c
  ELSE LET d == Dressed(p, c, sd, surf) IN
       IF UniqueNames(d) /\ (Accepts(c) <=> Accepts(d)) /\ (surf \/ WellTyped(d)) THEN d ELSE c

SurfMatrix(p) ==
  CASE p = "P05" -> M05 [] p = "P06" -> M06 [] p = "P07" -> M07 [] p = "P08" -> M08 [] p = "P10" -> M10
    [] p = "P11" -> M11 [] p = "P12" -> M12 [] p = "P13" -> M13 [] p = "P14" -> M14 [] p = "P15" -> M15
    [] p = "P16" -> M16 [] p = "P17" -> M17 [] p = "P18" -> M18 [] p = "P19" -> M19 [] p = "P20" -> M11 [] p = "P21" -> M21
    [] OTHER -> {}
=============================================================================
