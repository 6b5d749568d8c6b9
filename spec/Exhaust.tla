------------------------------ MODULE Exhaust ------------------------------
(***************************************************************************)
(* Exhaustive families of well-typed configurations for the runtime layer, *)
(* and histories over them that take every transition of Machine of a      *)
(* small alphabet (and, in the thorough tier, every pair of transitions).  *)
(***************************************************************************)
EXTENDS Matrix

Fix(s) == [s EXCEPT !.form = "list"]
\* one field whose value comes from a given source
Source(id, ty, s) ==
  CASE s = "required" -> F0(id, ty)
    [] s = "word" -> [F0(id, ty) EXCEPT !.dflt = "word"]
    [] s = "expr" -> [F0(id, ty) EXCEPT !.dflt = "expr"]
    [] s = "fallible" -> [F0(id, ty) EXCEPT !.dflt = "fallible"]
    [] s = "self" -> [F0(id, ty) EXCEPT !.dflt = "self"]
    [] s = "skip" -> [F0(id, ty) EXCEPT !.set = [ListSet EXCEPT !.skip = "true"]]
    [] s = "skipexpr" -> [F0(id, ty) EXCEPT !.set = [ListSet EXCEPT !.skip = "true"], !.dflt = "expr"]
    [] s = "skipfallible" -> [F0(id, ty) EXCEPT !.set = [ListSet EXCEPT !.skip = "true"], !.dflt = "fallible"]
    [] s = "custom" -> [F0(id, ty) EXCEPT !.set = [ListSet EXCEPT !.custom = "true"]]
    [] s = "ty" -> [F0(id, "C") EXCEPT !.fld.ty = "C"]
    [] s = "build" -> [F0(id, ty) EXCEPT !.fld.build = "expr"]
    [] s = "buildf" -> [F0(id, ty) EXCEPT !.fld.build = "fallible"]
    [] s = "tybuild" -> [F0(id, ty) EXCEPT !.fld = [Fld0 EXCEPT !.ty = "OV", !.build = "expr"]]
Sources == {"required", "word", "expr", "fallible", "self", "skip", "skipexpr", "skipfallible", "custom", "ty", "build",
            "buildf", "tybuild"}

R01 == {[C0(<<[F0("foo", ty) EXCEPT !.dflt = d, !.pattern = fp, !.set = [ListSet EXCEPT !.strip = st, !.into = it, !.each = ea, !.each_into = ty \in {"L", "OL"}],
                                      !.try = TRUE], Other>>) EXCEPT !.pattern = sp] :
          ty \in {"V", "C", "X", "BX", "TP", "L", "VE", "OV", "OOV", "SV", "AV", "OL", "OVE"}, sp \in Pats, st \in {"none", "true"},
          it \in {"none", "true"}, d \in {"none", "expr"}, fp \in {"none", "owned", "immutable"}, ea \in {"none", "push"}}
R02 == {[C0(<<Source("foo", ty, a), Source("bar", "OV", b), Source("baz", "V", "required")>>)
           EXCEPT !.pattern = sp, !.bf.err = e] :
          a \in Sources, b \in Sources, sp \in {"none", "owned"}, e \in {"none", "custom"},
          ty \in {"V", "UN", "PD", "VE", "B", "BX", "OOV", "S"}}
R03 == {[C0(<<Source("foo", "V", a), Source("bar", "V", b)>>) EXCEPT !.pattern = sp, !.dflt = d] :
          a \in Sources, b \in Sources, sp \in {"none", "owned"}, d \in {"none", "word", "expr", "fallible"}}
R04 == {[C0(<<Source("foo", "V", a), [F0("bar", "OL") EXCEPT !.pattern = fp, !.set = [ListSet EXCEPT !.each = "push", !.strip = "true"]]>>)
           EXCEPT !.pattern = sp, !.bf.validate = v, !.dflt = d] :
          a \in Sources, fp \in Pats, sp \in {"none", "immutable"}, v \in B2, d \in {"none", "fallible"}}
R09 == {[C0(<<Source("foo", "V", a), Source("bar", "V", b)>>) EXCEPT !.pattern = sp, !.dflt = d, !.bf.validate = TRUE, !.bf.err = e] :
          a \in {"required", "expr", "fallible", "self", "skipexpr", "build", "buildf"}, b \in {"required", "expr", "fallible"},
          sp \in {"none", "owned"}, d \in {"none", "expr", "fallible"}, e \in {"none", "gen_true", "custom", "customNU"}}
R10 == {[C0(<<[Source(id, "V", a) EXCEPT !.set.name = IF id = "_" THEN "x" ELSE @], Source("bar", "V", b)>>)
           EXCEPT !.dflt = d, !.bf.validate = v, !.bf.err = e, !.bname = bn] :
          id \in {"foo", "r#type", "größe"}, a \in {"required", "fallible", "buildf", "expr"}, b \in {"required", "fallible"},
          d \in {"none", "fallible"}, e \in {"none", "gen_true", "gen_false", "custom", "customNU"}, v \in B2, bn \in {"none", "r#Fab"}}
R19 == {[C0(<<[F0("foo", "L") EXCEPT !.dflt = d, !.try = TRUE, !.set = [ListSet EXCEPT !.each = "push", !.strip = st]],
              Source("bar", "V", b)>>)
          EXCEPT !.env = en, !.nostd = (en \in {"nostd", "noalloc"}) \/ n, !.bf.err = e, !.bf.validate = v, !.dflt = sd, !.pattern = sp,
                 !.crate = CASE en = "alias" -> "::db_alias" [] en = "reexport" -> "::reexp::db" [] OTHER -> "none",
                 !.lib = CASE en = "nostd" -> "alloc" [] en = "noalloc" -> "none" [] OTHER -> "std"] :
          en \in {"std", "alias", "reexport", "shadow", "nostd", "noalloc", "macro", "local"}, n \in B2, st \in {"none"}, sp \in Pats,
          e \in {"none", "gen_true", "gen_false", "custom", "customNU"}, v \in B2, d \in {"none", "word", "expr"}, sd \in {"none", "expr"},
          b \in {"required", "skip", "tybuild", "fallible"}}
R16 == {[C0(<<[F0("foo", ty) EXCEPT !.pattern = fp, !.try = tr, !.set = [ListSet EXCEPT !.strip = st, !.into = it, !.each = ea, !.skip = "none"]],
               [F0("bar", "V") EXCEPT !.pattern = op]>>) EXCEPT !.pattern = sp] :
          fp \in Pats, op \in {"none", "mutable", "owned"}, sp \in Pats, tr \in B2, st \in {"none", "true"}, it \in {"none", "true"},
          ea \in {"none", "push"}, ty \in {"L", "OL", "VE", "OVE", "OV", "BX", "OBX", "OOV"}}

RunFamily(p) ==
  LET all == CASE p = "P01" -> R01 [] p = "P02" -> R02 [] p = "P03" -> R03 [] p = "P04" -> R04 [] p = "P09" -> R09
               [] p = "P10" -> R10 [] p = "P19" -> R19
               [] p = "P16" -> R16 \union M16 [] OTHER -> {c \in SurfMatrix(p) : c.crate = "none" /\ c.lib = "std"}
  IN all

(********************************* histories *******************************)
H2 == <<1, 2>>
Alphabet(c) ==
  LET F == 1..Len(c.fields)
      perField(i) ==
        LET f == c.fields[i]
            n == ToString(i)
            lit(l) == IF IntoOn(c, f) THEN l ELSE Lit(ArgKey(c, f), l)
            ds == IF FieldPattern(c, f) = "mutable" THEN <<1>> ELSE H2
        IN (IF SetterEnabled(c, f)
            THEN [j \in 1..Len(ds) |-> Op("set", 1, i, lit("r" \o n), ds[j], "", <<>>)]
                 \o (IF ~IntoOn(c, f) /\ IsOptTerm(ArgKey(c, f)) THEN <<Op("set", 1, i, "None", 1, "", <<>>)>> ELSE <<>>)
            ELSE <<>>)
           \o (IF TrySetter(c, f)
               THEN [j \in 1..Len(ds) |-> Op("try", 1, i, "r" \o n \o "t", ds[j], "", <<>>)]
                    \o <<Op("try", 1, i, "e" \o n, 1, "", <<>>)>> ELSE <<>>)
           \o (IF CanEach(c, f) THEN [j \in 1..Len(ds) |-> Op("each", 1, i, "r" \o n \o "i", ds[j], "", <<>>)] ELSE <<>>)
           \o (CASE SlotKind(c, f) = "precise" -> <<Op("poke", 1, i, "!" \o Lit(f.fld.ty, "p" \o n), 0, "", <<>>)>>
                 [] SlotKind(c, f) = "option" -> <<Op("poke", 1, i, "=" \o Lit(f.ty, "p" \o n), 0, "", <<>>),
                                                  Op("poke", 1, i, "-", 0, "", <<>>)>>
                 [] OTHER -> <<>>)
      ids == (IF c.dflt = "fallible" THEN <<"*">> ELSE <<>>)
             \o Flat([i \in F |-> IF c.fields[i].dflt = "fallible" \/ c.fields[i].fld.build = "fallible"
                                  THEN <<c.fields[i].id>> ELSE <<>>])
  IN Flat([i \in F |-> perField(i)])
     \o (IF DerivesClone(c) THEN <<Op("clone", 1, 0, "", 2, "", <<>>)>> ELSE <<>>)
     \o <<Op("new", 2, 0, IF c.ctor THEN "e" ELSE "d", 0, "", <<>>)>>
     \o (IF c.bf.skip THEN <<>>
         ELSE <<Op("build", 1, 0, "", 0, "ok", <<>>)>>
              \o [i \in 1..Len(ids) |-> Op("build", 1, 0, "", 0, "ok", <<ids[i]>>)]
              \o (IF c.bf.validate THEN <<Op("build", 1, 0, "", 0, "no {} \"way\"", ids)>> ELSE <<>>))

\* ops without those that the Machine does not allow where they stand
RECURSIVE Legal(_, _, _, _)
Legal(c, st, ops, i) ==
  IF i > Len(ops) THEN <<>>
  ELSE IF Enabled(c, st, ops[i]) THEN <<ops[i]>> \o Legal(c, Step(c, st, ops[i]).st, ops, i + 1)
  ELSE Legal(c, st, ops, i + 1)
Finish(c) == IF c.bf.skip THEN <<>> ELSE <<Op("build", 1, 0, "", 0, "ok", <<>>), Op("build", 2, 0, "", 0, "ok", <<>>)>>
NewOp(c, e) == Op("new", 1, 0, IF c.ctor \/ e THEN "e" ELSE "d", 0, "", <<>>)
Reset == [h \in Handles |-> NoHandle]
Episode(c, pre, ops, e) == <<NewOp(c, e)>> \o pre \o ops \o Finish(c)
\* every transition of the alphabet from the full builder, and from the empty one or one that can be built
Singles(c, sd) ==
  LET A == Alphabet(c)
      fill == Fill(c)
  IN Flat([i \in 1..Len(A) |->
        Episode(c, FillAll(c), <<A[i]>>, FALSE)
        \o (IF i % 2 = sd % 2 THEN Episode(c, <<>>, <<A[i]>>, FALSE) ELSE Episode(c, fill, <<A[i]>>, TRUE))])
\* and what concerns an optional field from the builder that holds None for it
FromNone(c) ==
  LET A == Alphabet(c)
      none(i) == c.fields[i].fld.ty = "none" /\ SlotKind(c, c.fields[i]) = "option" /\ IsOptTerm(c.fields[i].ty)
      fill == Fill(c)
  IN Flat([i \in 1..Len(c.fields) |->
        IF ~none(i) THEN <<>>
        ELSE LET P == Op("poke", 1, i, "=None", 0, "", <<>>)
                 mine == SelectSeq(A, LAMBDA o : o.f = i)
             IN Episode(c, fill, <<P>>, FALSE)
                \o Flat([j \in 1..Len(mine) |-> Episode(c, fill, <<P, mine[j]>>, j % 2 = 0)])])
\* one in every `skip` of the pairs
Pairs2(c, sd, skip) ==
  LET A == Alphabet(c)
      n == Len(A)
      fill == Fill(c)
  IN Flat([k \in 1..(n * n) |->
        LET i == ((k - 1) \div n) + 1
            j == ((k - 1) % n) + 1
        IN IF ~Sampled(sd, k, skip) THEN <<>> ELSE Episode(c, IF k % 3 = 0 THEN <<>> ELSE fill, <<A[i], A[j]>>, k % 2 = 0)])
Walk(c, sd, skip) ==
  Legal(c, Reset, Episode(c, <<>>, <<>>, FALSE) \o Singles(c, sd) \o FromNone(c) \o (IF skip = 0 THEN <<>> ELSE Pairs2(c, sd, skip)), 1)
=============================================================================
