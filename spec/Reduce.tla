------------------------------- MODULE Reduce -------------------------------
(* For configurations that failed to compile or to expand: the same ones     *)
(* with some features put back to their defaults.  ASK: rows {id, cfg,       *)
(* reset} where reset is a sequence of feature names; OUT: rows {id, cfg,    *)
(* res, typed, outcome}.                                                     *)
EXTENDS Matrix, RenderInfo, Json, IOUtils
Ask == ndJsonDeserialize(IOEnv.ASK)
EachField(c, F(_, _)) == [c EXCEPT !.fields = [i \in 1..Len(c.fields) |-> F(c.fields[i], i)]]
PlainTy(f) == IF f.ty = "V" THEN f ELSE [f EXCEPT !.ty = "V", !.set.each = "none", !.fld.ty = IF @ = "none" THEN @ ELSE "V"]
Reset1(c, k) ==
  CASE k = "generics" -> [EachField(c, LAMBDA f, i : IF TypeTable[f.ty].par = "" THEN f ELSE [f EXCEPT !.ty = "V"]) EXCEPT !.gen = "none"]
    [] k = "derive" -> [c EXCEPT !.derive = <<>>]
    [] k = "ctor" -> [c EXCEPT !.ctor = FALSE]
    [] k = "empty" -> [c EXCEPT !.empty = "none"]
    [] k = "pattern" -> EachField([c EXCEPT !.pattern = "none"], LAMBDA f, i : [f EXCEPT !.pattern = "none"])
    [] k = "into" -> EachField([c EXCEPT !.sset.into = "none"], LAMBDA f, i : [f EXCEPT !.set.into = "none"])
    [] k = "strip" -> EachField([c EXCEPT !.sset.strip = "none"], LAMBDA f, i : [f EXCEPT !.set.strip = "none"])
    [] k = "try" -> EachField([c EXCEPT !.try = FALSE], LAMBDA f, i : [f EXCEPT !.try = FALSE])
    [] k = "each" -> EachField(c, LAMBDA f, i : [f EXCEPT !.set.each = "none"])
    [] k = "setname" -> EachField([c EXCEPT !.sset.prefix = "none"], LAMBDA f, i : [f EXCEPT !.set.prefix = "none", !.set.name = "none"])
    [] k = "names" -> [c EXCEPT !.bname = "none", !.bf.name = "none"]
    [] k = "ids" -> [EachField(c, LAMBDA f, i : [f EXCEPT !.id = "plain" \o ToString(i)]) EXCEPT !.name = "Foo"]
    [] k = "vis" -> EachField([c EXCEPT !.vis = "pub", !.bvis = NoVis, !.fvis = NoVis, !.bf.vis = NoVis],
                              LAMBDA f, i : [f EXCEPT !.vis = NoVis, !.fld.vis = NoVis])
    [] k = "attrs" -> EachField([c EXCEPT !.attrs = <<>>], LAMBDA f, i : [f EXCEPT !.attrs = <<>>])
    [] k = "skip" -> EachField([c EXCEPT !.sset.skip = "none", !.bf.skip = FALSE], LAMBDA f, i : [f EXCEPT !.set.skip = "none"])
    [] k = "custom" -> EachField(c, LAMBDA f, i : [f EXCEPT !.set.custom = "none"])
    [] k = "word" -> EachField(c, LAMBDA f, i : IF f.set.form = "word" THEN [f EXCEPT !.set.form = "none"] ELSE f)
    [] k = "fdflt" -> EachField(c, LAMBDA f, i : [f EXCEPT !.dflt = "none"])
    [] k = "sdflt" -> [c EXCEPT !.dflt = "none"]
    [] k = "fld" -> EachField(c, LAMBDA f, i : [f EXCEPT !.fld = [@ EXCEPT !.ty = "none", !.build = "none"]])
    [] k = "validate" -> [c EXCEPT !.bf.validate = FALSE]
    [] k = "err" -> [c EXCEPT !.bf.err = "none"]
    [] k = "env" -> [c EXCEPT !.env = "std", !.lib = "std", !.crate = "none", !.nostd = FALSE]
    [] k = "types" -> EachField(c, LAMBDA f, i : PlainTy(f))
    [] k = "fields" -> [c EXCEPT !.fields = IF @ = <<>> THEN @ ELSE <<@[Len(@)]>>]
    [] OTHER -> c
RECURSIVE ResetAll(_, _, _)
ResetAll(c, ks, i) == IF i > Len(ks) THEN c ELSE ResetAll(Reset1(c, ks[i]), ks, i + 1)
Row(r) == LET c == ResetAll(r.cfg, r.reset, 1)
              ok == UniqueNames(c)
          IN [id |-> r.id, cfg |-> c, res |-> IF ok /\ WellTyped(c) THEN Res(c) ELSE ItemRes(c),
              typed |-> ok /\ WellTyped(c), unique |-> ok, outcome |-> Outcome(c), ops |-> <<>>]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(Ask) |-> Row(Ask[i])])
=============================================================================
