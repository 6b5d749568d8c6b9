------------------------------ MODULE Variants ------------------------------
(***************************************************************************)
(* Configurations that must give the same builder (P20).                   *)
(***************************************************************************)
EXTENDS Matrix

OrVis(a, b) == IF ExplicitVis(a) # "none" THEN a ELSE b
\* every inherited setting written out on the fields that inherit it
Explicit(c) ==
  LET field(f) ==
        LET en == FieldEnabled(c, f)
            pre == Prefix(c, f)
            into == Or(f.set.into, c.sset.into)
            strip == Or(f.set.strip, c.sset.strip)
            inh == f.set.skip = "none" /\ ~en
            more == inh \/ (en /\ (pre # f.set.prefix \/ into # f.set.into \/ strip # f.set.strip))
            bv == ExplicitVis(c.bvis)
        IN [f EXCEPT
              !.pattern = IF c.pattern = "none" THEN @ ELSE FieldPattern(c, f),
              !.try = f.try \/ c.try,
              !.vis = IF ExplicitVis(f.vis) = "none" /\ bv # "none" THEN [NoVis EXCEPT !.v = bv] ELSE @,
              !.fld.vis = IF en THEN OrVis(f.fld.vis, c.fvis) ELSE @,
              !.set = IF ~more THEN @
                      ELSE IF inh THEN [f.set EXCEPT !.form = "list", !.skip = "true"]
                      ELSE [f.set EXCEPT !.form = "list", !.prefix = pre, !.into = into, !.strip = strip]]
  IN [c EXCEPT !.fields = [i \in 1..Len(c.fields) |-> field(c.fields[i])],
               !.sset = SSet0, !.try = FALSE, !.fvis = NoVis]
\* the spelling of a default for every field of the struct's default being there is not one of these:
\* a struct-level default is evaluated once for all fields

\* field i among fields with other options
PerturbOnce(p, c, i, sd) ==
  [c EXCEPT !.fields = [j \in 1..Len(c.fields) |->
     IF j = i THEN c.fields[i]
     ELSE [GenField(p, sd, j, c.gen, c.pattern, FALSE) EXCEPT !.id = c.fields[j].id, !.ty = c.fields[j].ty]]]
Good(c, i) == Accepts(c) /\ UniqueNames(c) /\ (c.fields[i].dflt = "self" => i = 1)
RECURSIVE Perturb(_, _, _, _, _)
\* [ok, cfg]
Perturb(p, c, i, sd, n) ==
  LET v == PerturbOnce(p, c, i, sd) IN
  IF Good(v, i) THEN [ok |-> TRUE, cfg |-> v]
  ELSE IF n = 0 THEN [ok |-> FALSE, cfg |-> c] ELSE Perturb(p, c, i, sd + 577, n - 1)
=============================================================================
