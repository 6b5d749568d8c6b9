------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* What the options of a derive mean: acceptance, resolution of settings   *)
(* given at several levels, and the resulting names, types, visibilities.  *)
(*                                                                         *)
(* A configuration c is a record:                                          *)
(*  name, vis, kind, gen, pattern, bname, bvis, fvis, sset, try, dflt, bf, *)
(*  derive, ctor, empty, nostd, crate, lib, attrs, fields, bad             *)
(* and a field f of it:                                                    *)
(*  id, ty, pattern, vis, set, try, dflt, fld, attrs, bad                  *)
(* Settings that may be absent use "none"; three-valued ones are           *)
(* "none" / "true" / "false".                                              *)
(***************************************************************************)
EXTENDS Types

(*************************** visibility attributes *************************)
\* v = [p |-> `public` given, r |-> `private` given, v |-> text of vis="..." or "none"]
NoVis == [p |-> FALSE, r |-> FALSE, v |-> "none"]
VisConflict(v) == \/ v.p /\ v.r
                  \/ v.p /\ v.v # "none"
                  \/ v.r /\ v.v # "none"
ExplicitVis(v) == IF v.p THEN "pub" ELSE IF v.r THEN "" ELSE v.v   \* "none" when nothing is declared
Or(a, b) == IF a # "none" THEN a ELSE b

(******************************** acceptance *******************************)
FieldConflicts(f) ==
  (IF VisConflict(f.vis) THEN {"field visibility"} ELSE {}) \union
  (IF VisConflict(f.fld.vis) THEN {"builder field visibility"} ELSE {}) \union
  (IF f.dflt # "none" /\ f.fld.build # "none" THEN {"default with field build"} ELSE {}) \union
  (IF f.dflt # "none" /\ f.fld.ty # "none" THEN {"default with field ty"} ELSE {}) \union
  (IF f.dflt = "empty" THEN {"empty default"} ELSE {}) \union
  (IF f.fld.build = "empty" THEN {"empty build"} ELSE {}) \union
  (IF \E i \in 1..Len(f.attrs) : f.attrs[i].k \in {"bfa_word", "bfa_nv", "bsa_word", "bsa_nv"}
   THEN {"malformed field pass-through"} ELSE {}) \union
  (IF f.bad # "" THEN {"malformed field option"} ELSE {})

Conflicts(c) ==
  (IF c.kind # "named" THEN {"not a struct with named fields"} ELSE {}) \union
  (IF VisConflict(c.bvis) THEN {"builder visibility"} ELSE {}) \union
  (IF VisConflict(c.fvis) THEN {"struct-level field visibility"} ELSE {}) \union
  (IF VisConflict(c.bf.vis) THEN {"build visibility"} ELSE {}) \union
  (IF c.bf.validate /\ c.bf.err = "gen_false" THEN {"validator without validation error"} ELSE {}) \union
  (IF c.dflt = "empty" THEN {"empty struct default"} ELSE {}) \union
  (IF \E i \in 1..Len(c.attrs) : c.attrs[i].k \in {"bsta_word", "bsta_nv", "bia_word", "bia_nv"}
   THEN {"malformed struct pass-through"} ELSE {}) \union
  (IF c.bad # "" THEN {"malformed struct option"} ELSE {}) \union
  UNION {FieldConflicts(c.fields[i]) : i \in 1..Len(c.fields)}
Accepts(c) == Conflicts(c) = {}

GeneratesError(c) == c.bf.err \in {"none", "gen_true", "gen_false"}
HasValidationError(c) == c.bf.err \in {"none", "gen_true"}
\* without std and alloc there is no String for the validation error
NeedsAlloc(c) == c.lib = "none" /\ HasValidationError(c)

(************************ which fields and setters exist *******************)
SetMentions(s) == \/ s.form = "word"
                  \/ s.prefix # "none" \/ s.name # "none" \/ s.into # "none"
                  \/ s.strip # "none" \/ s.each # "none"
\* stored in the builder at all
FieldEnabled(c, f) ==
  IF f.set.skip # "none" THEN f.set.skip = "false"
  ELSE IF SetMentions(f.set) THEN TRUE
  ELSE c.sset.skip # "true"
\* has generated setters
SetterEnabled(c, f) == FieldEnabled(c, f) /\ f.set.custom # "true"
TrySetter(c, f) == SetterEnabled(c, f) /\ (f.try \/ c.try)
EachSetter(c, f) == SetterEnabled(c, f) /\ f.set.each # "none"

(********************************** names **********************************)
BuilderName(c) == Or(c.bname, Unraw(c.name) \o "Builder")
ErrorName(c) == Unraw(BuilderName(c)) \o "Error"
BuildName(c) == Or(c.bf.name, "build")
EmptyName(c) == Or(c.empty, "create_empty")
Prefix(c, f) == Or(f.set.prefix, c.sset.prefix)
SetterName(c, f) ==
  IF f.set.name # "none" THEN f.set.name
  ELSE IF Prefix(c, f) # "none" THEN Unraw(Prefix(c, f)) \o "_" \o Unraw(f.id)
  ELSE f.id
TryName(c, f) == "try_" \o Unraw(SetterName(c, f))
EachName(f) == f.set.each

(********************************* patterns ********************************)
StructPattern(c) == Or(c.pattern, "mutable")
FieldPattern(c, f) == Or(f.pattern, StructPattern(c))
Owned(c) == StructPattern(c) = "owned"                 \* build consumes the builder
Fields(c) == Range(c.fields)
AllOwned(c) == Owned(c) /\ \A f \in Fields(c) : FieldPattern(c, f) = "owned"
DerivesClone(c) == ~AllOwned(c) \/ \E i \in 1..Len(c.derive) : c.derive[i] = "Clone"

(******************************** visibility *******************************)
BuilderVis(c) == Or(ExplicitVis(c.bvis), c.vis)
BuildVis(c) == Or(ExplicitVis(c.bf.vis), BuilderVis(c))
SetterVis(c, f) == Or(ExplicitVis(f.vis), Or(ExplicitVis(c.bvis), "pub"))
SlotVis(c, f) ==
  IF ExplicitVis(f.fld.vis) # "none" THEN ExplicitVis(f.fld.vis)
  ELSE IF ~FieldEnabled(c, f) THEN ""
  ELSE Or(ExplicitVis(c.fvis), "")

(****************************** setter arguments ***************************)
IntoOn(c, f) == Or(f.set.into, c.sset.into) = "true"
StripOn(c, f) == Or(f.set.strip, c.sset.strip) = "true"
\* key of the type a setter deals with: the custom builder type if there is one
SlotTy(f) == IF f.fld.ty # "none" THEN f.fld.ty ELSE f.ty
\* strip_option takes effect
Strips(c, f) == StripOn(c, f) /\ TypeTable[SlotTy(f)].itxt # ""
ArgTxt(c, f) == IF Strips(c, f) THEN TypeTable[SlotTy(f)].itxt ELSE Txt(SlotTy(f))
ArgKey(c, f) == IF Strips(c, f) THEN TypeTable[SlotTy(f)].ikey ELSE SlotTy(f)

(***************************** where values come from **********************)
\* what a build does with field f when its slot is / is not set
WhenSet(c, f) ==
  IF ~FieldEnabled(c, f) THEN "skipped"
  ELSE IF f.fld.build # "none" THEN "block"
  ELSE IF f.fld.ty # "none" THEN "move"
  ELSE "slot"
WhenUnset(c, f) ==
  IF FieldEnabled(c, f) /\ f.fld.build # "none" THEN "block"
  ELSE IF FieldEnabled(c, f) /\ f.fld.ty # "none" THEN "move"
  ELSE IF f.dflt # "none" THEN "own"
  ELSE IF c.dflt # "none" THEN "struct"
  ELSE IF ~FieldEnabled(c, f) THEN "type"
  ELSE "missing"
Required(c, f) == WhenUnset(c, f) = "missing"
CanMiss(c) == \E f \in Fields(c) : Required(c, f)
SlotKind(c, f) == IF ~FieldEnabled(c, f) THEN "phantom"
                  ELSE IF f.fld.ty # "none" THEN "precise" ELSE "option"
=============================================================================
