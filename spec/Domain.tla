------------------------------- MODULE Domain -------------------------------
(***************************************************************************)
(* Which accepted configurations the generated code must compile for, with *)
(* the harness's types: Rust's own typing rules applied to what Surface    *)
(* says is generated.  The compiler's verdict on each rendered module is   *)
(* an observation checked against this predicate.                          *)
(***************************************************************************)
EXTENDS Machine

ParTypes(f) == {TypeTable[f.ty].par} \ {""}
CloneOK(t) == TypeTable[t].cl
DefaultOK(c, t) == IF TypeTable[t].par \in {"T", "U"} /\ ~IsOptTerm(t)
                   THEN TypeTable[t].par \in G(c).dfp ELSE TypeTable[t].df
MkOK(c, t) == TypeTable[t].par \in {"T", "U"} => TypeTable[t].par \in G(c).mk
NeedsValidationConv(c) ==
  \/ c.bf.validate
  \/ c.dflt = "fallible"
  \/ \E f \in Fields(c) : f.dflt = "fallible" \/ f.fld.build = "fallible"
TypeClone(c, par) == <<par, "Clone">> \in Range(G(c).ub)

FieldTyped(c, f) ==
  LET en == FieldEnabled(c, f)
      precise == SlotKind(c, f) = "precise"
      option == SlotKind(c, f) = "option"
  IN /\ TypeTable[f.ty].run
     /\ ParTypes(f) \subseteq G(c).pars
     /\ f.fld.ty # "none" => TypeTable[f.fld.ty].run /\ TypeTable[f.fld.ty].par = ""
     /\ DerivesClone(c) => (option => CloneOK(f.ty)) /\ (precise => CloneOK(f.fld.ty))
     \* an immutable setter clones the whole builder, for which an owned build adds no bounds
     /\ (Owned(c) /\ SetterEnabled(c, f) /\ FieldPattern(c, f) = "immutable")
        => \A i \in 1..Len(G(c).tps) : TypeClone(c, G(c).tps[i])
     /\ precise => DefaultOK(c, f.fld.ty)
     /\ (precise /\ f.fld.build = "none") => f.fld.ty = f.ty /\ (Owned(c) \/ TypeTable[f.fld.ty].cp)
     /\ (en /\ f.fld.build # "none") => MkOK(c, f.ty) /\ MkOK(c, SlotTy(f))
     /\ (~en) => f.fld.build = "none"
     /\ f.dflt = "word" => DefaultOK(c, f.ty)
     /\ f.dflt \in {"lit", "lit0"} => f.ty \in LitTypes
     /\ f.ty = "TI" => c.gen \in {"ti", "tiw"}
     /\ f.dflt \in {"expr", "fallible"} => MkOK(c, f.ty)
     /\ f.dflt = "self" => ~Owned(c) /\ MkOK(c, f.ty) /\ MkOK(c, SlotTy(c.fields[1]))
     /\ c.dflt # "none" => MkOK(c, f.ty)
     /\ WhenUnset(c, f) = "type" => DefaultOK(c, f.ty)
     /\ EachSetter(c, f) => f.fld.ty = "none" /\ ArgKey(c, f) \in Colls
                             \* the item type of a Vec could not be inferred from what converts into it
                             /\ (ArgKey(c, f) = "VE" => ~f.set.each_into)

EnvTyped(c) ==
  CASE c.env \in {"std", "alias", "reexport", "macro", "local"} -> TRUE
    [] c.env = "shadow" -> \A f \in Fields(c) : f.ty \notin PreludeTypes /\ f.fld.ty \notin PreludeTypes
    [] c.env \in {"nostd", "noalloc"} ->
         /\ GeneratesError(c) => c.nostd
         /\ \A f \in Fields(c) : f.ty \notin StdTypes /\ f.fld.ty \notin StdTypes
    [] OTHER -> FALSE

\* attributes that are nobody's business: neither forwarded nor an option of the derive;
\* the compiler may not know them or not want them there
Foreign == <<"warn(dead_code)", "deny(dead_code)", "forbid(unsafe_code)", "inline", "inline(always)", "cold", "track_caller",
  "deprecated", "must_use", "expect(dead_code)", "cfg_attr(a,doc=\"x\")", "cfg_attr(a,allow(b))", "a::doc", "doc::a", "doc::cfg(a)", "allow::x(y)",
  "cfgs(a)", "docs=\"x\"", "allowed(x)", "builder_attr(doc=\"x\")", "builder_field_attrs(x)", "serde(default)", "repr(C)",
  "rustfmt::skip", "clippy::allow(x)", "test", "a::builder(x)", "setter(into)", "Doc=\"x\"">>

WellTyped(c) ==
  /\ Accepts(c)
  /\ ~NeedsAlloc(c)
  /\ c.fields # <<>>
  /\ UniqueNames(c)
  \* every parameter is mentioned by the builder too, whose slot may have another type
  /\ G(c).pars \subseteq UNION {ParTypes(f) : f \in {f \in Fields(c) : SlotKind(c, f) # "precise"}}
  /\ \A f \in Fields(c) : FieldTyped(c, f)
  /\ (NeedsValidationConv(c) => c.bf.err # "gen_false")
  /\ (c.bf.err = "customNU" => ~CanMiss(c) \/ c.bf.skip)
  /\ Range(c.derive) \subseteq {"Clone", "Debug", "PartialEq", "Eq", "Hash", "Default"}
  /\ ("Default" \in Range(c.derive) => c.ctor)
  /\ ("Eq" \in Range(c.derive) => "PartialEq" \in Range(c.derive))
  \* the harness's validator and struct-level default need to show and make values of every type
  /\ (c.bf.validate => \A i \in 1..Len(G(c).tps) : G(c).tps[i] \in G(c).mk)
  /\ \A a \in Range(c.attrs) \union UNION {Range(f.attrs) : f \in Fields(c)} : a.t \notin Range(Foreign) \ {"warn(dead_code)"}
  /\ EnvTyped(c)
=============================================================================
