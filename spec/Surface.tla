------------------------------ MODULE Surface ------------------------------
(***************************************************************************)
(* The generated API of a configuration, as a sequence of facts            *)
(*   [a |-> aspect, k |-> key, v |-> value]                                *)
(* The expander reports what the real macro generated as a map from keys to*)
(* values; value "ABSENT" says that the key must not occur.  Keys that the *)
(* specification does not mention are free (extra helpers and the like).   *)
(***************************************************************************)
EXTENDS Options

Absent == "ABSENT"
Fact(a, k, v) == [a |-> a, k |-> k, v |-> v]

Recv(p) == CASE p = "mutable" -> "&mut self" [] p = "immutable" -> "&self" [] p = "owned" -> "self"
Ret(p) == IF p = "mutable" THEN "&mut Self" ELSE "Self"

(***************************** functions of a field ************************)
FnFacts(kind, name, vis, recv, arg, ret) ==
  << Fact(kind \o ".exist", "fn:" \o name, "1"),
     Fact(kind \o ".vis", "fn:" \o name \o ":vis", vis),
     Fact(kind \o ".pattern", "fn:" \o name \o ":recv", recv),
     Fact(kind \o ".arg", "fn:" \o name \o ":arg", arg),
     Fact(kind \o ".pattern", "fn:" \o name \o ":ret", ret) >>

SetFacts(c, f) ==
  IF ~SetterEnabled(c, f) THEN <<>>
  ELSE FnFacts("set", SetterName(c, f), SetterVis(c, f), Recv(FieldPattern(c, f)),
               (IF IntoOn(c, f) THEN "into:" ELSE "exact:") \o ArgTxt(c, f), Ret(FieldPattern(c, f)))
TryFacts(c, f) ==
  IF ~TrySetter(c, f) THEN <<>>
  ELSE FnFacts("try", TryName(c, f), SetterVis(c, f), Recv(FieldPattern(c, f)),
               "tryinto:" \o ArgTxt(c, f), "Result<" \o Ret(FieldPattern(c, f)) \o ",_::Error>")
EachFacts(c, f) ==
  IF ~EachSetter(c, f) THEN <<>>
  ELSE FnFacts("each", EachName(f), SetterVis(c, f), Recv(FieldPattern(c, f)),
               (IF f.set.each_into THEN "iteminto:" ELSE "item:") \o ArgTxt(c, f), Ret(FieldPattern(c, f)))

SetNames(c, f) == IF SetterEnabled(c, f) THEN <<SetterName(c, f)>> ELSE <<>>
TryNames(c, f) == IF TrySetter(c, f) THEN <<TryName(c, f)>> ELSE <<>>
EachNames(c, f) == IF EachSetter(c, f) THEN <<EachName(f)>> ELSE <<>>
FieldFnNames(c, f) == SetNames(c, f) \o TryNames(c, f) \o EachNames(c, f)
BuildNames(c) == IF c.bf.skip THEN <<>> ELSE <<BuildName(c)>>
FnNames(c) == Flat([i \in 1..Len(c.fields) |-> FieldFnNames(c, c.fields[i])])
              \o BuildNames(c) \o <<EmptyName(c)>>
UniqueNames(c) ==
  LET raw == FnNames(c)
      un == [i \in 1..Len(raw) |-> Unraw(raw[i])]
      ids == [i \in 1..Len(c.fields) |-> Unraw(c.fields[i].id)]
  IN Cardinality(Range(un)) = Len(un) /\ Cardinality(Range(ids)) = Len(ids)

\* every name one might expect for setters of f under some reading of its options
Maybe(x) == IF x = "none" THEN <<>> ELSE <<x>>
Candidates(c, f) ==
  LET base == <<f.id>> \o Maybe(f.set.name)
              \o [i \in 1..Len(Maybe(f.set.prefix)) |-> Unraw(f.set.prefix) \o "_" \o Unraw(f.id)]
              \o [i \in 1..Len(Maybe(c.sset.prefix)) |-> Unraw(c.sset.prefix) \o "_" \o Unraw(f.id)]
              \o <<"set_" \o Unraw(f.id), "with_" \o Unraw(f.id)>>
  IN base \o [i \in 1..Len(base) |-> "try_" \o Unraw(base[i])] \o Maybe(f.set.each)
AbsentNames(c) ==
  LET names == Range(FnNames(c))
      unraw == {Unraw(n) : n \in names}
      if(p, n) == IF p /\ n \notin names THEN <<n>> ELSE <<>>
  IN Flat([i \in 1..Len(c.fields) |->
        SelectSeq(Candidates(c, c.fields[i]), LAMBDA n : Unraw(n) \notin unraw)])
     \o if(c.bf.skip \/ BuildName(c) # "build", "build")
     \o if(c.bf.skip /\ BuildName(c) # "build", BuildName(c))
     \o if(EmptyName(c) # "create_empty", "create_empty")
AbsentFacts(c) ==
  LET a == AbsentNames(c) IN
  [i \in 1..Len(a) |-> Fact("fn.absent", "fn:" \o a[i], Absent)]

(********************************** builder ********************************)
G(c) == GenTable[c.gen]
UserBounds(c) == G(c).ub
\* bounds on the generated impls: the user's, and Clone for each type parameter if build borrows
ImplBounds(c) ==
  UserBounds(c) \o (IF Owned(c) THEN <<>> ELSE [i \in 1..Len(G(c).tps) |-> <<G(c).tps[i], "Clone">>])
GenericFacts(a, pre, c, bounds) ==
  << Fact(a, pre \o ":params", G(c).params) >>
  \o Flat([i \in 1..Len(G(c).tps) |->
       IF <<G(c).tps[i], "Clone">> \in Range(bounds) THEN <<>>
       ELSE << Fact(a \o ".clone", pre \o ":b:" \o G(c).tps[i] \o ":Clone", Absent) >>])
  \o [i \in 1..Len(bounds) |->
       Fact(IF bounds[i][2] = "Clone" THEN a \o ".clone" ELSE a,
            pre \o ":b:" \o bounds[i][1] \o ":" \o bounds[i][2], "1")]

SlotFacts(c) ==
  Flat([i \in 1..Len(c.fields) |->
    LET f == c.fields[i] IN
    << Fact("slot.vis", "slot:" \o f.id \o ":vis", SlotVis(c, f)),
       Fact("slot.ty", "slot:" \o f.id \o ":ty",
            CASE SlotKind(c, f) = "phantom" -> "phantom:" \o Txt(f.ty)
              [] SlotKind(c, f) = "precise" -> "precise:" \o Txt(f.fld.ty)
              [] SlotKind(c, f) = "option"  -> "option:" \o Txt(f.ty)) >>])

Derivable == <<"Debug", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord", "Default", "Copy">>
StructFacts(c) ==
  << Fact("b.name", "struct:" \o BuilderName(c), "1"),
     Fact("b.vis", "struct:vis", BuilderVis(c)),
     Fact("b.fields", "struct:fields", Join([i \in 1..Len(c.fields) |-> c.fields[i].id], ",")) >>
  \o GenericFacts("b.gen", "sg", c, UserBounds(c))
  \o [i \in 1..Len(G(c).dfs) |-> Fact("b.gen", "sg:d:" \o G(c).dfs[i][1], G(c).dfs[i][2])]
  \o << Fact("b.clone", "derive:Clone", IF DerivesClone(c) THEN "1" ELSE Absent) >>
  \o [i \in 1..Len(Derivable) |-> Fact("b.derive", "derive:" \o Derivable[i],
                                    IF Derivable[i] \in Range(c.derive) THEN "1" ELSE Absent)]
ImplFacts(c) ==
  << Fact("i.gen", "ig:self", BuilderName(c) \o G(c).args) >>
  \o GenericFacts("i.gen", "ig", c, ImplBounds(c))
  \o (IF c.ctor THEN << Fact("d.impl", "impl:Default", Absent) >>
      ELSE << Fact("d.impl", "impl:Default", "1"), Fact("d.impl", "dg:self", BuilderName(c) \o G(c).args) >>
           \o GenericFacts("d.gen", "dg", c, ImplBounds(c)))

ErrTxt(c) == CASE c.bf.err = "custom" -> "CustomErr"
               [] c.bf.err = "customNU" -> "vsupport::CustomErrNoUninit"
               [] c.bf.err = "customG" -> "vsupport::CustomErrOf<C>"
               [] OTHER -> ErrorName(c)
TargetTxt(c) == c.name \o G(c).args
BuildFacts(c) ==
  (IF c.bf.skip THEN <<>>
   ELSE << Fact("build.exist", "fn:" \o BuildName(c), "1"),
           Fact("build.vis", "fn:" \o BuildName(c) \o ":vis", BuildVis(c)),
           Fact("build.recv", "fn:" \o BuildName(c) \o ":recv", IF Owned(c) THEN "self" ELSE "&self"),
           Fact("build.sig", "fn:" \o BuildName(c) \o ":arg", "none"),
           Fact("build.sig", "fn:" \o BuildName(c) \o ":ret",
                "Result<" \o TargetTxt(c) \o "," \o ErrTxt(c) \o ">") >>)
  \o << Fact("empty.exist", "fn:" \o EmptyName(c), "1"),
        Fact("empty.vis", "fn:" \o EmptyName(c) \o ":vis", ""),
        Fact("empty.sig", "fn:" \o EmptyName(c) \o ":recv", "none"),
        Fact("empty.sig", "fn:" \o EmptyName(c) \o ":ret", "Self") >>

ErrorFacts(c) ==
  IF ~GeneratesError(c) THEN << Fact("err.exist", "enum:" \o ErrorName(c), Absent) >>
  ELSE << Fact("err.name", "enum:" \o ErrorName(c), "1"),
          Fact("err.vis", "enum:vis", BuilderVis(c)),
          Fact("err.shape", "ev:UninitializedField", "&'static str"),
          Fact("err.shape", "ei:From<UninitializedFieldError>", "1"),
          Fact("err.shape", "ei:Display", "1"),
          Fact("err.shape", "ev:ValidationError", IF HasValidationError(c) THEN "String" ELSE Absent),
          Fact("err.shape", "ei:From<String>", IF HasValidationError(c) THEN "1" ELSE Absent),
          Fact("err.std", "ei:Error", IF c.nostd THEN Absent ELSE "1") >>

CratePath(c) == Or(c.crate, "::derive_builder")
\* (a builder without an ordinary slot may have nothing to mention it for)
RootFacts(c) ==
  (IF \E i \in 1..Len(c.fields) : SlotKind(c, c.fields[i]) \in {"phantom", "option"}
   THEN << Fact("root", "xp:" \o CratePath(c), "1") >> ELSE <<>>)
  \o (IF c.crate = "none" THEN <<>> ELSE << Fact("root", "xp:::derive_builder", Absent) >>)

FieldFnFacts(c) ==
  Flat([i \in 1..Len(c.fields) |->
     SetFacts(c, c.fields[i]) \o TryFacts(c, c.fields[i]) \o EachFacts(c, c.fields[i])])

(******************************* documentation *****************************)
(* What is generated without being asked for is documented; setters and    *)
(* slots are as far as their field is.                                     *)
Begins(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x
Texts(attrs, kinds) ==
  LET s == SelectSeq(attrs, LAMBDA a : a.k \in kinds) IN [i \in 1..Len(s) |-> s[i].t]
SlotAttrs(f) == Texts(f.attrs, {"doc", "cfg", "allow", "bfa"})
SetterAttrs(f) == Texts(f.attrs, {"doc", "cfg", "allow", "bsa"})
HasDoc(texts) == \E i \in 1..Len(texts) : Begins(texts[i], "doc=")
DocFacts(c) ==
  LET auto == <<"struct", "fn:" \o EmptyName(c)>>
              \o (IF c.bf.skip THEN <<>> ELSE <<"fn:" \o BuildName(c)>>)
              \o (IF GeneratesError(c) THEN <<"enum", "ev:UninitializedField">> ELSE <<>>)
              \o (IF GeneratesError(c) /\ HasValidationError(c) THEN <<"ev:ValidationError">> ELSE <<>>)
      \* and tells what it belongs to
      says == << <<"struct", c.name>> >> \o (IF c.bf.skip THEN <<>> ELSE << <<"fn:" \o BuildName(c), c.name>> >>)
              \o (IF GeneratesError(c) THEN << <<"enum", BuilderName(c)>> >> ELSE <<>>)
  IN [i \in 1..Len(auto) |-> Fact("doc.auto", "doc:" \o auto[i], "1")]
     \o [i \in 1..Len(says) |-> Fact("doc.says", "says:" \o says[i][1] \o ":" \o Unraw(says[i][2]), "1")]
     \o Flat([i \in 1..Len(c.fields) |->
          LET f == c.fields[i]
              fns == IF HasDoc(SetterAttrs(f)) THEN FieldFnNames(c, f) ELSE <<>>
          IN (IF HasDoc(SlotAttrs(f)) THEN << Fact("doc.field", "doc:slot:" \o f.id, "1") >> ELSE <<>>)
             \o [j \in 1..Len(fns) |-> Fact("doc.field", "doc:fn:" \o fns[j], "1")]])

Outcome(c) == IF ~Accepts(c) THEN "errors" ELSE IF NeedsAlloc(c) THEN "mixed" ELSE "items"
Facts(c) ==
  << Fact("outcome", "outcome", Outcome(c)) >>
  \o IF Outcome(c) # "items" THEN <<>>
     ELSE StructFacts(c) \o SlotFacts(c) \o ImplFacts(c) \o FieldFnFacts(c) \o AbsentFacts(c)
          \o BuildFacts(c) \o ErrorFacts(c) \o RootFacts(c) \o DocFacts(c)

(******************************** attributes *******************************)
(* Attribute texts are unique within a configuration, so what a generated  *)
(* item carries, restricted to texts the user wrote anywhere, must be      *)
(* exactly the documented sequence.                                        *)
SrcTxt(a) ==
  CASE a.k \in {"bfa"} -> "builder_field_attr(" \o a.t \o ")"
    [] a.k \in {"bsa"} -> "builder_setter_attr(" \o a.t \o ")"
    [] a.k \in {"bsta"} -> "builder_struct_attr(" \o a.t \o ")"
    [] a.k \in {"bia"} -> "builder_impl_attr(" \o a.t \o ")"
    [] OTHER -> a.t
AllAttrs(c) == c.attrs \o Flat([i \in 1..Len(c.fields) |-> c.fields[i].attrs])
UserTexts(c) == LET s == AllAttrs(c) IN {s[i].t : i \in 1..Len(s)} \union {SrcTxt(s[i]) : i \in 1..Len(s)}
StructAttrs(c) == Texts(c.attrs, {"cfg", "allow", "bsta"})
ImplAttrs(c) == Texts(c.attrs, {"cfg", "allow", "bia"})

\* expected attribute lists: [a, k, v] with v a sequence
AttrFacts(c) ==
  << Fact("attr.struct", "struct", StructAttrs(c)), Fact("attr.impl", "impl", ImplAttrs(c)) >>
  \o Flat([i \in 1..Len(c.fields) |->
       LET f == c.fields[i]
           names == FieldFnNames(c, f)
       IN << Fact("attr.slot", "slot:" \o f.id, SlotAttrs(f)) >>
          \o [j \in 1..Len(names) |-> Fact("attr.setter", "fn:" \o names[j], SetterAttrs(f))]])
  \o LET b == BuildNames(c) \o <<EmptyName(c)>>
     IN [j \in 1..Len(b) |-> Fact("attr.none", "fn:" \o b[j], <<>>)]
  \o (IF GeneratesError(c) THEN << Fact("attr.none", "enum", <<>>) >> ELSE <<>>)
  \o (IF c.ctor THEN <<>> ELSE << Fact("attr.none", "dimpl", <<>>) >>)
=============================================================================
