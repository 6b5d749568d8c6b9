----------------------------- MODULE RenderInfo -----------------------------
(* What the renderer needs to know to write a configuration down, and the   *)
(* driver to call the code generated for it.                                *)
EXTENDS Domain
GenInfo(c) == [decl |-> G(c).decl, fdecl |-> FnDecl(c.gen), wh |-> G(c).wh, args |-> G(c).args, inst |-> G(c).inst]
\* enough for the deriving item alone
ItemRes(c) ==
  [ gen |-> GenInfo(c),
    fields |-> [i \in 1..Len(c.fields) |-> LET f == c.fields[i] IN
      [ slot |-> SlotKind(c, f), ty |-> Txt(f.ty), fldty |-> IF f.fld.ty = "none" THEN "" ELSE Txt(f.fld.ty),
        lit |-> IF f.dflt \in {"lit", "lit0"} THEN LitCode(f.ty, f.dflt) ELSE "" ]] ]
InstTxt(t) == IF t \in {"T", "U", "TI"} THEN "V" ELSE IF t = "OT" THEN "Option<V>" ELSE Txt(t)
\* names and shapes for the driver
Res(c) ==
  [ builder |-> BuilderName(c), error |-> ErrorName(c), build |-> BuildName(c), empty |-> EmptyName(c),
    owned |-> Owned(c), generror |-> GeneratesError(c), valerror |-> HasValidationError(c), clone |-> DerivesClone(c),
    gen |-> GenInfo(c),
    fields |-> [i \in 1..Len(c.fields) |-> LET f == c.fields[i] IN
      [ slot |-> SlotKind(c, f), set |-> SetNames(c, f), try |-> TryNames(c, f),
        each |-> IF CanEach(c, f) THEN EachNames(c, f) ELSE <<>>,
        item |-> IF CanEach(c, f) /\ ArgKey(c, f) = "VE" THEN "C" ELSE "It",
        pattern |-> FieldPattern(c, f), ty |-> Txt(f.ty),
        fldty |-> IF f.fld.ty = "none" THEN "" ELSE Txt(f.fld.ty),
        lit |-> IF f.dflt \in {"lit", "lit0"} THEN LitCode(f.ty, f.dflt) ELSE "",
        into |-> IF ~IntoOn(c, f) THEN "" ELSE IF IsOptTerm(ArgKey(c, f)) THEN InstTxt(TypeTable[ArgKey(c, f)].ikey)
                 ELSE "Raw" ] ] ]
=============================================================================
