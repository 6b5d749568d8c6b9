---------------------------- MODULE TraceSurface ----------------------------
(***************************************************************************)
(* Checks what the real derive generated (facts, attributes; see Surface)  *)
(* against the specification, one fact per step.                           *)
(* CASES: {id, cfg, ..}; OBS: the expander's reports in the same order,    *)
(* {outcome, facts, attrs, same, why}.                                     *)
(***************************************************************************)
EXTENDS Surface, Json, IOUtils
CaseSeq == ndJsonDeserialize(IOEnv.CASES)
ObsSeq == ndJsonDeserialize(IOEnv.OBS)
VARIABLES t, l
vars == <<t, l>>
Init == t \in 1..Len(CaseSeq) /\ l = 0

Get(m, k) == IF k \in DOMAIN m THEN m[k] ELSE Absent
Starts(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x
FieldOfSlot(c, k) == SelectSeq([i \in 1..Len(c.fields) |-> i], LAMBDA i : Starts(k, "slot:" \o c.fields[i].id \o ":"))
FieldOfFn(c, k) ==
  SelectSeq([i \in 1..Len(c.fields) |-> i],
            LAMBDA i : \E j \in 1..Len(FieldFnNames(c, c.fields[i])) : "fn:" \o FieldFnNames(c, c.fields[i])[j] = k)
\* some other function that could be this field's setter under another reading of the options is there
Stray(c, obs) == LET a == AbsentNames(c) IN \E i \in 1..Len(a) : Get(obs.facts, "fn:" \o a[i]) # Absent
Missing(c, obs) == LET n == FnNames(c) IN \E i \in 1..Len(n) : Get(obs.facts, "fn:" \o n[i]) = Absent
\* the fallible form of something
IsTry(k) == Starts(k, "fn:try_")

Owners(c, f, got, obs) ==
  CASE f.a = "outcome" -> {"P15"}
         \union (IF NeedsAlloc(c) \/ (got = "mixed" /\ c.lib = "none") THEN {"P19"} ELSE {})
    [] f.a \in {"b.name", "build.exist", "empty.exist"} -> {"P12"}
    [] f.a = "err.name" -> {"P12", "P10"}
    [] f.a \in {"b.vis", "slot.vis", "set.vis", "try.vis", "each.vis", "build.vis", "empty.vis", "err.vis"} -> {"P13"}
    [] f.a \in {"b.fields", "b.gen", "b.derive", "i.gen", "d.impl", "d.gen", "empty.sig"} -> {"P17"}
    [] f.a \in {"b.clone", "b.gen.clone", "i.gen.clone", "d.gen.clone"} -> {"P16"}
    [] f.a = "slot.ty" ->
         LET i == FieldOfSlot(c, f.k) IN
         IF i = <<>> THEN {"P17"}
         ELSE IF SlotKind(c, c.fields[i[1]]) = "precise" THEN {"P18"}
         ELSE IF Starts(got, "phantom") \/ SlotKind(c, c.fields[i[1]]) = "phantom" THEN {"P11"} ELSE {"P17"}
    [] f.a = "set.exist" -> IF Stray(c, obs) THEN {"P12"} ELSE {"P11"}
    [] f.a = "try.exist" -> IF Stray(c, obs) THEN {"P12"} ELSE {"P06", "P11"}
    [] f.a = "each.exist" -> IF Stray(c, obs) THEN {"P12"} ELSE {"P07", "P11"}
    [] f.a = "fn.absent" -> IF Missing(c, obs) THEN {"P12"} ELSE IF IsTry(f.k) THEN {"P06", "P11"} ELSE {"P11"}
    [] f.a = "set.pattern" -> {"P05"}
    [] f.a = "try.pattern" -> {"P05"} \union (IF Starts(f.v, "Result") THEN {"P06"} ELSE {})
    [] f.a \in {"each.pattern", "build.recv"} -> {"P05"}
    [] f.a = "set.arg" -> {"P08"} \union
         (IF FieldOfFn(c, SubSeq(f.k, 1, Len(f.k) - 4)) # <<>>
             /\ c.fields[FieldOfFn(c, SubSeq(f.k, 1, Len(f.k) - 4))[1]].fld.ty # "none" THEN {"P18"} ELSE {})
    [] f.a = "try.arg" -> {"P06"}
    [] f.a = "each.arg" -> {"P07"}
    [] f.a = "build.sig" -> {"P10", "P17"}
    [] f.a \in {"err.exist", "err.shape"} -> {"P10"}
    [] f.a = "err.std" -> {"P10", "P19"}
    [] f.a = "root" -> {"P19"}
    [] f.a \in {"doc.auto", "doc.says"} -> {"P21"}
    [] f.a = "doc.field" -> {"P14", "P21"}
    [] OTHER -> {"P14"}

Report(c, obs, f, got) ==
  PrintT("MISMATCH " \o ToJson([id |-> CaseSeq[t].id, aspect |-> f.a, key |-> f.k, want |-> f.v, got |-> got,
                                props |-> Owners(c, f, got, obs), why |-> obs.why]))
AttrReport(f, got) ==
  PrintT("MISMATCH " \o ToJson([id |-> CaseSeq[t].id, aspect |-> f.a, key |-> f.k, want |-> Join(f.v, " "),
                                got |-> Join(got, " "), props |-> {"P14"}, why |-> ""]))


(* one step per group of facts *)
Group(c, n) ==
  CASE n = 1 -> << Fact("outcome", "outcome", Outcome(c)) >>
    [] n = 2 -> StructFacts(c)
    [] n = 3 -> SlotFacts(c)
    [] n = 4 -> ImplFacts(c)
    [] n = 5 -> FieldFnFacts(c)
    [] n = 6 -> AbsentFacts(c)
    [] n = 7 -> BuildFacts(c) \o ErrorFacts(c)
    [] n = 8 -> RootFacts(c)
    [] n = 9 -> DocFacts(c)
    [] OTHER -> <<>>
Groups == 9
CheckFacts(c, obs, n) ==
  LET facts == Group(c, n) IN
  \A i \in 1..Len(facts) :
    LET f == facts[i]
        got == Get(obs.facts, f.k)
    IN f.v = got \/ Report(c, obs, f, got)
CheckAttrs(c, obs) ==
  LET af == AttrFacts(c)
      ut == UserTexts(c)
      Only(seq) == SelectSeq(seq, LAMBDA x : x \in ut)
      DeriveFirst(seq) ==
        ~\E i \in 1..Len(seq), j \in 1..Len(seq) : i < j /\ seq[i] \in ut /\ Starts(seq[j], "derive(")
  IN /\ \A i \in 1..Len(af) :
          LET f == af[i]
              seen == IF f.k \in DOMAIN obs.attrs THEN Only(obs.attrs[f.k]) ELSE <<>>
          IN f.k \notin DOMAIN obs.attrs \/ seen = f.v \/ AttrReport(f, seen)
     /\ \/ "struct" \notin DOMAIN obs.attrs
        \/ DeriveFirst(obs.attrs["struct"])
        \/ AttrReport(Fact("attr.order", "struct", <<"derives first">>), obs.attrs["struct"])
CheckSame(obs) ==
  obs.same \/ PrintT("MISMATCH " \o ToJson([id |-> CaseSeq[t].id, aspect |-> "determinism", key |-> "", want |-> "",
                                            got |-> "", props |-> {"P20"}, why |-> "two expansions differ"]))
\* about senseless input only this is known
CheckSoup(c, obs) ==
  \/ obs.outcome \in {"items", "errors", "unparsable"}
  \/ Report(c, obs, Fact("outcome", "outcome", "items or errors"), obs.outcome)
\* once the outcome is known to be something else than a builder there is nothing more to look at
Last(c, obs) == IF Outcome(c) = "items" /\ obs.outcome = "items" THEN Groups + 1 ELSE 1
Next ==
  LET c == CaseSeq[t].cfg
      obs == ObsSeq[t]
  IN /\ l < IF CaseSeq[t].soup THEN 1 ELSE Last(c, obs)
     /\ l' = l + 1 /\ t' = t
     /\ IF CaseSeq[t].soup THEN CheckSoup(c, obs) /\ CheckSame(obs)
        ELSE IF l = 0 THEN CheckFacts(c, obs, 1) /\ CheckSame(obs)
        ELSE IF l < Groups THEN CheckFacts(c, obs, l + 1)
        ELSE CheckAttrs(c, obs)
Spec == Init /\ [][Next]_vars
=============================================================================
