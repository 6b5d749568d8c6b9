----------------------------- MODULE TracePairs -----------------------------
(* Compares what the real derive generated for the two members of each pair  *)
(* (module GenPairs). OBS: {id, a, b} with the expander's reports.           *)
EXTENDS Surface, Json, IOUtils
CaseSeq == ndJsonDeserialize(IOEnv.CASES)
ObsSeq == ndJsonDeserialize(IOEnv.OBS)
VARIABLES t, l
vars == <<t, l>>
Init == t \in 1..Len(CaseSeq) /\ l = 0
Get(m, k) == IF k \in DOMAIN m THEN m[k] ELSE Absent
Str(v) == ToString(v)
Report(aspect, k, a, b) ==
  PrintT("MISMATCH " \o ToJson([id |-> CaseSeq[t].id, aspect |-> CaseSeq[t].kind \o ": " \o aspect, key |-> k,
                                want |-> Str(a), got |-> Str(b), props |-> {"P20"}, why |-> ObsSeq[t].b.why]))
SameMap(aspect, a, b) ==
  \A k \in DOMAIN a \union DOMAIN b : Str(Get(a, k)) = Str(Get(b, k)) \/ Report(aspect, k, Get(a, k), Get(b, k))
\* everything that is generated for field i
Own(c, i) ==
  LET f == c.fields[i]
      names == FieldFnNames(c, f)
  IN {"fn:" \o names[j] : j \in 1..Len(names)} \union {"slot:" \o f.id, "init:Self:" \o f.id, "init:" \o c.name \o ":" \o f.id}
Next ==
  LET c == CaseSeq[t]
      a == ObsSeq[t].a
      b == ObsSeq[t].b
  IN /\ l < 3 /\ t' = t /\ l' = l + 1
     /\ IF c.kind = "independent"
        THEN l > 0 \/ a.outcome # "items" \/ b.outcome # "items"
             \/ \A k \in Own(c.cfg, c.field) : Get(a.bodies, k) = Get(b.bodies, k)
                                               \/ Report("code", k, Get(a.bodies, k), Get(b.bodies, k))
        ELSE CASE l = 0 -> SameMap("fact", a.facts, b.facts)
               [] l = 1 -> SameMap("attributes", a.attrs, b.attrs)
               [] l = 2 -> SameMap("code", a.bodies, b.bodies)
Spec == Init /\ [][Next]_vars
=============================================================================
