------------------------------ MODULE TraceLint ------------------------------
(***************************************************************************)
(* Checks what the compiler's lints say about generated code.              *)
(* CASES: see GenLint; OBS: in the same order {lints: <<[code, text]>>},   *)
(* the warnings whose place is the deriving item or what it expands to.    *)
(***************************************************************************)
EXTENDS Surface, Json, IOUtils
CaseSeq == ndJsonDeserialize(IOEnv.CASES)
ObsSeq == ndJsonDeserialize(IOEnv.OBS)
VARIABLES t, l
vars == <<t, l>>
Init == t \in 1..Len(CaseSeq) /\ l = 0
\* A private builder without a build method is for its user to read.
Allowed(c) == IF c.bf.skip THEN {"dead_code"} ELSE {}
Next ==
  LET o == ObsSeq[t].lints IN
  /\ l < Len(o)
  /\ l' = l + 1 /\ t' = t
  /\ \/ o[l + 1].code \in Allowed(CaseSeq[t].cfg)
     \/ PrintT("MISMATCH " \o ToJson([id |-> CaseSeq[t].id, aspect |-> "lint", key |-> o[l + 1].code, want |-> "", got |-> o[l + 1].text,
                                       props |-> {"P21"}, why |-> ""]))
Spec == Init /\ [][Next]_vars
=============================================================================
