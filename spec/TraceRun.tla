------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Checks traces recorded from the real generated code against Machine.    *)
(* CASES: the generated cases, EVENTS: one record per executed operation,  *)
(* in order: {tid, out, log, clones, early, post}.  Every trace is one     *)
(* behaviour of this specification; a step that the Machine does not allow *)
(* is reported as a mismatch with the aspects of behaviour that differ and *)
(* the properties that those belong to, and the trace goes on from the     *)
(* state that was observed.                                                *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils
CaseSeq == ndJsonDeserialize(IOEnv.CASES)
EventSeq == ndJsonDeserialize(IOEnv.EVENTS)      \* [tid, events] per trace
VARIABLES t, l, st
vars == <<t, l, st>>

Start == [h \in 1..3 |-> NoHandle]
CaseOf(n) == CaseSeq[EventSeq[n].case]
Trace(n) == EventSeq[n].events

Init == t \in 1..Len(EventSeq) /\ l = 0 /\ st = Start

(*************************** who owns a difference *************************)
M(a, props) == [a |-> a, p |-> props]
Starts(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x
PatProps(f, c) == {"P05"}

\* differences of a call that stores into field i of handle op.h, result in handle d
StoreDiffs(c, before, op, want, ev, own) ==
  LET f == c.fields[op.f]
      p == FieldPattern(c, f)
      d == IF p = "mutable" THEN op.h ELSE op.d
      post == ev.post
      ok == want.out \in {"ok", "same"}
      lens == \A h \in 1..3 : post[h].live => Len(post[h].s) = Len(c.fields)
  IN (IF ev.out # want.out
      THEN {M("outcome", IF ok /\ ev.out \in {"ok", "same", "other"} THEN own \union {"P05"} ELSE own)} ELSE {})
     \union (IF ev.log # <<>> THEN {M("evaluations", own \union {"P03"})} ELSE {})
     \union (IF ev.clones < want.cmin \/ ev.clones > want.cmax THEN {M("clones", {"P16"})} ELSE {})
     \union (IF ~lens THEN {M("slots", own)}
             ELSE IF ok
             THEN (IF ~post[d].live THEN {M("result", own \union {"P05"})}
                   ELSE (IF post[d].s[op.f] # want.st[d].s[op.f]
                         THEN {M("value", own
                               \union (IF post[d].s[op.f] = before[op.h].s[op.f] THEN {"P05"} ELSE {})
                               \union (IF SlotKind(c, f) = "precise" THEN {"P18"} ELSE {})
                               \union (IF op.k = "set" /\ (IntoOn(c, f) \/ StripOn(c, f)) THEN {"P08"} ELSE {}))}
                         ELSE {})
                        \union (IF \E j \in 1..Len(c.fields) : j # op.f /\ post[d].s[j] # want.st[d].s[j]
                                THEN {M("other field", own \union {"P01", "P05"})} ELSE {}))
                  \union (IF \E h \in 1..3 : h # d /\ post[h] # want.st[h]
                          THEN {M("other builder", own \union {"P05"})} ELSE {})
             ELSE IF post # want.st THEN {M("changed on failure", own)} ELSE {})

FieldNamed(c, got) ==
  SelectSeq([i \in 1..Len(c.fields) |-> i],
            LAMBDA i : Starts(got, "Err:U:" \o c.fields[i].id \o ":") \/ Starts(got, "Err:CU:" \o c.fields[i].id \o ":"))
\* the part of an Ok outcome that belongs to field i
ValueProps(c, b, i) ==
  LET f == c.fields[i]
      src == IF IsSet(b.s[i]) THEN WhenSet(c, f) ELSE WhenUnset(c, f)
  IN CASE src = "slot" -> {"P01"} \union (IF f.dflt # "none" \/ c.dflt # "none" THEN {"P03"} ELSE {})
       [] src \in {"move", "block"} -> {"P18"}
       [] src = "missing" -> {"P02"}
       [] OTHER -> {"P03"} \union (IF ~FieldEnabled(c, f) THEN {"P11"} ELSE {})
\* fields whose text in the observed Ok outcome is not the expected one
RECURSIVE WrongFrom(_, _, _, _, _, _)
WrongFrom(c, b, x, rest, i, acc) ==
  IF i > Len(c.fields) THEN acc
  ELSE LET want == c.fields[i].id \o "=" \o FieldValue(c, b, i, x).val \o ";" IN
       IF Starts(rest, want) THEN WrongFrom(c, b, x, SubSeq(rest, Len(want) + 1, Len(rest)), i + 1, acc)
       ELSE acc \union {i}
Veto(c, op) == c.bf.validate /\ op.v # "ok"
HasBld(c) == \E f \in Fields(c) : FieldEnabled(c, f) /\ f.fld.build # "none"

OutcomeProps(c, before, op, want, got) ==
  LET b == before[op.h]
      wok == Starts(want, "Ok:")
      gok == Starts(got, "Ok:")
      wmiss == Starts(want, "Err:U:") \/ Starts(want, "Err:CU:")
      gmiss == FieldNamed(c, got)
  IN IF wok /\ gok
     THEN LET w == WrongFrom(c, b, op.x, SubSeq(got, 4, Len(got)), 1, {})
          IN IF w = {} THEN {"P01"} ELSE UNION {ValueProps(c, b, i) : i \in w}
     ELSE IF wok
     THEN {"P02"} \union (IF c.bf.validate THEN {"P09"} ELSE {})
          \union (IF gmiss # <<>> THEN ValueProps(c, b, gmiss[1]) ELSE {"P01", "P03", "P18"})
     ELSE IF Veto(c, op) THEN {"P09", "P10"} \union (IF gok THEN {"P02"} ELSE {})
     ELSE IF wmiss
     THEN {"P10"} \union (IF gmiss = <<>> \/ Starts(want, "Err:CU:") # Starts(got, "Err:CU:") THEN {"P02"}
                          ELSE IF ~Starts(want, "Err:U:" \o c.fields[gmiss[1]].id \o ":")
                                  /\ ~Starts(want, "Err:CU:" \o c.fields[gmiss[1]].id \o ":") THEN {"P02"} ELSE {})
     ELSE {"P10"} \union (IF gok \/ gmiss # <<>> THEN {"P03"} ELSE {}) \union (IF HasBld(c) THEN {"P18"} ELSE {})

Without(log, pre) == SelectSeq(log, LAMBDA x : ~Starts(x, pre))
Only(log, pre) == SelectSeq(log, LAMBDA x : Starts(x, pre))
LogProps(c, op, want, got) ==
  (IF Only(want, "validate:") # Only(got, "validate:") THEN {"P09"} ELSE {})
  \union (IF c.bf.validate /\ (got = <<>> \/ ~Starts(got[1], "validate:")) THEN {"P09"} ELSE {})
  \union (IF Veto(c, op) THEN {"P09"} ELSE {})
  \union (IF Only(want, "bld:") # Only(got, "bld:") THEN {"P18"} ELSE {})
  \union (IF Only(want, "dflt:") # Only(got, "dflt:") \/ Only(want, "sdflt") # Only(got, "sdflt") THEN {"P03"} ELSE {})
  \union (IF Without(want, "validate:") # Without(got, "validate:") THEN {"P03"} ELSE {})

BuildDiffs(c, before, op, want, ev) ==
  (IF ev.out # want.out THEN {M("outcome", OutcomeProps(c, before, op, want.out, ev.out))} ELSE {})
  \union (IF ev.log # want.log THEN {M("evaluations", LogProps(c, op, want.log, ev.log))} ELSE {})
  \union (IF ev.post # want.st THEN {M("builder changed", {"P04"})} ELSE {})
  \union (IF ev.out = want.out /\ (ev.clones < want.cmin \/ ev.clones > want.cmax) THEN {M("clones", {"P16"})} ELSE {})
  \union (IF c.bf.validate /\ ev.early > 0 THEN {M("read before validation", {"P09"})} ELSE {})

NewProps(c, ev, op) ==
  IF ~ev.post[op.h].live \/ Len(ev.post[op.h].s) # Len(c.fields) THEN {"P17"}
  ELSE UNION {IF SlotKind(c, c.fields[i]) = "precise" THEN {"P18"}
              ELSE IF SlotKind(c, c.fields[i]) = "phantom" THEN {"P11"} ELSE {"P17"}
              : i \in {i \in 1..Len(c.fields) : ev.post[op.h].s[i] # EmptySlot(c, c.fields[i])}}
Diffs(c, before, op, want, ev) ==
  IF ev.out = "panic"
  THEN {M("panic", CASE op.k = "build" -> {"P02", "P04"} [] op.k = "set" -> {"P01", "P05", "P08"}
                     [] op.k = "try" -> {"P06"} [] op.k = "each" -> {"P07"} [] op.k = "new" -> {"P17"}
                     [] OTHER -> {"P04"})}
  ELSE CASE op.k = "set" -> StoreDiffs(c, before, op, want, ev, {"P01"})
         [] op.k = "try" -> StoreDiffs(c, before, op, want, ev, {"P06"})
         [] op.k = "each" -> StoreDiffs(c, before, op, want, ev, {"P07"})
         [] op.k = "build" -> BuildDiffs(c, before, op, want, ev)
         [] op.k = "new" -> IF ev.post # want.st \/ ev.log # <<>> THEN {M("not empty", NewProps(c, ev, op))} ELSE {}
         [] op.k = "clone" -> IF ev.post # want.st \/ ev.log # <<>> THEN {M("clone differs", {"P04"})} ELSE {}
         [] OTHER -> IF ev.post # want.st THEN {M("harness", {})} ELSE {}

Report(n, k, c, before, op, want, ev, ds) ==
  \A d \in ds : PrintT("MISMATCH " \o ToJson(
     [id |-> CaseOf(n).id, at |-> k, op |-> op, aspect |-> op.k \o ": " \o d.a, props |-> d.p,
      before |-> before,
      want |-> [out |-> want.out, log |-> want.log, clones |-> <<want.cmin, want.cmax>>, post |-> want.st],
      got |-> [out |-> ev.out, log |-> ev.log, clones |-> ev.clones, early |-> ev.early, post |-> ev.post]]))

Next ==
  /\ l < Len(Trace(t))
  /\ l' = l + 1
  /\ t' = t
  /\ LET c == CaseOf(t).cfg
         op == CaseOf(t).ops[l + 1]
         ev == Trace(t)[l + 1]
     IN IF ~Enabled(c, st, op)                   \* only after a mismatch
        THEN st' = ev.post /\ PrintT("UNCHECKED")
        ELSE LET want == Step(c, st, op)
                 ds == Diffs(c, st, op, want, ev)
             IN st' = ev.post /\ (ds = {} \/ Report(t, l + 1, c, st, op, want, ev, ds))
Spec == Init /\ [][Next]_vars
=============================================================================
