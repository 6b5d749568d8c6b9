------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The runtime behaviour of a derived builder: a state machine over a few  *)
(* builder values ("handles").  A handle is [live, s] where s is the       *)
(* sequence of slot contents, one string per field:                        *)
(*    "-"        unset optional slot          "=" \o term   set slot       *)
(*    "!" \o t   slot of a declared type      "~"           skipped field  *)
(*                                                                         *)
(* Operations (records [k, h, f, a, d, v, x]):                             *)
(*   new    h          a fresh empty builder                               *)
(*   set    h f a d    call the setter of field number f with argument a   *)
(*   try    h f a d    call its fallible form; labels starting "e" fail    *)
(*   each   h f a d    call its item-adding form                           *)
(*   poke   h f a      user code assigns the slot directly                 *)
(*   clone  h d        clone handle h into d                               *)
(*   build  h v x      call build; v: "ok" or what the validator reports;  *)
(*                     x: fields whose fallible expressions fail ("*" for  *)
(*                     the struct-level default)                           *)
(* d is the handle that receives the builder a setter returns by value.    *)
(*                                                                         *)
(* Step returns the new handles, the call's outcome, the sequence of user  *)
(* code evaluations, and bounds on the number of value clones.             *)
(***************************************************************************)
EXTENDS Surface

NoHandle == [live |-> FALSE, s |-> <<>>]
EmptySlot(c, f) ==
  CASE SlotKind(c, f) = "phantom" -> "~"
    [] SlotKind(c, f) = "precise" -> "!" \o DefTerm(f.fld.ty)
    [] SlotKind(c, f) = "option" -> "-"
EmptyBuilder(c) == [live |-> TRUE, s |-> [i \in 1..Len(c.fields) |-> EmptySlot(c, c.fields[i])]]
IsSet(slot) == slot \notin {"-", "~"}
Content(slot) == SubSeq(slot, 2, Len(slot))
Op(k, h, f, a, d, v, x) == [k |-> k, h |-> h, f |-> f, a |-> a, d |-> d, v |-> v, x |-> x]

(*********************************** setters *******************************)
Wrap(c, f, term) ==
  (IF SlotKind(c, f) = "precise" THEN "!" ELSE "=")
  \o (IF Strips(c, f) THEN "Some(" \o term \o ")" ELSE term)
SetSlot(c, f, a) == Wrap(c, f, IF IntoOn(c, f) THEN IntoTerm(ArgKey(c, f), a) ELSE a)
Fails(a) == Len(a) > 0 /\ SubSeq(a, 1, 1) = "e"
TrySlot(c, f, a) == Wrap(c, f, TryTerm(ArgKey(c, f), a))
ItemTerm(f, a) == IF f.set.each_into THEN "into(" \o a \o ")" ELSE a
EachSlot(c, f, slot, a) ==
  LET item == ItemTerm(f, a) \o ";"
      first == DefTerm(ArgKey(c, f)) IN
  IF Strips(c, f)
  THEN IF slot \in {"-", "=None"} THEN "=Some(" \o first \o item \o ")"
       ELSE SubSeq(slot, 1, Len(slot) - 1) \o item \o ")"
  ELSE IF slot = "-" THEN "=" \o first \o item
       ELSE slot \o item

WithSlot(b, i, slot) == [b EXCEPT !.s[i] = slot]
SlotClones(c, b) ==
  LET n(i) == LET f == c.fields[i] IN
              IF SlotKind(c, f) = "phantom" \/ ~IsSet(b.s[i]) THEN 0
              ELSE ClonesOf(SlotTy(f), Content(b.s[i]))
      Sum[i \in 0..Len(c.fields)] == IF i = 0 THEN 0 ELSE Sum[i - 1] + n(i)
  IN Sum[Len(c.fields)]

\* the result of a setter call that stores slot in field number i of handle h
\* (vals: after a build that succeeded, the value of every field)
Result(st, out, log, cmin, cmax) ==
  [st |-> st, out |-> out, log |-> log, cmin |-> cmin, cmax |-> cmax, vals |-> <<>>]
Store(c, st, h, i, slot, d) ==
  LET p == FieldPattern(c, c.fields[i])
      b == WithSlot(st[h], i, slot)
  IN CASE p = "mutable"   -> Result([st EXCEPT ![h] = b], "same", <<>>, 0, 0)
       [] p = "immutable" -> Result([st EXCEPT ![d] = b], "ok", <<>>, 0, SlotClones(c, st[h]))
       [] p = "owned"     -> Result([[st EXCEPT ![h] = NoHandle] EXCEPT ![d] = b], "ok", <<>>, 0, 0)
\* a failing conversion: nothing changes, except that the owned pattern has consumed the builder
Fail(c, st, h, i, a) ==
  LET p == FieldPattern(c, c.fields[i]) IN
  Result(IF p = "owned" THEN [st EXCEPT ![h] = NoHandle] ELSE st, "err:" \o a, <<>>, 0,
         IF p = "immutable" THEN SlotClones(c, st[h]) ELSE 0)

(************************************ build ********************************)
(* Evaluation of one build: the validator, the struct-level default, then  *)
(* the fields in declaration order; the first failure ends it.             *)
ShowSlots(b) == Join(b.s, ",")
GenErr(c) == GeneratesError(c)
MissingOut(c, f) ==
  IF GenErr(c) THEN "U:" \o f.id \o ":`" \o f.id \o "` must be initialized"
  ELSE "CU:" \o f.id \o ":Field not initialized: " \o f.id
MessageOut(c, m) == IF GenErr(c) THEN "V:" \o m \o ":" \o m ELSE "CV:" \o m

BldTerm(f, slot) == MkTerm(f.ty, "b(" \o slot \o ")")
\* [val, log, err, cl]: the value of field f, what was evaluated, "" or the error, clones made
FieldValue(c, b, i, x) ==
  LET f == c.fields[i]
      slot == b.s[i]
      src == IF IsSet(slot) THEN WhenSet(c, f) ELSE WhenUnset(c, f)
      val(t) == [val |-> t, log |-> <<>>, err |-> "", cl |-> 0]
      ev(t, e, fallible) ==
        IF fallible /\ f.id \in Range(x)
        THEN [val |-> "", log |-> <<e>>, err |-> MessageOut(c, "fail:" \o f.id), cl |-> 0]
        ELSE [val |-> t, log |-> <<e>>, err |-> "", cl |-> 0]
  IN CASE src = "slot" -> [val(Content(slot)) EXCEPT !.cl = IF Owned(c) THEN 0 ELSE ClonesOf(f.ty, Content(slot))]
       [] src = "move" -> val(Content(slot))
       [] src = "block" -> ev(BldTerm(f, slot), "bld:" \o f.id, f.fld.build = "fallible")
       [] src = "own" /\ f.dflt = "word" -> val(DefTerm(f.ty))
       [] src = "own" /\ f.dflt = "self" ->
            ev(MkTerm(f.ty, "self(" \o b.s[1] \o ")"), "dflt:" \o f.id, FALSE)
       [] src = "own" /\ f.dflt \in {"lit", "lit0"} -> val(LitTerm(f.ty, f.dflt))
       [] src = "own" -> ev(MkTerm(f.ty, "d:" \o f.id), "dflt:" \o f.id, f.dflt = "fallible")
       [] src = "struct" -> val(MkTerm(f.ty, "sd:" \o f.id))
       [] src = "type" -> val(DefTerm(f.ty))
       [] src = "missing" -> [val |-> "", log |-> <<>>, err |-> MissingOut(c, f), cl |-> 0]

RECURSIVE FillFrom(_, _, _, _, _)
FillFrom(c, b, x, i, acc) ==
  IF i > Len(c.fields) THEN acc
  ELSE LET r == FieldValue(c, b, i, x)
           acc1 == [acc EXCEPT !.log = @ \o r.log, !.cl = @ + r.cl]
       IN IF r.err # "" THEN [acc1 EXCEPT !.err = r.err]
          ELSE FillFrom(c, b, x, i + 1,
                 [acc1 EXCEPT !.val = @ \o c.fields[i].id \o "=" \o r.val \o ";", !.vals = Append(@, r.val)])

\* [val, log, err, cl] of a whole build
RunBuild(c, b, v, x) ==
  LET vlog == IF c.bf.validate THEN <<"validate:" \o ShowSlots(b)>> ELSE <<>>
      sdlog == IF c.dflt # "none" THEN <<"sdflt">> ELSE <<>>
      start == [val |-> "", vals |-> <<>>, log |-> vlog, err |-> "", cl |-> 0]
  IN IF c.bf.validate /\ v # "ok" THEN [start EXCEPT !.err = MessageOut(c, v)]
     ELSE IF c.dflt = "fallible" /\ "*" \in Range(x)
     THEN [start EXCEPT !.log = vlog \o sdlog, !.err = MessageOut(c, "fail:*")]
     ELSE FillFrom(c, b, x, 1, [start EXCEPT !.log = vlog \o sdlog])

(************************************ steps ********************************)
CanSet(c, f) == SetterEnabled(c, f)
CanEach(c, f) == EachSetter(c, f) /\ ArgKey(c, f) \in Colls /\ f.fld.ty = "none"
Enabled(c, st, op) ==
  CASE op.k = "new" -> TRUE
    [] op.k = "set" -> st[op.h].live /\ CanSet(c, c.fields[op.f])
    [] op.k = "try" -> st[op.h].live /\ TrySetter(c, c.fields[op.f])
    [] op.k = "each" -> st[op.h].live /\ CanEach(c, c.fields[op.f])
    [] op.k = "poke" -> st[op.h].live /\ SlotKind(c, c.fields[op.f]) # "phantom"
    [] op.k = "clone" -> st[op.h].live /\ DerivesClone(c)
    [] op.k = "build" -> st[op.h].live /\ ~c.bf.skip

Step(c, st, op) ==
  CASE op.k = "new" -> Result([st EXCEPT ![op.h] = EmptyBuilder(c)], "ok", <<>>, 0, 0)
    [] op.k = "set" -> Store(c, st, op.h, op.f, SetSlot(c, c.fields[op.f], op.a), op.d)
    [] op.k = "try" -> IF Fails(op.a) THEN Fail(c, st, op.h, op.f, op.a)
                       ELSE Store(c, st, op.h, op.f, TrySlot(c, c.fields[op.f], op.a), op.d)
    [] op.k = "each" -> Store(c, st, op.h, op.f,
                              EachSlot(c, c.fields[op.f], st[op.h].s[op.f], op.a), op.d)
    [] op.k = "poke" -> Result([st EXCEPT ![op.h].s[op.f] = op.a], "ok", <<>>, 0, 0)
    [] op.k = "clone" -> Result([st EXCEPT ![op.d] = st[op.h]], "ok", <<>>, 0, 99)
    [] op.k = "build" ->
         LET r == RunBuild(c, st[op.h], op.v, op.x)
             st1 == IF Owned(c) THEN [st EXCEPT ![op.h] = NoHandle] ELSE st
         IN IF r.err = "" THEN [Result(st1, "Ok:" \o r.val, r.log, r.cl, r.cl) EXCEPT !.vals = r.vals]
            ELSE Result(st1, "Err:" \o r.err, r.log, 0,
                        IF Owned(c) \/ (c.bf.validate /\ op.v # "ok") THEN 0 ELSE SlotClones(c, st[op.h]))
=============================================================================
