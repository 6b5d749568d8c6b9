------------------------------- MODULE GenRun -------------------------------
(* Writes cases {id, cfg, typed, res, ops} for the runtime layer: N random   *)
(* configurations with random histories of length LEN, and every STEPth      *)
(* member of the property's exhaustive family with a walk that takes every   *)
(* transition of its alphabet and one in PAIRS of the pairs of transitions.  *)
EXTENDS Exhaust, RenderInfo, Json, IOUtils
Prop == IOEnv.PROP
Seed == atoi(IOEnv.SEED)
N == atoi(IOEnv.N)
OpsLen == atoi(IOEnv.LEN)
FamN == atoi(IOEnv.FAM)        \* about how many family members to take; 0: none
PairSkip == atoi(IOEnv.PAIRS)
RandomCase(i) ==
  LET sd == Seed * 100003 + i * 131
      c == RunCfg(Prop, sd)
  IN [id |-> i, cfg |-> c, typed |-> WellTyped(c), res |-> Res(c), walk |-> FALSE,
      ops |-> IF WellTyped(c) THEN History(Prop, c, sd + 17, OpsLen) ELSE <<>>]
All == IF FamN = 0 THEN <<>> ELSE SetToSeq({c \in RunFamily(Prop) : WellTyped(c)})
Skip == IF Len(All) <= FamN THEN 1 ELSE (Len(All) + FamN - 1) \div FamN
Family == SelectSeq([i \in 1..Len(All) |-> i], LAMBDA i : Sampled(Seed, i, Skip))
WalkCase(k) ==
  LET c == Dress(Prop, All[Family[k]], Seed * 70001 + k * 149, FALSE)
  IN [id |-> N + k, cfg |-> c, typed |-> TRUE, res |-> Res(c), walk |-> TRUE, ops |-> Walk(c, Seed + k, PairSkip)]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> RandomCase(i)] \o [k \in 1..Len(Family) |-> WalkCase(k)])
ASSUME PrintT(<<"COUNTS", Len(All), Len(Family), N>>)
=============================================================================
