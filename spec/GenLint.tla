------------------------------- MODULE GenLint -------------------------------
(* Cases {id, cfg, res, lean} for the compiler's lints (P21): N random       *)
(* configurations from the neighbourhoods of all properties in turn and FAM  *)
(* members of their families, public and documented throughout.  Of the lean *)
(* ones nothing is used but the constructor and the build method.            *)
EXTENDS Exhaust, RenderInfo, Json, IOUtils
Seed == atoi(IOEnv.SEED)
N == atoi(IOEnv.N)
FamN == atoi(IOEnv.FAM)
PropSeq == <<"P01", "P02", "P03", "P05", "P06", "P07", "P08", "P10", "P11", "P12", "P13", "P16", "P17", "P18", "P19", "P21">>
Doc(x) == [k |-> "doc", t |-> "doc=\"about " \o x \o "\""]
\* names say nothing to lints if they are written as usual; macros and functions hide items from them
Public(c) ==
  [c EXCEPT !.vis = "pub", !.env = IF @ \in {"macro", "local"} THEN "std" ELSE @, !.attrs = <<Doc("it")>>,
            !.fields = [i \in 1..Len(c.fields) |-> [c.fields[i] EXCEPT !.attrs = <<Doc("f" \o ToString(i))>>]]]
RandomCase(i) == Public(RunCfg(PropSeq[(i % Len(PropSeq)) + 1], Seed * 100003 + i * 131))
FamSeq == SetToSeq({c \in M05 \union M07 \union M12 \union M13 \union M16 \union M17 \union M18 \union M21 :
                    WellTyped(c) /\ c.crate = "none" /\ c.lib = "std"})
Skip == IF Len(FamSeq) <= FamN THEN 1 ELSE (Len(FamSeq) + FamN - 1) \div FamN
Family == IF FamN = 0 THEN <<>> ELSE SelectSeq([i \in 1..Len(FamSeq) |-> i], LAMBDA i : Sampled(Seed, i, Skip))
Cfgs == SelectSeq([i \in 1..N |-> RandomCase(i)] \o [k \in 1..Len(Family) |-> Public(Dress("P21", FamSeq[Family[k]], Seed * 70001 + k * 149, FALSE))],
                  WellTyped)
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(Cfgs) |-> [id |-> i, cfg |-> Cfgs[i], res |-> Res(Cfgs[i]), lean |-> i % 2 = 0]])
=============================================================================
