------------------------------ MODULE GenPairs ------------------------------
(* Writes pairs {id, kind, field, cfg, res, alt, altres} of configurations:  *)
(*  spelling     the same one twice, to be written in two ways               *)
(*  inherit      alt has every inherited setting written out                 *)
(*  independent  alt has other options on all fields but number `field`      *)
EXTENDS Variants, RenderInfo, Json, IOUtils
Seed == atoi(IOEnv.SEED)
N == atoi(IOEnv.N)
FamN == atoi(IOEnv.FAM)
Pool == <<"P20", "P11", "P08", "P13", "P12", "P06", "P14", "P05", "P18", "P17", "P10", "P03">>
BaseCfg(i) == LET p == Pool[(i % Len(Pool)) + 1] IN SurfCfg(p, Seed * 100003 + i * 131)
All == IF FamN = 0 THEN <<>> ELSE SetToSeq(M11 \union M08 \union M12)
Skip == IF Len(All) <= FamN THEN 1 ELSE (Len(All) + FamN - 1) \div FamN
Family == SelectSeq([i \in 1..Len(All) |-> i], LAMBDA i : Sampled(Seed, i, Skip) /\ Accepts(All[i]) /\ UniqueNames(All[i]))
Configs == SelectSeq([i \in 1..N |-> BaseCfg(i)], LAMBDA c : UniqueNames(c)) \o [k \in 1..Len(Family) |-> All[Family[k]]]
Row(kind, i, c, d) == [id |-> 0, kind |-> kind, field |-> i, cfg |-> c, res |-> ItemRes(c), alt |-> d, altres |-> ItemRes(d)]
Rows(n) ==
  LET c == Configs[n]
      i == IF c.fields = <<>> THEN 0 ELSE Num(Seed + n, 5, Len(c.fields)) + 1
      p == Perturb("P20", c, i, Seed * 100003 + n * 17, 12)
  IN <<Row("spelling", 0, c, c)>>
     \o (IF Accepts(c) THEN <<Row("inherit", 0, c, Explicit(c))>> ELSE <<>>)
     \o (IF ~Accepts(c) \/ Len(c.fields) < 2 THEN <<>>
         ELSE IF ~Good(c, i) \/ ~p.ok THEN <<>> ELSE <<Row("independent", i, c, p.cfg)>>)
Raw == Flat([n \in 1..Len(Configs) |-> Rows(n)])
Present(c) == SelectSeq(Facts(c), LAMBDA f : f.v # Absent)
\* the specification itself has to agree that they mean the same
ASSUME \A n \in 1..Len(Raw) : Raw[n].kind = "inherit" =>
         /\ Present(Raw[n].cfg) = Present(Raw[n].alt) \/ PrintT(<<"SPEC-DISAGREES", Raw[n].cfg>>)
ASSUME ndJsonSerialize(IOEnv.OUT, [n \in 1..Len(Raw) |-> [Raw[n] EXCEPT !.id = n]])
ASSUME PrintT(<<"COUNTS", Len(All), Len(Family), N>>)
=============================================================================
