------------------------------- MODULE GenSurf -------------------------------
(* Writes cases {id, cfg, res, soup} for the surface layer: N random ones,   *)
(* about FAM of the exhaustive family, SOUP senseless ones.                  *)
EXTENDS Soup, RenderInfo, Json, IOUtils
Prop == IOEnv.PROP
Seed == atoi(IOEnv.SEED)
N == atoi(IOEnv.N)
FamN == atoi(IOEnv.FAM)
SoupN == atoi(IOEnv.SOUP)
All == IF FamN = 0 THEN <<>> ELSE SetToSeq(SurfMatrix(Prop))
Skip == IF Len(All) <= FamN THEN 1 ELSE (Len(All) + FamN - 1) \div FamN
Chosen == SelectSeq([i \in 1..Len(All) |-> i], LAMBDA i : Sampled(Seed, i, Skip))
Family == SelectSeq([i \in 1..Len(Chosen) |-> Dress(Prop, All[Chosen[i]], Seed * 70001 + i * 149, TRUE)], LAMBDA c : UniqueNames(c))
Random == [i \in 1..N |-> SurfCfg(Prop, Seed * 100003 + i * 131)]
Soups == [i \in 1..SoupN |-> SoupCfg(Seed * 100003 + i * 137)]
Good == SelectSeq(Random, LAMBDA c : UniqueNames(c)) \o Family
Cfgs == Good \o Soups
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(Cfgs) |->
         [id |-> i, cfg |-> Cfgs[i], res |-> ItemRes(Cfgs[i]), soup |-> i > Len(Good)]])
ASSUME PrintT(<<"COUNTS", Len(All), Len(Family), N>>)
=============================================================================
