-------------------------------- MODULE Chooser --------------------------------
(* A small deterministic hash, so that scenario generation depends on      *)
(* nothing but the seed (sd) and the position (k) of each choice.          *)
EXTENDS Sequences, Integers
RECURSIVE Mix(_, _, _)
Mix(x, k, n) ==
  IF n = 0 THEN x ELSE Mix((x * x + 31 * k + 7 * n + 17) % 44497, (k * 29 + x) % 44497, n - 1)
Hash(sd, k) == Mix(((sd % 44497) * 13 + k * 7 + 5) % 44497, ((sd \div 1000) * 101 + k * 3 + (sd % 977)) % 44497, 4)
\* a number in 0..n-1
Num(sd, k, n) == Hash(sd, k) % n
Pick(sd, k, s) == s[Num(sd, k, Len(s)) + 1]
\* true in pct of 100 cases
Chance(sd, k, pct) == Num(sd, k, 100) < pct
\* one of every n consecutive numbers, so that a sample is spread but has no period
Sampled(sd, i, n) == n = 1 \/ i % n = Num(sd, i \div n, n)
=============================================================================
