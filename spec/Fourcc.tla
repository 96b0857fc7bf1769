------------------------------- MODULE Fourcc -------------------------------
(***************************************************************************)
(* Box types as text.                                                      *)
(***************************************************************************)
EXTENDS Sequences, SequencesExt, Integers

Letter(x) == (x >= 32 /\ x <= 126) \/ x = 169
Hx(d) == IF d < 10 THEN 48 + d ELSE 87 + d
TypeText(t) ==
  IF \A i \in 1..4 : Letter(t[i])
  THEN FoldLeft(LAMBDA a, x : a \o (IF x = 169 THEN <<40, 99, 41>> ELSE <<x>>), <<>>, t)
  ELSE FoldLeft(LAMBDA a, x : a \o <<Hx(x \div 16), Hx(x % 16)>>, <<48, 120>>, t)
=============================================================================
