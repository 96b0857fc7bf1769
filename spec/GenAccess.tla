------------------------------ MODULE GenAccess ------------------------------
(***************************************************************************)
(* Values for the getters: every field holds a number of its own, whether  *)
(* or not it is there in the version of the box; any version.              *)
(***************************************************************************)
EXTENDS Gen, Access, Json, IOUtils

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
Count2 == Env("GEN_COUNT", 300)
Salt == Env("GEN_SALT", 1)
Layouts2 == SetToSeq(DOMAIN GetterTab)
NL2 == Len(Layouts2)

RECURSIVE RawStruct(_, _)
RawOne(k, f, r) ==
  CASE k = "uint" -> GenRaw(r, f.w)
    [] k = "int" -> SExt(GenRaw(r, f.w), f.w)
    [] k = "bool" -> Pick(r, 2) = 0
    [] k = "str" -> GenStr(r)
    [] k = "struct" -> RawStruct(f.sub, r)
RawField(f, r) ==
  CASE f.k = "ptr" -> <<RawOne("struct", f, r)>>
    [] f.k \in {"arr", "slice"} ->
         LET n == IF f.k = "arr" THEN f.cnt ELSE 1 + Pick(r, 4)
         IN  IF f.e = "uint" /\ f.w = 8 THEN GenBytes(r, n)
             ELSE [i \in 1..n |-> RawOne(f.e, f, Sub2(r, i))] \o <<>>
    [] OTHER -> RawOne(f.k, f, r)
RawStruct(s, r0) ==
  FoldLeft(LAMBDA acc, f : [v |-> [acc.v EXCEPT ![f.n] = RawField(f, Nx(acc.r))], r |-> Nx(Sub2(acc.r, 1))],
           [v |-> ZeroTab[s], r |-> r0], Layout[s]).v
RawF == [q \in Any |-> RawStruct(q[1], q[2])]

Case(i) ==
  LET s == Layouts2[(i % NL2) + 1]
      r == Nx(Nx(Seed(Salt * 131 + i)))
      v == RawF[<<s, r>>]
      \* mostly the versions that exist
      w == IF HasFull(v) THEN [v EXCEPT !.FullBox.Version = W(OneOf(Nx(r), <<0, 0, 0, 1, 1, 1, 2, 254, 255, Byte(r, 3)>>))]
           ELSE v
  IN  [i |-> i, layout |-> s, v |-> w,
       n |-> FoldLeft(LAMBDA m, g : IF Indexed(g) THEN Len(ListOf(w, g)) ELSE m, 0, GetterTab[s])]

VARIABLES c, i
Init == c \in 0..7 /\ i = -1
Next == /\ i' = (IF i = -1 THEN c ELSE i + 8)
        /\ i' < Count2
        /\ c' = c
Emit == i = -1 \/ PrintT("CASE " \o ToJson(Case(i)))
=============================================================================
