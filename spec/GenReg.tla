-------------------------------- MODULE GenReg --------------------------------
(***************************************************************************)
(* Box types and the contexts in which their meaning is looked up.         *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
All == Env("GEN_ALL", 0)
Salt == Env("GEN_SALT", 1)

OnlyUser == Env("GEN_USER", 0)
Types == SetToSeq((IF OnlyUser = 1 THEN {<<102,114,101,101>>} ELSE DOMAIN BuiltinIdx) \cup {UserRegistry[k].type : k \in DOMAIN UserRegistry}
         \cup { <<0,0,0,0>>, <<0,0,0,1>>, <<0,0,0,2>>, <<0,0,0,3>>, <<0,0,1,0>>, <<0,0,1,1>>, <<1,0,0,1>>, <<255,255,255,255>>,
                <<128,0,0,1>>, <<113,113,113,113>>, <<77,79,79,86>>, <<109,111,111,0>>, <<117,117,105,100>> })
\* types whose meaning depends on the context
Multi == [t \in {Types[k] : k \in DOMAIN Types} |->
            IF t \in DOMAIN BuiltinIdx THEN \E k \in DOMAIN BuiltinIdx[t] : BuiltinRegistry[BuiltinIdx[t][k]].pred # "always" ELSE TRUE]

B(n, k) == (n \div P2[k]) % 2 = 1
Ctx(n, keys) == [qt |-> B(n, 1), wave |-> B(n, 2), ilst |-> B(n, 3), ilstmeta |-> B(n, 4), ilstfree |-> B(n, 5),
                 udta |-> B(n, 6), keys |-> keys]
Keys == <<0, 1, 2, 3, 256, 1073741823>>

VARIABLES c, i
Init == c \in 0..7 /\ i = 0
Next == i' = (IF i = 0 THEN c + 1 ELSE i + 8) /\ i' <= Len(Types) /\ c' = c
Emit ==
  i = 0 \/ LET t == Types[i] IN
    IF Multi[t]
    THEN \A n \in 0..63 : LET ks == IF TypeNum(t) \in 0..300 \/ All = 1 THEN DOMAIN Keys ELSE {((n + i + Salt) % 6) + 1}
                          IN  (All = 0 /\ (n + i + Salt) % 4 # 0 /\ TypeNum(t) \notin 0..300)
                              \/ \A k \in ks : PrintT("CASE " \o ToJson([i |-> i, type |-> t, ctx |-> Ctx(n, Keys[k])]))
    ELSE \A n \in 0..63 : (All = 0 /\ (n + i + Salt) % 16 # 0)
                              \/ PrintT("CASE " \o ToJson([i |-> i, type |-> t, ctx |-> Ctx(n, Keys[((n + i) % 6) + 1])]))
=============================================================================
