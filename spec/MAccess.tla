------------------------------ MODULE MAccess ------------------------------
(***************************************************************************)
(* Flags and brands of a box under every history of their operations, on a *)
(* small universe of bits and brands.  Ghosts: the set of flag bits and    *)
(* the set of brands that the operations should have left.  Every          *)
(* transition is printed and replayed into the implementation.             *)
(***************************************************************************)
EXTENDS Access, Json, IOUtils

Masks == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 2, 0>>, <<0, 128, 0, 0>>, <<0, 0, 2, 1>>, <<0, 128, 2, 0>>,
          <<1, 0, 0, 0>>, <<255, 0, 0, 1>>, <<255, 255, 255, 255>>, <<0, 127, 253, 254>>}
Vers == {0, 1, 255}
Names == {<<97, 97, 97, 97>>, <<98, 98, 98, 98>>, <<0, 0, 0, 0>>}

\* the 32 bits of a mask, as numbers 0..23; those above do not exist
MaskBits(m) == UNION {{8 * (4 - i) + k - 1 : k \in BitSet(m[i])} : i \in 2..4}
FlagBits(f) == MaskBits(<<0>> \o f)

VARIABLES st, set, bs, names
vars == <<st, set, bs, names>>
Starts == {<<>>} \cup {<<a, b, c>> : a \in Names, b \in Names, c \in Names}
Init == /\ st \in {FSt(full, 0, <<0, 0, 0>>) : full \in BOOLEAN} /\ set = {}
        /\ bs \in Starts
        /\ names = {bs[i] : i \in DOMAIN bs}

Print2(kind, op, x, from, to) ==
  PrintT("CASE " \o ToJson([kind |-> kind, op |-> op, x |-> x, from |-> from, to |-> to]))

Flag(op, x) ==
  LET y == FOp(st, op, x) IN
  /\ bs = <<>>
  /\ st' = y.s
  /\ set' = (CASE ~st.full -> set
               [] op = "set" -> MaskBits(x)
               [] op = "add" -> set \cup MaskBits(x)
               [] op = "remove" -> set \ MaskBits(x)
               [] OTHER -> set)
  /\ Print2("flags", op, x, st, y.s)
  /\ UNCHANGED <<bs, names>>
Brand(op, x) ==
  /\ st.flags = <<0, 0, 0>> /\ st.full /\ st.ver = 0
  /\ bs' = (IF op = "badd" THEN BAdd(bs, x) ELSE BRemove(bs, x))
  /\ names' = (IF op = "badd" THEN names \cup {x} ELSE names \ {x})
  /\ Print2("brands", op, x, bs, bs')
  /\ UNCHANGED <<st, set>>
Next == \/ \E x \in Masks, op \in {"set", "add", "remove"} : Flag(op, x)
        \/ \E v \in Vers : Flag("setv", <<0, 0, 0, v>>)
        \/ \E x \in Names, op \in {"badd", "bremove"} : Brand(op, x)
Spec == Init /\ [][Next]_vars

FlagsAreASet == st.full => FlagBits(st.flags) = set
PlainHasNone == ~st.full => /\ FOp(st, "get", <<0,0,0,0>>).a = Z8 /\ FOp(st, "getv", <<0,0,0,0>>).a = Z8
CheckIsMeet == \A m \in Masks : FOp(st, "check", m).a = (~st.full \/ set \cap MaskBits(m) # {})
BrandsAreASet == /\ names = {bs[i] : i \in DOMAIN bs}
                 /\ \A x \in Names : BHas(bs, x) = (x \in names)
=============================================================================
