-------------------------------- MODULE JText --------------------------------
(***************************************************************************)
(* Judges recorded Stringify calls.                                        *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

\* known finding item-flags: the Flags of a numbered item are printed as zero
AsKnown(v) == [v EXCEPT !.Flags = <<0, 0, 0>>]

\* 0: right, 1: right but for item-flags, 2: wrong
JFF == [q \in Any |->
  LET r == q[1]
      def == ResolveX(r.type, r.ctx, UserRegistry)
      All(v) == \A k \in DOMAIN r.texts :
             /\ r.texts[k].st = "ok"
             /\ Matches(r.texts[k].b, TextOf(def.layout, v, r.ctx, r.texts[k].ind))
  IN  IF def = NoDef THEN IF \A k \in DOMAIN r.texts : r.texts[k].st = "notfound" THEN 0 ELSE 2
      ELSE IF All(r.v) THEN 0
      ELSE IF def.layout = "Item" /\ All(AsKnown(r.v)) THEN 1 ELSE 2]

Ver3(i) == LET x == JFF[<<Recs[i]>>] IN
  CASE x = 0 -> TRUE
    [] x = 1 -> PrintT(<<"KNOWN", i, "item-flags">>)
    [] x = 2 -> PrintT(<<"REJECT", i>>)

VARIABLES c, i
Stride == 8
Init == c \in 0..(Stride - 1) /\ i = 0
Next == /\ i' = (IF i = 0 THEN c + 1 ELSE i + Stride)
        /\ i' <= Len(Recs)
        /\ c' = c
Ok == i = 0 \/ Ver3(i)
=============================================================================
