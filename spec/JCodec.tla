-------------------------------- MODULE JCodec --------------------------------
(***************************************************************************)
(* Judges recorded decode and encode calls of the implementation.          *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

ReEncodes(r, d) ==        \* re-encoding of the decoded value
  \/ r.est = "none"
  \/ LET e == Encode(ResolveX(r.type, r.ctx, UserRegistry).layout, d.v, r.ctx)
     IN  r.est = e.st /\ (e.st = "ok" => r.eb = e.b /\ r.en = Len(e.b))

JDec(r) ==
  LET def == ResolveX(r.type, r.ctx, UserRegistry) IN
  IF def = NoDef THEN r.st = "notfound"
  ELSE LET d == Decode(def, r.p, r.ctx) IN
       CASE d.st = "ok"    -> r.st = "ok" /\ r.n = d.n /\ r.v = d.v /\ ReEncodes(r, d)
         [] d.st = "unsup" -> r.st = "unsup" /\ r.pos = 0
         [] d.st = "err"   -> r.st = "err" \/ (FirstIsFull(def.layout) /\ Len(r.p) < 4 /\ r.st = "unsup")

JMem(r) == ~r.bigalloc

JEnc(r) ==
  LET def == ResolveX(r.type, r.ctx, UserRegistry) IN
  IF def = NoDef THEN r.st = "notfound"
  ELSE LET e == Encode(def.layout, r.v, r.ctx) IN
       IF e.st # "ok" THEN r.st = "err"
       ELSE /\ r.st = "ok" /\ r.b = e.b /\ r.n = Len(e.b)
            /\ LET d == Decode(def, e.b, r.ctx) IN
               /\ r.dst = d.st
               /\ d.st = "ok" => r.dn = d.n /\ r.dv = d.v
            /\ r.mode \in {0, 3} => r.dst = "ok" /\ r.dv = r.v /\ r.dn = Len(e.b)

Judge(r) ==
  CASE r.op = "dec" -> JDec(r) /\ JMem(r)
    [] r.op = "enc" -> JEnc(r)

VARIABLES c, i
Stride == 8
Init == c \in 0..(Stride - 1) /\ i = 0
Next == /\ i' = (IF i = 0 THEN c + 1 ELSE i + Stride)
        /\ i' <= Len(Recs)
        /\ c' = c
Ok == i = 0 \/ Judge(Recs[i]) \/ PrintT(<<"REJECT", i>>)
=============================================================================
