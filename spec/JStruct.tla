------------------------------- MODULE JStruct -------------------------------
(***************************************************************************)
(* Judges recorded header writes and reads (C01), what a type means in a   *)
(* context (C04) and extractions (C05, C03).                               *)
(***************************************************************************)
EXTENDS Extract, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

SeeksOf(bi) ==
  LET l == <<bi.off, Add(bi.off, W(bi.hdr)), Add(bi.off, bi.size)>>
  IN  [args |-> l, rets |-> l]

\* adjacent runs of bytes as one
RECURSIVE Joined(_, _)
Joined(segs, off) ==
  IF segs = <<>> THEN <<>>
  ELSE IF segs[1].o # off THEN <<-1>>
  ELSE segs[1].b \o Joined(Tail(segs), AddN(off, Len(segs[1].b)))

JHdrW(r) ==
  LET F == [len |-> r.flen, segs |-> <<[o |-> r.off, b |-> HdrBytes(r.in)]>>]
      out == Written(r.in, r.off)
      back == ReadHdr(F, r.off)
  IN  /\ r.st = "ok"
      /\ Joined(r.segs, r.off) = HdrBytes(r.in)
      /\ r.out = out
      /\ r.pos = AddN(r.off, out.hdr)
      /\ r.seeks = SeeksOf(out)
      /\ IF back.st = "ok" THEN r.bst = "ok" /\ r.back = back.bi /\ r.bpos = PayOff(back.bi)
         ELSE r.bst # "ok"

JHdrR(r) ==
  LET h == ReadHdr(r.f, r.off) IN
  IF h.st = "ok" THEN r.st = "ok" /\ r.bi = h.bi /\ r.pos = PayOff(h.bi) /\ r.seeks = SeeksOf(h.bi)
  ELSE r.st # "ok" /\ (Le(r.f.len, r.off) => r.st = "eof")

\* ------------------------------------------------------------------ registry
JReg(r) ==
  LET def == ResolveX(r.type, r.ctx, Reg)
      known == def # NoDef
  IN  /\ r.sup = known /\ r.sup2 = known
      /\ r.nst = (IF known THEN "ok" ELSE "notfound")
      /\ r.vst = (IF known THEN "ok" ELSE "notfound")
      /\ known => r.layout = def.layout /\ r.gtype = r.type
      /\ Range(r.vers) = (IF known THEN def.versions ELSE {})
      /\ r.isv = (IF ~known THEN <<>> ELSE IF def.versions = {} THEN <<-1>> ELSE r.vers)
      /\ r.item = (r.type \in IlstItemTypes)

\* ---------------------------------------------------------------- extraction
JExtract(r) ==
  LET e == Extraction(r.f, r.from, r.paths) IN
  IF e.st # "ok" THEN ClassOk(r.st, e.st, e.vague)
  ELSE IF ~r.pay
  THEN /\ r.st = "ok" /\ Len(r.out) = Len(e.bs)
       /\ \A k \in DOMAIN e.bs : r.out[k].bi = e.bs[k].bi /\ r.out[k].ctx = e.bs[k].ctx
  ELSE LET ds == [k \in DOMAIN e.bs |-> PayloadOf(r.f, e.bs[k].bi, e.bs[k].ctx, Reg)]
           bad == SelectInSeq(ds, LAMBDA d : d.st # "ok")
       IN  IF bad # 0 THEN StAgrees(r.f, e.bs[bad].bi, e.bs[bad].ctx, Reg, ds[bad].st, r.st)
           ELSE /\ r.st = "ok" /\ Len(r.out) = Len(e.bs)
                /\ \A k \in DOMAIN e.bs : /\ r.out[k].bi = e.bs[k].bi /\ r.out[k].ctx = e.bs[k].ctx
                                          /\ r.out[k].v = ds[k].v /\ r.out[k].gt = e.bs[k].bi.type

Judge(r) ==
  CASE r.op = "hdrw" -> JHdrW(r)
    [] r.op = "hdrr" -> JHdrR(r)
    [] r.op = "reg" -> JReg(r)
    [] r.op = "extract" -> JExtract(r)

VARIABLES c, i
Stride == 8
Init == c \in 0..(Stride - 1) /\ i = 0
Next == /\ i' = (IF i = 0 THEN c + 1 ELSE i + Stride)
        /\ i' <= Len(Recs)
        /\ c' = c
Ok == i = 0 \/ Judge(Recs[i]) \/ PrintT(<<"REJECT", i>>)
=============================================================================
