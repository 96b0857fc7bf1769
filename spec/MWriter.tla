------------------------------- MODULE MWriter -------------------------------
(***************************************************************************)
(* Every short use of the writer: boxes of every header form are started   *)
(* (with a right or wrong size in the description), filled, revisited and  *)
(* ended.  The output of a balanced use must be the tree of boxes that was *)
(* built: each box from its start to where it was ended, nothing lost.     *)
(*                                                                         *)
(* t is the ghost: the boxes started, [off, end, depth, parent], and bytes *)
(* written, [at, b].  Each use that is balanced is printed for the driver. *)
(***************************************************************************)
EXTENDS Writer, Json, IOUtils

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
MaxOps == Env("M_OPS", 6)
Printing == Env("M_PRINT", 1)

Ty == <<116, 101, 115, 116>>
Bi(size, hdr, ext) == [off |-> Z8, size |-> W(size), hdr |-> hdr, type |-> Ty, ext |-> ext]
\* small, large, open-ended, a size that is far off, a size that needs the large form
Starts == << Bi(8, 8, FALSE), Bi(0, 16, FALSE), Bi(8, 8, TRUE), Bi(77, 8, FALSE), [Bi(0, 8, FALSE) EXCEPT !.size = <<0,0,0,2,0,0,0,1>>] >>
Datas == << <<170>>, <<1, 2, 3>> >>
SrcBytes == <<0,0,0,11,99,111,112,121,5,6,7>>
Src == FileOf(SrcBytes)
SrcBi == [off |-> Z8, size |-> W(11), hdr |-> 8, type |-> <<99,111,112,121>>, ext |-> FALSE]

VARIABLES w, ops, t, bs, moved
vars == <<w, ops, t, bs, moved>>
Init == w = WInit /\ ops = <<>> /\ t = <<>> /\ bs = <<>> /\ moved = FALSE

\* positions of open boxes in t
OpenBoxes == SelectSeq([k \in DOMAIN t |-> k], LAMBDA k : t[k].end = <<>>)

Start(k) ==
  LET x == WStart(w, Starts[k]) IN
  /\ w' = x.w /\ ops' = Append(ops, <<"start", k>>) /\ bs' = bs /\ UNCHANGED moved
  /\ t' = Append(t, [off |-> x.v.off, end |-> <<>>, hdr |-> x.v.hdr, ext |-> x.v.ext,
                     up |-> IF OpenBoxes = <<>> THEN 0 ELSE OpenBoxes[Len(OpenBoxes)]])
Write(k) ==
  /\ w' = WWrite(w, Datas[k]).w /\ ops' = Append(ops, <<"write", k>>)
  /\ bs' = Append(bs, [at |-> w.out.pos, b |-> Datas[k]]) /\ t' = t /\ UNCHANGED moved
Copy ==
  /\ w' = WCopy(w, Src, SrcBi).w /\ ops' = Append(ops, <<"copy", 0>>)
  /\ bs' = Append(bs, [at |-> w.out.pos, b |-> SrcBytes]) /\ t' = t /\ UNCHANGED moved
\* over the end of the output, and back to the payload of the innermost box
Seek(k) ==
  /\ w.stk # <<>>
  /\ LET off == IF k = 1 THEN <<2>> ELSE <<PayOff(w.stk[Len(w.stk)])>>
         x == IF k = 1 THEN WSeek(w, W(2), 2) ELSE WSeek(w, off[1], 0)
     IN  w' = x.w /\ ops' = Append(ops, <<"seek", IF k = 1 THEN W(2) ELSE off[1], IF k = 1 THEN 2 ELSE 0>>)
  /\ moved' = (moved \/ k = 2)
  /\ UNCHANGED <<t, bs>>
End ==
  /\ w.stk # <<>>
  /\ LET x == WEnd(w)  j == OpenBoxes[Len(OpenBoxes)] IN
     /\ x.st = "ok" /\ w' = x.w /\ ops' = Append(ops, <<"end">>)
     /\ t' = [t EXCEPT ![j].end = <<w.out.pos>>]
  /\ UNCHANGED <<bs, moved>>
Next == /\ Len(ops) < MaxOps
        /\ \/ \E k \in DOMAIN Starts : Start(k)
           \/ \E k \in DOMAIN Datas : Write(k)
           \/ Copy
           \/ \E k \in {1, 2} : Seek(k)
           \/ End
Spec == Init /\ [][Next]_vars

Out == [len |-> w.out.len, segs |-> w.out.segs]
\* a box that was ended has, in the output, the header of its extent - unless it was written over later
Balanced == w.stk = <<>> /\ t # <<>>
Straight == ~moved
Headers == (Balanced /\ Straight) =>
  \A k \in DOMAIN t :
    LET h == ReadHdr(Out, t[k].off) IN
    /\ h.st = "ok" /\ h.bi.hdr = t[k].hdr /\ h.bi.ext = t[k].ext /\ h.bi.type = Ty
    /\ ~t[k].ext => EndOff(h.bi) = t[k].end[1]
Nested == (Balanced /\ Straight) =>
  \A k \in DOMAIN t : t[k].up # 0 =>
    LET p == t[t[k].up] IN Le(AddN(p.off, p.hdr), t[k].off) /\ Le(t[k].end[1], p.end[1])
Kept == (Balanced /\ Straight) => \A k \in DOMAIN bs : FBytes(Out, bs[k].at, Len(bs[k].b)) = bs[k].b
\* the runs are what a file system would hold
Tidy == \A k \in DOMAIN w.out.segs :
  /\ w.out.segs[k].b # <<>>
  /\ k > 1 => Lt(AddN(w.out.segs[k - 1].o, Len(w.out.segs[k - 1].b)), w.out.segs[k].o)
  /\ Le(AddN(w.out.segs[k].o, Len(w.out.segs[k].b)), w.out.len)
StackTop == w.stk = <<>> \/ Len(w.stk) = Len(OpenBoxes)
Emit == (Balanced /\ Printing = 1) => PrintT("CASE " \o ToJson([ops |-> ops]))
=============================================================================
