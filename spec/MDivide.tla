------------------------------- MODULE MDivide -------------------------------
(***************************************************************************)
(* mp4tool divide as a transition system over the top level of a file: the *)
(* track of the last fragment owns the media data that follows.  TLC runs  *)
(* it on every short sequence of boxes and checks that nothing is lost,    *)
(* mixed up or reordered, that the init segments are trees with the right  *)
(* track in them, and that the definition recorded runs are judged by      *)
(* (Divide!Divided) says the same.  Every file is printed for the driver.  *)
(***************************************************************************)
EXTENDS Divide, Writer, Json, IOUtils

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
MaxLen == Env("M_LEN", 4)

Bx0(t, p) == SubSeq(W(8 + Len(p)), 5, 8) \o t \o p
Z(layout) == Encode(layout, ZeroTab[layout], CtxEmpty).b
V(layout, f) == Encode(layout, f, CtxEmpty).b
Tkhd(id) == Bx0(t_tkhd, V("Tkhd", [ZeroTab["Tkhd"] EXCEPT !.TrackID = W(id)]))
Mdhd == Bx0(t_mdhd, V("Mdhd", [ZeroTab["Mdhd"] EXCEPT !.Timescale = W(10)]))
TrakOf(id, entry) == Bx0(t_trak, Tkhd(id) \o Bx0(t_mdia, Mdhd \o Bx0(t_minf, Bx0(t_stbl, Bx0(t_stsd, Z("Stsd") \o entry)))))
Trak1 == TrakOf(1, Bx0(t_avc1, Z("VisualSampleEntry")))
Trak2 == TrakOf(2, Bx0(t_mp4a, Z("AudioSampleEntry")))
Trak3 == TrakOf(3, <<>>)
Mvhd == Bx0(t_mvhd, Z("Mvhd"))
Moov == Bx0(t_moov, Mvhd \o Trak1 \o Trak3 \o Trak2)
MoovFor(id) == Bx0(t_moov, Mvhd \o (IF id = 1 THEN Trak1 ELSE Trak2))
Tfhd(id) == Bx0(t_tfhd, V("Tfhd", [ZeroTab["Tfhd"] EXCEPT !.TrackID = W(id), !.FullBox.Flags = <<0, 0, 8>>, !.DefaultSampleDuration = W(4)]))
Trun2 == Bx0(t_trun, <<0, 0, 0, 0, 0, 0, 0, 2>>)
Trun1 == Bx0(t_trun, <<0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 9>>)

\* A, B: fragments of the tracks 1 and 2, U of a track without files; x: a box
\* divide does not know; the place in the sequence makes every box different
Kinds0 == {"A", "B", "U", "d", "s", "f", "m", "r", "x"}
MoofFor(id, k) == Bx0(t_moof, Bx0(t_traf, Tfhd(id) \o Trun2 \o (IF k % 2 = 0 THEN Trun1 ELSE <<>>)))
BoxOf(c, k) ==
  CASE c = "A" -> MoofFor(1, k) [] c = "B" -> MoofFor(2, k) [] c = "U" -> MoofFor(7, k)
    [] c = "d" -> Bx0(t_mdat, <<k, k>>) [] c = "s" -> Bx0(t_sidx, <<77, k>>)
    [] c = "f" -> Bx0(T_ftyp, <<105, 115, 111, 109, 0, 0, 0, k>>) [] c = "m" -> Moov
    [] c = "r" -> Bx0(t_mfra, <<>>) [] OTHER -> Bx0(t_skip, <<k>>)
Count(q, c) == Cardinality({k \in DOMAIN q : q[k] = c})
\* one moov; at most one stranger, near the end
Wanted(q) == Count(q, "m") = 1 /\ Count(q, "x") <= 1 /\ Count(q, "f") <= 1 /\ Count(q, "r") <= 1

VARIABLES q, f, pos, cur, init, segs, st
vars == <<q, f, pos, cur, init, segs, st>>
Ids == {1, 2}
Init == /\ \E n \in 1..MaxLen : q \in {s \in [1..n -> Kinds0] : Wanted(s)}
        /\ f = <<>> /\ pos = 0 /\ cur = 0
        /\ init = [id \in Ids |-> WInit] /\ segs = [id \in Ids |-> <<>>] /\ st = "new"
Begin == /\ st = "new" /\ st' = "run"
         /\ f' = FileOf(FoldLeft(LAMBDA a, k : a \o BoxOf(q[k], k), <<>>, [k \in 1..Len(q) |-> k]))
         /\ UNCHANGED <<q, pos, cur, init, segs>>

\* the boxes of moov are copied to the init segments one by one
KidTo(w, id, bi) ==
  IF bi.type # t_trak THEN WCopy(w, f, bi).w
  ELSE LET b == FBytes(f, bi.off, N(bi.size))
       IN  IF b = (IF id = 1 THEN Trak1 ELSE Trak2) THEN WCopy(w, f, bi).w ELSE w
RECURSIVE Kids(_, _, _, _)
Kids(w, id, p, end) ==
  IF p = end THEN w
  ELSE LET h == ReadHdr(f, W(p)).bi IN Kids(KidTo(w, id, h), id, p + N(h.size), end)
Step ==
  /\ st = "run" /\ W(pos) # f.len
  /\ LET bi == ReadHdr(f, W(pos)).bi
         e == pos + N(bi.size)
         b == FBytes(f, bi.off, N(bi.size))
         x == [bi |-> bi, ctx |-> CtxEmpty]
     IN  /\ pos' = e
         /\ CASE bi.type = t_moov ->
                   /\ init' = [id \in Ids |-> WEnd(Kids(WStart(init[id], bi).w, id, pos + 8, e)).w]
                   /\ UNCHANGED <<cur, segs, st>>
              [] bi.type \in InitTypes \ {t_moov} ->
                   /\ init' = [id \in Ids |-> WCopy(init[id], f, bi).w] /\ UNCHANGED <<cur, segs, st>>
              [] bi.type = t_moof ->
                   LET id == N(At(f, <<x>>, <<t_traf, t_tfhd>>).vs[1].TrackID) IN
                   /\ cur' = id
                   /\ segs' = IF id \in Ids THEN [segs EXCEPT ![id] = Append(@, b)] ELSE segs
                   /\ UNCHANGED <<init, st>>
              [] bi.type = t_mdat ->
                   /\ segs' = IF cur \in Ids /\ segs[cur] # <<>> THEN [segs EXCEPT ![cur][Len(segs[cur])] = @ \o b] ELSE segs
                   /\ UNCHANGED <<cur, init, st>>
              [] bi.type = t_mfra -> UNCHANGED <<cur, init, segs, st>>
              [] OTHER -> st' = "fail" /\ UNCHANGED <<cur, init, segs>>
  /\ UNCHANGED <<q, f>>
End == st = "run" /\ W(pos) = f.len /\ st' = "done" /\ UNCHANGED <<q, f, pos, cur, init, segs>>
Next == Begin \/ Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------ what it should be
Fragments == {"A", "B", "U"}
\* the fragment box k follows, if any
LastFragment(k) == LET s == {j \in 1..k : q[j] \in Fragments} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A i \in s : i <= j
LetterOf(id) == IF id = 1 THEN "A" ELSE "B"
SegFrom(j) == FoldLeft(LAMBDA a, k : IF k = j \/ (q[k] = "d" /\ k > j /\ LastFragment(k) = j) THEN a \o BoxOf(q[k], k) ELSE a,
                       <<>>, [k \in 1..Len(q) |-> k])
SegsFor(id) == FoldLeft(LAMBDA a, k : IF q[k] = LetterOf(id) THEN Append(a, SegFrom(k)) ELSE a, <<>>, [k \in 1..Len(q) |-> k])
InitFor(id) == FoldLeft(LAMBDA a, k : IF q[k] = "m" THEN a \o MoovFor(id)
                                      ELSE IF q[k] \in {"s", "f"} THEN a \o BoxOf(q[k], k) ELSE a, <<>>, [k \in 1..Len(q) |-> k])
Done == st = "done"
OutOf(id) == LET o == init[id].out IN FBytes([len |-> o.len, segs |-> IF o.segs = <<>> THEN <<[o |-> Z8, b |-> <<>>]>> ELSE o.segs], Z8, 5000)
Partition == Done => \A id \in Ids : segs[id] = SegsFor(id)
Inits == Done => \A id \in Ids : OutOf(id) = InitFor(id) /\ init[id].stk = <<>>
Fails == (st = "fail" => Count(q, "x") = 1) /\ (Done => Count(q, "x") = 0)
AsJudged ==
  /\ st = "fail" => Divided(f).st = "err"
  /\ Done =>
       \E d \in {Divided(f)} :
       /\ d.st = "ok" /\ Len(d.tracks) = 2
       /\ \A k \in 1..2 :
            LET x == d.tracks[k]  id == N(x.tr.id) IN
            /\ BytesOf(f, x.init) = OutOf(id)
            /\ Len(x.segs) = Len(segs[id])
            /\ \A j \in DOMAIN x.segs : BytesOf(f, x.segs[j].ps) = segs[id][j] /\ x.segs[j].dur \in {W(8), W(17)}
Ended == <>(st \in {"done", "fail"})
Emit == st = "run" /\ pos = 0 => PrintT("CASE " \o ToJson([f |-> FBytes(f, Z8, 5000)]))
=============================================================================
