-------------------------------- MODULE MEdit --------------------------------
(***************************************************************************)
(* mp4tool edit as a transition system: the traversal of the input drives  *)
(* a writer.  TLC runs it on every small tree with every choice of options *)
(* and checks that the output is the tree with the dropped boxes gone and  *)
(* the decode times replaced - by an independent definition on trees, and  *)
(* by the definition recorded runs are judged by (Tool!Edited).  Every run *)
(* is printed for the driver.                                              *)
(***************************************************************************)
EXTENDS Tool, Writer, Json, IOUtils

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
Wide == Env("M_WIDE", 0) = 1

Ty(s) == T(s)
\* leaves: type, payload, the forms they come in; containers: payload in front of the children
Leaf == << [ty |-> Ty("unkn"), p |-> <<7, 8>>, forms |-> {8, 16}],
           [ty |-> t_mdat, p |-> <<9>>, forms |-> {8}],
           [ty |-> t_tfdt, p |-> <<0,0,0,0, 0,0,0,1>>, forms |-> {8, 16}],
           [ty |-> t_tfdt, p |-> <<1,0,0,3, 0,0,0,0,0,0,0,2>>, forms |-> {8}],
           [ty |-> t_fre, p |-> <<5>>, forms |-> {8}] >>
Cont == << [ty |-> t_moov, p |-> <<>>, forms |-> {8, 16}],
           [ty |-> Ty("traf"), p |-> <<>>, forms |-> {8}],
           [ty |-> Ty("meta"), p |-> <<0,0,0,0>>, forms |-> {8}] >>
Node(x, h, kids) == [ty |-> x.ty, h |-> h, p |-> x.p, kids |-> kids]
Leaves == UNION {{Node(Leaf[k], h, <<>>) : h \in Leaf[k].forms} : k \in DOMAIN Leaf}
Conts(kids) == UNION {{Node(Cont[k], h, kids) : h \in Cont[k].forms} : k \in DOMAIN Cont}

\* trees and forests of n boxes
RECURSIVE Forests(_)
Trees(n) == IF n = 1 THEN Leaves \cup Conts(<<>>) ELSE UNION {Conts(k) : k \in Forests(n - 1)}
Forests(n) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION {{<<t>> \o f : t \in Trees(k), f \in Forests(n - k)} : k \in 1..n}
MaxBoxes == IF Wide THEN 3 ELSE 2
All == UNION {Forests(n) : n \in 1..MaxBoxes} \cup
       {<<Node(Cont[1], 8, <<Node(Cont[2], 8, f)>>)>> : f \in Forests(2)}

\* e: how many boxes, from the last one down, extend to the end of the file
RECURSIVE Bytes(_, _)
Bytes(f, e) ==
  FoldLeft(LAMBDA acc, k :
    LET n == f[k]
        open == e > 0 /\ k = Len(f)
        body == n.p \o Bytes(n.kids, IF open THEN e - 1 ELSE 0)
        h == IF open THEN 8 ELSE n.h
        size == W(h + Len(body))
    IN  acc \o HdrBytes([off |-> Z8, size |-> size, hdr |-> h, type |-> n.ty, ext |-> open]) \o body,
    <<>>, [k \in 1..Len(f) |-> k])

Drops == << {}, {t_moov}, {t_tfdt}, {Ty("unkn"), t_mdat}, {Ty("traf"), t_fre}, {Ty("meta"), t_moov} >>
Times == << <<>>, <<(<<0,0,0,9,0,0,0,5>>)>> >>

\* what shall come out, on trees
Old0(n, o) == n.ty = t_tfdt /\ o.time # <<>>
New(n, o) == IF n.p[1] = 0 THEN SubSeq(n.p, 1, 4) \o SubSeq(o.time[1], 5, 8) ELSE SubSeq(n.p, 1, 4) \o o.time[1]
RECURSIVE Want(_, _)
Want(f, o) ==
  FoldLeft(LAMBDA acc, n :
    IF n.ty \in o.drop THEN acc
    ELSE Append(acc, [n EXCEPT !.p = IF Old0(n, o) THEN New(n, o) ELSE n.p, !.kids = Want(n.kids, o)]), <<>>, f)
\* of the boxes to the end of file only the ones that stay count
RECURSIVE ExtLeft(_, _, _)
ExtLeft(f, e, o) == IF e = 0 \/ f = <<>> THEN 0
                    ELSE IF f[Len(f)].ty \in o.drop THEN 0 ELSE 1 + ExtLeft(f[Len(f)].kids, e - 1, o)

VARIABLES t, e, o, f, w, ls, st
vars == <<t, e, o, f, w, ls, st>>
RECURSIVE Chain(_)
Chain(x) == IF x = <<>> THEN 0 ELSE 1 + Chain(x[Len(x)].kids)
Init == /\ t \in All /\ e \in {k \in 0..2 : k <= Chain(t)}
        /\ o = <<>> /\ f = <<>> /\ w = WInit /\ ls = <<>> /\ st = "new"
Choose ==
  /\ st = "new"
  /\ \E d \in DOMAIN Drops, m \in DOMAIN Times : o' = [drop |-> Drops[d], time |-> Times[m]]
  /\ f' = FileOf(Bytes(t, e))
  /\ ls' = <<[L |-> RootLevel(<<>>), bi |-> NoBox, ctx |-> CtxEmpty]>>
  /\ st' = "run"
  /\ UNCHANGED <<t, e, w>>

Upper == ls[Len(ls)]
Moved(l, bi, ctx) == [l EXCEPT !.L = After(l.L, bi, ctx, 0)]
Below == SubSeq(ls, 1, Len(ls) - 1)
Broken == st' = "fail" /\ UNCHANGED <<t, e, o, f, w, ls>>
EndLevel(a) ==
  IF a.st # "ok" THEN Broken
  ELSE IF Len(ls) = 1 THEN st' = "done" /\ UNCHANGED <<t, e, o, f, w, ls>>
  ELSE LET x == WEnd(w) IN
       /\ x.st = "ok"
       /\ w' = x.w
       /\ ls' = [Below EXCEPT ![Len(ls) - 1] = Moved(@, Upper.bi, Upper.ctx)]
       /\ UNCHANGED <<t, e, o, f, st>>
Visit(a) ==
  LET def == ResolveX(a.bi.type, a.ctx, Reg)
      over == [ls EXCEPT ![Len(ls)] = Moved(@, a.bi, a.ctx)]
  IN  CASE TypeText(a.bi.type) \in o.drop -> ls' = over /\ UNCHANGED <<t, e, o, f, w, st>>
        [] TypeText(a.bi.type) \notin o.drop /\ (def = NoDef \/ a.bi.type = t_mdat) ->
             /\ w' = WCopy(w, f, a.bi).w /\ ls' = over /\ UNCHANGED <<t, e, o, f, st>>
        [] OTHER ->
             LET d == PayloadOf(f, a.bi, a.ctx, Reg)
                 v == IF a.bi.type = t_tfdt THEN Timed(d.v, o) ELSE d.v
                 p == Open(f, BoxFrame(a.bi, a.ctx, Upper.L.path, <<>>), <<>>)
             IN  /\ w' = WWrite(WStart(w, a.bi).w, Encode(def.layout, v, a.ctx).b).w
                 /\ ls' = Append(ls, [L |-> p.L, bi |-> a.bi, ctx |-> a.ctx])
                 /\ UNCHANGED <<t, e, o, f, st>>
Run == st = "run" /\ LET a == Adv(f, Upper.L) IN IF a.a = "end" THEN EndLevel(a) ELSE Visit(a)
Next == Choose \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Out == [len |-> w.out.len, segs |-> IF w.out.segs = <<>> THEN <<[o |-> Z8, b |-> <<>>]>> ELSE w.out.segs]
WantBytes == Bytes(Want(t, o), ExtLeft(t, e, o))
Done == st = "done"
NoFailure == st # "fail"
AsTree == Done => FBytes(Out, Z8, 1000) = WantBytes /\ Out.len = W(Len(WantBytes))
AsJudged == Done => LET x == Edited(f, o) IN x.st = "ok" /\ Made(Out, f, x.ps)
Nothing == Done /\ o.drop = {} /\ o.time = <<>> => FBytes(Out, Z8, 1000) = FBytes(f, Z8, 1000)
\* the open boxes of the writer are the ones of the traversal
InStep == st = "run" => Len(w.stk) = Len(ls) - 1
Ended == <>(st \in {"done", "fail"})
Emit == Done => PrintT("CASE " \o ToJson([f |-> FBytes(f, Z8, 1000), drop |-> SetToSeq(o.drop), time |-> o.time]))
=============================================================================
