-------------------------------- MODULE JWalk --------------------------------
(***************************************************************************)
(* Judges recorded traversals: every event the handler observed must be    *)
(* the one the traversal system (Walk) allows next, and the end must be    *)
(* reached exactly when it says so.  One event per transition.             *)
(***************************************************************************)
EXTENDS Walk, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

\* r.from = <<>> or <<[bi, ctx]>>: where the traversal starts
Start(r) == [st |-> "run", k |-> 1, s |-> IF r.from = <<>> THEN <<RootLevel(r.params)>> ELSE <<>>]
Idle == [st |-> "ok", k |-> 0, s |-> <<>>]

Rej(m) == [m EXCEPT !.st = "rej", !.s = <<>>]
To(m, s) == [m EXCEPT !.k = @ + 1, !.s = s]

SameBox(ev, bi, ctx, path, params) ==
  /\ ev.bi = bi /\ ev.ctx = ctx /\ ev.path = path /\ ev.params = params

\* a status may be reported in another error class only when the spec says so
Agrees(seen, spec, vague) == seen = spec \/ (vague /\ {seen, spec} = {"err", "unsup"})

\* A call of the library during which the device failed ends with an error and
\* leaves the box it was made for as it was; only the end of the file in the
\* header of a box of the top level is the normal end.
FaultEv(r, m, ev) ==
  LET s == m.s  X == Top(s) IN
  IF ev.e = "done"
  THEN LET rootEnd == s # <<>> /\ X.t = "L" /\ X.root /\ r.mode \in {"eof", "cut"} /\ Le(X.pos, ev.at) /\ Lt(ev.at, AddN(X.pos, 16)) IN
       IF /\ m.k = Len(r.log)
          /\ IF ev.st = "ok" THEN rootEnd /\ ev.vals = X.vals ELSE ~(rootEnd /\ ev.at = X.pos)
       THEN [Idle EXCEPT !.k = m.k] ELSE Rej(m)
  ELSE IF ev.st = "ok" \/ s = <<>> THEN Rej(m)
  ELSE IF ev.e = "xe" THEN (IF Len(s) < 2 THEN Rej(m) ELSE To(m, Pop(s)))
  ELSE IF X.t = "B" THEN To(m, s) ELSE Rej(m)

Ev(r, m, ev) ==
  LET F == r.f  s == m.s IN
  CASE ev.e \in {"rp", "rd", "xe", "done"} /\ ev.inj -> FaultEv(r, m, ev)
    [] ev.e = "v" ->
        IF s = <<>>
        THEN LET x == r.from[1]  o == OwnCtx(F, x.bi, x.ctx, TRUE, Reg) IN
             IF o.st = "ok" /\ SameBox(ev, x.bi, o.ctx, <<x.bi.type>>, r.params)
             THEN To(m, <<BoxFrame(x.bi, o.ctx, <<>>, r.params)>>) ELSE Rej(m)
        ELSE LET L == Top(s) IN
             IF L.t # "L" THEN Rej(m)
             ELSE LET a == Adv(F, L) IN
                  IF a.a = "visit" /\ SameBox(ev, a.bi, a.ctx, Append(L.path, a.bi.type), L.params)
                  THEN To(m, Push(s, BoxFrame(a.bi, a.ctx, L.path, L.params))) ELSE Rej(m)
    [] ev.e = "rp" ->
        LET B == Top(s)
            d == PayloadOf(F, B.bi, B.ctx, Reg)
        IN  IF B.t = "B" /\ StAgrees(F, B.bi, B.ctx, Reg, d.st, ev.st)
               /\ (d.st = "ok" => ev.n = d.n /\ ev.v = d.v)
            THEN To(m, IF d.st = "ok" THEN SetTop(s, [B EXCEPT !.co = <<AddN(PayOff(B.bi), d.n)>>]) ELSE s)
            ELSE Rej(m)
    [] ev.e = "rd" ->
        LET B == Top(s)
            n == N(PaySize(B.bi))
            b == FBytes(F, PayOff(B.bi), n)
            ok == n < Big /\ Len(b) = n
        IN  IF B.t = "B" /\ (IF ok THEN ev.st = "ok" /\ ev.b = b /\ ev.n = PaySize(B.bi) ELSE ev.st \notin {"ok", "notfound"})
            THEN To(m, s) ELSE Rej(m)
    [] ev.e = "xb" ->
        LET B == Top(s)
            o == Open(F, B, ev.params)
        IN  IF B.t # "B" THEN Rej(m)
            ELSE To(m, IF o.st = "ok" THEN Push(SetTop(s, [B EXCEPT !.co = <<o.co>>]), o.L)
                       ELSE Push(s, [Failed(o.st) EXCEPT !.st = @]))
    [] ev.e = "xe" ->
        LET X == Top(s) IN
        IF Len(s) < 2 THEN Rej(m)
        ELSE IF X.t = "E"
        THEN LET B == s[Len(s) - 1] IN
             IF StAgrees(F, B.bi, B.ctx, Reg, X.st, ev.st) \/ ev.st = X.st THEN To(m, Pop(s)) ELSE Rej(m)
        ELSE IF X.t = "L" /\ ~X.root
        THEN LET a == Adv(F, X) IN
             IF a.a = "end" /\ Agrees(ev.st, a.st, a.vague) /\ (a.st = "ok" => ev.vals = X.vals)
             THEN To(m, Pop(s)) ELSE Rej(m)
        ELSE Rej(m)
    [] ev.e \in {"ret", "reterr"} ->
        LET B == Top(s) IN
        IF s = <<>> \/ B.t # "B" THEN Rej(m)
        ELSE IF ev.e = "reterr"
        THEN To(m, IF Len(s) = 1 THEN <<Failed(ev.st)>> ELSE SetTop(Pop(s), Failed(ev.st)))
        ELSE To(m, IF Len(s) = 1 THEN <<[t |-> "V", val |-> ev.val]>>
                   ELSE LET q == Pop(s) IN SetTop(q, After(Top(q), B.bi, B.ctx, ev.val)))
    [] ev.e = "done" ->
        LET ok ==
          IF s = <<>>
          THEN LET x == r.from[1]  o == OwnCtx(F, x.bi, x.ctx, TRUE, Reg)
               IN  o.st # "ok" /\ Agrees(ev.st, o.st, VagueErr(ResolveX(x.bi.type, x.ctx, Reg), F, PayOff(x.bi), PaySize(x.bi)))
          ELSE IF Len(s) # 1 THEN FALSE
          ELSE LET X == Top(s) IN
               CASE X.t = "E" -> ev.st = X.st
                 [] X.t = "V" -> ev.st = "ok" /\ ev.vals = <<X.val>>
                 [] X.t = "L" -> X.root /\ (LET a == Adv(F, X) IN
                                   a.a = "end" /\ Agrees(ev.st, a.st, a.vague)
                                   /\ (a.st = "ok" => ev.vals = X.vals))
                 [] OTHER -> FALSE
        IN  IF ok /\ m.k = Len(r.log) /\ r.kept THEN [Idle EXCEPT !.k = m.k] ELSE Rej(m)
    [] OTHER -> Rej(m)

\* a panic or hang, or a log that does not end
Step(r, m) == IF r.st # "ok" \/ m.k > Len(r.log) THEN Rej(m) ELSE Ev(r, m, r.log[m.k])

StepF == [q \in Any |-> Step(q[1], q[2])]

VARIABLES c, i, m
Stride == 32
At(k) == IF k <= Len(Recs) THEN Start(Recs[k]) ELSE Idle
Init == c \in 0..(Stride - 1) /\ i = c + 1 /\ m = At(c + 1)
Next == /\ i <= Len(Recs)
        /\ IF m.st = "run" THEN i' = i /\ m' = StepF[<<Recs[i], m>>]
           ELSE i' = i + Stride /\ m' = At(i + Stride)
        /\ c' = c
Ok == /\ i <= Len(Recs) \/ PrintT(<<"END", c>>)
      /\ m.st # "rej" \/ PrintT(<<"REJECT", i>>)
=============================================================================
