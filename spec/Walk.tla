-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* The traversal of a file as a transition system.  The state is a stack   *)
(* of frames:                                                              *)
(*   level  the boxes between pos and pos+left (root: to the end of file)  *)
(*   box    a visited box whose handler is running                         *)
(*   failed a level that ended with an error of class st                   *)
(*   val    the result of a visit that was started from a box (no level)   *)
(* Events are what a handler observes: v(isit), rp (ReadPayload), rd       *)
(* (ReadData), xb/xe (begin/end of Expand), ret(urn), done.                *)
(***************************************************************************)
EXTENDS Files

Reg == UserRegistry

Level(pos, left, ctx, path, params, root) ==
  [t |-> "L", pos |-> pos, left |-> left, ctx |-> ctx, path |-> path, params |-> params,
   vals |-> <<>>, root |-> root]
RootLevel(params) == Level(Z8, Z8, CtxEmpty, <<>>, params, TRUE)

\* what happens next on a level:
\*   [a |-> "end", st]            it is finished, well or with an error
\*   [a |-> "visit", bi, ctx]     its next box is visited
Ends(st) == [a |-> "end", st |-> st, bi |-> NoBox, ctx |-> CtxEmpty, vague |-> FALSE]
Adv0(F, L) ==
  IF ~L.root /\ Lt(L.left, W(8))
  THEN Ends(IF L.left = Z8 \/ L.ctx.qt THEN "ok" ELSE "err")
  ELSE LET h == ReadHdr(F, L.pos) IN
       IF h.st = "eof" THEN Ends(IF L.root THEN "ok" ELSE "err")
       ELSE IF h.st = "err" \/ (~L.root /\ Lt(L.left, h.bi.size)) THEN Ends("err")
       ELSE LET o == OwnCtx(F, h.bi, L.ctx, L.path = <<>>, Reg) IN
            IF o.st = "ok" THEN [a |-> "visit", st |-> "ok", bi |-> h.bi, ctx |-> o.ctx, vague |-> FALSE]
            ELSE [Ends(o.st) EXCEPT !.vague =
                    VagueErr(ResolveX(h.bi.type, L.ctx, Reg), F, PayOff(h.bi), PaySize(h.bi))]

AdvF == [q \in Any |-> Adv0(q[1], q[2])]
Adv(F, L) == AdvF[<<F, L>>]

\* the level behind box bi (visited with context bctx)
After(L, bi, bctx, val) ==
  [L EXCEPT !.pos = EndOff(bi), !.left = IF L.root THEN Z8 ELSE Sub(@, bi.size),
            !.vals = Append(@, val),
            !.ctx.qt = @ \/ bctx.qt,
            !.ctx.keys = IF bi.type = T_keys THEN bctx.keys ELSE @]

BoxFrame(bi, ctx, path, params) ==
  [t |-> "B", bi |-> bi, ctx |-> ctx, cctx |-> ChildCtx(bi.type, ctx), path |-> Append(path, bi.type),
   params |-> params, co |-> <<>>]

\* the level of the children of a box: [st, L, co, vague]
Open0(F, B, params) ==
  LET d == IF B.co # <<>> THEN [st |-> "ok", n |-> 0, v |-> <<>>] ELSE PayloadOf(F, B.bi, B.ctx, Reg)
      co == IF B.co # <<>> THEN B.co[1] ELSE AddN(PayOff(B.bi), d.n)
  IN  IF d.st = "ok"
      THEN [st |-> "ok", co |-> co,
            L |-> Level(co, Sub(EndOff(B.bi), co), B.cctx, B.path, params, FALSE)]
      ELSE [st |-> d.st, co |-> Z8, L |-> <<>>]

OpenF == [q \in Any |-> Open0(q[1], q[2], q[3])]
Open(F, B, params) == OpenF[<<F, B, params>>]

Failed(st) == [t |-> "E", st |-> st]
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Push(s, x) == Append(s, x)
SetTop(s, x) == [s EXCEPT ![Len(s)] = x]

\* ------------------------------------------------ pure traversals (no state)
\* children of a box: [st, bs] with bs a sequence of [bi, ctx, path]
RECURSIVE LevelBoxes(_, _, _)
LevelBoxes(F, L, acc) ==
  LET a == Adv(F, L) IN
  IF a.a = "end" THEN [st |-> a.st, bs |-> acc]
  ELSE LevelBoxes(F, After(L, a.bi, a.ctx, 0),
                  Append(acc, [bi |-> a.bi, ctx |-> a.ctx, path |-> Append(L.path, a.bi.type)]))
=============================================================================
