------------------------------- MODULE Extract -------------------------------
(***************************************************************************)
(* Extraction: the boxes of a traversal whose path matches, in file order; *)
(* only boxes on the way to a match are opened.                            *)
(***************************************************************************)
EXTENDS Walk

MatchC(a, b) == a = T_any \/ b = T_any \/ a = b
Prefix(p, q) == Len(p) <= Len(q) /\ \A k \in 1..Len(p) : MatchC(p[k], q[k])
Full(paths, p) == \E k \in DOMAIN paths : Len(paths[k]) = Len(p) /\ Prefix(p, paths[k])
Fwd(paths, p) == \E k \in DOMAIN paths : Len(p) < Len(paths[k]) /\ Prefix(p, paths[k])

Res(st, vague, bs) == [st |-> st, vague |-> vague, bs |-> bs]

\* drop: how many leading components of a path belong to the parent
RECURSIVE ExLevel(_, _, _, _, _)
RECURSIVE ExBox(_, _, _, _, _)
ExLevel(F, L, paths, drop, acc) ==
  LET a == Adv(F, L) IN
  IF a.a = "end" THEN Res(a.st, a.vague, acc)
  ELSE LET x == ExBox(F, BoxFrame(a.bi, a.ctx, L.path, <<>>), paths, drop, acc)
       IN  IF x.st # "ok" THEN x ELSE ExLevel(F, After(L, a.bi, a.ctx, 0), paths, drop, x.bs)

ExBox(F, B, paths, drop, acc) ==
  IF B.bi.type = T_any THEN Res("ok", FALSE, acc)
  ELSE LET p == SubSeq(B.path, drop + 1, Len(B.path))
           acc1 == IF Full(paths, p) THEN Append(acc, [bi |-> B.bi, ctx |-> B.ctx]) ELSE acc
       IN  IF ~Fwd(paths, p) THEN Res("ok", FALSE, acc1)
           ELSE LET o == Open(F, B, <<>>) IN
                IF o.st # "ok" THEN Res(o.st, VagueErr(ResolveX(B.bi.type, B.ctx, Reg), F, PayOff(B.bi), PaySize(B.bi)), acc1)
                ELSE ExLevel(F, o.L, paths, drop, acc1)

Extraction(F, from, paths) ==
  IF paths = <<>> THEN Res("ok", FALSE, <<>>)
  ELSE IF \E k \in DOMAIN paths : paths[k] = <<>> THEN Res("err", FALSE, <<>>)
  ELSE IF from = <<>> THEN ExLevel(F, RootLevel(<<>>), paths, 0, <<>>)
  ELSE LET x == from[1]
           o == OwnCtx(F, x.bi, x.ctx, TRUE, Reg)
       IN  IF o.st # "ok" THEN Res(o.st, VagueErr(ResolveX(x.bi.type, x.ctx, Reg), F, PayOff(x.bi), PaySize(x.bi)), <<>>)
           ELSE ExBox(F, BoxFrame(x.bi, o.ctx, <<>>, <<>>), paths, 1, <<>>)

ClassOk(seen, st, vague) == seen = st \/ (vague /\ {seen, st} = {"err", "unsup"})
=============================================================================
