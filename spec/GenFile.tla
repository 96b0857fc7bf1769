------------------------------- MODULE GenFile -------------------------------
(***************************************************************************)
(* Random well-formed files.  A file is built box by box: the state is a   *)
(* stack of open boxes; a step starts a box (its payload is built from its *)
(* layout in the context it has there) or closes one.  When the file is    *)
(* complete, the specified traversal (Walk), opening whatever it can, must *)
(* visit exactly the boxes it was built from: checked by TLC step by step. *)
(***************************************************************************)
EXTENDS Gen, Walk, Kids, Json, IOUtils

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
From  == Env("GEN_FROM", 0)
Count == Env("GEN_COUNT", 100)
Salt  == Env("GEN_SALT", 1)
MaxDepth == Env("GEN_DEPTH", 6)
Style == Env("GEN_STYLE", 0)     \* 0 anything, 1 QuickTime and metadata heavy
MaxBytes == Env("GEN_BYTES", 900)

AllTypes == SetToSeq({BuiltinRegistry[i].type : i \in DOMAIN BuiltinRegistry})
Odd == << <<120,120,120,120>>, <<0,0,0,0>>, <<0,0,0,2>>, <<117,117,105,100>>, <<255,254,37,0>> >>

\* style 2: contexts within contexts
Ctxs == << T_wave, T_ilst, T_udta, T_wave, T_ilst, T_udta, T_keys, <<109,101,116,97>>, <<45,45,45,45>>, <<169,110,97,109>>,
           <<99,111,118,114>>, <<109,111,111,118>>, <<116,114,97,107>>, <<115,116,115,100>>, <<109,112,52,97>>,
           <<100,97,116,97>>, <<109,101,97,110>>, <<0,0,0,1>>, <<102,114,101,101>>, <<116,105,116,108>> >>

PickType(kids, r) ==
  CASE Style = 2 -> OneOf(Nx(r), Ctxs)
    [] Pick(r, 10) < 7 /\ kids # <<>> -> OneOf(Nx(r), kids)
    [] Pick(r, 10) < 9 -> OneOf(Nx(r), AllTypes)
    [] OTHER -> OneOf(Nx(r), Odd)

\* header of a box with psize payload bytes; form 0 small, 1 large
Render(type, pay, form) ==
  IF form = 1 THEN <<0,0,0,1>> \o type \o W(16 + Len(pay)) \o pay
  ELSE SubSeq(W(8 + Len(pay)), 5, 8) \o type \o pay

\* an open box: own: its payload before its children; b: the children so far;
\* lctx: the context of its next child; left: children still to come; node: its number
Frame(type, own, form, ctx, lctx, path, left, kids, node) ==
  [type |-> type, own |-> own, form |-> form, ctx |-> ctx, lctx |-> lctx, path |-> path,
   left |-> left, kids |-> kids, node |-> node, b |-> <<>>]

NewBox0(type, ctx0, path, depth, room, node, r) ==
  LET def  == ResolveX(type, ctx0, Reg)
      known == def # NoDef
      qtm  == type = <<109,101,116,97>> /\ Pick(Nx(r), 2) = 0       \* QuickTime meta: no version and flags
      v    == IF known /\ ~qtm THEN GenBox(def, ctx0, 0, Nx(Sub2(r, 7))) ELSE <<>>
      en   == IF known /\ ~qtm THEN Encode(def.layout, v, ctx0) ELSE [st |-> "ok", b |-> <<>>]
      own  == IF known /\ ~qtm /\ en.st = "ok" THEN en.b
              ELSE IF qtm THEN <<>> ELSE GenBytes(r, Pick(Nx(r), 20))
      ctx1 == CASE path = <<>> /\ type = T_ftyp ->
                     (IF \E k \in DOMAIN v.CompatibleBrands : v.CompatibleBrands[k].CompatibleBrand = BrandQT
                      THEN [ctx0 EXCEPT !.qt = TRUE] ELSE ctx0)
                [] type = T_keys -> [ctx0 EXCEPT !.keys = N(v.EntryCount)]
                [] OTHER -> ctx0
      nk   == IF known /\ type \in Containers /\ depth > 0 /\ room > 0
                 /\ ~(def.layout = "AudioSampleEntry" /\ ctx1.qt /\ ctx1.wave)
              THEN (IF Style = 2 THEN OneOf(Nx(Nx(r)), <<1, 1, 2, 2, 2, 3>>)
                    ELSE OneOf(Nx(Nx(r)), <<0, 1, 1, 2, 2, 3, 4, 5>>) + Style) ELSE 0
  IN  Frame(type, own, IF Pick(Sub2(r, 9), 9) = 0 THEN 1 ELSE 0, ctx1, ChildCtx(type, ctx1), Append(path, type),
            nk, KidsOf(type), node)

\* the bytes of a box that is closed
BoxBytes0(B, r) ==
  LET trail == IF B.b # <<>> /\ B.lctx.qt /\ Pick(Sub2(r, 8), 5) = 0
               THEN [k \in 1..(1 + Pick(r, 7)) |-> 0] ELSE <<>>          \* QuickTime terminator
  IN  Render(B.type, B.own \o B.b \o trail, B.form)

Root0(k) ==
  LET r == Nx(Nx(Seed(k)))
      q == Pick(r, 3) = 0 \/ Style = 1
      ft == Render(T_ftyp, <<105,115,111,109,0,0,2,0>> \o (IF q THEN BrandQT ELSE <<109,112,52,50>>), 0)
      kids == IF Style = 1 THEN <<T_udta, <<109,101,116,97>>, <<109,111,111,118>>, <<109,101,116,97>>>> ELSE RootKids
      c0 == [CtxEmpty EXCEPT !.qt = q]
  IN  [Frame(<<>>, <<>>, 0, CtxEmpty, c0, <<>>, 1 + Pick(Nx(r), 5), kids, 0) EXCEPT !.b = ft]

RootF == [q \in Any |-> Root0(q)]
Root(k) == RootF[k]

\* --------------------------------------------------------------- the system
\* m.ph 0: building, 1: walking, 2: finished, 3: contradiction;
\* m.s, m.k: traversal stack and number of boxes visited
FtypNode(B) == [path |-> <<T_ftyp>>, ctx |-> B.lctx, size |-> Len(B.b), hdr |-> 8]
BeginF == [j \in Any |-> LET B == Root0(Salt * 137 + j)
                         IN  [ph |-> 0, stk |-> <<B>>, nodes |-> <<FtypNode(B)>>, s |-> <<>>, k |-> 0]]

Build(i, m) ==
  LET stk == m.stk  nodes == m.nodes
      rnd == Nx(Sub2(Seed(Salt * 137 + i), Len(nodes) * 7 + Len(stk)))
      B == stk[Len(stk)]
  IN  IF B.left > 0
      THEN LET t == PickType(B.kids, rnd)
               x == NewBox0(t, B.lctx, B.path, MaxDepth - Len(stk), MaxBytes - Len(nodes) * 25, Len(nodes) + 1, Sub2(rnd, 4))
           IN  [m EXCEPT !.stk = Append(SetTop(stk, [B EXCEPT !.left = @ - 1]), x),
                         !.nodes = Append(nodes, [path |-> x.path, ctx |-> x.ctx, size |-> 0,
                                                  hdr |-> IF x.form = 1 THEN 16 ELSE 8])]
      ELSE IF Len(stk) > 1
      THEN LET P == stk[Len(stk) - 1]
               b == BoxBytes0(B, rnd)
               Q == [P EXCEPT !.b = @ \o b, !.lctx.qt = @ \/ B.ctx.qt,
                              !.lctx.keys = IF B.type = T_keys THEN B.ctx.keys ELSE @]
           IN  [m EXCEPT !.stk = SetTop(Pop(stk), Q), !.nodes = [nodes EXCEPT ![B.node].size = Len(b)]]
      ELSE [m EXCEPT !.ph = 1, !.s = <<RootLevel(<<>>)>>]

\* the traversal, one step of a level at a time
WalkStep(m) ==
  LET F == FileOf(m.stk[1].b)
      s == m.s  k == m.k  nodes == m.nodes
      L == Top(s)
      a == Adv(F, L)
  IN  IF a.a = "visit"
      THEN LET B == BoxFrame(a.bi, a.ctx, L.path, <<>>)
               o == Open(F, B, <<>>)
               node == [path |-> B.path, ctx |-> a.ctx, size |-> N(a.bi.size), hdr |-> a.bi.hdr]
               nx == After(L, a.bi, a.ctx, 0)
           IN  [m EXCEPT !.k = k + 1,
                         !.ph = IF k + 1 <= Len(nodes) /\ nodes[k + 1] = node THEN 1 ELSE 3,
                         !.s = IF o.st = "ok" THEN Append(SetTop(s, nx), o.L) ELSE SetTop(s, nx)]
      ELSE [m EXCEPT !.ph = IF a.st # "ok" THEN 3 ELSE IF Len(s) > 1 THEN 1 ELSE IF k = Len(nodes) THEN 2 ELSE 3,
                     !.s = IF Len(s) > 1 THEN Pop(s) ELSE s]

StepF == [q \in Any |-> IF q[2].ph = 0 THEN Build(q[1], q[2]) ELSE WalkStep(q[2])]

VARIABLES c, i, m
Stride == 32
Init == c \in 0..(Stride - 1) /\ i = From + c /\ m = BeginF[From + c]
Next == /\ i < From + Count
        /\ IF m.ph \in {0, 1} THEN i' = i /\ m' = StepF[<<i, m>>]
           ELSE i' = i + Stride /\ i' < From + Count /\ m' = BeginF[i + Stride]
        /\ c' = c
Emit == /\ m.ph # 2 \/ PrintT("CASE " \o ToJson([i |-> i, f |-> m.stk[1].b, n |-> Len(m.nodes),
                              paths |-> [j \in DOMAIN m.nodes |-> m.nodes[j].path]]))
        /\ m.ph # 3 \/ PrintT("SPECBUG " \o ToJson([i |-> i, f |-> m.stk[1].b, k |-> m.k]))
=============================================================================
