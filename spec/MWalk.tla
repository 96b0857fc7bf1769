-------------------------------- MODULE MWalk --------------------------------
(***************************************************************************)
(* Exhaustive model of the traversal: some small files, well-formed and    *)
(* broken, and a handler that does anything at each visit.  TLC checks the *)
(* safety properties of the traversal system in every state, that every    *)
(* behaviour ends, and prints every complete behaviour for replay.         *)
(***************************************************************************)
EXTENDS Walk, Json, IOUtils

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
MaxFree == Env("M_FREE", 3)      \* the handler chooses freely on this many visits
Printing == Env("M_PRINT", 1)

Bx(type, pay) == SubSeq(W(8 + Len(pay)), 5, 8) \o type \o pay
Lg(type, pay) == <<0,0,0,1>> \o type \o W(16 + Len(pay)) \o pay
Sz(type, size, pay) == SubSeq(W(size), 5, 8) \o type \o pay
moov == <<109,111,111,118>>
trak == <<116,114,97,107>>
free == <<102,114,101,101>>
stts == <<115,116,116,115>>
unk  == <<113,113,113,113>>
meta == <<109,101,116,97>>
ftypQT == Bx(T_ftyp, <<105,115,111,109,0,0,0,0>> \o BrandQT)
ftypIS == Bx(T_ftyp, <<105,115,111,109,0,0,0,0>>)
keys1 == Bx(T_keys, <<0,0,0,0, 0,0,0,1, 0,0,0,10, 109,100,116,97, 97,98>>)
item1 == Bx(<<0,0,0,1>>, <<0,0,0,0,0,0,0,0,65>>)
Files == <<
  <<>>,
  ftypIS \o Bx(moov, Bx(trak, Bx(free, <<7>>)) \o Lg(free, <<>>)) \o Sz(free, 0, <<1,2>>),
  Bx(moov, Bx(trak, <<>>) \o Bx(unk, <<1>>) \o Bx(stts, <<0,0,0,0,0,0,0,0>>)),
  ftypQT \o Bx(moov, Bx(T_udta, Bx(free, <<>>) \o <<0,0,0,0>>) \o <<1,2>>),
  Bx(moov, Bx(T_udta, Bx(free, <<>>) \o <<0,0,0,0>>)),                 \* left-over bytes
  Bx(moov, Sz(trak, 7, <<0>>)),                                        \* smaller than its header
  Bx(moov, Bx(free, <<>>) \o Sz(trak, 20, <<0>>)),                     \* larger than its parent
  Bx(moov, <<0,0,0,1>> \o trak),                                       \* header cut short
  Bx(moov, <<0,0,0,1>> \o trak \o <<255,255,255,255,255,255,255,248>>),
  ftypQT \o Bx(meta, keys1 \o Bx(T_ilst, item1)),
  Bx(moov, Bx(T_ftyp, <<1>>) \o Bx(T_keys, <<0,0,0,0>>)),              \* keys that cannot be read
  Bx(stts, <<9,0,0,0>>) \o Bx(stts, <<0,0,0,0,0,0,0,9>>) \o <<0,0,0>>, \* wrong version, short payload
  Bx(T_ftyp, <<1,2>>) \o Bx(free, <<>>),
  Bx(moov, Sz(free, 0, <<>>)) \o Bx(free, <<>>),                       \* to the end of file inside a parent
  Bx(T_wave, Bx(T_wave, Bx(T_wave, Bx(free, <<>>))))
>>

Words == << <<>>, <<"x">>, <<"X">>, <<"p">>, <<"P", "x">>, <<"x", "x">>, <<"d", "X">>, <<"D">>, <<"X", "p", "X">>, <<"e">>, <<"x", "s", "p">> >>

VARIABLES fi, m
\* m: st, s (the stack of Walk), td (letters left, one word per open box), script, last (letter of each running Expand), cls
vars == <<fi, m>>
Init == /\ fi \in DOMAIN Files
        /\ m = [st |-> "run", s |-> <<RootLevel(<<>>)>>, td |-> <<>>, script |-> <<>>, res |-> ""]

Fi == FileOf(Files[fi])

\* the handler of the box on top returns with error st
Throw(x, st) ==
  LET q == Pop(x.s) IN [x EXCEPT !.s = SetTop(q, Failed(st)), !.td = Pop(@)]

Do(F, x) ==
  LET t == Top(x.s) IN
  CASE t.t = "B" ->
        LET w == Top(x.td) IN
        IF w = <<>>
        THEN LET q == Pop(x.s) IN [x EXCEPT !.s = SetTop(q, After(Top(q), t.bi, t.ctx, Len(x.s))), !.td = Pop(@)]
        ELSE LET a == Head(w)
                 y == [x EXCEPT !.td = SetTop(@, Tail(w))]
             IN  CASE a \in {"p", "P"} ->
                        LET d == PayloadOf(F, t.bi, t.ctx, Reg) IN
                        IF d.st = "ok" THEN [y EXCEPT !.s = SetTop(@, [t EXCEPT !.co = <<AddN(PayOff(t.bi), d.n)>>])]
                        ELSE IF a = "P" THEN Throw(y, d.st) ELSE y
                   [] a \in {"d", "D"} ->
                        IF Le(EndOff(t.bi), F.len) THEN y ELSE IF a = "D" THEN Throw(y, "err") ELSE y
                   [] a \in {"x", "X"} ->
                        LET o == Open(F, t, <<>>) IN
                        IF o.st = "ok" THEN [y EXCEPT !.s = Push(SetTop(@, [t EXCEPT !.co = <<o.co>>]), o.L),
                                                      !.td = Push(@, <<a>>)]
                        ELSE IF a = "X" THEN Throw(y, o.st) ELSE y
                   [] a = "e" -> Throw(y, "hnd")
                   [] OTHER -> y
    [] t.t = "L" ->     \* nothing left on this level
        LET a == Adv(F, t) IN
        IF t.root THEN [x EXCEPT !.st = "done", !.res = a.st]
        ELSE LET y == [x EXCEPT !.s = Pop(@), !.td = Pop(@)] IN
             IF a.st # "ok" /\ Top(x.td) = <<"X">> THEN Throw(y, a.st) ELSE y
    [] t.t = "E" ->
        IF Len(x.s) = 1 THEN [x EXCEPT !.st = "done", !.res = t.st]
        ELSE LET y == [x EXCEPT !.s = Pop(@), !.td = Pop(@)] IN
             IF Top(x.td) = <<"X">> THEN Throw(y, t.st) ELSE y
DoF == [q \in Any |-> Do(q[1], q[2])]

NextVisit == IF Top(m.s).t = "L" THEN Adv(Fi, Top(m.s)) ELSE Ends("none")

Visit ==
  /\ m.st = "run"
  /\ LET a == NextVisit IN
     /\ a.a = "visit"
     /\ \E w \in (IF Len(m.script) < MaxFree THEN DOMAIN Words ELSE {3}) :
          m' = [m EXCEPT !.s = Push(@, BoxFrame(a.bi, a.ctx, Top(m.s).path, <<>>)),
                         !.td = Push(@, Words[w]), !.script = Append(@, Words[w])]
  /\ fi' = fi
Other == m.st = "run" /\ NextVisit.a # "visit" /\ m' = DoF[<<Fi, m>>] /\ fi' = fi
Next == Visit \/ Other
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ----------------------------------------------------------------- properties
\* every open box lies inside the level it was found on, every inner level inside its box
Inside ==
  \A j \in 2..Len(m.s) :
    LET x == m.s[j]  y == m.s[j - 1] IN
    CASE x.t = "B" /\ y.t = "L" -> x.bi.off = y.pos /\ (y.root \/ Le(x.bi.size, y.left)) /\ Le(W(x.bi.hdr), x.bi.size)
      [] x.t = "L" /\ y.t = "B" -> Le(y.bi.off, x.pos) /\ Add(x.pos, x.left) = EndOff(y.bi) /\ Lt(y.bi.off, x.pos)
      [] x.t = "E" /\ y.t = "B" -> TRUE
      [] OTHER -> FALSE
\* the path of a box names exactly the boxes it is in
Paths ==
  \A j \in DOMAIN m.s :
    m.s[j].t = "B" => m.s[j].path = [q \in 1..Len(SelectSeq(SubSeq(m.s, 1, j), LAMBDA z : z.t = "B")) |->
                                        SelectSeq(SubSeq(m.s, 1, j), LAMBDA z : z.t = "B")[q].bi.type]
\* the context follows from the boxes around it
Contexts ==
  \A j \in DOMAIN m.s : m.s[j].t = "B" =>
     LET up == {m.s[q].bi.type : q \in {z \in 1..(j - 1) : m.s[z].t = "B"}}
         x == m.s[j].ctx
     IN  /\ x.wave = (T_wave \in up) /\ x.ilst = (T_ilst \in up) /\ x.udta = (T_udta \in up)
         /\ x.keys > 0 => fi = 10
         /\ x.qt => SubSeq(Files[fi], 1, Len(ftypQT)) = ftypQT
\* a broken structure that was looked at cannot give a result
Broken == {5, 6, 7, 8, 9}
AllOpened == \A j \in DOMAIN m.script : m.script[j] \in {<<"X">>, <<"d", "X">>, <<"X", "p", "X">>}
Reported == (m.st = "done" /\ fi \in Broken /\ AllOpened) => m.res = "err"
Progress ==   \* siblings at growing offsets
  [][(Len(m'.s) = Len(m.s) - 1 /\ Top(m.s).t = "B" /\ Top(m'.s).t = "L") => Lt(m.s[Len(m.s) - 1].pos, Top(m'.s).pos)]_vars
Terminates == <>(m.st = "done")

Emit == (m.st = "done" /\ Printing = 1) =>
          PrintT("CASE " \o ToJson([fi |-> fi, f |-> Files[fi], script |-> m.script, res |-> m.res]))
=============================================================================
