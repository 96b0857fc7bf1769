------------------------------- MODULE JAccess -------------------------------
(***************************************************************************)
(* Judges recorded calls of accessors.                                     *)
(***************************************************************************)
EXTENDS Access, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

StOf(v) == IF HasFull(v) THEN FSt(TRUE, v.FullBox.Version[8], v.FullBox.Flags) ELSE FSt(FALSE, 0, <<0, 0, 0>>)
WithSt(v, s) == IF HasFull(v) THEN [v EXCEPT !.FullBox = [Version |-> W(s.ver), Flags |-> s.flags]] ELSE v
BrandsOf(v) == [i \in 1..Len(v.CompatibleBrands) |-> v.CompatibleBrands[i].CompatibleBrand] \o <<>>

\* a history of flag operations
RECURSIVE FlagsFrom(_, _, _)
FlagsFrom(log, k, s) ==
  IF k > Len(log) THEN [ok |-> TRUE, s |-> s]
  ELSE LET e == log[k]
           y == FOp(s, e.op, e.x)
       IN  IF e.op \in {"getv", "get", "check"} /\ e.a # y.a THEN [ok |-> FALSE, s |-> s]
           ELSE IF e.ver # FOp(y.s, "getv", e.x).a \/ e.flags # FOp(y.s, "get", e.x).a THEN [ok |-> FALSE, s |-> s]
           ELSE FlagsFrom(log, k + 1, y.s)

\* a history of brand operations: bs the list shown after the last one
RECURSIVE BrandsFrom(_, _, _)
BrandsFrom(log, k, bs) ==
  IF k > Len(log) THEN [ok |-> TRUE, bs |-> bs]
  ELSE LET e == log[k]
           y == CASE e.op = "badd" -> BAdd(bs, e.x) [] e.op = "bremove" -> BRemove(bs, e.x) [] e.op = "bhas" -> bs
       IN  IF ~SameBag(e.bs, y) \/ (e.op = "bhas" /\ e.a # BHas(bs, e.x)) THEN [ok |-> FALSE, bs |-> bs]
           ELSE BrandsFrom(log, k + 1, e.bs)

GetterOk(r) ==
  LET gs == GetterTab[r.layout]
      Has(g, i, val) == \E k \in DOMAIN r.gets : r.gets[k].m = g.m /\ r.gets[k].i = i /\ r.gets[k].st = "ok" /\ r.gets[k].v = val
  IN  /\ r.after = r.v
      /\ \A j \in DOMAIN gs :
           LET g == gs[j] IN
           IF g.k = "words" /\ ~Ascii(r.v[g.a]) THEN TRUE
           ELSE IF Indexed(g) THEN \A i \in 1..Len(ListOf(r.v, g)) : Has(g, i, ValueOf(r.v, g, i))
           ELSE Has(g, 0, ValueOf(r.v, g, 1))

JFF == [q \in Any |->
  LET r == q[1] IN
  r.st = "ok" /\
  CASE r.op = "flags" ->
         LET y == FlagsFrom(r.log, 1, StOf(r.v)) IN y.ok /\ r.after = WithSt(r.v, y.s)
    [] r.op = "brands" ->
         LET y == BrandsFrom(r.log, 1, BrandsOf(r.v))
         IN  y.ok /\ BrandsOf(r.after) = y.bs
                  /\ [r.after EXCEPT !.CompatibleBrands = <<>>] = [r.v EXCEPT !.CompatibleBrands = <<>>]
    [] r.op = "gets" -> GetterOk(r)
    [] r.op = "boxtype" ->
         /\ r.text = TypeText(r.a) /\ r.matches = TypesMatch(r.a, r.b)
         /\ r.fromnum = r.a /\ r.fromstr = r.a /\ r.short = (Len(r.s) # 4)
    [] r.op = "brandnames" -> r.names = BrandTab /\ r.consts = ConstTab /\ r.anytype = <<0, 0, 0, 0>>]

VARIABLES c, i
Stride == 8
Init == c \in 0..(Stride - 1) /\ i = 0
Next == /\ i' = (IF i = 0 THEN c + 1 ELSE i + Stride)
        /\ i' <= Len(Recs)
        /\ c' = c
Ok == i = 0 \/ JFF[<<Recs[i]>>] \/ PrintT(<<"REJECT", i>>)
=============================================================================
