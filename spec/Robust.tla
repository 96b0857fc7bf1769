------------------------------- MODULE Robust -------------------------------
(***************************************************************************)
(* What every use of the library owes to an arbitrary input: an answer, of *)
(* one of the kinds below, at a cost bounded by the size of the input and  *)
(* by the numbers declared in it.                                          *)
(*                                                                         *)
(* The bounds follow from the traversal (Walk): a box is visited once, its *)
(* header has eight bytes that belong to no other header, and a visit      *)
(* reads the payload a bounded number of times.  MWalk checks on the model *)
(* that every traversal makes progress and ends.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Outcomes == {"ok", "unsup", "notfound", "err"}
Answered(s) == s.st \in Outcomes

\* all numbers of a record are clamped, products stay small integers
Min2(a, b) == IF a < b THEN a ELSE b
Cap == 20000000
Times(k, n) == k * Min2(n, Cap)

\* one traversal: visits are disjoint headers
VisitsOk(n, len) == Times(8, n) <= len
\* a traversal reads each byte that is not in a hole a few times; a call of the reader gets a byte,
\* or belongs to a visit or to one of a few positions
TravCalls(fill, len) == 200 + Times(10, Min2(fill, len))
TravBytes(fill, len) == 400 + Times(8, Min2(fill, len))
\* extraction: one traversal per path, at most
ExCalls(fill, len, np) == (np + 1) * 200 + Times(12 * (np + 1), Min2(fill, len))
\* Probe: a fixed number of extractions for the file, each track and each fragment
ProbeCalls(fill, len) == 1000 + Times(20, Min2(fill, len))
\* IDR frames: two calls per NAL unit, which has at least its length prefix or ends the sample
IdrCalls(declared) == 300 + Times(4, declared)

CostOk(s, r) ==
  CASE s.s \in {"walk", "raw"} -> VisitsOk(s.n, r.len) /\ s.calls <= TravCalls(r.fill, r.len) /\ s.bytes <= TravBytes(r.fill, r.len)
    [] s.s = "info" -> s.calls <= 2000
    [] s.s = "extract" -> s.calls <= ExCalls(r.fill, r.len, 1)
    [] s.s = "extract1" -> s.calls <= ExCalls(r.fill, r.len, 3 * r.npaths)
    [] s.s = "probe" -> s.calls <= ProbeCalls(r.fill, r.len)
    [] s.s = "idr" -> s.calls <= IdrCalls(s.declared)
    [] s.s = "rates" -> s.calls = 0

Fine(r) == /\ r.st = "ok"
           /\ \A k \in DOMAIN r.stages : Answered(r.stages[k]) /\ CostOk(r.stages[k], r)
=============================================================================
