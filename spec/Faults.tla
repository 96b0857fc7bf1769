------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* Operations on a device of which one call fails.  An operation is a      *)
(* sequence of calls; its outcome after a failing call is an error,        *)
(* whatever it had found out before - except that the end of the file is   *)
(* the normal end of a traversal when it shows up in the header of a box   *)
(* of the top level.                                                       *)
(***************************************************************************)
EXTENDS Walk

\* the headers of the top level: is p inside one of them (or behind the last)?
RECURSIVE InTopHeader(_, _, _)
InTopHeader(F, p, at) ==
  LET h == ReadHdr(F, at) IN
  IF h.st # "ok" THEN Le(at, p)
  ELSE IF Le(at, p) /\ Lt(p, AddN(at, h.bi.hdr)) THEN TRUE
  ELSE IF h.bi.size = Z8 THEN FALSE ELSE Lt(at, EndOff(h.bi)) /\ Le(EndOff(h.bi), p) /\ InTopHeader(F, p, EndOff(h.bi))

\* operations that traverse the top level
Traverses == {"walk", "extract", "probe", "probefra"}

\* may the operation end with st after the call failed (in mode, at p)?
OutcomeOk(F, kind, mode, st, p, late) ==
  /\ st \notin {"panic", "hang"}
  /\ ~late
  /\ st = "ok" => (mode \in {"eof", "cut"} /\ kind \in Traverses /\ InTopHeader(F, p, Z8))
=============================================================================
