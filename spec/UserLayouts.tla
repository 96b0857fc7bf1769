---------------------------- MODULE UserLayouts ----------------------------
(***************************************************************************)
(* Layouts of structures registered by a user of the library.  Here: none. *)
(* C21 and C04 draw declarations at random and put a module of this name   *)
(* in its place, together with the program text that declares and          *)
(* registers the same structures (lib/p_user.py).                          *)
(***************************************************************************)
EXTENDS W64, Layouts

UserLayout == [UserNone |-> << >>]

\* the registrations, in order
UserRegistry == << >>

\* what a box does before its fields are read: "none", "skip" (two bytes that no
\* field holds), "magic" (a first byte 238 takes the place of all fields)
UserBefore == [UserNone |-> "none"]
\* boxes that need not end on a byte boundary or read back as written
UserRaw == {}

BeforeOf(s) == IF s \in DOMAIN UserBefore THEN UserBefore[s] ELSE "none"
RawBox(s) == s \in UserRaw
=============================================================================
