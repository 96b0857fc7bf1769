------------------------------- MODULE MConc -------------------------------
(***************************************************************************)
(* Several processes use the library at the same time, each on a file of   *)
(* its own.  A process reads its file call by call, keeps what it read in  *)
(* memory of its own and looks the meaning of each type up in the registry *)
(* all of them share; nobody changes the registry.                         *)
(*                                                                         *)
(* Under every interleaving each process ends with the result it has       *)
(* alone (Alone), never disturbs the others' memory (Own) and leaves the   *)
(* registry as it was.  Every interleaving is printed; the driver lets the *)
(* real operations take their reader and writer calls in this order.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
K == Env("M_PROCS", 2)
L == Env("M_STEPS", 5)
Procs == 1..K
File(p) == [i \in 1..L |-> (p * 7 + i * 3) % 5]
Meaning == <<3, 1, 4, 1, 5>>                 \* the registry

\* the sequential operation
RECURSIVE Run(_, _, _)
Run(f, i, acc) == IF i > Len(f) THEN acc ELSE Run(f, i + 1, Append(acc, Meaning[f[i] + 1]))
Alone(p) == Run(File(p), 1, <<>>)

VARIABLES pc, mem, reg, hist
vars == <<pc, mem, reg, hist>>
Init == pc = [p \in Procs |-> 0] /\ mem = [p \in Procs |-> <<>>] /\ reg = Meaning /\ hist = <<>>
Step(p) ==
  /\ pc[p] < L
  /\ pc' = [pc EXCEPT ![p] = @ + 1]
  /\ mem' = [mem EXCEPT ![p] = Append(@, reg[File(p)[pc[p] + 1] + 1])]
  /\ reg' = reg
  /\ hist' = Append(hist, p)
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

AsAlone == \A p \in Procs : mem[p] = SubSeq(Alone(p), 1, pc[p])
Unchanged == reg = Meaning
Done == \A p \in Procs : pc[p] = L
Emit == ~Done \/ PrintT("CASE " \o ToJson([k |-> K, sched |-> hist]))
EveryoneEnds == <>Done
=============================================================================
