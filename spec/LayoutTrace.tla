---------------------------- MODULE LayoutTrace -----------------------------
(***************************************************************************)
(* Validates recorded families of sources that differ in layout only: all  *)
(* of them must have the meaning that was recorded.  A family whose        *)
(* members do not all mean the same in the specification is reported as    *)
(* such: then they differ in more than layout.                             *)
(***************************************************************************)
EXTENDS Layout, Json, IOUtils

\* [srcs, m, r]: sources, mode, and what the implementation made of each
Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 16
VARIABLE at

Check(n) ==
  LET ev == Trace[n]
      first == ToString(Meaning(ev.srcs[1], ev.m))
  IN \A i \in 1..Len(ev.srcs) :
       LET want == IF i = 1 THEN first ELSE ToString(Meaning(ev.srcs[i], ev.m))
       IN /\ want = first \/ PrintT(ToString(<<"MISMATCH", n, "X", want>>))
          /\ want = ev.r[i] \/ PrintT(ToString(<<"MISMATCH", n, "S", want>>))

Init == at \in {l - Lanes : l \in 1..Lanes}
Next == at + Lanes <= Len(Trace) /\ at' = at + Lanes
Holds(P(_)) == at > 0 => P(at)
Conforms == Holds(Check)
Spec == Init /\ [][Next]_at
=============================================================================
