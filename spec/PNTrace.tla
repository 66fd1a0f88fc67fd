------------------------------ MODULE PNTrace ------------------------------
(* Validates recorded programs over the notation, and what they made. *)
EXTENDS PNBuild, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 16
VARIABLE at

Check(n) ==
  LET want == ToString(Program(Trace[n].ops))
  IN want = Trace[n].r \/ PrintT(ToString(<<"MISMATCH", n, "R", want>>))

Init == at \in {l - Lanes : l \in 1..Lanes}
Next == at + Lanes <= Len(Trace) /\ at' = at + Lanes
Holds(P(_)) == at > 0 => P(at)
Conforms == Holds(Check)
Spec == Init /\ [][Next]_at
=============================================================================
