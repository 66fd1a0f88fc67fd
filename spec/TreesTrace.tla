----------------------------- MODULE TreesTrace -----------------------------
(* Validates recorded trees that were put together by hand. *)
EXTENDS Trees, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 16
VARIABLE at

Agrees(n, i) ==
  LET r == Trace[n].r[i]
      want == ToString(Built(r[1], Trace[n].s, Trace[n].ops))
  IN want = r[2] \/ PrintT(ToString(<<"MISMATCH", n, r[1], want>>))
Check(n) == \A i \in 1..Len(Trace[n].r) : Agrees(n, i)

Init == at \in {l - Lanes : l \in 1..Lanes}
Next == at + Lanes <= Len(Trace) /\ at' = at + Lanes
Holds(P(_)) == at > 0 => P(at)
Conforms == Holds(Check)
Spec == Init /\ [][Next]_at
=============================================================================
