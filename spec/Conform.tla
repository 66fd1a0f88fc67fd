------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Validates recorded observations of the implementation against the       *)
(* specification.  An event is a source text, the mode it was parsed with, *)
(* and the facets of the outcome that were observed.  Each step of this    *)
(* machine consumes one event; a facet that is not the one that the        *)
(* specification gives is a mismatch.                                      *)
(***************************************************************************)
EXTENDS Facets, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 16
VARIABLE at

Check(n) ==
  LET ev == Trace[n]
      o == Outcome(ev.src, ModeOf(ev.m), Has(ev.m, "s"))
  IN \A j \in 1..Len(ev.f) :
       LET want == ToString(Facet(ev.f[j][1], ev.src, ev.m, o))
       IN want = ev.f[j][2] \/ PrintT(ToString(<<"MISMATCH", n, ev.f[j][1], want>>))

Init == at \in {l - Lanes : l \in 1..Lanes}
Next == at + Lanes <= Len(Trace) /\ at' = at + Lanes
\* Evaluated as an invariant: TLC keeps LET values of state-level formulas, but not those of actions.
\* Check is passed as an argument because TLC looks for constants by walking every path through the
\* definitions that a parameterless one refers to, and the syntax is highly recursive.
Holds(P(_)) == at > 0 => P(at)
Conforms == Holds(Check)
Spec == Init /\ [][Next]_at
=============================================================================
