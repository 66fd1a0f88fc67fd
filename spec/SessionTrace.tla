---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validates recorded sessions: every result must be the one that the      *)
(* specification gives for the world in which the step is taken.           *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, pc, w

Init == n \in 1..Len(Trace) /\ pc = 0 /\ w = Nowhere
Next == /\ pc < Len(Trace[n].steps)
        /\ pc' = pc + 1
        /\ w' = AfterStep(w, Trace[n].steps[pc'])
        /\ n' = n

Check(x) ==
  LET s == Trace[x[1]].steps[x[2]]
      want == ToString(View(x[3], s))
  IN want = Trace[x[1]].r[x[2]] \/ PrintT(ToString(<<"MISMATCH", x[1], ToString(x[2]), want>>))
Holds(P(_)) == pc > 0 => P(<<n, pc, w>>)
Conforms == Holds(Check)
Spec == Init /\ [][Next]_<<n, pc, w>>
=============================================================================
