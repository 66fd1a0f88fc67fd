------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Validates recorded runs of the parse command.                           *)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 16
VARIABLE at

Request(ev) == [opts |-> {ev.opts[i] : i \in 1..Len(ev.opts)}, strict |-> ev.strict, name |-> ev.name, files |-> ev.files, readable |-> ev.readable, src |-> ev.src]

\* What is documented of the exit status: it tells whether there was an error
Fine(r) ==
  /\ r.files = 1 /\ r.readable /\ StrictValue(r.strict) # "none"
  /\ LET o == Outcome(r.src, ModeOf(Mode(r)), FALSE)
     IN o.ok /\ LET is == Validate(r.src, o.ast, Sort(r)) IN ~AnyError(is)

Judge(ev, r, res, n) ==
  LET want == ToString(res)
  IN /\ (SubSeq(want, 3, 3) = "0") = Fine(r)
     /\ want = ev.r \/ PrintT(ToString(<<"MISMATCH", n, "C", want>>))
Check(n) ==
  LET ev == Trace[n]
      r == Request(ev)
      res == Run(r)
  IN Judge(ev, r, res, n)

Init == at \in {l - Lanes : l \in 1..Lanes}
Next == at + Lanes <= Len(Trace) /\ at' = at + Lanes
Holds(P(_)) == at > 0 => P(at)
Conforms == Holds(Check)
Spec == Init /\ [][Next]_at
=============================================================================
