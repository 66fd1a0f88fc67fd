----------------------------- MODULE SessionGen -----------------------------
(***************************************************************************)
(* All histories of a given length over a pool of sources, two parsers, a  *)
(* validator and a combination of them.  Each state is printed with what   *)
(* must be observed in it, and replayed on the implementation.             *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

\* [sources: tuples of code points, programs: which of them are programs, modes: of the two parsers, sort: of the validator, depth, facets]
Setup == JsonDeserialize(IOEnv.SETUP)
VARIABLES hist, w

\* steps name sources by number
St(op, p, t, v, i) == [op |-> op, p |-> p, t |-> t, v |-> v, i |-> i]
Full(s) == [op |-> s.op, p |-> s.p, t |-> s.t, v |-> s.v, m |-> "", s |-> IF s.i = 0 THEN <<>> ELSE Setup.sources[s.i],
            f |-> IF s.op \in {"parse", "look"} THEN Setup.facets ELSE <<>>]
Begin == << [Full(St("new", "p", "", "", 0)) EXCEPT !.m = Setup.modes[1]], [Full(St("new", "q", "", "", 0)) EXCEPT !.m = Setup.modes[2]],
            [Full(St("vnew", "", "", "v", 0)) EXCEPT !.m = Setup.sort], Full(St("pv", "p", "w", "v", 0)) >>

\* programs[j][i]: whether the i:th source is a program in the j:th mode
IsProgram(t) == \E i \in 1..Len(Setup.sources), j \in 1..2 : t = Tree(Setup.sources[i], Setup.modes[j]) /\ Setup.programs[j][i]
Steps ==
  {St("parse", p, IF p = "p" THEN "t" ELSE "u", "", i) : p \in {"p", "q"}, i \in 1..Len(Setup.sources)}
  \cup {St("pvparse", "", "w", "r", i) : i \in 1..Len(Setup.sources)}
  \cup {St("look", "", t, "", 0) : t \in DOMAIN w.ts}
  \cup {St("check", "", t, "v", 0) : t \in {x \in DOMAIN w.ts : IsProgram(w.ts[x])}}
  \cup {St("keep", "", "k", "v", 0)} \cup {St("kept", "", k, "", 0) : k \in DOMAIN w.ks}
  \cup {St("clear", "", "", "v", 0), St("issues", "", "", "v", 0)}

RECURSIVE Run(_, _, _)
Run(ww, ss, i) == IF i > Len(ss) THEN ww ELSE Run(AfterStep(ww, ss[i]), ss, i + 1)

\* whether the step makes the list of issues k
Keeps(s, k) == (s.op = "keep" /\ s.t = k) \/ (s.op = "pvparse" /\ s.v = k)
FullAll(ss) == [i \in 1..Len(ss) |-> Full(ss[i])]

Init == hist = <<>> /\ w = Run(Nowhere, Begin, 1)
Next == Len(hist) < Setup.depth /\ \E s \in Steps : hist' = Append(hist, s) /\ w' = AfterStep(w, Full(s))

\* Nothing that a history has done shows in a later result: a parse gives what a parser that was never used gives,
\* and a validator has the issues of what it was last given
Forgets(x) ==
  LET s == Full(x[1][Len(x[1])])
      ww == x[2]
      v == View(ww, s)
  IN /\ CASE s.op = "parse" -> v = View(Run(Nowhere, <<Begin[1], Begin[2], s>>, 1), s)
          [] s.op = "clear" -> v = <<>>
          [] s.op \in {"keep", "kept"} -> \E i \in 1..Len(x[1]) :
               /\ \A j \in (i + 1)..(Len(x[1]) - 1) : ~Keeps(x[1][j], s.t)
               /\ Keeps(x[1][i], s.t)
               /\ LET before == View(Run(Nowhere, Begin \o FullAll(SubSeq(x[1], 1, i)), 1), Full(x[1][i]))
                  IN v = (IF x[1][i].op = "pvparse" THEN before[4] ELSE before)
          [] s.op = "check" -> v = IssuesFor([t |-> ww.ts[s.t], sev |-> ww.vs["v"].sev], OutcomeOf(ww.ts[s.t]), Setup.sort)
          [] s.op = "pvparse" -> /\ v[2] = (v[4] # <<>>)
                                 /\ v[3] = HasError(v[4])
                                 /\ ToString(v[1]) # ToString("none") => v[4] = View(ww, [s EXCEPT !.op = "issues", !.v = "v"])
          [] OTHER -> TRUE
     /\ PrintT("@" \o ToJson([h |-> x[1], r |-> ToString(v)]))
Holds(P(_)) == hist # <<>> => P(<<hist, w>>)
Sound == Holds(Forgets)
Spec == Init /\ [][Next]_<<hist, w>>
=============================================================================
