------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Parsers, trees, validators and combined parsers and validators that     *)
(* live from one use to the next.  What they remember is all there is to   *)
(* them: a parser has its options; a tree its source and the mode that it  *)
(* was parsed with; a validator its sort, its severities, and what it has  *)
(* seen since it was last cleared, each with the severities of that time;  *)
(* a combination its parser and its validator.  A list of issues that      *)
(* somebody has kept stays what it was.                                    *)
(***************************************************************************)
EXTENDS Demotion, TLC

Nowhere == [ps |-> <<>>, ts |-> <<>>, vs |-> <<>>, ws |-> <<>>, ks |-> <<>>]
Put(f, k, v) == (k :> v) @@ f

Tree(src, m) == [src |-> src, m |-> m, at |-> <<>>]

RECURSIVE PartOf(_, _, _)
\* A part of a tree is a node of it, and all below that: a tree of its own. at are the numbers of nodes, each in the part before
PartOf(e, at, i) ==
  IF i > Len(at) THEN e
  ELSE LET ns == Preorder(e) IN PartOf(ns[(at[i] % Len(ns)) + 1], at, i + 1)
OutcomeOf(t) ==
  LET o == Outcome(t.src, ModeOf(t.m), Has(t.m, "s"))
  IN IF o.ok /\ t.at # <<>> THEN [o EXCEPT !.ast = PartOf(o.ast, t.at, 1)] ELSE o

\* A validator sees a tree
Seen(v, t) == [v EXCEPT !.seen = Append(@, [t |-> t, sev |-> v.sev])]

\* The world after a step. A step has an operation op, and names of a parser p, a tree t, and a validator v;
\* m: options, sort of validator, or whether a single expression is wanted; s: source; f: facets to look at
AfterStep(w, s) ==
  CASE s.op = "new" -> [w EXCEPT !.ps = Put(@, s.p, s.m)]
    [] s.op = "parse" -> [w EXCEPT !.ts = Put(@, s.t, Tree(s.s, IF Has(s.m, "s") THEN w.ps[s.p] \o "s" ELSE w.ps[s.p]))]
    [] s.op = "part" -> [w EXCEPT !.ts = Put(@, s.t, [w.ts[s.p] EXCEPT !.at = Append(@, Len(s.f))])]
    [] s.op = "vnew" -> [w EXCEPT !.vs = Put(@, s.v, [sort |-> s.m, sev |-> AtBirth(s.m), seen |-> <<>>])]
    [] s.op = "demote" -> [w EXCEPT !.vs = Put(@, s.v, [w.vs[s.v] EXCEPT !.sev = Demoted(@, s.m, Len(s.f))])]
    [] s.op = "check" -> [w EXCEPT !.vs = Put(@, s.v, Seen(w.vs[s.v], w.ts[s.t]))]
    [] s.op = "clear" -> [w EXCEPT !.vs = Put(@, s.v, [w.vs[s.v] EXCEPT !.seen = <<>>])]
    [] s.op = "keep" -> [w EXCEPT !.ks = Put(@, s.t, [seen |-> w.vs[s.v].seen, sort |-> w.vs[s.v].sort, all |-> FALSE])]
    [] s.op = "pv" -> [w EXCEPT !.ws = Put(@, s.t, [p |-> s.p, v |-> s.v])]
    [] s.op = "pvparse" -> LET v == w.ws[s.t].v
                           IN [w EXCEPT !.vs = Put(@, v, Seen(w.vs[v], Tree(s.s, w.ps[w.ws[s.t].p]))),
                                       !.ks = Put(@, s.v, [seen |-> <<[t |-> Tree(s.s, w.ps[w.ws[s.t].p]), sev |-> w.vs[v].sev]>>, sort |-> w.vs[v].sort, all |-> TRUE])]
    [] OTHER -> w

\* x: [t, sev]
IssuesFor(x, o, sort) == Reported(x.t.src, o.ast, sort, x.sev)

RECURSIVE LastIssues(_, _, _)
\* the issues of the last of the trees that is one
LastIssues(seen, i, sort) ==
  IF i = 0 THEN <<>>
  ELSE LET o == OutcomeOf(seen[i].t) IN IF o.ok THEN IssuesFor(seen[i], o, sort) ELSE LastIssues(seen, i - 1, sort)

HasError(is) == \E i \in 1..Len(is) : is[i][2] = "error"

Combined(x, sort) ==
  LET o == OutcomeOf(x.t)
  IN IF o.ok THEN LET is == IssuesFor(x, o, sort) IN <<Structure(o.ast), is # <<>>, HasError(is), is>>
     ELSE IF o.code \in {"NUL", "UNICODE"} THEN <<"none", TRUE, TRUE, <<<<"VALIDATE_INVALID_SOURCE", "error", 0, 0, "Invalid source: " \o ParseMessage(o)>>>>>>
     ELSE <<"none", TRUE, TRUE, <<<<o.code, "error", o.line, o.pos, ParseMessage(o)>>>>>>

\* A list of issues: those of a result (all), where the parser's own are among them, or those of a validator
Kept(k) == IF k.all THEN Combined(k.seen[1], k.sort)[4] ELSE LastIssues(k.seen, Len(k.seen), k.sort)

Look(t, fs) == LET o == OutcomeOf(t) IN [j \in 1..Len(fs) |-> Facet(fs[j], t.src, t.m, o)]

\* What is observed when the step has been taken. w is the world after it
View(w, s) ==
  CASE s.op \in {"parse", "look"} -> Look(w.ts[s.t], s.f)
    [] s.op \in {"check", "issues", "clear"} -> LastIssues(w.vs[s.v].seen, Len(w.vs[s.v].seen), w.vs[s.v].sort)
    [] s.op \in {"keep", "kept"} -> Kept(w.ks[s.t])
    [] s.op = "pvparse" -> LET seen == w.vs[w.ws[s.t].v].seen IN Combined(seen[Len(seen)], w.vs[w.ws[s.t].v].sort)
    [] s.op = "walk" -> Containers(OutcomeOf(w.ts[s.t]).ast)
    [] s.op = "once" -> IssuesFor([t |-> w.ts[s.t], sev |-> AtBirth(s.m)], OutcomeOf(w.ts[s.t]), s.m)
    [] s.op = "demote" -> DemoteAnswer(s.m, Len(s.f))
    [] s.op = "strict" -> StrictAnswer(s.m)
    [] OTHER -> TRUE
=============================================================================
