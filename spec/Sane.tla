-------------------------------- MODULE Sane --------------------------------
(***************************************************************************)
(* Properties of the specification itself: whatever the source, what it    *)
(* says of it must make sense.  Checked by TLC over corpora of sources     *)
(* (bin/sane.py); a property that does not hold is printed with the source.*)
(***************************************************************************)
EXTENDS Facets, Json, IOUtils, FiniteSets

Corpus == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 16
VARIABLE at

Bytes(src) == LET B == ByteOffsets(src) IN B[Len(B)]
Contains(src, w) == \E i \in 1..(Len(src) - Len(w) + 1) : SubSeq(src, i, i + Len(w) - 1) = w
Range(s) == {s[i] : i \in 1..Len(s)}
Increasing(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

\* A node lies within the source, and its children within it, in source order
Within(src, e) ==
  LET ns == Preorder(e)
  IN \A i \in 1..Len(ns) :
       /\ ns[i].o >= 0 /\ ns[i].n >= 0 /\ ns[i].o + ns[i].n <= Bytes(src)
       \* the text of a heredoc follows the line that it is on, and the iteration of a step its properties;
       \* what stands for a call that is deferred has no text
       /\ (ns[i].n > 0 /\ ~Contains(src, Codes("@(")) /\ ~(i > 1 /\ ns[i - 1].k = "StepExpression")) => LET cs == Children(ns[i])
          IN \A j \in 1..Len(cs) : cs[j].o >= ns[i].o /\ cs[j].o + cs[j].n <= ns[i].o + ns[i].n

\* Visiting everything below a node comes to each node below it once, in preorder, with its ancestors
VisitsAll(e) ==
  LET ns == Preorder(e)
      vs == Visits(<<At2(e)>>, Children(e), 1, <<>>)
  IN /\ Len(vs) = Len(ns) - 1
     /\ \A i \in 1..Len(vs) : vs[i][1] = At2(e) /\ vs[i][Len(vs[i])] = At2(ns[i + 1])
     /\ \A i \in 1..Len(vs) : Len(vs[i]) = 2 \/ \E j \in 1..(i - 1) : vs[j] = SubSeq(vs[i], 1, Len(vs[i]) - 1)

\* The definitions of a program are the nodes that define something, each once
DefinesOnce(o) ==
  LET ns == Preorder(o.ast)
      \* steps that are activities of a workflow are part of it
      vs == <<<<At2(o.ast)>>>> \o Visits(<<At2(o.ast)>>, Children(o.ast), 1, <<>>)
      Flow(i) == ns[i].k = "StepExpression" /\ ns[i].v[2] = "workflow"
      found == {i \in 1..Len(ns) : ns[i].k \in DefinitionKinds /\ (ns[i].k = "StepExpression" => ~\E j \in 1..(i - 1) : Flow(j) /\ Len(vs[j]) + 2 = Len(vs[i]) /\ SubSeq(vs[i], 1, Len(vs[j])) = vs[j])}
      At3(n) == <<n.k, n.o, n.n>>
  IN /\ {At3(ns[i]) : i \in found} = Range(o.defs)
     /\ Cardinality(found) = Len(o.defs)

\* A laxer setting only takes away or demotes, and only what may be
Demotable == {"VALIDATE_DUPLICATE_KEY", "VALIDATE_IDEM_EXPRESSION_NOT_LAST"}
Laxer(src, e) ==
  LET off == Validate(src, e, "0")
      warn == Validate(src, e, "1")
      err == Validate(src, e, "2")
      Same(a, b) == a[1] = b[1] /\ a[3] = b[3] /\ a[4] = b[4] /\ a[5] = b[5]
      Hard(is) == SelectSeq(is, LAMBDA x : x[1] \notin Demotable)
  IN /\ Len(warn) = Len(err)
     /\ \A i \in 1..Len(warn) : Same(warn[i], err[i]) /\ (warn[i][2] = err[i][2] \/ (warn[i][1] \in Demotable /\ warn[i][2] = "warning" /\ err[i][2] = "error"))
     /\ off = Hard(err) /\ off = Hard(warn)

\* Issues are where there is something
Placed(src, e) ==
  LET is == Validate(src, e, "2")
      ps == {<<ln[3], ln[4]>> : ln \in {Positions(src, e)[i] : i \in 1..Len(Preorder(e))}}
  IN \A i \in 1..Len(is) : <<is[i][3], is[i][4]>> \in ps

\* Tokens come one after the other, and the last of them ends the text or is what cannot be read
Ordered(src) ==
  LET ts == Tokens(src)
  IN /\ Len(ts) > 0
     /\ \A i \in 1..(Len(ts) - 2) : Increasing(<<ts[i][2], ts[i][3]>>, <<ts[i + 1][2], ts[i + 1][3]>>)
     /\ \A i \in 1..(Len(ts) - 1) : ts[i][1] # "EOF"

\* An error is somewhere in the text
ErrorPlaced(src, o) == o.code \in {"NUL", "UNICODE"} \/ <<o.line, o.pos>> \in Range(Lines(src))

\* An option matters only to text that it is about
Same(o1, o2) == o1.ok = o2.ok /\ (IF o1.ok THEN o1.ast = o2.ast /\ o1.defs = o2.defs ELSE <<o1.code, o1.line, o1.pos, o1.args>> = <<o2.code, o2.line, o2.pos, o2.args>>)
Indifferent(src, m, o, c, words) ==
  (~Has(m, c) /\ \A w \in words : ~Contains(src, Codes(w))) => Same(o, Outcome(src, ModeOf(m \o c), Has(m, "s")))

\* White space at the end of a program changes nothing but how long it is
Trailing(src, m, o) == (o.ok /\ ~Has(m, "e") /\ ~Contains(src, Codes("@(")) /\ ~Contains(src, Codes("#"))) =>
  LET p == Outcome(src \o <<32, 10, 9>>, ModeOf(m), Has(m, "s")) IN p.ok /\ Structure(p.ast) = Structure(o.ast) /\ Cardinality(Range(p.defs)) = Cardinality(Range(o.defs))

\* The PN of a tree is a value
RECURSIVE IsPN(_)
IsPN(v) ==
  CASE v[1] \in {"n", "s", "f", "i", "b", "nil"} -> TRUE
    [] v[1] = "list" -> \A i \in 1..Len(v[2]) : IsPN(v[2][i])
    [] v[1] = "map" -> \A i \in 1..Len(v[2]) : IsPN(v[2][i][2])
    [] v[1] = "call" -> \A i \in 1..Len(v[3]) : IsPN(v[3][i])
    [] OTHER -> FALSE

Properties(src, m, o) ==
  <<<<"Ordered", Ordered(src)>>,
    <<"ErrorPlaced", o.ok \/ ErrorPlaced(src, o)>>,
    <<"Within", ~o.ok \/ Within(src, o.ast)>>,
    <<"VisitsAll", ~o.ok \/ VisitsAll(o.ast)>>,
    <<"DefinesOnce", ~o.ok \/ Has(m, "s") \/ DefinesOnce(o)>>,
    <<"Laxer", ~o.ok \/ Laxer(src, o.ast)>>,
    <<"Placed", ~o.ok \/ Placed(src, o.ast)>>,
    <<"Hex", Indifferent(src, m, o, "h", {"\\x"})>>,
    <<"Backtick", Indifferent(src, m, o, "b", {"`"})>>,
    <<"Tasks", Indifferent(src, m, o, "t", {"plan"})>>,
    <<"Workflow", Indifferent(src, m, o, "w", {"workflow", "resource", "action", "stateHandler", "step"})>>,
    <<"Trailing", Trailing(src, m, o)>>,
    <<"IsPN", ~o.ok \/ IsPN(ToPN(o.ast))>>>>

Check(n) ==
  LET ev == Corpus[n]
      o == Outcome(ev.src, ModeOf(ev.m), Has(ev.m, "s"))
      ps == Properties(ev.src, ev.m, o)
  IN \A j \in 1..Len(ps) : ps[j][2] \/ PrintT(ToString(<<"INSANE", n, ps[j][1]>>))

Init == at \in {l - Lanes : l \in 1..Lanes}
Next == at + Lanes <= Len(Corpus) /\ at' = at + Lanes
Holds(P(_)) == at > 0 => P(at)
Sane == Holds(Check)
Spec == Init /\ [][Next]_at
=============================================================================
