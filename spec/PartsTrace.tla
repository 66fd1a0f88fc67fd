----------------------------- MODULE PartsTrace -----------------------------
(***************************************************************************)
(* Validates what was recorded of parts of trees: every node of a tree,    *)
(* with all below it, is a tree of its own, and what is observed of it     *)
(* follows from it alone.                                                  *)
(***************************************************************************)
EXTENDS Facets, Json, IOUtils

\* [s: source, m: mode, parts: <<[n: number of the node, f: facets, r: what was observed]>>]
Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 16
VARIABLE at

Agrees(n, i, f, src, m, o, got) ==
  LET want == ToString(Facet(f, src, m, o))
  IN want = got \/ PrintT(ToString(<<"MISMATCH", n, "p" \o ToString(i) \o f, want>>))
Check(n) ==
  LET x == Trace[n]
      o == Outcome(x.s, ModeOf(x.m), Has(x.m, "s"))
      ns == IF o.ok THEN Preorder(o.ast) ELSE <<>>
  IN \A i \in 1..Len(x.parts) :
       LET p == x.parts[i]
       IN IF p.n < Len(ns) THEN \A j \in 1..Len(p.f) : Agrees(n, i, p.f[j], x.s, x.m, [o EXCEPT !.ast = ns[p.n + 1]], p.r[j])
          ELSE PrintT(ToString(<<"MISMATCH", n, "p" \o ToString(i) \o "S", "none">>))

Init == at \in {l - Lanes : l \in 1..Lanes}
Next == at + Lanes <= Len(Trace) /\ at' = at + Lanes
Holds(P(_)) == at > 0 => P(at)
Conforms == Holds(Check)
Spec == Init /\ [][Next]_at
=============================================================================
