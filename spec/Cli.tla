-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The parse command: from its options, the name of a file and what is in  *)
(* it to its exit status and what it prints.                               *)
(***************************************************************************)
EXTENDS Facets

\* An invocation r: [opts: set of the flags v, j, t, w, strict: value of -s, name: of the file, files: how many names are given,
\*                   readable: whether the file is there, src]
EndsWith(name, end) == Len(name) >= Len(end) /\ SubSeq(name, Len(name) - Len(end) + 1, Len(name)) = end

Mode(r) == (IF EndsWith(r.name, ".epp") THEN "e" ELSE "") \o (IF "t" \in r.opts THEN "t" ELSE "") \o (IF "w" \in r.opts THEN "w" ELSE "")
StrictValue(strict) ==
  LET s == Lower(strict) IN CASE s \in {"", "off"} -> "0" [] s = "warning" -> "1" [] s = "error" -> "2" [] OTHER -> "none"
\* Workflows and tasks have validators of their own, that know of no strictness
Sort(r) == IF "w" \in r.opts THEN "4" ELSE IF "t" \in r.opts THEN "3" ELSE StrictValue(r.strict)

\* A message that tells of a location already is not given another
TellsLocation(m) ==
  LET cs == Codes(m)
  IN \E i \in 2..(Len(cs) - 5) : From(cs, i, i + 5) \in {Codes("file:"), Codes("line:")} /\ ~IsWord(cs[i - 1]) /\ cs[i + 5] = 32
Located(name, m, line, pos) ==
  IF TellsLocation(m) THEN m
  ELSE m \o " (file: " \o name \o ", line: " \o ToString(line) \o ", column: " \o ToString(pos) \o ")"

\* What a failure to parse says, and whether it is an issue (a text that is not text has no lines)
IsIssue(o) == o.code \notin {"NUL", "UNICODE"}
Complaint(name, o) == IF IsIssue(o) THEN Located(name, ParseMessage(o), o.line, o.pos) ELSE ParseMessage(o)

RECURSIVE Lines2(_, _, _, _)
Lines2(name, is, i, acc) == IF i > Len(is) THEN acc ELSE Lines2(name, is, i + 1, acc \o Located(name, is[i][5], is[i][3], is[i][4]) \o "?")
AnyError(is) == \E i \in 1..Len(is) : is[i][2] = "error"

\* Exit status, standard output and standard error. With j, standard output is a JSON object of the keys ast, issues and error
Result(exit, out, err) == <<exit, out, err>>
Object(ast, issues, error) == <<ast, issues, error>>
Absent == "absent"
IssueData(name, is) == [i \in 1..Len(is) |-> <<is[i][1], is[i][2], Located(name, is[i][5], is[i][3], is[i][4])>>]

Run(r) ==
  IF r.files # 1 THEN Result(1, "", "usage")
  ELSE IF ~r.readable THEN Result(1, "", "unreadable")
  ELSE IF StrictValue(r.strict) = "none" THEN Result(1, "", "strict")
  ELSE
    LET o == Outcome(r.src, ModeOf(Mode(r)), FALSE)
        j == "j" \in r.opts
    IN IF ~o.ok
       THEN IF ~j THEN Result(1, "", Complaint(r.name, o) \o "?")
            ELSE Result(1, IF IsIssue(o) THEN Object(Absent, <<<<o.code, "error", Complaint(r.name, o)>>>>, Absent) ELSE Object(Absent, Absent, Complaint(r.name, o)), "")
       ELSE
         LET is == Validate(r.src, o.ast, Sort(r))
             bad == AnyError(is)
             silent == bad \/ "v" \in r.opts
         IN IF ~j THEN Result(IF bad THEN 1 ELSE 0, IF silent THEN "" ELSE TextArg(Text(ToPN(o.ast))), Lines2(r.name, is, 1, ""))
            ELSE Result(IF bad THEN 1 ELSE 0,
                        Object(IF silent THEN Absent ELSE TextArg(JSON(ToPN(o.ast))), IF is = <<>> THEN Absent ELSE IssueData(r.name, is), Absent), "")
=============================================================================
