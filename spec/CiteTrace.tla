----------------------------- MODULE CiteTrace -----------------------------
EXTENDS Cite, TraceLib
VARIABLES l, st
SetOf(s) == {s[i] : i \in 1..Len(s)}
Hows == {"exact", "suffix", "context", "map"}
Checks(s, e) ==
  IF e.op # "check" THEN <<>>
  ELSE IF e.out # "ok" THEN [Answers |-> FALSE]
  ELSE IF NoDocs(s, e) THEN [Answers |-> TRUE, NothingToCheck |-> e.code = 2]
  ELSE
  [Answers |-> TRUE,
   CiteVerdict |-> e.code = ExitCode(s, e),
   CiteFailures |-> SetOf(e.failures) = Failures(s, e) /\ Len(e.failures) = Cardinality(Failures(s, e)) /\ e.problems = Len(e.failures),
   DocsScanned |-> e.scanned = Scanned(s, e),
   CitationsChecked |-> e.checked = Checked(s, e),
   ResolvedBy |-> \A h \in Hows : e.by[h] = Resolved(s, e, h),
   ExternalNamed |-> /\ {e.external[i].path : i \in 1..Len(e.external)} = SkippedNames(s, e)
                     /\ \A i \in 1..Len(e.external) : e.external[i].n = Skipped(s, e, e.external[i].path)
                     /\ e.skipped = Cardinality(Spans({x \in Each(s, e) : x.r.how = "external"})),
   Listing |-> SetOf(e.listed) = Listed(s, e) /\ Len(e.listed) = Cardinality(Listed(s, e)),
   CheckoutUntouched |-> e.kept]
TInit == l = 1 /\ st = <<>> /\ CountInit
TNext == /\ l <= Len(Trace)
         /\ LET c == Checks(st, Trace[l]) IN Report(l, c) /\ Count(c)
         /\ st' = IF Trace[l].op = "new" THEN Trace[l].st ELSE st
         /\ l' = l + 1
TraceAccepted == Accepted(Len(Trace))
=============================================================================
