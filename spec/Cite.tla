-------------------------------- MODULE Cite --------------------------------
(* The citation checker: how a cited source path resolves against the tracked files of a
   checkout, and what it reports about a set of documents.

   A checkout `st` has: files (a function-like sequence of [path, lines, tracked], path a sequence
   of components), docs (a sequence of [name, md, story, cites]).
   A document's cites are in order of appearance; each has its line in the document, its cited
   path and its spans <<from, to>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Functions, SequencesExt



Ends(c, p) == Len(c) <= Len(p) /\ SubSeq(p, Len(p) - Len(c) + 1, Len(p)) = c
Tracked(st) == {f.path : f \in {g \in Range(st.files) : g.tracked}}
LinesOf(st, p) == (CHOOSE f \in Range(st.files) : f.path = p).lines
Hits(st, c) == {p \in Tracked(st) : Ends(c, p)}
\* the files a document itself pins for a basename, through longer forms that mean one file
Pinned(st, doc, base) ==
  UNION {Hits(st, c.path) : c \in {x \in Range(doc.cites) : Len(x.path) > 1 /\ Last(x.path) = base /\ Cardinality(Hits(st, x.path)) = 1}}
\* the override given for a basename: the last one wins, and it counts only if it is tracked
Override(st, maps, base) ==
  LET of == SelectSeq(maps, LAMBDA m : Last(m) = base) IN
  IF of = <<>> \/ Last(of) \notin Tracked(st) THEN {} ELSE {Last(of)}
One(S) == CHOOSE x \in S : TRUE
Resolve(st, doc, c, maps) ==
  LET hits == Hits(st, c)
      pins == IF Len(c) = 1 THEN Pinned(st, doc, c[1]) ELSE {}
      over == Override(st, maps, Last(c))
  IN IF c \in Tracked(st) THEN [how |-> "exact", path |-> c]
     ELSE IF Cardinality(hits) = 1 THEN [how |-> "suffix", path |-> One(hits)]
     ELSE IF Cardinality(pins) = 1 THEN [how |-> "context", path |-> One(pins)]
     ELSE IF over # {} THEN [how |-> "map", path |-> One(over)]
     ELSE [how |-> IF hits = {} THEN "external" ELSE "ambiguous", path |-> <<>>]
InRange(st, p, s) == s[1] >= 1 /\ s[2] >= 1 /\ s[1] <= LinesOf(st, p) /\ s[2] <= LinesOf(st, p)

\* -------- which documents are looked at
\* the life of a document: at the fork point with the trunk, on this branch, in the working tree.
\* --changed-vs means what the branch itself committed since the fork, and nothing it deleted.
Stories == {"same", "added", "edited", "trunk-edited", "both-edited", "deleted", "untracked", "dirty", "added-then-lost", "reverted", "renamed"}
There(d) == d.story \notin {"deleted", "added-then-lost"}
Changed(d) == d.md /\ d.story \in {"added", "edited", "both-edited", "added-then-lost", "renamed"}
Scope(st, e) == {i \in 1..Len(st.docs) : st.docs[i].name \in Range(e.docs) \/ (e.changed /\ Changed(st.docs[i]))}
Missing(st, e) == {n \in Range(e.docs) : ~ \E i \in 1..Len(st.docs) : st.docs[i].name = n /\ There(st.docs[i])}
Scanned(st, e) == Cardinality({st.docs[i].name : i \in Scope(st, e)} \cup Range(e.docs))
Read(st, e) == {i \in Scope(st, e) : There(st.docs[i])}
GoneChanged(st, e) == {i \in Scope(st, e) : ~There(st.docs[i]) /\ st.docs[i].name \notin Range(e.docs)}

\* -------- the report
Each(st, e) == UNION {{[doc |-> st.docs[i].name, line |-> c.line, cite |-> c.path, spans |-> c.spans, k |-> k,
                        r |-> Resolve(st, st.docs[i], c.path, e.maps)] :
                         <<k, c>> \in {<<j, st.docs[i].cites[j]>> : j \in 1..Len(st.docs[i].cites)}} : i \in Read(st, e)}
Found(x) == x.r.path # <<>>
Spans(X) == UNION {{<<x, n>> : n \in 1..Len(x.spans)} : x \in X}
Resolved(st, e, how) == Cardinality(Spans({x \in Each(st, e) : x.r.how = how}))
Checked(st, e) == Cardinality(Spans({x \in Each(st, e) : Found(x)}))
Skipped(st, e, path) == Cardinality(Spans({x \in Each(st, e) : x.r.how = "external" /\ x.cite = path}))
SkippedNames(st, e) == {x.cite : x \in {y \in Each(st, e) : y.r.how = "external"}}
Failures(st, e) ==
  {[kind |-> "missing", doc |-> n, line |-> 0, cite |-> <<>>, from |-> 0, to |-> 0] : n \in Missing(st, e)} \cup
  {[kind |-> "missing", doc |-> st.docs[i].name, line |-> 0, cite |-> <<>>, from |-> 0, to |-> 0] : i \in GoneChanged(st, e)} \cup
  {[kind |-> "ambiguous", doc |-> x.doc, line |-> x.line, cite |-> x.cite, from |-> 0, to |-> 0] : x \in {y \in Each(st, e) : y.r.how = "ambiguous"}} \cup
  UNION {{[kind |-> "range", doc |-> x.doc, line |-> x.line, cite |-> x.cite, from |-> x.spans[n][1], to |-> x.spans[n][2]] :
           n \in {m \in 1..Len(x.spans) : ~InRange(st, x.r.path, x.spans[m])}} : x \in {y \in Each(st, e) : Found(y)}}
Listed(st, e) == IF ~e.list THEN {} ELSE
  UNION {{[doc |-> x.doc, line |-> x.line, cite |-> x.cite, from |-> x.spans[n][1], to |-> x.spans[n][2], how |-> x.r.how, path |-> x.r.path] :
           n \in 1..Len(x.spans)} : x \in {y \in Each(st, e) : Found(y)}}
NoDocs(st, e) == e.docs = <<>> /\ (~e.changed \/ Scope(st, e) = {})
ExitCode(st, e) == IF NoDocs(st, e) THEN 2 ELSE IF Failures(st, e) = {} THEN 0 ELSE 1
=============================================================================
