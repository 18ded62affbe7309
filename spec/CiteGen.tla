------------------------------ MODULE CiteGen ------------------------------
EXTENDS Cite, Json, SequencesExt
CONSTANTS Mode, Depth
VARIABLES st, hist

Pool == << <<"hazma","utils.py">>, <<"utils.py">>, <<"test","utils.py">>, <<"hazma","my_utils.py">>, <<"hazma","spectra","_muon.py">>,
           <<"hazma","spectra","_photon","_muon.py">>, <<"hazma","_utils","boost.pyx">>, <<"hazma","_utils","boost.pxd">>,
           <<"old","hazma","spectra","_muon.py">>, <<"hazma","theory","__init__.py">>, <<"hazma","pbh-2.py">> >>
Tails(p) == {SubSeq(p, i, Len(p)) : i \in 1..Len(p)}
Outside == {<<"numpy","core.py">>, <<"quad.py">>, <<"spectra","utils.py">>, <<"muon.py">>, <<"azma","utils.py">>}
AllCites == UNION {Tails(Pool[i]) : i \in 1..Len(Pool)} \cup Outside
Near == {<<"utils.py">>, <<"hazma","utils.py">>, <<"test","utils.py">>, <<"_muon.py">>, <<"spectra","_muon.py">>, <<"_photon","_muon.py">>}
Numbers == {0, 1, 2, 3, 4, 6, 7, 8, 39, 40, 41, 120}
AnySpan(k) == LET a == RandomElement(Numbers) IN IF k = 1 THEN <<a, a>> ELSE <<a, RandomElement(Numbers)>>
NormalSpan(k) == <<1, IF k = 1 THEN 1 ELSE 2>>
SpansOf(k) == CASE k = 1 -> <<AnySpan(1)>> [] k = 2 -> <<AnySpan(2)>> [] k = 3 -> <<AnySpan(1), NormalSpan(2)>>
                [] k = 4 -> <<AnySpan(2), NormalSpan(1), AnySpan(1)>> [] OTHER -> <<NormalSpan(RandomElement(1..2))>>
Distinct(ss) == \A i, j \in 1..Len(ss) : i # j => ss[i] # ss[j]
ACite(n) == LET ss == SpansOf(RandomElement(1..12)) IN
            [line |-> n, path |-> RandomElement(IF RandomElement(1..2) = 1 THEN Near ELSE AllCites), spans |-> IF Distinct(ss) THEN ss ELSE <<ss[1]>>]
AFile(i) == [path |-> Pool[i], lines |-> RandomElement({0, 1, 3, 7, 40, 41}), tracked |-> RandomElement(1..6) # 1]
Names == <<"README.md", "docs/plan.md", "docs/a b.md", "notes.txt", "docs/deep/adr.md">>
ADoc(i) == [name |-> Names[i], md |-> i # 4, story |-> RandomElement(Stories), cites |-> [k \in 1..RandomElement(0..5) |-> ACite(2 * k)]]
Mask(S, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : i \in S)
AState(z) == LET fs == Mask(RandomElement(SUBSET (1..Len(Pool))), Len(Pool))
              ds == Mask(RandomElement(SUBSET (1..5)), 5) IN
          [files |-> [i \in 1..Len(fs) |-> AFile(fs[i])], docs |-> [i \in 1..Len(ds) |-> ADoc(ds[i])]]
MapSet == {<<>>, <<Pool[1]>>, <<Pool[3]>>, <<Pool[5]>>, <<Pool[6], Pool[2]>>, <<Pool[9]>>, <<Pool[7]>>, <<<<"nowhere","_muon.py">>>>, <<<<"hazma","spectra","quad.py">>>>}
DocSets == {<<>>, <<Names[1]>>, <<Names[2]>>, <<Names[4]>>, <<Names[3], Names[1]>>, <<"docs/none.md">>, <<Names[1], Names[2], Names[3], Names[4], Names[5]>>}
Queries(s) == [op : {"check"}, docs : DocSets, changed : BOOLEAN, maps : MapSet, list : BOOLEAN]

\* "laws": one document, all small checkouts
SmallPool == {Pool[1], Pool[2], Pool[3], Pool[5], Pool[6]}
SmallCites == {<<"utils.py">>, <<"hazma","utils.py">>, <<"test","utils.py">>, <<"_muon.py">>, <<"spectra","_muon.py">>, <<"_photon","_muon.py">>, <<"core.py">>}
Small == {[files |-> LET S == SetToSeq(F) IN [i \in 1..Len(S) |-> [path |-> S[i], lines |-> 3, tracked |-> TRUE]],
           docs |-> <<[name |-> "README.md", md |-> TRUE, story |-> "edited",
                       cites |-> <<[line |-> 2, path |-> c, spans |-> <<<<n, n>>>>], [line |-> 4, path |-> d, spans |-> <<<<1, 2>>, <<n, 1>>>>]>>]>>] :
           F \in SUBSET SmallPool, c \in SmallCites, d \in SmallCites, n \in {0, 3, 4}}
Init == IF Mode = "laws" THEN st \in Small /\ hist = <<>>
        ELSE st = [files |-> <<>>, docs |-> <<>>] /\ hist = <<>>
Next ==
  IF Mode = "laws" THEN FALSE /\ UNCHANGED <<st, hist>>
  ELSE \/ hist = <<>> /\ \E s \in {AState(hist)} : st' = s /\ hist' = <<[op |-> "new", st |-> s]>>
       \/ Len(hist) \in 1..Depth /\ \E o \in {RandomElement(Queries(st))} : hist' = Append(hist, o) /\ UNCHANGED st
       \/ Len(hist) = Depth + 1 /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED st

Ask(maps) == [op |-> "check", docs |-> <<"README.md">>, changed |-> FALSE, maps |-> maps, list |-> FALSE]
LawMaps == {<<>>, <<Pool[3]>>, <<Pool[6]>>, <<<<"nowhere","_muon.py">>>>}
\* a citation resolves to a tracked file with its basename; without overrides to one it is a suffix of or
\* one the document names; a full path always means itself
ResolvesSanely == \A m \in LawMaps : \A x \in Each(st, Ask(m)) :
   /\ Found(x) => x.r.path \in Tracked(st) /\ Last(x.r.path) = Last(x.cite)
   /\ x.cite \in Tracked(st) => x.r.path = x.cite
   /\ x.r.how \in {"exact", "suffix", "context"} => Ends(x.cite, x.r.path)
   /\ x.r.how = "external" => Hits(st, x.cite) = {}
\* overrides only ever settle what was open, and a clean report means every line is inside its file
OverridesOnlySettle == \A m \in LawMaps : \A x \in Each(st, Ask(<<>>)) : Found(x) =>
   \E y \in Each(st, Ask(m)) : y.doc = x.doc /\ y.k = x.k /\ y.r = x.r
CleanMeansInside == \A m \in LawMaps : ExitCode(st, Ask(m)) = 0 =>
   \A x \in Each(st, Ask(m)) : x.r.how # "ambiguous" /\ (Found(x) => \A n \in 1..Len(x.spans) : x.spans[n][1] \in 1..3 /\ x.spans[n][2] \in 1..3)
SameScope == ExitCode(st, Ask(<<>>)) = ExitCode(st, [Ask(<<>>) EXCEPT !.docs = <<>>, !.changed = TRUE])
=============================================================================
