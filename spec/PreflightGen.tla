---------------------------- MODULE PreflightGen ----------------------------
EXTENDS Preflight, Json
CONSTANTS Mode, Depth
VARIABLES s, hist

Tools == {"black", "isort", "ruff", "cargo", "pytest", "markdownlint"}
RefSets == {[base |-> ("origin/master" :> "2.0.0" @@ "master" :> "2.1.0"), head |-> "master"],
            [base |-> ("origin/master" :> "2.1.0" @@ "master" :> "2.0.0"), head |-> ""],
            [base |-> ("master" :> "2.0.0"), head |-> ""],
            [base |-> ("master" :> "2.1.0"), head |-> ""],
            [base |-> ("origin/main" :> "2.0.0" @@ "origin/master" :> "2.1.0" @@ "master" :> "2.1.0"), head |-> "main"],
            [base |-> ("origin/main" :> "2.1.0" @@ "origin/master" :> "2.0.0" @@ "master" :> "2.0.0"), head |-> "main"],
            [base |-> ("origin/master" :> "" @@ "master" :> "2.0.0"), head |-> "master"]}
Edits == {[op |-> "tool", name |-> t, to |-> x] : t \in Tools, x \in {"ok", "bad", "absent"}} \cup {[op |-> "tool", name |-> "pytest", to |-> "none"]}
   \cup {[op |-> "cargo", name |-> c, to |-> x] : c \in {"fmt", "clippy", "test"}, x \in {"ok", "bad"}}
   \cup {[op |-> "rust", to |-> b] : b \in BOOLEAN} \cup {[op |-> "imports", to |-> b] : b \in BOOLEAN}
   \cup {[op |-> "new", to |-> v, log |-> b] : v \in {"2.1.0", "2.0.0", "3.0.0", ""}, b \in BOOLEAN}
   \cup {[op |-> "hits", to |-> n] : n \in 0..2} \cup {[op |-> "refs", base |-> r.base, head |-> r.head] : r \in RefSets}
Heals == {x \in Edits : x.op \in {"tool", "cargo"} /\ x.to = "ok"} \cup {[op |-> "imports", to |-> TRUE], [op |-> "new", to |-> "3.0.0", log |-> TRUE]}
Asks == [op : {"run"}, paths : {<<>>, <<"hazma/spectra">>, <<"hazma", "test/spectra">>}, tests : {<<>>, <<"test/spectra">>, <<"test/a", "test/b">>},
         md : {"none", "ok", "missing"}, closing : BOOLEAN, bad : {""}]
BadAsks == {[op |-> "run", paths |-> <<>>, tests |-> <<>>, md |-> "none", closing |-> FALSE, bad |-> b] : b \in {"unknown", "novalue", "help"}}
Init == s = Green /\ hist = IF Mode = "laws" THEN <<>> ELSE <<[op |-> "start"]>>
Choose(k) == IF k <= 2 THEN RandomElement(Edits) ELSE IF k = 3 THEN RandomElement(Heals) ELSE IF k = 4 /\ RandomElement(1..5) = 1 THEN RandomElement(BadAsks) ELSE RandomElement(Asks)
Next == IF Mode = "laws" THEN hist' = Append(hist, 0) /\ Len(hist) < 3 /\ \E e \in Edits : s' = Apply(s, e)
        ELSE \/ Len(hist) < Depth /\ \E k \in {RandomElement(1..6)} : \E e \in {Choose(k)} : s' = Apply(s, e) /\ hist' = Append(hist, e)
             \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED s
\* a green verdict means every mandatory gate really ran and said yes
NoFalseGreen == \A e \in Asks : Verdict(s, e) = 0 =>
   /\ s.tools["black"] = "ok" /\ s.tools["pytest"] = "ok" /\ s.imports
   /\ \A t \in {"isort", "ruff"} : s.tools[t] # "bad"
   /\ (s.rust /\ s.tools["cargo"] # "absent") => \A c \in DOMAIN s.cargo : s.cargo[c] = "ok"
   /\ e.closing => s.new # "" /\ s.new # OldVersion(s) /\ s.log
   /\ e.md = "missing" => s.tools["markdownlint"] = "absent"
Advisory == \A e \in Asks : Verdict(s, e) = Verdict([s EXCEPT !.hits = 0], e)
ClosingOnlyAdds == \A e \in Asks : Verdict(s, [e EXCEPT !.closing = FALSE]) <= Verdict(s, [e EXCEPT !.closing = TRUE])
=============================================================================
