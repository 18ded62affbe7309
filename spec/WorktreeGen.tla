---------------------------- MODULE WorktreeGen ----------------------------
EXTENDS Worktree, Json
CONSTANTS Mode, Depth
VARIABLES s, hist, seen

Agents == {"claude", "codex"}
Projects == {"demo", "p-2"}
Slugs == {"task-1", "task-1-2", "task-2"}
Tasks == {[agent |-> a, project |-> p, slug |-> t] : a \in Agents, p \in Projects, t \in Slugs}
Focus == [agent |-> "claude", project |-> "demo", slug |-> "task-1"]
ATask(z) == IF RandomElement(1..4) # 1 THEN Focus ELSE RandomElement(Tasks)
FromOf(st) == IF st.trees # {} /\ RandomElement(1..8) = 1 THEN RandomElement(st.trees) ELSE <<>>
Setup(t, from, trunk, bad) == [op |-> "setup", agent |-> t.agent, project |-> t.project, slug |-> t.slug, trunk |-> trunk, bad |-> bad,
   from |-> IF from = <<>> THEN "" ELSE from[1] \o "/" \o from[2] \o "/" \o from[3], fromBranch |-> from]
Branches == {<<t.agent, t.project, t.slug \o Suffixes[k]>> : t \in {Focus, [agent |-> "codex", project |-> "p-2", slug |-> "task-2"]}, k \in 1..9}
   \cup {<<"claude">>, <<"claude", "demo">>, <<"claude", "demo", "task-1", "x">>, <<"dev">>, <<"master">>, <<"codex", "demo">>}
NearBranch(z) == RandomElement(IF RandomElement(1..5) = 1 THEN Branches ELSE {<<"claude", "demo", "task-1" \o Suffixes[k]>> : k \in 1..9})
NearPath(z) == LET t == ATask(z) IN <<"", t.agent, t.project, t.slug \o Suffixes[RandomElement(1..9)]>>
AnEdit(st, k) ==
  CASE k = 1 -> [op |-> "push", branch |-> RandomElement({<<"main">>, <<"master">>, <<"dev">>, <<"rel", "1">>})]
    [] k = 2 -> [op |-> "push", branch |-> NearBranch(st)]
    [] k = 3 -> [op |-> "branch", branch |-> NearBranch(st)]
    [] k = 4 -> [op |-> "path", path |-> NearPath(st)]
    [] k = 5 -> [op |-> "head", to |-> RandomElement({"", "main", "master", "dev", "rel/1"})]
    [] k = 6 -> [op |-> "reach", to |-> ~st.reach]
    [] k = 7 -> [op |-> "commit"]
    [] k = 8 -> [op |-> "unbranch", branch |-> NearBranch(st)]
    [] k = 9 -> Setup(ATask(st), FromOf(st), RandomElement({"", "main", "dev", "nosuch"}), RandomElement({"", "", "unknown", "novalue", "agent", "noproject", "noslug"}))
    [] k = 10 -> [op |-> "reach", to |-> TRUE]
    [] OTHER -> Setup(ATask(st), FromOf(st), RandomElement({"", "", "", "", "master", "dev", "rel/1"}), "")
SmallOps == {Setup(Focus, <<>>, t, "") : t \in {"", "dev"}} \cup {Setup([Focus EXCEPT !.slug = "task-1-2"], <<>>, "", "")}
   \cup {[op |-> "branch", branch |-> <<"claude", "demo", "task-1" \o Suffixes[k]>>] : k \in {1, 2, 4}}
   \cup {[op |-> "path", path |-> <<"", "claude", "demo", "task-1" \o Suffixes[k]>>] : k \in {2, 3, 5}}
   \cup {[op |-> "push", branch |-> b] : b \in {<<"main">>, <<"claude", "demo", "task-1-6">>}}
   \cup {[op |-> "branch", branch |-> <<"claude", "demo">>]}
Init == \E m \in {"main", "master", "rel/1"} : s = Start(m) /\ hist = (IF Mode = "walk" THEN <<[op |-> "new", main |-> m]>> ELSE <<>>) /\ seen = {}
Next ==
  IF Mode = "laws" THEN /\ s.next < 4 /\ Cardinality(seen) < 5 /\ UNCHANGED hist
       /\ \E o \in SmallOps : /\ Sensible(s, o) /\ s' = Apply(s, o)
                              /\ seen' = IF o.op = "setup" /\ Answer(s, o).ok THEN seen \cup {<<Answer(s, o).branch, Answer(s, o).commit = s.remote[Trunk(TrunkOf(s, o))]>>} ELSE seen
  ELSE UNCHANGED seen /\
     (\/ Len(hist) < Depth /\ \E k \in {RandomElement(1..16)} : \E o \in {AnEdit(s, k)} :
            /\ IF Sensible(s, o) THEN s' = Apply(s, o) /\ hist' = Append(hist, o)
               ELSE s' = Apply(s, [op |-> "commit"]) /\ hist' = Append(hist, [op |-> "commit"])
      \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED s)
\* a task never gets a name that something already has, always starts at the remote's trunk, and is only
\* refused when no name is left or git cannot hold the name
Fresh == \A o \in SmallOps : o.op = "setup" => LET a == Answer(s, o) IN
  a.ok => a.branch \notin s.heads /\ a.branch \notin DOMAIN s.remote /\ a.path \notin s.paths /\ a.commit < s.next
Distinct == \A x, y \in seen : x # y => x[1] # y[1]
Refusals == \A o \in SmallOps : (o.op = "setup" /\ ~Answer(s, o).ok) =>
   FreeOnes(s, o) = {} \/ Trunk(TrunkOf(s, o)) \notin DOMAIN s.remote \/ <<"claude", "demo">> \in s.heads
=============================================================================
