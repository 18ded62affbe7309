------------------------------ MODULE Worktree ------------------------------
(* Task worktrees (scripts/agents/setup_task_worktree.sh): a clone of a remote, and what asking for
   a worktree for a task does to it.

   remote   branch name -> the number of the commit it is at, on the remote
   reach    the remote can be reached
   heads    branch names of the clone (local refs)
   paths    what exists under <root>/.<agent>/worktrees/: <<root, agent, project, slug>>
   trunk    what the clone's origin/HEAD names, "" when it names nothing
   trees    roots one can stand in: "" for the clone itself, else the branch of a worktree made here
   next     the number of the next commit

   Branch names are sequences of path components. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Task(e) == <<e.agent, e.project, e.slug>>
Suffixes == <<"", "-2", "-3", "-4", "-5", "-6", "-7", "-8", "-9">>
Name(e, k) == <<e.agent, e.project, e.slug \o Suffixes[k]>>
PathOf(e, k) == <<e.from, e.agent, e.project, e.slug \o Suffixes[k]>>
Free(s, e, k) == Name(e, k) \notin s.heads /\ Name(e, k) \notin DOMAIN s.remote /\ PathOf(e, k) \notin s.paths
FreeOnes(s, e) == {k \in 1..Len(Suffixes) : Free(s, e, k)}
First(S) == CHOOSE k \in S : \A j \in S : k <= j
\* git keeps branches like files: none may sit on the way to another
Prefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
Clash(s, b) == \E h \in s.heads : Prefix(h, b) \/ Prefix(b, h)
TrunkOf(s, e) == IF e.trunk # "" THEN e.trunk ELSE IF s.trunk # "" THEN s.trunk ELSE "master"
\* branch names as paths of components; trunks are named by text
Trunk(t) == IF t = "rel/1" THEN <<"rel", "1">> ELSE <<t>>
ValidArgs(e) == e.bad = "" /\ e.agent \in {"claude", "codex"} /\ e.project # "" /\ e.slug # ""
Answer(s, e) ==
  IF ~ValidArgs(e) \/ ~s.reach \/ Trunk(TrunkOf(s, e)) \notin DOMAIN s.remote \/ FreeOnes(s, e) = {} THEN [ok |-> FALSE]
  ELSE LET k == First(FreeOnes(s, e)) IN
       IF Clash(s, Name(e, k)) THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, branch |-> Name(e, k), path |-> PathOf(e, k), commit |-> s.remote[Trunk(TrunkOf(s, e))]]
Made(s, e) == LET a == Answer(s, e) IN
  IF ~a.ok THEN s ELSE [s EXCEPT !.heads = @ \cup {a.branch}, !.paths = @ \cup {a.path}, !.trees = @ \cup {a.branch}]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Apply(s, e) ==
  CASE e.op = "setup" -> Made(s, e)
    [] e.op = "push" -> [s EXCEPT !.remote = Set(@, e.branch, s.next), !.next = @ + 1]
    [] e.op = "branch" -> [s EXCEPT !.heads = @ \cup {e.branch}]
    [] e.op = "unbranch" -> [s EXCEPT !.heads = @ \ {e.branch}]
    [] e.op = "path" -> [s EXCEPT !.paths = @ \cup {e.path}]
    [] e.op = "head" -> [s EXCEPT !.trunk = e.to]
    [] e.op = "reach" -> [s EXCEPT !.reach = e.to]
    [] e.op = "commit" -> [s EXCEPT !.next = @ + 1]
    [] OTHER -> s
\* an edit that git itself would refuse, or that is no edit
Sensible(s, e) ==
  CASE e.op = "push" -> s.reach /\ ~ \E b \in DOMAIN s.remote : Prefix(b, e.branch) \/ Prefix(e.branch, b)
    [] e.op = "branch" -> e.branch \notin s.heads /\ ~Clash(s, e.branch)
    [] e.op = "unbranch" -> e.branch \in s.heads /\ e.branch \notin s.trees /\ e.branch # <<"work">>
    [] e.op = "path" -> e.path \notin s.paths
    [] e.op = "head" -> e.to = "" \/ Trunk(e.to) \in DOMAIN s.remote
    [] e.op = "setup" -> e.from = "" \/ e.fromBranch \in s.trees
    [] OTHER -> TRUE
Start(main) == [remote |-> (Trunk(main) :> 1), reach |-> TRUE, heads |-> {<<"work">>, Trunk(main)}, paths |-> {}, trunk |-> main,
                trees |-> {}, next |-> 2]
=============================================================================
