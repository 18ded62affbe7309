------------------------------- MODULE Title -------------------------------
(* The pull-request title convention (docs/PR_GUIDELINES.md, "Title format") over titles as
   sequences of characters: which rules a title breaks, and what the checker answers. *)
EXTENDS Integers, Sequences, FiniteSets

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}
Beyond == {"é", "ß", "Ω", "日", "٣"}         \* letters and digits outside ASCII
Alnum == Lower \cup Upper \cup Digit \cup Beyond
Blank == {" ", "\t"}
Types == {<<"f","e","a","t">>, <<"f","i","x">>, <<"c","h","o","r","e">>, <<"c","i">>, <<"d","o","c","s">>, <<"t","e","s","t">>,
          <<"r","e","f","a","c","t","o","r">>, <<"p","e","r","f">>, <<"s","t","y","l","e">>, <<"b","u","i","l","d">>,
          <<"r","e","v","e","r","t">>}
MaxHeader == 69
MaxScope == 10

Drop(s, n) == SubSeq(s, n + 1, Len(s))
\* the length of the longest prefix of s whose characters are all in (or, for Until, none in) S
Run(s, S) == LET bad == {i \in 1..Len(s) : s[i] \notin S} IN
  IF bad = {} THEN Len(s) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
Until(s, S) == LET hit == {i \in 1..Len(s) : s[i] \in S} IN
  IF hit = {} THEN Len(s) ELSE (CHOOSE i \in hit : \A j \in hit : i <= j) - 1

\* type, optionally "(" scope ")", optionally "!", then ": " and the subject
NoParse == [ok |-> FALSE]
Parse(t) ==
  LET n == Run(t, Lower \cup Upper)
      a == Drop(t, n)
      scoped == a # <<>> /\ a[1] = "("
      k == IF scoped THEN Until(Tail(a), {")"}) ELSE 0
      closed == ~scoped \/ k < Len(a) - 1
      b == IF scoped /\ closed THEN Drop(a, k + 2) ELSE a
      c == IF b # <<>> /\ b[1] = "!" THEN Tail(b) ELSE b
  IN IF n = 0 \/ ~closed \/ Len(c) < 2 \/ c[1] # ":" \/ c[2] # " " THEN NoParse
     ELSE [ok |-> TRUE, type |-> SubSeq(t, 1, n), scoped |-> scoped,
           scope |-> IF scoped THEN SubSeq(a, 2, k + 1) ELSE <<>>, subject |-> Drop(c, 2)]

ScopeChars(s) == \A i \in 1..Len(s) : s[i] \in Lower \cup Digit \cup {"-"}
\* the rules a title breaks
Broken(t) ==
  LET p == Parse(t) IN
  (IF Len(t) > MaxHeader THEN {"length"} ELSE {}) \cup
  (IF ~p.ok THEN {"form"}
   ELSE (IF p.type \notin Types THEN {"type"} ELSE {}) \cup
        (IF ~p.scoped THEN {"scope-missing"}
         ELSE IF p.scope = <<>> THEN {"scope-empty"}
         ELSE (IF ScopeChars(p.scope) THEN {} ELSE {"scope-characters"}) \cup
              (IF Len(p.scope) > MaxScope THEN {"scope-length"} ELSE {}) \cup
              (IF p.scope[1] = "-" \/ p.scope[Len(p.scope)] = "-" THEN {"scope-hyphen"} ELSE {}) \cup
              (IF p.scope \in Types THEN {"scope-type"} ELSE {})) \cup
        (IF p.subject = <<>> THEN {"subject-empty"}
         ELSE (IF p.subject[1] \in Alnum THEN {} ELSE {"subject-start"}) \cup
              (IF p.subject[Len(p.subject)] = "." THEN {"subject-stop"} ELSE {}) \cup
              (IF p.subject[Len(p.subject)] = " " THEN {"subject-space"} ELSE {})))

\* the title a call is about: its words joined by a blank, else the first line that is not blank
RECURSIVE Join(_)
Join(ws) == IF Len(ws) = 0 THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<" ">> \o Join(Tail(ws))
RStrip(s) == LET keep == {i \in 1..Len(s) : s[i] \notin Blank} IN
  IF keep = {} THEN <<>> ELSE SubSeq(s, 1, CHOOSE i \in keep : \A j \in keep : j <= i)
Strip(s) == RStrip(Drop(s, Run(s, Blank)))
FirstLine(ls) == LET full == {i \in 1..Len(ls) : Strip(ls[i]) # <<>>} IN
  IF full = {} THEN <<>> ELSE Strip(ls[CHOOSE i \in full : \A j \in full : i <= j])
TitleOf(e) == IF e.words # <<>> THEN Join(e.words) ELSE FirstLine(e.lines)
ExitCode(e) == LET t == TitleOf(e) IN IF t = <<>> THEN 2 ELSE IF Broken(t) = {} THEN 0 ELSE 1
=============================================================================
