------------------------------ MODULE TitleGen ------------------------------
(* Titles: every combination of type, scope and subject around the edges of each rule ("laws"),
   and titles after random edits of a valid one ("walk"). *)
EXTENDS Title, TLC, Json
CONSTANTS Mode, Depth
VARIABLES t, hist

S3 == <<"a","d","d"," ","x">>
Rep(c, n) == [i \in 1..n |-> c]
TypeSet == Types \cup {<<>>, <<"F","e","a","t">>, <<"f","e","a","t","s">>, <<"d","o","c">>, <<"f","i","x","2">>, <<"f","e","a","t"," ">>, <<" ","f","i","x">>}
ScopeSet == {<<>>, <<"(",")">>} \cup {<<"(">> \o s \o <<")">> : s \in
   {<<"a">>, <<"9">>, <<"-">>, <<"a","-","b">>, <<"a","-">>, <<"-","a">>, <<"A">>, <<"a","_">>, <<"a"," ">>, <<"é">>, <<"(">>, <<"a","(","b">>, <<"٣">>, <<"a","/","b">>,
    <<"a",".","b">>, Rep("s", 10), Rep("s", 11), Rep("s", 9) \o <<"-">>, <<"t","e","s","t">>, <<"t","e","s","t","s">>, <<"r","e","v","e","r","t">>,
    <<"r","e","f","a","c","t","o","r">>, <<"C","I">>, <<"a","\n">>, <<"c","i","-","x">>, <<"a","-","f","i","x">>, <<"d","o","c","s","2">>, <<"a","-","-","b">>, <<"-","-">>, <<"s","u","i","t","e">>}} \cup {<<"(","a">>, <<"a",")">>, <<"(","a",")",")">>, <<"(","a",")","(","b",")">>, <<"[","a","]">>}
BangSet == {<<>>, <<"!">>, <<"!","!">>}
SepSet == {<<":"," ">>, <<":">>, <<" ",":"," ">>, <<>>, <<":"," "," ">>}
SubjectSet == {<<>>, S3, <<"A","d","d">>, <<"9">>, <<"é">>, <<"_","x">>, <<"-">>, <<"x",".">>, <<"x"," ">>, <<"x","."," ">>, <<"x"," ",".">>,
               <<".">>, <<" ">>, <<"x",":"," ","y">>, <<"x","(","y",")">>, <<"x","!">>, <<"`","x","`">>, <<"日">>, <<"x",".",".">>, <<"x","é">>, <<"x","…">>,
               Rep("w", 55), Rep("w", 56), Rep("w", 57), Rep("w", 58), Rep("w", 59), Rep("w", 60), Rep("w", 61), Rep("w", 62), Rep("w", 63), Rep("w", 64), Rep("é", 58), Rep("é", 59)}
Feat == <<"f","e","a","t">>
Typical == <<"(","a",")">>
Colon == <<":"," ">>
\* the full product is large; every pair of rules at their edges is not
Titles == {ty \o sc \o Colon \o S3 : ty \in TypeSet, sc \in ScopeSet}
     \cup {ty \o Typical \o Colon \o su : ty \in TypeSet, su \in SubjectSet}
     \cup {Feat \o sc \o bg \o se \o su : sc \in ScopeSet, bg \in BangSet, se \in SepSet, su \in SubjectSet}
     \cup {<<"f","i","x">> \o sc \o Colon \o su : sc \in ScopeSet, su \in SubjectSet}
     \cup {<<"(">> \o <<"a",")">> \o Colon \o S3, <<":"," ","x">>, <<"x">>, <<" ">>, Feat, Feat \o Typical, Feat \o Colon}
Call(x) == [op |-> "title", words |-> <<x>>, lines |-> <<>>]
Init == /\ t \in (IF Mode = "laws" THEN Titles ELSE {Feat \o Typical \o Colon \o S3, <<"f","i","x","(","l","i","m","i","t","s",")",":"," ">> \o Rep("w", 54)})
        /\ hist = IF Mode = "laws" THEN <<>> ELSE <<Call(t)>>
Alphabet == {"a", "Z", "7", "-", "(", ")", "!", ":", " ", ".", "_", "é", "t", "e", "s"}
Ins(s, i, c) == SubSeq(s, 1, i) \o <<c>> \o Drop(s, i)
Del(s, i) == SubSeq(s, 1, i - 1) \o Drop(s, i)
EditOf(s, k) ==
  IF k <= 2 THEN Ins(s, RandomElement(0..Len(s)), RandomElement(Alphabet))
  ELSE IF k <= 4 /\ Len(s) > 0 THEN Del(s, RandomElement(1..Len(s)))
  ELSE IF k = 5 /\ Len(s) > 0 THEN [s EXCEPT ![RandomElement(1..Len(s))] = RandomElement(Alphabet)]
  ELSE IF k = 6 THEN s \o Rep("w", RandomElement(1..66))
  ELSE RandomElement(TypeSet) \o RandomElement(ScopeSet) \o RandomElement(BangSet) \o (IF RandomElement(1..4) = 1 THEN RandomElement(SepSet) ELSE Colon) \o RandomElement(SubjectSet)
Pads == {<<>>, <<" ">>, <<"\t">>, <<" ", " ">>}
\* how the title reaches the checker: one argument, several, or lines on standard input
Split(s) == LET k == Until(s, {" "}) IN IF k = Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, k), Drop(s, k + 1)>>
Way(s, k) == IF k <= 2 THEN Call(s)
             ELSE IF k = 3 THEN [op |-> "title", words |-> Split(s), lines |-> <<>>]
             ELSE [op |-> "title", words |-> <<>>, lines |->
                    LET u == SelectSeq(s, LAMBDA c : c # "\n") IN
                    (IF k = 4 THEN <<>> ELSE <<RandomElement(Pads)>>) \o <<RandomElement(Pads) \o u \o RandomElement(Pads)>> \o
                     (IF k = 6 THEN <<<<"z">>, S3>> ELSE <<>>)]
Next ==
  IF Mode = "laws" THEN hist = <<>> /\ hist' = <<"done">> /\ UNCHANGED t /\ PrintT("T " \o ToJson(<<Call(t)>>))
  ELSE \/ Len(hist) < Depth /\ \E k \in {RandomElement(1..7)} : \E u \in {EditOf(t, k)} :
            LET v == IF Len(u) > 90 THEN SubSeq(u, 1, 40) ELSE u IN
            t' = (IF Broken(v) = {} \/ RandomElement(1..4) = 1 THEN v ELSE IF RandomElement(1..6) = 1 THEN Feat \o Typical \o Colon \o S3 ELSE t) /\ \E w \in {RandomElement(1..6)} : hist' = Append(hist, Way(v, w))
       \/ Len(hist) = Depth /\ PrintT("B " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED t

Ok(x) == Broken(x) = {}
\* a valid title is spelt from its parts, and each rule has teeth next to it
Spelt == Ok(t) => LET p == Parse(t) IN
   t \in {p.type \o <<"(">> \o p.scope \o <<")">> \o b \o Colon \o p.subject : b \in {<<>>, <<"!">>}}
Teeth == Ok(t) => /\ ~Ok(t \o <<".">>) /\ ~Ok(t \o <<" ">>) /\ ~Ok(<<" ">> \o t) /\ ~Ok(Tail(t) \o Rep("w", 70))
                  /\ (Len(t) < MaxHeader <=> Ok(t \o <<"x">>))
Examples ==   \* the good and bad examples of the guidelines, in miniature
  /\ Ok(<<"c","i","(","a","c","t","i","o","n","s",")",":"," ","p">>)
  /\ Broken(<<"c","i","(","c","i",")",":"," ","p">>) = {"scope-type"}
  /\ Broken(<<"f","e","a","t",":"," ","a">>) = {"scope-missing"}
  /\ Broken(<<"f","i","x","(","D",")",":"," ","c">>) = {"scope-characters"}
  /\ Broken(<<"f","i","x","(","d",")",":"," ","c",".">>) = {"subject-stop"}
  /\ Broken(<<"f","e","a","t","(">> \o <<"p","h","a","s","e","-","s","p","a","c","e">> \o <<")",":"," ","v">>) = {"scope-length"}
=============================================================================
