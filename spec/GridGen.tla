------------------------------ MODULE GridGen ------------------------------
EXTENDS Grid, TLC, Json
VARIABLES st, done
V1 == {<<"2">>, <<"-1", "3">>, <<"0", "1/2", "4">>}
V2 == {<<"5">>, <<"1", "7">>, <<"-2", "2", "3", "9/2">>}
Starts == {[x |-> x, y |-> y, z |-> z, link |-> k] : k \in BOOLEAN, x \in {"1", "-3"}, y \in {"2"}, z \in {"2", "6"}}
Row(n, s) == [i \in 1..n |-> [link |-> FALSE, x |-> RAdd(i, s), y |-> RMul(i, s), z |-> RSub(s, i)]]
Ops == [op : {"constrain"}, p1 : Names, v1 : V1, p2 : Names, v2 : V2, form : {"array", "list"}]
       \cup {[op |-> "custom", grid |-> [j \in 1..m |-> Row(n, j)]] : m \in 1..3, n \in 1..3}
Init == st \in Starts /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED st
        /\ \E o \in {o \in Ops : st.link /\ o.op = "constrain" => {o.p1, o.p2} \in {{"x", "y"}, {"y"}, {"x"}}} : PrintT("T " \o ToJson(<<[op |-> "new", st |-> st], o>>))
\* transposing the scan transposes the image, whenever the two parameters are independent
Transpose == ~st.link => \A o \in {o \in Ops : o.op = "constrain" /\ {o.p1, o.p2} # {"x", "z"} /\ o.p1 # o.p2} :
   LET t == [o EXCEPT !.p1 = o.p2, !.v1 = o.v2, !.p2 = o.p1, !.v2 = o.v1] IN
   \A i \in 1..Len(o.v1), j \in 1..Len(o.v2) : Image(st, o, "k1")[j][i] = Image(st, t, "k1")[i][j]
=============================================================================
