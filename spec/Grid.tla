-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Scans of a parameter plane.  A model has parameters x and y, and z,     *)
(* which follows x (setting x sets z = x + 1); its constraints k1 = 3x - y *)
(* and k2 = z y - 5 are positive where a point is allowed.  The image of a *)
(* scan holds, at row j and column i, the constraint at (p1_i, p2_j).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat
Names == {"x", "y", "z"}
\* link: whether setting y adds y to x, so that what x is afterwards depends on what it was
SetP(st, p, v) == CASE p = "x" -> [st EXCEPT !.x = v, !.z = RAdd(v, 1)]
                    [] p = "y" -> [st EXCEPT !.y = v, !.x = IF st.link THEN RAdd(st.x, v) ELSE st.x]
                    [] p = "z" -> [st EXCEPT !.z = v]
K(st, c) == IF c = "k1" THEN RSub(RMul(3, st.x), st.y) ELSE RSub(RMul(st.z, st.y), 5)
At(st, o, i, j) == SetP(SetP(st, o.p1, o.v1[i]), o.p2, o.v2[j])
Image(st, o, c) == [j \in 1..Len(o.v2) |-> [i \in 1..Len(o.v1) |-> K(At(st, o, i, j), c)]]
\* a grid of parameter records, scanned as it lies
Custom(o, c) == [j \in 1..Len(o.grid) |-> [i \in 1..Len(o.grid[j]) |-> K(o.grid[j][i], c)]]
=============================================================================
