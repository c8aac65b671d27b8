----------------------------- MODULE ChainTrace -----------------------------
(* Recorded chains: "fit" holds what the chain went through (chain[j]: the      *)
(* parameters after steps[j] steps, a token) and what was kept; "sample" one    *)
(* posterior draw.                                                              *)
EXTENDS Chain, TraceLib
VARIABLES pts,   \* tokens kept, <<>> while there are none
          drawn  \* tokens drawn so far
MaxOf(q) == IF Len(q) = 0 THEN 0 ELSE q[Len(q)]   \* of an increasing sequence
vars == <<tid, l, pts, drawn>>

Init == TInit /\ pts = <<>> /\ drawn = {}
Sel == Kept(E.c)
Ran == MaxOf(E.steps)
At(k) == LET J == {j \in 1..Len(E.steps) : E.steps[j] = k} IN IF J = {} THEN <<>> ELSE <<E.chain[CHOOSE j \in J : TRUE]>>
Fit == /\ Is("fit")
       /\ LET t == IF E.stop THEN Ran ELSE E.t
              ok == Enough(E.c, t)
          IN /\ ChkEq("accepted", E.ok, ok)
             /\ ~ok => ChkEq("refusal", E.exc, "ValueError")
             /\ ~ok /\ ~E.stop => ChkEq("refused before running", Len(E.steps), 0)
             /\ ok /\ ~E.stop => ChkEq("length of the run", Ran, E.t)
             /\ IF ok
                THEN /\ ChkEq("number of states kept", Len(E.kept), E.c.n)
                     /\ \A k \in 1..E.c.n :
                          /\ IF E.stop /\ At(Sel[k]) = <<>> THEN TRUE   \* early stopping clears the older checkpoints
                             ELSE ChkEq(<<"state kept", k, "is that after step", Sel[k]>>, <<E.kept[k].pt>>, At(Sel[k]))
                          /\ ChkEq(<<"calibration parameters kept", k>>, E.kept[k].c, E.c0)
                          /\ ChkEq(<<"frozen parameters", k>>, E.kept[k].fz, E.fz0)
                     /\ \A i, j \in 1..E.c.n : i # j => Chk("different states kept", E.kept[i].pt # E.kept[j].pt)
                     /\ E.dump => ChkEq("members on disk", E.dirs, [k \in 1..E.c.n |-> k - 1])
                     /\ pts' = [k \in 1..E.c.n |-> E.kept[k].pt]
                ELSE Chk("current states left alone", E.left = pts) /\ pts' = pts
       /\ drawn' = {}
Sample == /\ Is("sample") /\ Chk("a kept state is drawn", \E k \in 1..Len(pts) : pts[k] = E.pt)
          /\ drawn' = drawn \cup {E.pt} /\ pts' = pts
Drawn == /\ Is("drawn") /\ ChkEq("every kept state is drawn", drawn, {pts[k] : k \in 1..Len(pts)}) /\ UNCHANGED <<pts, drawn>>
Next == (Fit \/ Sample \/ Drawn) /\ Adv
Spec == Init /\ [][Next]_vars
=============================================================================
