---------------------------- MODULE MC_Ellipsis ----------------------------
(* The gap grows; at the end no more than needed has been removed *)
EXTENDS Ellipsis, Json
CONSTANTS MaxClusters, Widths, EW, EWide, PrintHist
VARIABLES cl, mode, goal, gap
vars == <<cl, mode, goal, gap>>
\* a cluster: w, b, and if the ellipsis in its place is a wide one
Cl == {x \in [w : Widths, b : BOOLEAN, wide : BOOLEAN] : (x.w = 0 => ~x.wide) /\ (x.wide => EW # EWide)}
Texts == {t \in UNION {[1..m -> Cl] : m \in 1..MaxClusters} : t[1].b}
Ew(t) == [i \in 1..Len(t) |-> IF t[i].wide THEN EWide ELSE EW]
E == Ew(cl)
Init == /\ cl \in Texts /\ mode \in 1..3 /\ goal \in 0..(TotalOf(cl) - 1)
        /\ gap = FirstGap(cl, mode)
        /\ (PrintHist => PrintT("HIST " \o ToJson([cl |-> cl, mode |-> mode, goal |-> goal])))
Next == /\ ~PrintHist /\ ~Stops(cl, mode, E, goal, gap) /\ gap' \in Grown(cl, mode, gap) /\ UNCHANGED <<cl, mode, goal>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
M == Len(cl)
Done == Stops(cl, mode, E, goal, gap)
\* whole spans around the center
InvCuts == CutBefore(cl, gap[1]) /\ CutAfter(cl, gap[2])
InvCenter == LET i == CenterCluster(cl, mode) IN gap[1] <= i /\ i <= gap[2]
InvSide == /\ mode = 1 => WidthOf(cl, 1, gap[1]-1) = 0
           /\ mode = 3 => gap[2] = M
\* at the end the line fits, or only the ellipsis has a width
InvFits == Done => (Left(cl, E, gap) <= goal \/ WidthOf(cl, 1, gap[1]-1) + WidthOf(cl, gap[2]+1, M) = 0)
InvWidth == Done => (Left(cl, E, gap) + Extra(cl, E, goal, gap) = IF Left(cl, E, gap) > goal THEN E[gap[1]] ELSE goal)
\* no more than needed: the longest text is kept at the start
InvLongest ==
  /\ (Done /\ mode = 3) => \A i \in (gap[1]+1)..M : (CutBefore(cl, i) /\ cl[i].w > 0 /\ WidthOf(cl, gap[1], i-1) > 0 /\ i <= FirstGap(cl, mode)[1]) => WidthOf(cl, 1, i-1) + E[i] > goal
  /\ (Done /\ mode = 1) => \A j \in gap[1]..(gap[2]-1) : (CutAfter(cl, j) /\ WidthOf(cl, j+1, gap[2]) > 0 /\ j >= FirstGap(cl, mode)[2]) => WidthOf(cl, j+1, M) + E[gap[1]] > goal
\* in the middle: no gap whose ends are nearer to the center fits (when all ellipses are alike)
Far(g) == LET a == CenterOf(cl, mode) - XAt(cl, g[1]) z == XAt(cl, g[2]+1) - CenterOf(cl, mode) IN IF a > z THEN a ELSE z
InvNear == (Done /\ gap # FirstGap(cl, mode) /\ \A i, j \in 1..M : E[i] = E[j]) =>
  \A a \in 1..M : \A z \in a..M : (CutBefore(cl, a) /\ CutAfter(cl, z) /\ a <= FirstGap(cl, mode)[1] /\ z >= FirstGap(cl, mode)[2]
                                    /\ Far(<<a, z>>) < Far(gap)) => Left(cl, E, <<a, z>>) > goal
\* all the ends of the machine are the ones of Gaps
InvGaps == Done => gap \in Gaps(cl, mode, E, goal)
Ends == <>Done
=============================================================================
