------------------------------- MODULE GaussMC -------------------------------
(* SWAG's running moments against their definitions, and lives to drive the code  *)
(* through.                                                                       *)
EXTENDS Gauss, TLC, Json
CONSTANTS Points, MaxN, Ranks, Depth
VARIABLES xs, s, sq, devs, rank, hist
vars == <<xs, s, sq, devs, rank, hist>>
Init == xs = <<>> /\ s = 0 /\ sq = 0 /\ devs = <<>> /\ rank \in Ranks /\ hist = <<>>
(* The running sums after visiting x; deviations as <<n x - sum, n>>. *)
Visit == \E x \in Points : /\ Depth = 0 /\ Len(xs) < MaxN
            /\ xs' = Append(xs, x) /\ s' = s + x /\ sq' = sq + x * x
            /\ devs' = Keep(devs, <<(Len(xs) + 1) * x - (s + x), Len(xs) + 1>>, rank)
            /\ UNCHANGED <<rank, hist>>
(* Lives: fits from scratch, from what the model holds, after saving and loading.  *)
Op == \E o \in {"fit", "cur", "reload"} :
        /\ Len(hist) < Depth /\ (hist = <<>> => o = "fit") /\ (o = "reload" => hist[Len(hist)] # "reload")
        /\ hist' = Append(hist, o) /\ UNCHANGED <<xs, s, sq, devs, rank>>
Next == Visit \/ Op
Spec == Init /\ [][Next]_vars
N == Len(xs)
VarNonNeg == N > 0 => N * sq - s * s >= 0
SumIsSum == s = Sum(xs) /\ sq = Sum([t \in 1..N |-> xs[t] * xs[t]])
KeepsRank == Len(devs) = IF N < rank THEN N ELSE rank
OldestFirst == \A k \in 1..Len(devs) : devs[k][2] = N - Len(devs) + k
FirstIsZero == \A k \in 1..Len(devs) : devs[k][2] = 1 => devs[k][1] = 0
LastTowardsMean == N > 1 => LET d == devs[Len(devs)] IN d[1] = (N - 1) * xs[N] - Sum(SubSeq(xs, 1, N - 1))
ConstantIsFlat == (\A t \in 1..N : xs[t] = xs[1]) => (N = 0 \/ (N * sq = s * s /\ \A k \in 1..Len(devs) : devs[k][1] = 0))
Emit == Depth > 0 /\ Len(hist) = Depth => PrintT(<<"SCEN", ToJson([ops |-> hist, rank |-> rank])>>)
(* Curvatures are never negative. *)
ASSUME \A a, b, c \in {-2000, 0, 500, 1000} : \A p \in {<<1000, 0, 0>>, <<500, 250, 250>>, <<0, 500, 500>>} : CurvC(<<a, b, c>>, p) >= -4
ASSUME \A j \in {-1000, 300} : \A w \in {500, 2000} : \A r \in {-1500, 0, 700} : CurvR(<<j, 0>>, w, r) >= 0 /\ CurvR(<<0, j>>, w, r) >= 0
=============================================================================
