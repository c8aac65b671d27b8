---------------------------- MODULE MultivalidMC ----------------------------
(* Design check: the iterative method as a state machine, on every small       *)
(* binary problem; initial states double as scenarios for the real code.       *)
EXTENDS Multivalid, Json
CONSTANTS N, ValSet, Rounds, Atol
VARIABLES p, v0, K, vals, patches, losses, state
vars == <<p, v0, K, vals, patches, losses, state>>

Init ==
  /\ v0 \in [1..N -> {<<x>> : x \in ValSet}]
  /\ \E t \in [1..N -> {0, S}], g2 \in [1..N -> BOOLEAN], ts \in {{0}, {1, 2}} :
       /\ \E i, j \in 1..N : t[i] # t[j]
       /\ p = [method |-> "binary", sc |-> [i \in 1..N |-> <<t[i]>>], gr |-> [i \in 1..N |-> <<TRUE, g2[i]>>],
               n |-> 3, taus |-> ts, mpn |-> 1, mpd |-> 3, en |-> 1, ed |-> 1, mult |-> FALSE, cn |-> 1, cd |-> 1]
  /\ K = 1..(N - 1)          \* no loss of generality: every order of the points is an initial state
  /\ vals = v0 /\ patches = <<>> /\ losses = <<Loss(p, v0, (1..N) \ K)>> /\ state = "run"

Held == (1..N) \ K
NoMore == state = "run" /\ ~AnyBig(p, K, vals) /\ state' = "empty" /\ UNCHANGED <<p, v0, K, vals, patches, losses>>
Round ==
  /\ state = "run" /\ AnyBig(p, K, vals) /\ Len(patches) < Rounds
  /\ \E d \in TLCEval(Worst(p, K, vals)) : \E q \in TLCEval(Patches(p, vals, In(p, p.gr, vals, d) \cap K, d[4])) :
       LET nv == TLCEval(Apply(p, p.gr, vals, d, q))
           vl == Loss(p, nv, Held)
           old == losses[Len(losses)]
       IN /\ losses' = Append(losses, vl)
          /\ IF Loss(p, nv, K) > Loss(p, vals, K) THEN state' = "trainup" /\ UNCHANGED <<vals, patches>>
             ELSE IF vl <= Atol THEN state' = "atol" /\ vals' = nv /\ patches' = Append(patches, <<d, q>>)
             ELSE IF vl > old THEN state' = "valup" /\ UNCHANGED <<vals, patches>>
             ELSE IF In(p, p.gr, nv, d) \cap Held # {} /\ vl = old THEN state' = "rtol" /\ UNCHANGED <<vals, patches>>
             ELSE state' = "run" /\ vals' = nv /\ patches' = Append(patches, <<d, q>>)
  /\ UNCHANGED <<p, v0, K>>
Limit == state = "run" /\ Len(patches) = Rounds /\ state' = "limit" /\ UNCHANGED <<p, v0, K, vals, patches, losses>>
Next == NoMore \/ Round \/ Limit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Replay(_, _)
Replay(v, ps) == IF ps = <<>> THEN v ELSE Replay(Apply(p, p.gr, v, Head(ps)[1], Head(ps)[2]), Tail(ps))
ReplayIsState == Replay(v0, patches) = vals
InRange == \A i \in 1..N : vals[i][1] \in 0..S
Counts == Len(losses) = Len(patches) + (IF state \in {"trainup", "valup", "rtol"} THEN 2 ELSE 1)
LossIsLoss == losses[Len(patches) + 1] = Loss(p, vals, Held)
Progress == \A k \in 2..Len(patches) : losses[k + 1] <= losses[k] \/ losses[k + 1] <= Atol
NoPatchNoChange == patches = <<>> => vals = v0
\* the worst set always exists and, unless every set is perfect, holds enough points
WorstExists == Worst(p, K, vals) # {}
Ends == <>(state # "run")
\* one-shot: the grid value or the mean outcome; idempotent lookups
OneShotInRange == \A i \in 1..N : \A v \in Nearest(p, v0[i][1]) : OneShot(p, v0, v, 1) \in 0..S
Emit == (state = "run" /\ patches = <<>>) =>
  PrintT(<<"SCEN", ToJson([v |-> v0, t |-> p.sc, g |-> p.gr, taus |-> p.taus])>>)
=============================================================================
