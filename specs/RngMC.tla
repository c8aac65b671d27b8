------------------------------- MODULE RngMC -------------------------------
(* One generator, several consumers that use, split and pass on what they get;   *)
(* and the sequences of operations to drive the real models with.                *)
EXTENDS Rng, TLC, Json
CONSTANTS MaxGets, MaxDerived, Ops, Depth
VARIABLES st, handed, derived, hist
vars == <<st, handed, derived, hist>>
Init == st = <<>> /\ handed = {} /\ derived = {} /\ hist = <<>>
Get == /\ Cardinality(handed) < MaxGets
       /\ handed' = handed \cup {HandedOut(st)} /\ st' = NextState(st) /\ UNCHANGED <<derived, hist>>
Derive == /\ Cardinality(derived) < MaxDerived
          /\ \E h \in handed \cup derived, c \in 1..2 :
               derived' = derived \cup {Append(h, c)} /\ UNCHANGED <<st, handed, hist>>
Next == Get \/ Derive
Spec == Init /\ [][Next]_vars
Owner(d) == {h \in handed : Prefix(h, d)}
OwnedOnce == \A a, b \in handed : a # b => ~Related(a, b)
FutureIsFresh == \A h \in handed \cup derived : ~Related(h, st) \/ st = <<>>
OneOwner == \A d \in derived : Cardinality(Owner(d)) = 1
(* operation sequences: [op, key], key 0 for the model's own generator *)
OpNext == /\ Len(hist) < Depth /\ hist' \in {Append(hist, [op |-> o, key |-> k]) : o \in Ops, k \in 0..2}
          /\ UNCHANGED <<st, handed, derived>>
OpSpec == Init /\ [][OpNext]_vars
Emit == Len(hist) = Depth => PrintT(<<"SCEN", ToJson([ops |-> hist])>>)
=============================================================================
