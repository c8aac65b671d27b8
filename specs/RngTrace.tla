------------------------------ MODULE RngTrace ------------------------------
(* Three models: the second a twin of the first, the third with another seed.    *)
(* Every event holds what an operation gave in each of them, as tokens.          *)
EXTENDS Rng, TraceLib
VARIABLES own,    \* tokens drawn with the model's own generator
          given,  \* <<op, key>> -> result with an explicit key, for the state held
          keys    \* keys handed out or derived from them, as tokens
vars == <<tid, l, own, given, keys>>
Empty == [x \in {} |-> 0]
Init == TInit /\ own = {} /\ given = Empty /\ keys = {}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Key == /\ Is("key")
       /\ ChkEq("same seed, same keys", E.twin, E.res)
       /\ Chk("other seed, other keys", RangeOf(E.other) \cap RangeOf(E.res) = {})
       /\ Chk("keys pairwise different", Distinct(E.res))
       /\ Chk("no key handed out or derived twice", RangeOf(E.res) \cap keys = {})
       /\ keys' = keys \cup RangeOf(E.res) /\ UNCHANGED <<own, given>>
Fit == /\ Is("fit")
       /\ ChkEq("fit went through", E.exc, "")
       /\ ChkEq("same seed, same fit", E.twin, E.res)
       /\ Chk("other seed, other fit", E.other # E.res)
       /\ ChkEq("same seed, same status", E.tstatus, E.status)
       /\ Chk("masks of the training steps pairwise different", Distinct(E.masks))
       /\ Chk("never those of another fit", RangeOf(E.masks) \cap keys = {})
       /\ Chk("a mask for every step", Len(E.masks) >= E.steps)
       /\ Chk("a new fit starts afresh", RangeOf(E.res) \cap own = {})
       /\ keys' = keys \cup RangeOf(E.masks) /\ own' = own \cup RangeOf(E.res) /\ given' = Empty
(* E.random: the draws differ (almost surely) whenever the key does; E.res holds   *)
(* one token per independent draw.                                               *)
Op == /\ Is("op")
      /\ ChkEq("went through", E.exc, "")
      /\ ChkEq("same seed, same result", E.twin, E.res)
      /\ IF E.key = 0
         THEN /\ E.random => /\ Chk("draws of one call pairwise different", Distinct(E.res))
                             /\ Chk("never drawn before", RangeOf(E.res) \cap own = {})
                             /\ Chk("other seed, other draws", RangeOf(E.res) \cap RangeOf(E.other) = {})
              /\ own' = own \cup RangeOf(E.res) /\ given' = given
         ELSE LET x == <<E.op, E.key>> IN
              /\ E.random => Chk("draws of one call pairwise different", Distinct(E.res))
              /\ IF x \in DOMAIN given THEN ChkEq("a given key decides the result", E.res, given[x]) /\ given' = given
                 ELSE /\ E.random => Chk("another key, another result", \A y \in DOMAIN given : y[1] = E.op => given[y] # E.res)
                      /\ given' = [y \in DOMAIN given \cup {x} |-> IF y = x THEN E.res ELSE given[y]]
              /\ own' = own
      /\ keys' = keys
Next == (Key \/ Fit \/ Op) /\ Adv
Spec == Init /\ [][Next]_vars
=============================================================================
