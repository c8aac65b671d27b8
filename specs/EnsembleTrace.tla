---------------------------- MODULE EnsembleTrace ----------------------------
(* Recorded ensembles and MAP models.  A member observed is [v, m, x]: its        *)
(* parameters and mutables in fixed point and the token of everything else; a run *)
(* is what training one member reported and left: status, the steps its callbacks *)
(* saw and its checkpoints.  Members with the same history have to agree, whoever *)
(* trained them, and so have runs.                                                *)
EXTENDS Ensemble, TraceLib
VARIABLES de, disk, nf, vals, runs, one
vars == <<tid, l, de, disk, nf, vals, runs, one>>
None == [x \in {} |-> 0]
Init == TInit /\ de = [mem |-> <<>>, bound |-> ""] /\ disk = [p \in {"A", "B"} |-> <<>>] /\ nf = 0 /\ vals = None /\ runs = None /\ one = <<>>
Mem == Members(de, disk)
Tol == 3
SameVal(a, b) == CloseSeq(a.v, b.v, Tol) /\ CloseSeq(a.m, b.m, Tol) /\ a.c = b.c
SameRun(a, b, za, zb) ==
  /\ Chk(<<"status keys", a.keys, b.keys>>, a.keys = b.keys)
  /\ Chk(<<"status", a.st, b.st>>, CloseSeq(a.st, b.st, 20))
  /\ IF za # zb THEN TRUE
     ELSE /\ Chk(<<"callback steps", a.cb, b.cb>>, a.cb = b.cb)
          /\ Chk(<<"checkpoints", [k \in 1..Len(a.ck) |-> a.ck[k].step], [k \in 1..Len(b.ck) |-> b.ck[k].step]>>,
                 Len(a.ck) = Len(b.ck) /\ \A k \in 1..Len(a.ck) : a.ck[k].step = b.ck[k].step /\ CloseSeq(a.ck[k].v, b.ck[k].v, Tol))
Extend(f, x, v) == IF x \in DOMAIN f THEN f ELSE [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
RECURSIVE ExtendAll(_, _, _, _)
ExtendAll(f, xs, vs, k) == IF k > Len(xs) THEN f ELSE ExtendAll(Extend(f, xs[k], vs[k]), xs, vs, k + 1)
Keys(hs) == [i \in 1..Len(hs) |-> Key(hs[i], Cfg.bn)]
(* Observed members obs against the histories hs. *)
Agree(hs, obs) ==
  /\ ChkEq("number of members", Len(obs), Len(hs))
  /\ \A i \in 1..Len(hs) :
       /\ hs[i] \in DOMAIN vals => Chk(<<"member", i, "is what its history makes it", hs[i]>>, SameVal(obs[i], vals[hs[i]]))
       /\ \A j \in 1..i - 1 : hs[j] = hs[i] => Chk(<<"members", j, i, "alike">>, SameVal(obs[i], obs[j]))
(* Runs after the same moves agree; in steps, callbacks and checkpoints, if they also *)
(* went through as many epochs with learning rate 0.                                *)
Zeros(h) == Len(h) - 1 - Len(Moved(h))
RunsAgree(ks, rs, hs) == \A i \in 1..Len(ks) : ks[i] \in DOMAIN runs => SameRun(rs[i], runs[ks[i]].r, Zeros(hs[i]), runs[ks[i]].z)
WithZeros(rs, hs) == [i \in 1..Len(rs) |-> [r |-> rs[i], z |-> Zeros(hs[i])]]
Fit == /\ Is("fit")
       /\ LET src == IF E.src = "fresh" THEN Fresh(E.seed, nf + 1, E.n) ELSE IF E.src = "cur" THEN Mem ELSE disk[E.src]
              new == TrainAll(src, E.c)
              ks  == [i \in 1..Len(src) |-> <<Key(src[i], Cfg.bn), E.c>>]
          IN /\ ChkEq("fit went through", E.exc, "")
             /\ ChkEq("one status per member", Len(E.runs), Len(src))
             /\ Agree(Keys(new), E.obs)
             /\ E.src = "fresh" => \A i, j \in 1..Len(src) : i < j => Chk(<<"members", i, j, "start apart">>, E.obs[i].k # E.obs[j].k)
             /\ RunsAgree(ks, E.runs, src)
             /\ de' = [mem |-> new, bound |-> ""]
             /\ vals' = ExtendAll(vals, Keys(new), E.obs, 1) /\ runs' = ExtendAll(runs, ks, WithZeros(E.runs, src), 1)
             /\ nf' = IF E.src = "fresh" THEN nf + 1 ELSE nf
       /\ UNCHANGED <<disk, one>>
(* The same model built again with its seed: its next fresh fit is its first. *)
Again == Is("again") /\ nf' = 0 /\ de' = [mem |-> <<>>, bound |-> ""] /\ UNCHANGED <<disk, vals, runs, one>>
Map == /\ Is("map")
       /\ LET h == disk[E.src][E.i]
              k == <<Key(h, Cfg.bn), E.c>>
              new == <<Train(h, E.c)>>
          IN /\ ChkEq("fit went through", E.exc, "")
             /\ Agree(Keys(new), E.obs)
             /\ RunsAgree(<<k>>, E.runs, <<h>>)
             /\ vals' = ExtendAll(vals, Keys(new), E.obs, 1) /\ runs' = ExtendAll(runs, <<k>>, WithZeros(E.runs, <<h>>), 1) /\ one' = new[1]
       /\ UNCHANGED <<de, disk, nf>>
Save == /\ Is("save") /\ ChkEq("save went through", E.exc, "") /\ disk' = Put(disk, E.src, Mem) /\ UNCHANGED <<de, nf, vals, runs, one>>
Load == /\ Is("load") /\ ChkEq("load went through", E.exc, "")
        /\ Agree(Keys(disk[E.src]), E.obs) /\ de' = [mem |-> <<>>, bound |-> E.src] /\ UNCHANGED <<disk, nf, vals, runs, one>>
Replace == /\ Is("replace")
           /\ disk' = PutOne(disk, E.src, E.i, one) /\ UNCHANGED <<de, nf, vals, runs, one>>
(* After every operation, what the ensemble holds and draws. *)
Look == /\ Is("look")
        /\ Agree(Keys(Mem), E.obs)
        /\ \A k \in 1..Len(E.draws) : Chk("a draw is one member's whole state", \E i \in 1..Len(E.obs) : E.draws[k] = E.obs[i].full)
        /\ Chk("every member is drawn", \A i \in 1..Len(E.obs) : \E k \in 1..Len(E.draws) : E.draws[k] = E.obs[i].full)
        /\ UNCHANGED <<de, disk, nf, vals, runs, one>>
Next == (Fit \/ Again \/ Map \/ Save \/ Load \/ Replace \/ Look) /\ Adv
Spec == Init /\ [][Next]_vars
=============================================================================
