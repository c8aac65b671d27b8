---------------------------- MODULE LifecycleTrace ----------------------------
(* Recorded lives of real models against Lifecycle.tla.  Array contents are    *)
(* tokens: equal tokens are bit-identical arrays.                              *)
EXTENDS Lifecycle, TraceLib
VARIABLES st,      \* as in Lifecycle
          toks,    \* every parameter token seen so far
          seen     \* <<snapshot, calibrated?, outputs>> of every observation
vars == <<tid, l, st, toks, seen>>
C == Traces[tid].cfg
Cf(t) == Traces[t].cfg
Leaves == DOMAIN E.obs[1].mem[1].pt
SetOf(s) == {s[i] : i \in 1..Len(s)}
Frozen(frz) == IF frz = "none" THEN {} ELSE SetOf(C.frozen[frz])
Random == SetOf(C.random)          \* leaves whose initial values are random
Init == /\ TInit
        /\ st = LET c == Traces[tid].cfg IN
                [Blank(SetOf(c.paths)) EXCEPT !.disk = [p \in SetOf(c.paths) |-> IF p \in DOMAIN c.disk THEN <<c.disk[p]>> ELSE <<>>]]
        /\ toks = {} /\ seen = {}

ToksOf(snap) == UNION {{snap.mem[i].pt[k] : k \in DOMAIN snap.mem[i].pt} : i \in 1..Len(snap.mem)}
Accepted(want) == ChkEq("accepted", E.ok, want)

(* ----------------------------------------------------- observed outputs *)
(* Predictions, log-probabilities and samples are a function of the state.    *)
Held == [kind |-> E.obs[1].kind, mem |-> E.obs[1].mem]
Plain(s) == [kind |-> s.kind, mem |-> s.mem]
Snap == [kind |-> E.obs[1].kind, mem |-> E.obs[1].mem, frz |-> E.frz, lr0 |-> E.lr0]
Out == E.obs[1].out
SameOut(a, b) == /\ CloseSeq(a.mean, b.mean, C.tol) /\ CloseSeq(a.lp, b.lp, C.tol)
                 /\ CloseSeq(a.smpv, b.smpv, C.tol)
NoC(s) == [s EXCEPT !.mem = [i \in 1..Len(s.mem) |-> [s.mem[i] EXCEPT !.c = 0]]]
Sampled(snap) ==
  LET ms == {snap.mem[i] : i \in 1..Len(snap.mem)}
      s == Out.smp
  IN /\ C.method \in {"map", "de", "sghmc", "csgld"} =>
          Chk("a sample is one member's complete state",
              \A k \in 1..Len(s) : \E x \in ms : s[k].pt = x.pt /\ s[k].m = x.m /\ s[k].c = x.c /\ s[k].cm = x.cm)
     /\ C.method \in {"swag", "advi", "laplace"} /\ snap.kind # "MAPState" =>
          \A k \in 1..Len(s) :
            /\ ChkEq("a sample has every parameter", DOMAIN s[k].pt, DOMAIN snap.mem[1].pt)
            /\ Chk("frozen parameters in samples", \A j \in Frozen(snap.frz) : s[k].pt[j] = snap.mem[1].pt[j])
            /\ ChkEq("calibration parameters in samples", s[k].c, snap.mem[1].c)
            /\ C.method # "swag" \/ ~snap.lr0 =>
                 Chk("samples of trainable parameters vary", \A j \in DOMAIN s[k].pt \ Frozen(snap.frz) : s[k].pt[j] # snap.mem[1].pt[j])
Observed(s1) ==
  IF ~Some(Cur(s1)) THEN ChkEq("state available", E.obs, <<>>) /\ toks' = toks /\ seen' = seen
  ELSE /\ Chk("state available", Some(E.obs))
       /\ ChkEq("state held", Held, Plain(Cur(s1)[1]))
       /\ toks' = toks \cup ToksOf(Held)
       /\ Some(Out.mean) =>
            /\ Sampled(Cur(s1)[1])
            /\ \A z \in seen : z[1] = Held => Chk("same state, same outputs", SameOut(z[2], Out))
            /\ \A z \in seen : NoC(z[1]) = NoC(Held) /\ ~CloseSeq(z[2].cv, Out.cv, 1000) =>
                  Chk("calibration parameters used", ~CloseSeq(z[2].lp, Out.lp, 0))
       /\ seen' = IF Some(Out.mean) THEN seen \cup {<<Held, Out>>} ELSE seen

(* ---------------------------------------------------------------- events *)
MapPt == E.mapst[1]
StartPt(i, k) ==       \* token member i's leaf k must start from, or <<>> if it is fresh
  LET src == Source(C.method, E) s == StartSnap(st, C.method, E)
  IN CASE src \in {"disk", "cur"} -> <<StartMember(C.method, s[1], i).pt[k]>>
       [] src = "map" /\ (~Multi(C.method) \/ k \in Frozen(E.frz)) -> <<MapPt[k]>>
       [] OTHER -> <<>>
Fitted ==
  LET fz == Frozen(E.frz)
      mem == E.obs[1].mem
      s == StartSnap(st, C.method, E)
  IN /\ ChkEq("kind of state", E.obs[1].kind, KindOf[C.method])
     /\ ChkEq("number of members", Len(mem), C.size)
     /\ ChkEq("every parameter present", DOMAIN mem[1].pt, SetOf(C.leaves))
     /\ \A i \in 1..C.size : \A k \in SetOf(C.leaves) :
          LET p == StartPt(i, k) v == mem[i].pt[k] IN
          IF Some(p)
          THEN IF k \in fz THEN ChkEq(<<"frozen parameter moved", i, k>>, v, p[1])
               ELSE IF E.lr0 \/ C.method = "laplace" THEN ChkEq(<<"start point", i, k>>, v, p[1])
               ELSE Chk(<<"trainable parameter not updated", i, k>>, v # p[1])
          ELSE k \in Random => Chk(<<"fresh start", i, k>>, v \notin toks)
     /\ \A i, j \in 1..C.size : i # j =>
          \A k \in Random : IF C.method = "de" /\ (Source(C.method, E) = "fresh" \/ (Source(C.method, E) = "map" /\ k \notin fz))
                            THEN Chk(<<"members start independently", i, j, k>>, mem[i].pt[k] # mem[j].pt[k]) ELSE TRUE
     \* trained as if the frozen parameters were constants
     /\ \A q \in 1..Len(E.twin) : Chk(<<"trained as if frozen were constants", E.twin[q].leaf, E.twin[q].i>>,
                                       CloseSeq(E.twin[q].got, E.twin[q].want, 20))
     /\ C.method = "advi" /\ Some(s) /\ E.lr0 /\ s[1].kind = "ADVIState" /\ s[1].frz = E.frz =>
          ChkEq("spread of the start point", mem[1].x, s[1].mem[1].x)
     /\ Chain(C.method) => \A i \in 1..C.size : \A k \in SetOf(C.leaves) :
          k \in fz \/ E.lr0 => ChkEq(<<"frozen parameter moved along the chain", i, k>>, mem[i].pt[k], mem[1].pt[k])
     \* (a chain restored from disk resumes from its own last state, calibrated since or not)
     /\ \A i \in 1..C.size : ChkEq("calibration parameters kept", mem[i].c,
          IF Some(s) /\ ~(Chain(C.method) /\ Source(C.method, E) = "disk") THEN StartMember(C.method, s[1], i).c ELSE mem[1].c)
     /\ E.hasck => Chk("frozen parameters in checkpoints",
          \A q \in 1..Len(E.cks) : E.cks[q].i <= C.size /\ \A k \in fz : E.cks[q].pt[k] = mem[E.cks[q].i].pt[k])
     /\ E.hasck => Chk("checkpoints hold every parameter", \A q \in 1..Len(E.cks) : DOMAIN E.cks[q].pt = SetOf(C.leaves))

Fit == /\ Is("fit")
       /\ Accepted(FitAccepted(st, C.method, E))
       /\ Chk("configuration modified", E.cfgsame)
       /\ IF ~E.ok THEN st' = st
          ELSE /\ Chk("state available", Some(E.obs)) /\ Fitted
               /\ ChkEq("status entries", E.nstatus, IF C.method = "de" THEN C.size ELSE E.nstatus)
               /\ IF C.method \in {"laplace", "sghmc", "csgld"} /\ E.dir # "" /\ ~E.dump
                  THEN \E b \in BOOLEAN : st' = AfterFit(st, C.method, [E EXCEPT !.dump = b], Snap)
                  ELSE st' = AfterFit(st, C.method, E, Snap)
Calib == /\ Is("calib")
         /\ IF ~C.cal THEN st' = st
            ELSE /\ Accepted(CalibAccepted(st, E, C.cal))
                 /\ ~E.ok => ChkEq("refusal", E.exc, "ValueError")
                 /\ Chk("configuration modified", E.cfgsame)
                 /\ IF ~E.ok THEN st' = st
                    ELSE /\ Chk("state available", Some(E.obs))
                         /\ IF E.lr0 THEN ChkEq("calibration start", Held.mem[1].c, CalibStart(st, E).c)
                            ELSE Chk("calibration parameters updated", Held.mem[1].c # CalibStart(st, E).c)
                         /\ st' = AfterCalib(st, E, Held.mem[1].c, Held.mem[1].cm)
Save == /\ Is("save") /\ Accepted(SaveAccepted(st))
        /\ ~E.ok => ChkEq("refusal", E.exc, "ValueError")
        /\ st' = IF E.ok THEN AfterSave(st, E.path) ELSE st
Load == /\ Is("load") /\ Accepted(LoadAccepted(st, E.path))
        /\ ~E.ok => ChkEq("refusal", E.exc, "ValueError")
        /\ st' = IF E.ok THEN AfterLoad(st, E.path) ELSE st
New == Is("new") /\ st' = AfterNew(st)
Next == (Fit \/ Calib \/ Save \/ Load \/ New) /\ Observed(st') /\ Adv
Spec == Init /\ [][Next]_vars
=============================================================================
