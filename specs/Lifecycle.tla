------------------------------ MODULE Lifecycle ------------------------------
(* The life of a fitted model: fitting from a start point, calibrating, saving *)
(* and loading.  A snapshot is what a posterior state store holds:             *)
(*   [kind  |-> name of the stored state, frz / lr0 |-> how it was fitted,     *)
(*    mem   |-> sequence of members], a member being                           *)
(*   [pt |-> parameter leaves (the point), x |-> method-specific rest,         *)
(*    m |-> mutable, c |-> calibration parameters, cm |-> calib. mutable,      *)
(*    o |-> step and optimizer memory].                                        *)
(* The model is [disk: path -> snapshot or none, mem: snapshot or none,        *)
(* bound: path or ""]: a model bound to a path keeps its state there and not   *)
(* in memory.  "None" is the empty sequence.                                   *)
EXTENDS Integers, Sequences, FiniteSets

Methods == {"map", "de", "swag", "laplace", "advi", "sghmc", "csgld"}
Chain(m) == m \in {"sghmc", "csgld"}
Multi(m) == m = "de" \/ Chain(m)
KindOf == [map |-> "MAPState", de |-> "MAPState", swag |-> "SWAGState", laplace |-> "LaplaceState",
           advi |-> "ADVIState", sghmc |-> "SGHMCState", csgld |-> "CyclicalSGLDState"]
Allowed(m) == IF Chain(m) THEN {"MAPState", "SGHMCState", "CyclicalSGLDState"} ELSE {"MAPState", KindOf[m]}
NeedsStart(m) == m \in {"swag", "laplace"}
\* Ensembles and chains take only the frozen part from a preliminary MAP run.
UsesMap(m, frz) == m \in {"swag", "laplace", "advi"} \/ (Multi(m) /\ frz # "none")

Some(x) == x # <<>>
Cur(st) == IF st.bound # "" THEN st.disk[st.bound] ELSE st.mem
Blank(paths) == [disk |-> [p \in paths |-> <<>>], mem |-> <<>>, bound |-> ""]

(* ------------------------------------------------------------- starting *)
Source(m, op) == IF op.restore # "" THEN "disk"
                 ELSE IF op.cur THEN "cur"
                 ELSE IF op.map /\ UsesMap(m, op.frz) THEN "map" ELSE "fresh"
StartSnap(st, m, op) == CASE Source(m, op) = "disk" -> st.disk[op.restore]
                          [] Source(m, op) = "cur" -> Cur(st)
                          [] OTHER -> <<>>
FitAccepted(st, m, op) ==
  /\ ~(op.dump /\ op.dir = "")
  /\ ~(op.short /\ (Chain(m) \/ m = "swag"))     \* too short to collect what is asked for
  /\ CASE Source(m, op) \in {"disk", "cur"} ->
            LET s == StartSnap(st, m, op) IN Some(s) /\ s[1].kind \in Allowed(m)
       [] Source(m, op) = "fresh" -> ~NeedsStart(m)
       [] OTHER -> TRUE
(* The member a fit of member i starts from. *)
StartMember(m, snap, i) == IF m = "de" THEN snap.mem[i] ELSE snap.mem[Len(snap.mem)]

(* ---------------------------------------------------------- transitions *)
(* Afterwards the model holds snap: in the dump directory if asked to.        *)
AfterFit(st, m, op, snap) ==
  [disk |-> IF op.dir # "" THEN [st.disk EXCEPT ![op.dir] = <<snap>>] ELSE st.disk,
   mem |-> IF op.dump THEN <<>> ELSE <<snap>>,
   bound |-> IF op.dump THEN op.dir ELSE ""]
Write(st, snap) == IF st.bound # "" THEN [st EXCEPT !.disk[st.bound] = <<snap>>] ELSE [st EXCEPT !.mem = <<snap>>]
SetCalib(snap, c, cm) == [snap EXCEPT !.mem = [i \in 1..Len(snap.mem) |-> [snap.mem[i] EXCEPT !.c = c, !.cm = cm]]]
(* Calibration starts from the calibration parameters held, or from those of a *)
(* checkpoint: of a model, or of a calibration alone (path "K").               *)
CalibStart(st, op) == IF op.restore # "" THEN st.disk[op.restore][1].mem[1] ELSE Cur(st)[1].mem[1]
CalibAccepted(st, op, cal) == ~cal \/ (Some(Cur(st)) /\ (op.restore = "" \/ Some(st.disk[op.restore])))
AfterCalib(st, op, c, cm) ==
  LET new == SetCalib(Cur(st)[1], c, cm)
      w == Write(st, new)
  IN CASE op.dir = "" -> w
       [] op.dump -> [w EXCEPT !.disk[op.dir] = <<new>>]
       [] OTHER -> [w EXCEPT !.disk[op.dir] = <<[new EXCEPT !.kind = "OutputCalibState"]>>]
SaveAccepted(st) == Some(Cur(st))
AfterSave(st, p) == [st EXCEPT !.disk[p] = Cur(st)]
LoadAccepted(st, p) == Some(st.disk[p])
AfterLoad(st, p) == [st EXCEPT !.bound = p, !.mem = <<>>]
AfterNew(st) == [st EXCEPT !.bound = "", !.mem = <<>>]
=============================================================================
