----------------------------- MODULE EnsembleMC -----------------------------
(* Lives of an ensemble and of single MAP models over the same checkpoints.      *)
EXTENDS Ensemble, TLC, Json
CONSTANTS N, Cfgs, Depth, Rich
VARIABLES de, disk, nf, hist, one
vars == <<de, disk, nf, hist, one>>
Paths == {"A", "B"}
Init == de = [mem |-> <<>>, bound |-> ""] /\ disk = [p \in Paths |-> <<>>] /\ nf = 0 /\ hist = <<>> /\ one = <<>>
Mem == Members(de, disk)
Log(r) == hist' = IF Depth > 0 THEN Append(hist, r) ELSE hist
FitFresh == \E c \in Cfgs : /\ de' = [mem |-> TrainAll(Fresh(1, nf + 1, N), c), bound |-> ""] /\ nf' = nf + 1 /\ UNCHANGED <<disk, one>>
                            /\ Log([op |-> "fit", src |-> "fresh", c |-> c, i |-> 0])
FitFrom == \E c \in Cfgs, p \in Paths :
              /\ disk[p] # <<>> /\ (\A i \in 1..N : Len(disk[p][i]) < 3)
              /\ de' = [mem |-> TrainAll(disk[p], c), bound |-> ""] /\ UNCHANGED <<disk, one, nf>>
              /\ Log([op |-> "fit", src |-> p, c |-> c, i |-> 0])
FitCur == \E c \in Cfgs : /\ Mem # <<>> /\ (\A i \in 1..N : Len(Mem[i]) < 3)
                          /\ de' = [mem |-> TrainAll(Mem, c), bound |-> ""] /\ UNCHANGED <<disk, one, nf>>
                          /\ Log([op |-> "fit", src |-> "cur", c |-> c, i |-> 0])
Save == \E p \in Paths : Mem # <<>> /\ disk' = Put(disk, p, Mem) /\ UNCHANGED <<de, nf, one>> /\ Log([op |-> "save", src |-> p, c |-> 0, i |-> 0])
Load == \E p \in Paths : disk[p] # <<>> /\ de' = [mem |-> <<>>, bound |-> p] /\ UNCHANGED <<disk, nf, one>> /\ Log([op |-> "load", src |-> p, c |-> 0, i |-> 0])
(* A single MAP model trained from member i's checkpoint ... *)
MapFrom == \E c \in Cfgs, p \in Paths, i \in 1..N :
              /\ disk[p] # <<>> /\ Len(disk[p][i]) < 3
              /\ one' = Train(disk[p][i], c) /\ UNCHANGED <<de, disk, nf>>
              /\ Log([op |-> "map", src |-> p, c |-> c, i |-> i])
(* ... and put in the place of another. *)
Replace == \E p \in Paths, i \in 1..N : /\ one # <<>> /\ disk[p] # <<>>
              /\ disk' = PutOne(disk, p, i, one) /\ UNCHANGED <<de, nf, one>> /\ Log([op |-> "replace", src |-> p, c |-> 0, i |-> i])
Next == (Depth = 0 \/ Len(hist) < Depth) /\ nf < 3 /\ (FitFresh \/ FitFrom \/ FitCur \/ Save \/ Load \/ MapFrom \/ Replace)
Spec == Init /\ [][Next]_vars
Sizes == Len(Mem) \in {0, N}
DistinctStarts == de.bound = "" /\ Mem # <<>> /\ one = <<>> => \A i, j \in 1..N : i # j => Start(Mem[i]) # Start(Mem[j])
SavedIsRead == [][Save => \A p \in Paths : disk'[p] # disk[p] => disk'[p] = Mem]_vars
Isolated == [][Replace => \E p \in Paths, i \in 1..N : \A q \in Paths : \A j \in 1..Len(disk[q]) : (q # p \/ j # i) => disk'[q][j] = disk[q][j]]_vars
MapTouchesNothing == [][MapFrom => UNCHANGED <<de, disk>>]_vars
Useful == Len(hist) = Depth /\ \E k \in 1..Depth : hist[k].op = "fit"
Emit == Useful => PrintT(<<"SCEN", ToJson([ops |-> hist])>>)
=============================================================================
