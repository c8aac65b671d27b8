----------------------------- MODULE LifecycleMC -----------------------------
(* Every history of at most Depth operations, with symbolic contents: f / t    *)
(* are the frozen and the trainable part of the parameters, a fresh value is a *)
(* number never used before.                                                   *)
EXTENDS Lifecycle, TLC, Json
CONSTANTS Depth, Ms, Small, Mix, Bad
VARIABLES st, m, hist, n
vars == <<st, m, hist, n>>
Paths == {"A", "B", "M", "W", "K"}
Size(mm) == IF Multi(mm) THEN 2 ELSE 1
Member(f, t, c) == [pt |-> [f |-> f, t |-> t], x |-> 0, m |-> 0, c |-> c, cm |-> 0, o |-> 0]
Given(mm) == [kind |-> "MAPState", mem |-> [i \in 1..Size(mm) |-> Member(-10 - i, -20 - i, 0)]]
Wrong(mm) == [kind |-> IF mm = "laplace" THEN "ADVIState" ELSE "LaplaceState", mem |-> [i \in 1..Size(mm) |-> Member(-30, -40, 0)]]
Init == /\ m \in Ms
        /\ st = [Blank(Paths) EXCEPT !.disk = [p \in Paths |-> IF p = "M" THEN <<Given(m)>>
                                                                ELSE IF p = "W" THEN <<Wrong(m)>> ELSE <<>>]]
        /\ hist = <<>> /\ n = 1
Fits == LET dd == {<<"", FALSE>>, <<"A", FALSE>>, <<"A", TRUE>>} IN
  {[a |-> "fit", restore |-> r, cur |-> cu, map |-> mp, dir |-> d[1], dump |-> d[2], frz |-> f, lr0 |-> z, short |-> FALSE] :
     r \in {"", "A", "M"}, cu \in BOOLEAN, mp \in BOOLEAN, d \in dd, f \in {"none", "f"}, z \in BOOLEAN}
  \cup {[a |-> "fit", restore |-> "", cur |-> FALSE, map |-> TRUE, dir |-> "", dump |-> TRUE, frz |-> "none", lr0 |-> FALSE, short |-> FALSE],
        [a |-> "fit", restore |-> "W", cur |-> FALSE, map |-> FALSE, dir |-> "", dump |-> FALSE, frz |-> "none", lr0 |-> FALSE, short |-> FALSE]}
  \cup {[a |-> "fit", restore |-> "M", cur |-> FALSE, map |-> FALSE, dir |-> d, dump |-> FALSE, frz |-> "none", lr0 |-> FALSE, short |-> TRUE] : d \in {"", "B"}}
Ops == (IF Small THEN {f \in Fits : f.restore \in {"", "A"} /\ f.frz = "none" /\ f.lr0 = FALSE /\ f.dir = ""} ELSE Fits)
  \cup {[a |-> "calib", dump |-> d = "A", dir |-> d, restore |-> r, lr0 |-> z] : d \in {"", "A", "K"},
           r \in IF Small THEN {""} ELSE {"", "A", "K"}, z \in IF Small THEN {FALSE} ELSE BOOLEAN}
  \cup {[a |-> x, path |-> p] : x \in {"save", "load"}, p \in {"A", "B"}}
  \cup {[a |-> "new"]}

(* The members a fit yields. *)
Fitted(op) ==
  LET src == Source(m, op)
      s == StartSnap(st, m, op)
      start(i) == IF Some(s) THEN StartMember(m, s[1], i)
                  ELSE IF src = "map" THEN Member(n, IF Multi(m) THEN n + 2 * i ELSE n, 0)
                  ELSE Member(n + i, n + i, 0)
      new(i) == [start(i) EXCEPT !.pt.t = IF op.lr0 THEN @ ELSE n + 20 + i,
                                 !.pt.f = IF op.lr0 \/ op.frz # "none" THEN @ ELSE n + 20 + i]
  IN [kind |-> KindOf[m], mem |-> [i \in 1..Size(m) |-> new(i)]]

Step(op) ==
  LET acc == CASE op.a = "fit" -> FitAccepted(st, m, op)
               [] op.a = "calib" -> CalibAccepted(st, op, TRUE)
               [] op.a = "save" -> SaveAccepted(st)
               [] op.a = "load" -> LoadAccepted(st, op.path)
               [] OTHER -> TRUE
  IN /\ st' = IF ~acc THEN st
              ELSE CASE op.a = "fit" -> AfterFit(st, m, op, Fitted(op))
                     [] op.a = "calib" -> AfterCalib(st, op, IF op.lr0 THEN CalibStart(st, op).c ELSE n + 40, 0)
                     [] op.a = "save" -> AfterSave(st, op.path)
                     [] op.a = "load" -> AfterLoad(st, op.path)
                     [] op.a = "new" -> AfterNew(st)
     /\ hist' = Append(hist, [op |-> op, ok |-> acc])
     /\ n' = n + 100
Next == Len(hist) < Depth /\ m' = m /\ \E op \in Ops : Step(op)
\* Random histories: a class of operation first, then one of its operations.
OfClass(c) == {op \in Ops : CASE c = "fit" -> op.a = "fit" /\ op.restore # "W" /\ ~(op.dump /\ op.dir = "") /\ ~op.short
                              [] c = "calib" -> op.a = "calib" /\ op.restore = "" /\ ~op.lr0
                              [] c = "recalib" -> op.a = "calib"
                              [] c = "badfit" -> op.a = "fit" /\ (op.restore = "W" \/ (op.dump /\ op.dir = "") \/ (op.short /\ (Chain(m) \/ m = "swag")))
                              [] c = "frz" -> op.a = "fit" /\ op.frz # "none" /\ ~op.lr0
                              [] c = "start" -> op.a = "fit" /\ op.lr0 /\ op.frz = "none"
                              [] OTHER -> op.a = c}
Mix_save == <<"fit", "fit", "calib", "save", "save", "load", "load", "new">>
Mix_frz == <<"frz", "frz", "frz", "save", "load", "calib", "start">>
Mix_calib == <<"fit", "fit", "calib", "calib", "recalib", "recalib", "save", "load", "new">>
Mix_start == <<"start", "start", "start", "fit", "badfit", "save", "load", "calib", "new">>
Pick == /\ Len(hist) < Depth /\ m' = m
        /\ \E c \in DOMAIN Mix : LET op == RandomElement(OfClass(Mix[c])) IN Step(op)
        /\ Cardinality({k \in 1..Len(hist') : ~hist'[k].ok}) <= Bad
SimSpec == Init /\ [][Pick]_vars
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------ what must then be true *)
Lst == hist[Len(hist)]
Refused == Len(hist) > 0 /\ ~Lst.ok
RefusedChangesNothing == [][~hist'[Len(hist')].ok => st' = st]_vars
(* saving then loading elsewhere gives the same content *)
SavedIsHeld == Len(hist) > 0 /\ Lst.ok /\ Lst.op.a \in {"save", "load"} => st.disk[Lst.op.path] = Cur(st)
CalibOnlyCalib ==
  [][hist'[Len(hist')].op.a = "calib" /\ hist'[Len(hist')].ok =>
       LET a == Cur(st)[1] b == Cur(st')[1]
       IN /\ a.kind = b.kind /\ Len(a.mem) = Len(b.mem)
          /\ \A i \in 1..Len(a.mem) : \A k \in {"pt", "x", "m", "o"} : a.mem[i][k] = b.mem[i][k]
          /\ \A i, j \in 1..Len(b.mem) : b.mem[i].c = b.mem[j].c
          /\ LET o == hist'[Len(hist')].op IN
             IF o.lr0 THEN b.mem[1].c = CalibStart(st, o).c ELSE b.mem[1].c # a.mem[1].c]_vars
FrozenStay ==
  [][LET h == hist'[Len(hist')] IN
     h.op.a = "fit" /\ h.ok /\ h.op.frz # "none" /\ Some(StartSnap(st, m, h.op)) =>
       \A i \in 1..Size(m) : Cur(st')[1].mem[i].pt.f = StartMember(m, StartSnap(st, m, h.op)[1], i).pt.f]_vars
Precedence ==
  [][LET h == hist'[Len(hist')] IN
     h.op.a = "fit" /\ h.ok /\ h.op.lr0 =>
       LET s == IF h.op.restore # "" THEN st.disk[h.op.restore] ELSE IF h.op.cur THEN Cur(st) ELSE <<>>
       IN IF Some(s) THEN Cur(st')[1].mem[Size(m)].pt = s[1].mem[Size(m)].pt
          ELSE Cur(st')[1].mem[Size(m)].pt.t > n \/ (h.op.map /\ Cur(st')[1].mem[Size(m)].pt.t = n)]_vars
OtherPathsKept ==
  [][\A p \in Paths : st'.disk[p] # st.disk[p] =>
       LET o == hist'[Len(hist')].op IN p = st.bound \/ ("dir" \in DOMAIN o /\ o.dir = p) \/ (o.a = "save" /\ o.path = p)]_vars
KindRight == Some(Cur(st)) /\ st.bound \notin {"M", "W", "K"} => Cur(st)[1].kind \in {KindOf[m], "MAPState"}
Refs == Cardinality({k \in 1..Len(hist) : ~hist[k].ok})
Emit == Len(hist) = Depth /\ Refs <= Bad => PrintT(<<"SCEN", ToJson([method |-> m, ops |-> [k \in 1..Len(hist) |-> hist[k].op]])>>)
=============================================================================
