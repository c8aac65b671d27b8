------------------------------- MODULE Loader -------------------------------
(* What Fortuna's data loaders do to a stream of batches.  A loader's meaning  *)
(* is the sequence of batches one pass over it yields; a batch is a sequence   *)
(* of rows; a row is <<input id, target id>> (0 where a view hides that half). *)
(* Loaders are derived from loaders by chop, split, sample, views, transforms, *)
(* concatenation and the device-dimension augmentation.                        *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Flat(_)
Flat(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o Flat(Tail(bs))
NonEmpty(bs) == SelectSeq(bs, LAMBDA b : Len(b) > 0)
Min2(a, b) == IF a < b THEN a ELSE b
TakeN(s, k) == SubSeq(s, 1, Min2(k, Len(s)))
DropN(s, k) == SubSeq(s, k + 1, Len(s))

(* b = 0 stands for "no batch size": the whole data as a single batch *)
RECURSIVE Cut(_, _)
Cut(rows, b) == IF Len(rows) <= b THEN <<rows>>
                ELSE <<TakeN(rows, b)>> \o Cut(DropN(rows, b), b)
Batches(rows, b) == IF b = 0 THEN <<rows>> ELSE Cut(rows, b)

Rows(n) == [i \in 1..n |-> <<i, i + 100>>]

InputsOf(bs)  == [j \in 1..Len(bs) |-> [i \in 1..Len(bs[j]) |-> <<bs[j][i][1], 0>>]]
TargetsOf(bs) == [j \in 1..Len(bs) |-> [i \in 1..Len(bs[j]) |-> <<0, bs[j][i][2]>>]]
ViewOf(bs, kind) == IF kind = "inputs" THEN InputsOf(bs)
                    ELSE IF kind = "targets" THEN TargetsOf(bs) ELSE bs

(* largest multiple of d, dropping only trailing rows; nothing left: no batch *)
Chop(bs, d) == NonEmpty([j \in 1..Len(bs) |-> TakeN(bs[j], Len(bs[j]) - (Len(bs[j]) % d))])

RECURSIVE SplitA(_, _)
SplitA(bs, n) == IF bs = <<>> \/ n = 0 THEN <<>>
                 ELSE IF Len(Head(bs)) <= n THEN <<Head(bs)>> \o SplitA(Tail(bs), n - Len(Head(bs)))
                 ELSE <<TakeN(Head(bs), n)>>
RECURSIVE SplitB(_, _)
SplitB(bs, n) == IF bs = <<>> THEN <<>>
                 ELSE IF Len(Head(bs)) <= n THEN SplitB(Tail(bs), n - Len(Head(bs)))
                 ELSE <<DropN(Head(bs), n)>> \o Tail(bs)

(* The stateful transforms the harness installs.  st counts calls within a     *)
(* pass and starts from the initial status on every pass.                      *)
KeyOf(r) == IF r[1] # 0 THEN r[1] ELSE r[2]
XForm(name, b, st) ==
  CASE name = "keepeven" -> SelectSeq(b, LAMBDA r : KeyOf(r) % 2 = 0)
    [] name = "skipodd"  -> IF st % 2 = 1 THEN <<>> ELSE b
    [] name = "rev"      -> [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
    [] name = "shift"    -> [i \in 1..Len(b) |->
                               <<IF b[i][1] = 0 THEN 0 ELSE b[i][1] + 1000 * st,
                                 IF b[i][2] = 0 THEN 0 ELSE b[i][2] + 1000 * st>>]
RECURSIVE MapFrom(_, _, _)
MapFrom(bs, name, st) == IF bs = <<>> THEN <<>>
                         ELSE <<XForm(name, Head(bs), st)>> \o MapFrom(Tail(bs), name, st + 1)
MapT(bs, name, st0) == NonEmpty(MapFrom(bs, name, st0))

(* combining inputs loaders, one integer label per loader *)
Label(b, t) == [i \in 1..Len(b) |-> <<b[i][1], t>>]
RECURSIVE ConcatL(_, _)
ConcatL(ls, ts) == IF ls = <<>> THEN <<>>
                   ELSE [j \in 1..Len(Head(ls)) |-> Label(Head(ls)[j], Head(ts))]
                          \o ConcatL(Tail(ls), Tail(ts))
RECURSIVE Zip(_, _)
Zip(ls, ts) ==   \* j-th batches of all loaders that still have one, in loader order
  IF \A k \in 1..Len(ls) : ls[k] = <<>> THEN <<>>
  ELSE LET heads == [k \in 1..Len(ls) |-> IF ls[k] = <<>> THEN <<>> ELSE Label(Head(ls[k]), ts[k])]
       IN <<Flat(heads)>> \o Zip([k \in 1..Len(ls) |-> IF ls[k] = <<>> THEN <<>> ELSE Tail(ls[k])], ts)

Mult(bs, d) == \A j \in 1..Len(bs) : Len(bs[j]) % d = 0

(* ------------------------------------------------ properties of the design *)
IsSubSeq(s, t) ==   \* s is a (not necessarily contiguous) subsequence of t, ids distinct
  \A i \in 1..Len(s) : /\ \E j \in 1..Len(t) : t[j] = s[i]
                       /\ i > 1 => (CHOOSE j \in 1..Len(t) : t[j] = s[i - 1])
                                   < (CHOOSE j \in 1..Len(t) : t[j] = s[i])
Perm(s, t) == Len(s) = Len(t) /\ {s[i] : i \in 1..Len(s)} = {t[i] : i \in 1..Len(t)}
PartitionOK(bs, n, b) ==
  /\ Perm(Flat(bs), Rows(n))
  /\ IF b = 0 THEN Len(bs) = 1
     ELSE /\ \A j \in 1..Len(bs) - 1 : Len(bs[j]) = b
          /\ Len(bs[Len(bs)]) \in 1..b
=============================================================================
