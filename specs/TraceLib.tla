------------------------------ MODULE TraceLib ------------------------------
(* Shared by all trace specifications.  A trace file is a JSON array of       *)
(* episodes [n, name, cfg, ev]: what one run of the real code was given (cfg)  *)
(* and the sequence of recorded events.  A trace specification explores every  *)
(* episode from its own initial state (variable tid) and consumes one event    *)
(* per step (variable l).  The episode is accepted iff l reaches Len(ev)+1.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l

Ev   == Traces[tid].ev
E    == Ev[l]
Cfg  == Traces[tid].cfg
More == l <= Len(Ev)
Is(a) == More /\ E.a = a

TInit == tid \in 1..Len(Traces) /\ l = 1
Adv   == l' = l + 1 /\ tid' = tid

(* A named clause: when it fails, say which one (read by the checker). *)
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"CLAUSE", tid, l, name>>) /\ FALSE
(* As Chk, also reporting the value the specification expects. *)
ChkEq(name, got, want) ==
  IF got = want THEN TRUE ELSE PrintT(<<"CLAUSE", tid, l, name, "got", got, "want", want>>) /\ FALSE

(* Highest record reached per episode; registers need -workers 1. *)
Mark == TLCSet(1000 + tid, IF l = 1 THEN 1
                           ELSE IF l > TLCGet(1000 + tid) THEN l ELSE TLCGet(1000 + tid))
Report == \A t \in 1..Len(Traces) : PrintT(<<"R", t, TLCGet(1000 + t)>>)

(* ---------------------------------------------------------- arithmetic *)
Abs(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Close(x, y, tol) == Abs(x - y) <= tol
CloseSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Abs(s[i] - t[i]) <= tol
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RangeOf(s) == {s[i] : i \in 1..Len(s)}
CeilDiv(a, b) == (a + b - 1) \div b
(* Division rounded to nearest, for possibly negative numerators, b > 0. *)
RDiv(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
=============================================================================
