---------------------------- MODULE PredictiveTrace ----------------------------
(* Recorded answers of a predictive distribution against the mixture of its draws.*)
(* memo[q] holds the draws behind key q: whatever is asked with that key, however   *)
(* the points are batched and over however many devices, is about those draws.     *)
EXTENDS Predictive, TraceLib
VARIABLES mem, disc, memo
vars == <<tid, l, mem, disc, memo>>
Init == TInit /\ mem = <<>> /\ disc = FALSE /\ memo = <<>>
N == Cfg.N
Reg == Cfg.reg
(* float32 against the oracle *)
Near(a, b) == Close(a, b, 40 + PMax(PAbs(a), PAbs(b)) \div 10000)
NearV(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : Near(s[j], t[j])
SameRec(a, b) == NearV(a.m, b.m) /\ NearV(a.v, b.v) /\ Near(a.p, b.p)
SameDraw(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameRec(a[i], b[i])
Know(k) == \E e \in 1..Len(memo) : memo[e].k = k
Of(k) == memo[CHOOSE e \in 1..Len(memo) : memo[e].k = k].d
Draws == Of(E.k)

Members == /\ Is("members") /\ mem' = E.mem /\ disc' = E.disc /\ Adv /\ UNCHANGED memo
Drawn == /\ Is("draws") /\ Adv /\ UNCHANGED <<mem, disc>>
         /\ Chk("one row per draw", Len(E.rows) = E.n)
         /\ Chk("one row per point", \A s \in 1..E.n : Len(E.rows[s]) = N)
         /\ Chk("each draw is a posterior sample", disc => \A s \in 1..E.n : \E k \in 1..Len(mem) : SameDraw(E.rows[s], mem[k]))
         /\ IF Know(E.k)
            THEN Chk("same draws however batched", \A s \in 1..E.n : SameDraw(E.rows[s], Of(E.k)[s])) /\ UNCHANGED memo
            ELSE memo' = Append(memo, [k |-> E.k, d |-> E.rows])
RowsOK(name, rows, P(_, _)) ==
  /\ Chk("one row per point", Len(rows) = N)
  /\ Chk(name, \A i \in 1..N : P(rows[i], i))
Keep == Adv /\ UNCHANGED <<mem, disc, memo>>
Stat(w) == Is("stat") /\ E.what = w
MeanS == Stat("mean") /\ Keep /\ RowsOK("mean of the draws' means", E.rows, LAMBDA r, i : NearV(r, MeanOf(Draws, i)))
AleS == Stat("ale") /\ Keep /\ RowsOK("aleatoric variance: mean of the variances", E.rows, LAMBDA r, i : NearV(r, AleOf(Draws, i)))
EpiS == /\ Stat("epi") /\ Keep
        /\ RowsOK("epistemic variance: variance of the means", E.rows, LAMBDA r, i : NearV(r, EpiOf(Draws, i)) /\ \A j \in 1..Len(r) : r[j] >= 0)
VarS == Stat("var") /\ Keep /\ RowsOK("aleatoric plus epistemic", E.rows, LAMBDA r, i : NearV(r, VarOf(Draws, i)))
StdS == Stat("std2") /\ Keep /\ RowsOK("square of the standard deviation", E.rows, LAMBDA r, i : NearV(r, VarOf(Draws, i)))
DensS == Stat("dens") /\ Keep /\ RowsOK("mixture density", E.rows, LAMBDA r, i : Near(r, DensOf(Draws, i)))
ModeS == /\ Stat("mode") /\ Keep
         /\ RowsOK("mode", E.rows, LAMBDA r, i :
              IF Reg THEN NearV(r, MeanOf(Draws, i))
              ELSE r \in 0..(Dim(Draws, i, "m") - 1) /\ \A j \in 1..Dim(Draws, i, "m") : MeanOf(Draws, i)[r + 1] >= MeanOf(Draws, i)[j] - 60)
EnsP == /\ Is("ensp") /\ Keep
        /\ Chk("one row per draw", Len(E.rows) = Len(Draws) /\ \A s \in 1..Len(Draws) : Len(E.rows[s]) = N)
        /\ Chk("density of each draw", \A s \in 1..Len(Draws) : \A i \in 1..N : Near(E.rows[s][i], Draws[s][i].p))
(* Variances whose draws come from keys of its own: some draws explain them. *)
Comps(K, n) == {c \in [1..K -> 0..n] : PSum([k \in 1..K |-> c[k]]) = n}
RECURSIVE Rep(_, _)
Rep(c, k) == IF k > Len(c) THEN <<>> ELSE [a \in 1..c[k] |-> mem[k]] \o Rep(c, k + 1)
Some(n) == {[i \in 1..N |-> [a |-> AleOf(Rep(c, 1), i), e |-> EpiOf(Rep(c, 1), i)]] : c \in Comps(Len(mem), n)}
TotOK(rows, n) == LET S == TLCEval(Some(n)) IN
  IF E.ale THEN \E t \in S : \A i \in 1..N : NearV(rows[i], [j \in 1..Len(rows[i]) |-> AleOf(Draws, i)[j] + t[i].e[j]])
  ELSE \E t, u \in S : \A i \in 1..N : NearV(rows[i], [j \in 1..Len(rows[i]) |-> t[i].a[j] + u[i].e[j]])
Tot == /\ Is("tot") /\ Keep
       /\ Chk("one row per point", Len(E.rows) = N /\ Len(E.std2) = N)
       /\ Chk("total variance explained", disc => TotOK(E.rows, E.n))
       /\ Chk("standard deviation squared", \A i \in 1..N : NearV(E.std2[i], E.rows[i]))
       /\ Chk("never negative", \A i \in 1..N : \A j \in 1..Len(E.rows[i]) : E.rows[i][j] >= 0)

(* Entropies at scale 10^4; tol is the Monte Carlo error allowed (0 for classes).   *)
Ent == /\ Is("ent") /\ Keep
       /\ Chk("one row per point", Len(E.tot) = N /\ Len(E.ale) = N /\ Len(E.epi) = N)
       /\ Chk("total is aleatoric plus epistemic", E.one \/ \A i \in 1..N : Close(E.tot[i], E.ale[i] + E.epi[i], 12))
       /\ Chk("aleatoric entropy: mean of the entropies", \A i \in 1..N : Close(E.ale[i], EntOf(Draws, i), 25 + E.tol))
       /\ Chk("entropy of the mixture", \A i \in 1..N :
            IF Reg THEN Close(E.tot[i], E.ref[i], 25 + E.tol) ELSE Close(E.tot[i], Entropy(MeanOf(Draws, i)), 60))
       /\ Chk("no epistemic entropy in one draw", Len(Draws) = 1 => \A i \in 1..N : Close(E.epi[i], 0, 12))

(* Target samples: frequencies, or means and variances, of n of them. *)
FreqOK(c, p, n, f) == PAbs(c - PDiv(PDiv(p, 100) * n, 10000)) <= 4 \/
                      LET d == PAbs(c - PDiv(PDiv(p, 100) * n, 10000)) q == PDiv(p, 1000) IN d * d <= f * PDiv(PDiv(q * (1000 - q), 1000) * n, 1000) + 16
Ref(i) == IF disc /\ ~E.only THEN [m |-> MeanOf(mem, i), v |-> VarOf(mem, i)] ELSE [m |-> E.refm[i], v |-> E.refv[i]]
Sample == /\ Is("sample") /\ Keep
          /\ Chk("shape of the samples", E.shape = <<E.n, N>> \o (IF Reg THEN <<1>> ELSE <<>>))
          /\ Chk("samples follow the mixture", E.few \/ \A i \in 1..N :
               IF Reg THEN /\ Sq(E.rows[i][1] - Ref(i).m[1]) <= PDiv((IF disc THEN 40 ELSE 90) * (Ref(i).v[1] \div 4), E.n \div 4) + 200
                           /\ Close(E.rows[i][2], Ref(i).v[1], PDiv(Ref(i).v[1] * (IF disc THEN 2 ELSE 3), 5) + 200)
               ELSE \A j \in 1..Len(E.rows[i]) : FreqOK(E.rows[i][j], Ref(i).m[j], E.n, IF disc THEN 40 ELSE 90))
          /\ Chk("asking for outputs does not change the samples", E.same)
          /\ Chk("outputs of each sample", E.aux => Len(E.outs) = Len(E.outsn) /\ \A s \in 1..Len(E.outs) : E.outsn[s] = N /\ Len(E.outs[s]) = N)
          /\ Chk("outputs are those of posterior samples", E.aux /\ disc => \A s \in 1..Len(E.outs) : \E k \in 1..Len(mem) : SameDraw(E.outs[s], mem[k]))
(* Quantiles (10^5) of the samples drawn with the same key. *)
Quant == /\ Is("quant") /\ Keep
         /\ Chk("one row per point", \A a \in 1..Len(E.q) : Len(E.rows[a]) = N)
         /\ Chk("quantiles of the samples", \A a \in 1..Len(E.q) : \A i \in 1..N : Close(E.rows[a][i], QuantileOf(E.samples[i], E.q[a]), 12))
CSet == /\ Is("cset") /\ Keep
        /\ Chk("one set per point", Len(E.sets) = N)
        /\ Chk("credible set", \A i \in 1..N : IsCredible(MeanOf(Draws, i), [a \in 1..Len(E.sets[i]) |-> E.sets[i][a] + 1], E.err, 60))
Conf == /\ Is("conf") /\ Keep
        /\ Chk("one set per point", Len(E.sets) = N)
        /\ Chk("conformal set", \A i \in 1..N : \A y \in 1..Len(E.w[i]) :
             LET tr == [s \in 1..Len(E.tr) |-> E.tr[s]]
                 inn == \E a \in 1..Len(E.sets[i]) : E.sets[i][a] = y - 1
             IN /\ MustBeIn(E.w[i][y], tr, E.ntr, E.err, 100, 12) => inn
                /\ inn => MayBeIn(E.w[i][y], tr, E.ntr, E.err, 100, 12))
        /\ Chk("labels once", \A i \in 1..N : \A a, b \in 1..Len(E.sets[i]) : a # b => E.sets[i][a] # E.sets[i][b])
Refused == Is("refused") /\ Keep /\ Chk("uneven batches are refused over devices", E.uneven)
Next == Members \/ Drawn \/ MeanS \/ AleS \/ EpiS \/ VarS \/ StdS \/ DensS \/ ModeS \/ EnsP \/ Tot \/ Ent \/ Sample \/ Quant \/ CSet \/ Conf \/ Refused
Spec == Init /\ [][Next]_vars
=============================================================================
