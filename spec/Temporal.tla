-------------------------------- MODULE Temporal --------------------------------
(***************************************************************************)
(* Features of a signal in time, by definition; and a running equivalent   *)
(* sound level, whose state is the levels of the last frames.              *)
(***************************************************************************)
EXTENDS Statistics

Energy(x) == RDot(x, x)
Power(x) == RDiv(Energy(x), Len(x))
Db10(p) == RDiv(RMul(10, RLn(p)), RLn(R(10)))
Leq(x) == Db10(Power(x))
Rssq(x) == RSqrt(Energy(x))
Rms(x) == RSqrt(Power(x))
LagSum(x, k, f(_)) == LET n == Len(x) IN RSum(TLCEval([j \in 1..(n - k) |-> f(RSub(x[j], x[j + k]))]))
Amdf(x) == TLCEval([k \in 1..Len(x) |-> RDiv(LagSum(x, k - 1, LAMBDA d : RAbs(d)), Len(x))])
Asdf(x) == TLCEval([k \in 1..Len(x) |-> RDiv(LagSum(x, k - 1, LAMBDA d : RMul(d, d)), Len(x))])
\* zero counts as positive
Crosses(a, b) == RLt(a, 0) # RLt(b, 0)
Azcr(x) == LET n == Len(x) IN RDiv(Len(SelectSeq(TLCEval([j \in 1..(n - 1) |-> Crosses(x[j], x[j + 1])]), LAMBDA b : b)), n - 1)
Duration(x, sr) == RDiv(Len(x), sr)
Above(x, l) == Len(SelectSeq(x, LAMBDA v : RLt(l, RAbs(v))))
Effective(x, sr, thr) == RDiv(Above(x, RMul(thr, Big(x))), sr)
Snr(x, y) == LET d == TLCEval([k \in 1..Len(x) |-> RSub(x[k], y[k])]) IN Db10(RDiv(Variance(x), Variance(d)))
Loudness(x) == RPow(Energy(x), RRat(67, 100))

\* ---- running level: the mean of the levels of the last n frames, levels before the first one counting as zero ----
LeqOf(n) == [n |-> n, levels |-> <<>>]
Heard(s, x) == [s EXCEPT !.levels = LET l == Append(@, Leq(x)) IN IF Len(l) > s.n THEN Tail(l) ELSE l]
Level(s) == RDiv(RSum(s.levels), s.n)

\* ---- conformance ------------------------------------------------------------------------------------------------
TemporalStart == LeqOf(1)
Rel(e, got, want) == Close(e, got, want, RAbs(want))
\* decibels: a relative error of the argument is an absolute one here
Decibels(e, got, want) == RIsFinite(got) /\ RWithin(got, want, RMul(StatEps(e), 20 * (2 + Len(e.x)) + 400))
AllClose(e, got, want, s) == Len(got) = Len(want) /\ \A k \in 1..Len(want) : Close(e, got[k], want[k], s)
TemporalEval(st, e) ==
  IF e.op = "leq_new" THEN [st |-> LeqOf(e.n), ok |-> TRUE] ELSE
  LET x == e.x
      B == Big(x)
      M == RMul(2, B)
      t == IF e.op = "leq_next" THEN Heard(st, x) ELSE st
  IN [ st |-> t,
       ok |-> CASE e.op = "leq_next" -> Decibels(e, e.ret, Level(t))
                [] e.op = "energy" -> Rel(e, e.ret, Energy(x))
                [] e.op = "power" -> Rel(e, e.ret, Power(x))
                [] e.op = "rssq" -> Rel(e, e.ret, Rssq(x))
                [] e.op = "rms" -> Rel(e, e.ret, Rms(x))
                [] e.op = "loudness" -> Rel(e, e.ret, Loudness(x))
                [] e.op = "leq" -> Decibels(e, e.ret, Leq(x))
                [] e.op = "amdf" -> AllClose(e, e.r, Amdf(x), M) /\ e.intact
                [] e.op = "asdf" -> AllClose(e, e.r, Asdf(x), RMul(M, M)) /\ e.intact
                [] e.op = "azcr" -> Rel(e, e.ret, Azcr(x))
                [] e.op = "duration" -> Rel(e, e.ret, Duration(x, e.sr))
                [] e.op = "effective" -> LET c(f) == RDiv(Above(x, RMul(RMul(e.thr, B), f)), e.sr)
                                             eps == RMul(RTen(-6), IF "t" \in DOMAIN e /\ e.t = "f" THEN 1 ELSE 0)
                                         IN Rel(e, e.ret, Effective(x, e.sr, e.thr)) \/ Rel(e, e.ret, c(RAdd(1, eps))) \/ Rel(e, e.ret, c(RSub(1, eps)))
                [] e.op = "snr" -> Decibels(e, e.ret, Snr(x, e.y)) ]
===============================================================================
