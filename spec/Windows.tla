--------------------------------- MODULE Windows ---------------------------------
(***************************************************************************)
(* Symmetric windows of N samples by their closed forms; a window of one   *)
(* sample is one.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal, TLC

Harmonics(name) ==
  CASE name = "hamming" -> <<RRat(54, 100), RRat(46, 100)>>
    [] name = "hanning" -> <<RRat(1, 2), RRat(1, 2)>>
    [] name = "blackman" -> <<RRat(42, 100), RRat(50, 100), RRat(8, 100)>>
    [] name = "blackman_harris" -> <<RRat(35875, 100000), RRat(48829, 100000), RRat(14128, 100000), RRat(1168, 100000)>>
    [] name = "blackman_nuttall" -> <<RRat(3635819, 10000000), RRat(4891775, 10000000), RRat(1365995, 10000000), RRat(106411, 10000000)>>
    [] name = "flattop" -> <<RRat(21557895, 100000000), RRat(41663158, 100000000), RRat(277263158, 1000000000), RRat(83578947, 1000000000), RRat(6947368, 1000000000)>>
Cosine == {"hamming", "hanning", "blackman", "blackman_harris", "blackman_nuttall", "flattop"}
Names == Cosine \cup {"boxcar", "rectangular", "bartlett", "triangular", "welch"}

\* where sample n (from 0) lies on [-1, 1] when the ends are at -1 and 1
Position(n, N) == RRat(2 * n - (N - 1), N - 1)
At(name, n, N) ==
  CASE N = 1 -> R(1)
    [] name \in {"boxcar", "rectangular"} -> R(1)
    [] name = "bartlett" -> RSub(1, RAbs(Position(n, N)))
    [] name = "triangular" -> RSub(1, RAbs(RRat(2 * n - (N - 1), N + (N % 2))))
    [] name = "welch" -> LET p == Position(n, N) IN RSub(1, RMul(p, p))
    [] OTHER -> LET a == Harmonics(name)
                    u == RDiv(RMul(RMul(2, RPi), n), N - 1)
                IN RSum([k \in 1..Len(a) |-> RMul(IF k % 2 = 1 THEN 1 ELSE -1, RMul(a[k], RCos(RMul(k - 1, u))))])
Window(name, N) == TLCEval([k \in 1..N |-> At(name, k - 1, N)])

WindowsStart == 0
WindowsEval(st, e) ==
  LET tol == IF "t" \in DOMAIN e /\ e.t = "f" THEN RMul(2, RTen(-5)) ELSE RTen(-11)
      w == Window(e.w, e.n)
  IN [st |-> st, ok |-> e.op = "window" /\ Len(e.r) = e.n /\ e.intact /\ \A k \in 1..e.n : RIsFinite(e.r[k]) /\ RWithin(e.r[k], w[k], tol)]
===================================================================================
