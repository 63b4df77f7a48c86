------------------------------- MODULE Spectral -------------------------------
(***************************************************************************)
(* Discrete transforms by their defining sums, and the functions built on  *)
(* them.  Everything is a function of its input alone: an engine has a     *)
(* size and no other state.                                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal, TLC

Cosines(N) == TLCEval([k \in 0..(N - 1) |-> RCos(RMul(RMul(2, RPi), RRat(k, N)))])
Sines(N) == TLCEval([k \in 0..(N - 1) |-> RSin(RMul(RMul(2, RPi), RRat(k, N)))])
Zeros(n) == [k \in 1..n |-> R(0)]
Pad(x, n) == TLCEval(x \o Zeros(n - Len(x)))

\* X_k = sum_n (x_n + i y_n) e^(-2 pi i k n / N), as a pair of sequences
CDft(x, y) ==
  LET N == Len(x)
      C == Cosines(N)
      S == Sines(N)
      row(T, k) == TLCEval([n \in 1..N |-> T[(k * (n - 1)) % N]])
  IN TLCEval(<< [k \in 1..N |-> RAdd(RDot(x, row(C, k - 1)), RDot(y, row(S, k - 1)))],
                [k \in 1..N |-> RSub(RDot(y, row(C, k - 1)), RDot(x, row(S, k - 1)))] >>)
Neg(s) == LET u == TLCEval(s) IN TLCEval([k \in 1..Len(u) |-> RNeg(u[k])])
Scaled(s, c) == LET u == TLCEval(s)
                    f == TLCEval(c)
                IN TLCEval([k \in 1..Len(u) |-> RMul(u[k], f)])
\* the inverse without the factor 1/N: conj(dft(conj(.)))
CIdft(x, y) == LET z == CDft(TLCEval(x), Neg(y)) IN <<z[1], Neg(z[2])>>
Half(N) == N \div 2 + 1
First(s, n) == TLCEval(SubSeq(s, 1, n))
Dft(x) == LET z == CDft(x, TLCEval(Zeros(Len(x)))) IN TLCEval( <<First(z[1], Half(Len(x))), First(z[2], Half(Len(x)))>>)
\* the real sequence of length N whose first half spectrum is given (Hermitian completion), without 1/N;
\* the imaginary parts at 0 and, for even N, at N/2 play no part
Whole(re, im, N) ==
  TLCEval(<< [k \in 1..N |-> IF k <= Len(re) THEN re[k] ELSE re[N - k + 2]],
     [k \in 1..N |-> IF k = 1 \/ (N % 2 = 0 /\ k = N \div 2 + 1) THEN R(0) ELSE IF k <= Len(im) THEN im[k] ELSE RNeg(im[N - k + 2])] >>)
Idft(re, im, N) == LET w == Whole(re, im, N) IN CIdft(w[1], w[2])[1]

Dht(x) == LET z == CDft(x, Zeros(Len(x))) IN TLCEval([k \in 1..Len(x) |-> RSub(z[1][k], z[2][k])])
\* DCT-II and DCT-III in FFTW's normalisation (their composition is 2N)
Dct(x) == LET N == Len(x)
              C == Cosines(4 * N)
          IN TLCEval([k \in 1..N |-> RMul(2, RDot(x, TLCEval([n \in 1..N |-> C[((2 * n - 1) * (k - 1)) % (4 * N)]])))])
Idct(x) == LET N == Len(x)
               C == Cosines(4 * N)
           IN TLCEval([k \in 1..N |-> RSub(RMul(2, RDot(x, TLCEval([n \in 1..N |-> C[((2 * k - 1) * (n - 1)) % (4 * N)]]))), x[1])])

\* ---- built on them, by their definitions in time ---------------------------------------------------------------
Rev(s) == LET u == TLCEval(s) IN TLCEval([k \in 1..Len(u) |-> u[Len(u) + 1 - k]])
\* (x * g)[k] = sum_{m <= k} x[m] g[k - m], the first Len(x) terms
Conv(x, g) == TLCEval([k \in 1..Len(x) |-> RDot(First(x, k), Rev(First(g, k)))])
\* sum_n x[n + lag] g[n]
Lagged(x, g) == TLCEval([k \in 1..Len(x) |-> RDot(SubSeq(x, k, Len(x)), First(g, Len(x) + 1 - k))])
ScaleFor(s, N, lag) == CASE s = "none" -> 1 [] s = "biased" -> N [] s = "unbiased" -> N - lag
XCorr(x, g, s) == LET r == Lagged(x, g) IN TLCEval([k \in 1..Len(x) |-> RDiv(r[k], ScaleFor(s, Len(x), k - 1))])
\* analytic signal: the real part is x, and no negative frequency is present
AnalyticGain(N, k) == IF k = 0 \/ (N % 2 = 0 /\ k = N \div 2) THEN 1 ELSE IF 2 * k < N THEN 2 ELSE 0
Hilbert(x) == LET N == Len(x)
                  z == CDft(x, Zeros(N))
                  a == CIdft(TLCEval([k \in 1..N |-> RMul(AnalyticGain(N, k - 1), z[1][k])]), TLCEval([k \in 1..N |-> RMul(AnalyticGain(N, k - 1), z[2][k])]))
              IN <<Scaled(a[1], RRat(1, N)), Scaled(a[2], RRat(1, N))>>
Spectrum(x) == LET z == Dft(x) IN TLCEval([k \in 1..Len(z[1]) |-> RAdd(RMul(z[1][k], z[1][k]), RMul(z[2][k], z[2][k]))])
\* real cepstrum of the signal padded to twice its length
LogMag(zz) == LET z == TLCEval(zz) IN [k \in 1..Len(z[1]) |-> RLn(RSqrt(RAdd(RMul(z[1][k], z[1][k]), RMul(z[2][k], z[2][k]))))]
Cepstrum(x) == LET N == 2 * Len(x)
                   l == TLCEval(LogMag(Dft(Pad(x, N))))
               IN First(Scaled(Idft(l, Zeros(Len(l)), N), RRat(1, N)), Len(x))

\* ---- conformance ------------------------------------------------------------------------------------------------
Weight(s) == RSum([k \in 1..Len(s) |-> RAbs(s[k])])
Eps(e) == IF "t" \in DOMAIN e /\ e.t = "f" THEN RTen(-5) ELSE RTen(-10)
Alike(u, w, tol) == LET v == TLCEval(w)
                        t == TLCEval(tol)
                    IN Len(u) = Len(v) /\ \A k \in 1..Len(u) : RWithin(u[k], v[k], t)
SpectralStart == 0
Sizes(e) == IF "g" \in DOMAIN e THEN RAdd(1, RMul(Weight(e.x), RAdd(1, Weight(e.g)))) ELSE IF "y" \in DOMAIN e THEN RAdd(1, RAdd(Weight(e.x), Weight(e.y))) ELSE RAdd(1, Weight(e.x))
RealResult(e, want) == Alike(e.r, want, RMul(Eps(e), RMul(2, Sizes(e)))) /\ e.intact
CpxResult(e, wanted) == LET want == TLCEval(wanted) IN Alike(e.cre, want[1], RMul(Eps(e), RMul(2, Sizes(e)))) /\ Alike(e.cim, want[2], RMul(Eps(e), RMul(2, Sizes(e)))) /\ e.intact
Maybe(s, e, f) == IF e.scale = 1 THEN Scaled(s, RRat(1, f)) ELSE s
Both(zz, c) == LET z == TLCEval(zz) IN <<Scaled(z[1], c), Scaled(z[2], c)>>
SpectralEval(N, e) ==
  [ st |-> IF e.op = "engine" THEN e.n ELSE N,
    ok |-> CASE e.op \in {"engine", "copy"} -> TRUE
             [] e.op \in {"cdft", "e_cdft"} -> CpxResult(e, CDft(e.x, e.y))
             [] e.op = "cidft" -> CpxResult(e, Both(CIdft(e.x, e.y), RRat(1, Len(e.x))))
             [] e.op = "e_cidft" -> CpxResult(e, IF e.scale = 1 THEN Both(CIdft(e.x, e.y), RRat(1, N)) ELSE CIdft(e.x, e.y))
             [] e.op \in {"dft", "e_dft"} -> CpxResult(e, Dft(e.x))
             [] e.op = "idft" -> LET M == 2 * (Len(e.x) - 1) IN RealResult(e, Scaled(Idft(e.x, e.y, M), RRat(1, M)))
             [] e.op = "e_idft" -> RealResult(e, Maybe(Idft(e.x, e.y, N), e, N))
             [] e.op \in {"hartley", "e_dht"} -> RealResult(e, Dht(e.x))
             [] e.op \in {"dct", "e_dct"} -> RealResult(e, Dct(e.x))
             [] e.op = "idct" -> RealResult(e, Scaled(Idct(e.x), RRat(1, 2 * Len(e.x))))
             [] e.op = "e_idct" -> RealResult(e, Maybe(Idct(e.x), e, 2 * N))
             [] e.op = "hilbert" -> CpxResult(e, Hilbert(e.x))
             [] e.op = "spectrum" -> LET w == Sizes(e) IN Alike(e.r, Spectrum(e.x), RMul(Eps(e), RMul(w, w))) /\ e.intact
             [] e.op = "cepstrum" -> Alike(e.r, Cepstrum(e.x), RMul(RTen(3), RMul(Eps(e), Sizes(e)))) /\ e.intact
             [] e.op = "conv" -> RealResult(e, Conv(e.x, e.g)) /\ e.kept
             [] e.op = "autocorr" -> LET w == Sizes(e) IN Alike(e.r, XCorr(e.x, e.x, e.scale), RMul(Eps(e), RMul(w, w))) /\ e.intact
             [] e.op = "xcorr" -> RealResult(e, XCorr(e.x, e.g, e.scale)) /\ e.kept ]
===============================================================================
