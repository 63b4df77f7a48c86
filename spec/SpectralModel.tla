----------------------------- MODULE SpectralModel -----------------------------
(***************************************************************************)
(* Every vector over a small alphabet and every length up to MaxN: the     *)
(* defining sums satisfy the theorems users rely on.  The vectors are also *)
(* printed for the real code.                                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal, TLC, Json
S == INSTANCE Spectral
CONSTANTS MaxN, Values, Tour
VARIABLES x, hist          \* Values are shifted by one

RECURSIVE Vectors(_)
Vectors(n) == IF n = 0 THEN {<<>>} ELSE {Append(v, a) : v \in Vectors(n - 1), a \in Values}
Init == x \in UNION {Vectors(n) : n \in 1..MaxN} /\ hist = <<>>
Next == FALSE /\ UNCHANGED <<x, hist>>
Emit == Tour => PrintT("GEN " \o ToJson([k \in 1..Len(x) |-> x[k] - 1]))

v == TLCEval([k \in 1..Len(x) |-> R(x[k] - 1)])
N == Len(x)
z == S!CDft(v, S!Zeros(N))
tol == RTen(-9)
Inverse == LET b == S!CIdft(z[1], z[2]) IN S!Alike(b[1], S!Scaled(v, N), tol) /\ S!Alike(b[2], S!Zeros(N), tol)
Hermitian == \A k \in 1..(N - 1) : RWithin(z[1][k + 1], z[1][N - k + 1], tol) /\ RWithin(z[2][k + 1], RNeg(z[2][N - k + 1]), tol)
HalfSuffices == LET h == S!Dft(v) IN S!Alike(S!Idft(h[1], h[2], N), S!Scaled(v, N), tol)
Parseval == RWithin(RAdd(RDot(z[1], z[1]), RDot(z[2], z[2])), RMul(N, RDot(v, v)), tol)
HartleyTwice == S!Alike(S!Dht(S!Dht(v)), S!Scaled(v, N), tol)
CosineInverse == S!Alike(S!Idct(S!Dct(v)), S!Scaled(v, 2 * N), tol)
\* convolution and correlation are products of the padded spectra
Padded == S!CDft(S!Pad(v, 2 * N), S!Zeros(2 * N))
Product(f) == LET P == Padded
                  re == [k \in 1..(2 * N) |-> RSub(RMul(P[1][k], P[1][k]), RMul(f, RMul(P[2][k], P[2][k])))]
                  im == [k \in 1..(2 * N) |-> RMul(RSub(RAdd(1, f), 0), RMul(P[1][k], P[2][k]))]
              IN S!Scaled(S!First(S!CIdft(re, im)[1], N), RRat(1, 2 * N))
Convolution == S!Alike(Product(1), S!Conv(v, v), tol)
Correlation == S!Alike(Product(-1), S!Lagged(v, v), tol)
Analytic == LET a == S!Hilbert(v) IN S!Alike(a[1], v, tol)
================================================================================
