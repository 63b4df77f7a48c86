-------------------------------- MODULE Design --------------------------------
(***************************************************************************)
(* Filter design.  A design is prescribed by the frequency response it has *)
(* to have: the digital frequency f corresponds to the analog frequency    *)
(* w = tan(pi f / fs) (bilinear transform), and the response at f is that  *)
(* of the analog prototype at w.  The coefficients a design produced are   *)
(* judged only by the response they have and by the position of the poles. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal

B == INSTANCE Biquad

Sq(x) == RMul(x, x)
Db2Mag(g) == RPow(R(10), RDiv(g, 20))

\* ---- complex numbers -------------------------------------------------------------------------------------------
CMul(u, v) == <<RSub(RMul(u[1], v[1]), RMul(u[2], v[2])), RAdd(RMul(u[1], v[2]), RMul(u[2], v[1]))>>
CNorm2(u) == RAdd(Sq(u[1]), Sq(u[2]))
CDiv(u, v) == LET d == CNorm2(v) IN <<RDiv(RAdd(RMul(u[1], v[1]), RMul(u[2], v[2])), d), RDiv(RSub(RMul(u[2], v[1]), RMul(u[1], v[2])), d)>>
CNear(u, v, t) == RWithin(u[1], v[1], t) /\ RWithin(u[2], v[2], t)

\* sum of c[k] e^{-j w (k-1)}
Poly(c, w) == <<RDot(c, [k \in 1..Len(c) |-> RCos(RMul(k - 1, w))]), RNeg(RDot(c, [k \in 1..Len(c) |-> RSin(RMul(k - 1, w))]))>>
\* response of a section at digital angular frequency w
ResponseOf(s, w) == CDiv(Poly(<<s.b0, s.b1, s.b2>>, w), Poly(<<s.a0, s.a1, s.a2>>, w))
RECURSIVE Power(_, _)
Power(stages, w) == IF stages = <<>> THEN R(1) ELSE RMul(CNorm2(ResponseOf(Head(stages), w)), Power(Tail(stages), w))

\* ---- prototypes ------------------------------------------------------------------------------------------------
Warp(f, fs) == RTan(RDiv(RMul(RPi, f), fs))
BandRatio(e, f) ==      \* |(w1 w2 - w^2) / ((w2 - w1) w)|
  LET w == Warp(f, e.fs)
      w1 == Warp(RSub(e.fc, RDiv(e.bw, 2)), e.fs)
      w2 == Warp(RAdd(e.fc, RDiv(e.bw, 2)), e.fs)
  IN RAbs(RDiv(RSub(RMul(w1, w2), Sq(w)), RMul(RSub(w2, w1), w)))
\* the frequency of the low-pass prototype (edge at 1) which f is mapped to
Proto(e, f) ==
  CASE e.type \in {"lp", "ls"} -> RDiv(Warp(f, e.fs), Warp(e.fc, e.fs))
    [] e.type \in {"hp", "hs"} -> RDiv(Warp(e.fc, e.fs), Warp(f, e.fs))
    [] e.type \in {"bp", "bsh"} -> BandRatio(e, f)
    [] e.type = "bs" -> RDiv(1, BandRatio(e, f))

\* Chebyshev polynomial T_n on x >= 0
Cheb(n, x) ==
  IF RLe(x, 1) THEN RCos(RMul(n, RAtan2(RSqrt(RMax(R(0), RSub(1, Sq(x)))), x)))
  ELSE LET u == RAdd(x, RSqrt(RSub(Sq(x), 1))) IN RDiv(RAdd(RPow(u, n), RPow(u, -n)), 2)

OneOver(x) == IF RIsInf(x) THEN R(0) ELSE RDiv(1, x)
\* (X + G) / (X + 1/G): 1 far from the shelf, G^2 on it, G at its edge
Shelf(X, G) == RDiv(RAdd(1, RDiv(G, X)), RAdd(1, RDiv(1, RMul(G, X))))
ShelfBy(X, G) == IF RIsInf(X) THEN R(1) ELSE IF RLt(X, RTen(-12)) THEN Sq(G) ELSE Shelf(X, G)
IsShelf(t) == t \in {"ls", "hs", "bsh"}

Butterworth(e, o) ==
  LET X == RPow(o, 2 * e.n)
  IN IF IsShelf(e.type) THEN ShelfBy(X, Db2Mag(e.gain)) ELSE OneOver(RAdd(1, X))
ChebyshevI(e, o) ==
  LET eps2 == RSub(RPow(R(10), RDiv(e.ripple, 10)), 1)
  IN OneOver(RAdd(1, RMul(eps2, Sq(Cheb(e.n, o)))))
\* the stop band, at least ripple dB down, begins at the requested frequency
ChebyshevII(e, o) ==
  LET eps2 == RDiv(1, RSub(RPow(R(10), RDiv(e.ripple, 10)), 1))
      t == IF RLt(o, RTen(-12)) THEN RDiv(1, R(0)) ELSE Cheb(e.n, RDiv(1, o))
  IN IF RIsInf(t) THEN R(1) ELSE RDiv(Sq(t), RAdd(Sq(t), RDiv(1, eps2)))
\* shelf of gain g whose band runs within ripple dB of g
ChebyshevShelf(e, o) ==
  LET G == Db2Mag(e.gain)
      Gb == Db2Mag(IF RLt(e.gain, 0) THEN RAdd(e.gain, e.ripple) ELSE RSub(e.gain, e.ripple))
      ee == RDiv(RSub(Sq(G), Sq(Gb)), RSub(Sq(Gb), 1))
      t2 == Sq(Cheb(e.n, o))
  IN IF RIsInf(t2) THEN R(1) ELSE RDiv(RAdd(Sq(G), RMul(ee, t2)), RAdd(1, RMul(ee, t2)))

PowerAt(e, f) ==
  LET o == Proto(e, f)
  IN CASE e.by = "butterworth" -> Butterworth(e, o)
       [] e.by \in {"cheb1", "cheb2"} /\ IsShelf(e.type) -> ChebyshevShelf(e, o)
       [] e.by = "cheb1" -> ChebyshevI(e, o)
       [] e.by = "cheb2" -> ChebyshevII(e, o)

\* second-order designs: complex response of H(s), s = j o, o = w / wc
Quad(c0, c1, c2, o) == <<RSub(c0, RMul(c2, Sq(o))), RMul(c1, o)>>      \* c0 + c1 s + c2 s^2
Second(e, f) ==
  LET o == RDiv(Warp(f, e.fs), Warp(e.fc, e.fs))
      q1 == RDiv(1, e.q)
      pole == Quad(R(1), q1, R(1), o)
      g == IF "gain" \in DOMAIN e THEN e.gain ELSE R(1)
      V == Db2Mag(RAbs(g))
      A == RSqrt(Db2Mag(g))
      b == RDiv(RSqrt(A), e.q)
      low(k) == Quad(k[1], k[2], k[3], o)
      zl == <<V, RSqrt(RMul(2, V)), R(1)>>
      zh == <<R(1), RSqrt(RMul(2, V)), V>>
      p2 == <<R(1), RSqrt(R(2)), R(1)>>
  IN CASE e.type = "lp" -> CDiv(<<R(1), R(0)>>, pole)
       [] e.type = "hp" -> CDiv(Quad(R(0), R(0), R(1), o), pole)
       [] e.type = "bp" /\ e.by = "rbj" -> CDiv(Quad(R(0), R(1), R(0), o), pole)       \* constant skirt, peak gain Q
       [] e.type = "bp" /\ e.by = "zolzer" -> CDiv(Quad(R(0), q1, R(0), o), pole)      \* unit peak gain
       [] e.type = "ap" -> CDiv(Quad(R(1), RNeg(q1), R(1), o), pole)
       [] e.type = "ls" /\ e.by = "rbj" -> CDiv(Quad(Sq(A), RMul(A, b), A, o), Quad(R(1), b, A, o))
       [] e.type = "hs" /\ e.by = "rbj" -> CDiv(Quad(A, RMul(A, b), Sq(A), o), Quad(A, b, R(1), o))
       [] e.type = "ls" /\ e.by = "zolzer" -> IF RLe(0, g) THEN CDiv(low(zl), low(p2)) ELSE CDiv(low(p2), low(zl))
       [] e.type = "hs" /\ e.by = "zolzer" -> IF RLe(0, g) THEN CDiv(low(zh), low(p2)) ELSE CDiv(low(p2), low(zh))

\* ---- judging a design -------------------------------------------------------------------------------------------
IsSecond(e) == e.by \in {"rbj", "zolzer"}
Poles(e) == IF IsSecond(e) THEN 2 ELSE IF e.type \in {"bp", "bs", "bsh"} THEN 2 * e.n ELSE e.n
\* frequencies of interest, as fractions of the sampling frequency, besides the corner
Grid == <<1, 4, 9, 16, 25, 34, 45, 58, 74, 91, 110, 133, 158, 190, 220, 247, 280, 313, 340, 371, 402, 430, 455, 470, 481, 490, 496>>
Freqs(e) == [k \in 1..Len(Grid) |-> RMul(RRat(Grid[k], 1000), e.fs)]
            \o (IF "bw" \in DOMAIN e THEN <<RSub(e.fc, RDiv(e.bw, 2)), RAdd(e.fc, RDiv(e.bw, 2)), e.fc>> ELSE <<e.fc>>)
Omega(e, f) == RDiv(RMul(RMul(2, RPi), f), e.fs)
PowerFits(got, want) == RWithin(got, want, RAdd(RTen(-8), RMul(RTen(-4), want)))

GoodDesign(e) ==
  /\ Len(e.stages) = (Poles(e) + 1) \div 2
  /\ \A k \in 1..Len(e.stages) : B!Stable(e.stages[k]) /\ e.stages[k].stable
  /\ LET fr == Freqs(e)
     IN \A k \in 1..Len(fr) :
          IF IsSecond(e) THEN LET h == Second(e, fr[k]) IN CNear(ResponseOf(e.stages[1], Omega(e, fr[k])), h, RMul(RTen(-7), RAdd(1, RSqrt(CNorm2(h)))))
          ELSE PowerFits(Power(e.stages, Omega(e, fr[k])), PowerAt(e, fr[k]))
  /\ B!FollowsAll([k \in 1..Len(e.stages) |-> B!AtRest(e.stages[k])], <<R(1), R(0), R(0), R(0)>>, e.impulse)

GoodFreq(e) ==
  /\ Len(e.hre) = e.k /\ Len(e.him) = e.k /\ e.intact
  /\ \A j \in 1..e.k :
       LET w == RDiv(RMul(RPi, j - 1), e.k)
           n == Poly(e.b, w)
           d == Poly(e.a, w)
           h == CDiv(n, d)
       IN CNear(<<e.hre[j], e.him[j]>>, h, RMul(RTen(-9), RAdd(1, RDiv(RAdd(1, RSqrt(CNorm2(h))), RSqrt(CNorm2(d))))))

DesignStart == 0
DesignEval(s, e) == [st |-> 0, ok |-> IF e.op = "design" THEN GoodDesign(e) ELSE GoodFreq(e)]
===============================================================================
