------------------------------- MODULE Conversions -------------------------------
(***************************************************************************)
(* Units, auditory scales, companding, and the parts of complex numbers.   *)
(* All are functions of one value (and parameters).                        *)
(***************************************************************************)
EXTENDS Arrays

Log10(v) == RDiv(RLn(v), RLn(R(10)))
Mag2Db(v) == RMul(20, Log10(v))
Pow2Db(v) == RMul(10, Log10(v))
Db2Mag(v) == RPow(R(10), RDiv(v, 20))
Db2Pow(v) == RPow(R(10), RDiv(v, 10))
Deg2Rad(v) == RDiv(RMul(v, RPi), 180)
Rad2Deg(v) == RMul(RDiv(v, RPi), 180)
Sgn(v) == IF RLt(v, 0) THEN R(-1) ELSE R(1)

\* O'Shaughnessy's mel, Glasberg and Moore's ERB rate, Traunmueller's Bark with its corrections, cents with A4 = 440 Hz at 5700
MelK == RRat(112701048, 100000)
Mel(f) == RMul(MelK, RLn(RAdd(1, RDiv(f, 700))))
MelInv(m) == RMul(700, RSub(RExp(RDiv(m, MelK)), 1))
Erb(f) == RMul(RRat(214, 10), Log10(RAdd(1, RDiv(RMul(RRat(437, 100), f), 1000))))
ErbInv(z) == RDiv(RMul(1000, RSub(RPow(R(10), RDiv(z, RRat(214, 10))), 1)), RRat(437, 100))
BarkRaw(f) == RSub(RDiv(RMul(RRat(2681, 100), f), RAdd(1960, f)), RRat(53, 100))
Bark(f) == LET b == BarkRaw(f) IN IF RLt(b, 2) THEN RAdd(b, RMul(RRat(15, 100), RSub(2, b)))
                                  ELSE IF RLt(RRat(201, 10), b) THEN RAdd(b, RMul(RRat(22, 100), RSub(b, RRat(201, 10)))) ELSE b
BarkInv(z) == LET b == IF RLt(z, 2) THEN RDiv(RSub(z, RRat(3, 10)), RRat(85, 100))
                       ELSE IF RLt(RRat(201, 10), z) THEN RDiv(RAdd(z, RRat(4422, 1000)), RRat(122, 100)) ELSE z
              IN RDiv(RMul(1960, RAdd(b, RRat(53, 100))), RSub(RRat(2628, 100), b))
Octave(v) == RDiv(RLn(v), RLn(R(2)))
Cent(f) == RMul(Sgn(f), RAdd(5700, RMul(1200, Octave(RDiv(RAbs(f), 440)))))
CentInv(c) == RMul(Sgn(c), RMul(440, RPow(R(2), RDiv(RSub(RAbs(c), 5700), 1200))))

MuLaw(v, m, mu) == RMul(RMul(Sgn(v), m), RDiv(RLn(RAdd(1, RMul(mu, RDiv(RAbs(v), m)))), RLn(R(1 + mu))))
MuLawInv(v, m, mu) == RMul(RMul(Sgn(v), m), RDiv(RSub(RPow(R(1 + mu), RDiv(RAbs(v), m)), 1), mu))

Scale(s, f) == CASE s = "mel" -> Mel(f) [] s = "erb" -> Erb(f) [] s = "bark" -> Bark(f) [] s = "cent" -> Cent(f)
Unscale(s, z) == CASE s = "mel" -> MelInv(z) [] s = "erb" -> ErbInv(z) [] s = "bark" -> BarkInv(z) [] s = "cent" -> CentInv(z)
\* N values: the images of N equally spaced frequencies
ScaleRow(s, lo, hi, n) == Mapped(Points(lo, hi, n), LAMBDA f : Scale(s, f))
PeakToPeak(x) == RSub(Maximum(x), Minimum(x))
PeakToRms(x) == RDiv(Big(x), RSqrt(MeanSquare(x)))

\* ---- conformance ------------------------------------------------------------------------------------------------
ConversionsStart == 0
Tol(e) == IF Single(e) THEN RMul(2, RTen(-6)) ELSE RTen(-12)
Is(e, want, s) == RIsFinite(e.ret) /\ RWithin(e.ret, want, RMul(Tol(e), s))
\* relative to the result, with the amplification an exponential has
IsRel(e, want, amp) == Is(e, want, RMul(RAdd(1, amp), RAbs(want)))
ConversionsEval(st, e) ==
  [ st |-> st,
    ok |-> /\ ("intact" \in DOMAIN e => e.intact)
           /\ CASE e.op = "mag2db" -> Is(e, Mag2Db(e.v), RAdd(20, RAbs(Mag2Db(e.v))))
                [] e.op = "pow2db" -> Is(e, Pow2Db(e.v), RAdd(10, RAbs(Pow2Db(e.v))))
                [] e.op = "db2mag" -> IsRel(e, Db2Mag(e.v), RAbs(e.v))
                [] e.op = "db2pow" -> IsRel(e, Db2Pow(e.v), RAbs(e.v))
                [] e.op = "deg2rad" -> IsRel(e, Deg2Rad(e.v), R(1))
                [] e.op = "rad2deg" -> IsRel(e, Rad2Deg(e.v), R(1))
                [] e.op = "scale" -> LET w == Scale(e.s, e.v) IN Is(e, w, RAdd(RMul(64, RAbs(w)), IF e.s = "cent" THEN R(32000) ELSE R(1)))
                [] e.op = "unscale" -> LET w == Unscale(e.s, e.v) IN Is(e, w, RMul(200, RAdd(1, RAbs(w))))
                [] e.op = "space" -> LET w == TLCEval(ScaleRow(e.s, e.lo, e.hi, e.n))
                                     IN Len(e.r) = e.n /\ \A k \in 1..e.n : RIsFinite(e.r[k]) /\ RWithin(e.r[k], w[k], RMul(RMul(Tol(e), 64 * (e.n + 4)), RAdd(RAbs(w[k]), IF e.s = "cent" THEN R(1200) ELSE R(1))))
                [] e.op = "mulaw" -> LET w == TLCEval(Mapped(e.x, LAMBDA v : MuLaw(v, e.m, e.mu))) IN Len(e.r) = Len(w) /\ \A k \in 1..Len(w) : RWithin(e.r[k], w[k], RMul(Tol(e), RMul(20, e.m)))
                [] e.op = "mulaw_inverse" -> LET w == TLCEval(Mapped(e.x, LAMBDA v : MuLawInv(v, e.m, e.mu)))
                                             IN Len(e.r) = Len(w) /\ \A k \in 1..Len(w) : RWithin(e.r[k], w[k], RMul(Tol(e), RMul(20, RAdd(e.m, RAbs(w[k])))))
                [] e.op = "peak2peak" -> Is(e, PeakToPeak(e.x), RMul(2, Big(e.x)))
                [] e.op = "peak2rms" -> Is(e, PeakToRms(e.x), R(8 * Len(e.x)))
                [] e.op = "real2complex" -> /\ \A k \in 1..Len(e.x) : REq(e.cre[k], e.x[k]) /\ REq(e.cim[k], IF "y" \in DOMAIN e THEN e.y[k] ELSE R(0))
                                            /\ Len(e.cre) = Len(e.x)
                [] e.op = "complex2real" -> e.re = e.x /\ e.im = e.y ]
==================================================================================
