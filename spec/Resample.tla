--------------------------------- MODULE Resample ---------------------------------
(***************************************************************************)
(* A streaming sample-rate converter.  A stream of ch-channel frames x is  *)
(* offered from where the converter left off; it reports how many frames   *)
(* it used and how many it generated.  Frame k of the output is the signal *)
(* at time k / ratio, whatever the sizes of the blocks:                    *)
(*   hold    the frame one before time floor(k / ratio)                    *)
(*   linear  the straight line between the frames around k / ratio - 1     *)
(*   sinc    the band-limited signal itself, once the filter is full       *)
(* frames before the first one counting as the first one (hold, linear).   *)
(* Channel c of the stream is channel 0 times gain[c].                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal, TLC

Qualities == {"best", "medium", "fastest", "hold", "linear"}
Code(q) == CASE q = "best" -> 0 [] q = "medium" -> 1 [] q = "fastest" -> 2 [] q = "hold" -> 3 [] q = "linear" -> 4
Half(q) == CASE q = "best" -> 150 [] q = "medium" -> 50 [] q = "fastest" -> 22 [] OTHER -> 0
ValidRatio(r) == RLe(RRat(1, 256), r) /\ RLe(r, 256)

\* The sinc converters take up to 128 channels; with more there is no converter, and the resampler says so.
Made(st) == st.q \in {"hold", "linear"} \/ st.ch <= 128
Told(e) == "told" \in DOMAIN e => e.told

ResampleStart == [q |-> "hold", ratio |-> R(1), ch |-> 1, gain |-> <<R(1)>>, x |-> <<>>, tone |-> <<>>, used |-> 0, made |-> 0]

\* the mono source: explicit frames, or tones <<amplitude, radians per frame, phase>>
Source(st, i) == IF st.x # <<>> THEN st.x[(IF i < 0 THEN 0 ELSE IF i >= Len(st.x) THEN Len(st.x) - 1 ELSE i) + 1] ELSE 0
Tone(st, t) == RSum([j \in 1..(Len(st.tone) \div 3) |-> RMul(st.tone[3 * j - 2], RSin(RAdd(RMul(st.tone[3 * j - 1], t), st.tone[3 * j])))])
\* a frame's time, a hair earlier and later (accumulated rounding of the position)
Time(st, k) == RDiv(k, st.ratio)
Hair == RRat(1, 10000000)
Peak(st) == IF st.x = <<>> THEN 1 ELSE RSum([i \in 1..Len(st.x) |-> RAbs(st.x[i])])

ExpectHold(st, t) == Source(st, RToInt(RFloor(t)) - 1)
ExpectLinear(st, t) ==
  LET i == RToInt(RFloor(t))
      a == Source(st, i - 1)
      b == Source(st, i)
  IN IF RLt(t, 1) THEN RAdd(Source(st, 0), 0) ELSE RAdd(a, RMul(RSub(t, i), RSub(b, a)))
OutputOK(st, k, y) ==
  LET t == Time(st, k)
      tol(m) == RMul(RTen(-5), RAdd(m, RTen(-3)))
  IN CASE st.q = "hold" -> \E d \in {RNeg(Hair), R(0), Hair} : RWithin(y, ExpectHold(st, RAdd(t, d)), RTen(-6))
       [] st.q = "linear" -> RWithin(y, ExpectLinear(st, t), tol(4))
       [] OTHER -> LET wide == RAdd(RMul(Half(st.q), RMax(1, RDiv(1, st.ratio))), 4)
                   IN RLt(t, wide) \/ RWithin(y, Tone(st, t), RRat(1, 100))

Promise(st, n) == RToInt(RFloor(RMul(st.ratio, n)))

ResampleStep(st, e) ==
  CASE e.op = "new" ->
         LET s == [q |-> e.q, ratio |-> RFloat(e.ratio), ch |-> Len(e.gain), gain |-> e.gain, x |-> IF "x" \in DOMAIN e THEN e.x ELSE <<>>,
                   tone |-> IF "tone" \in DOMAIN e THEN e.tone ELSE <<>>, used |-> 0, made |-> 0]
         IN [st |-> s, ok |-> e.quality = Code(e.q) /\ REq(e.r, s.ratio) /\ e.channels = s.ch /\ (e.err = 0) = Made(s)]
    [] e.op = "valid" -> [st |-> st, ok |-> e.ret = ValidRatio(RFloat(e.ratio))]
    [] e.op = "reset" -> [st |-> [st EXCEPT !.used = 0, !.made = 0], ok |-> e.ret = e.err /\ (e.err = 0) = Made(st)]
    [] e.op = "process" ->
         IF ~ValidRatio(st.ratio) \/ ~Made(st) THEN [st |-> st, ok |-> e.err # 0 /\ e.made = 0 /\ e.intact]
         ELSE LET p == Promise(st, e.n)
                  ch == st.ch
              IN [st |-> [st EXCEPT !.used = @ + e.used, !.made = @ + e.made],
                  ok |-> /\ e.err = 0 /\ e.intact
                         /\ 0 <= e.used /\ e.used <= e.n /\ 0 <= e.made /\ (e.made <= p)
                         /\ (e.made = p \/ e.used = e.n \/ (st.q = "linear" /\ e.used = e.n - 1))   \* nothing is left undone
                         /\ Len(e.y) = e.made * ch
                         /\ \A k \in 1..e.made :
                              /\ OutputOK(st, st.made + k - 1, RDiv(e.y[(k - 1) * ch + 1], st.gain[1]))
                              /\ \A c \in 2..ch : RWithin(RMul(e.y[(k - 1) * ch + c], st.gain[1]), RMul(e.y[(k - 1) * ch + 1], st.gain[c]), RTen(-4))]
ResampleEval(st, e) == LET r == ResampleStep(st, e) IN [st |-> r.st, ok |-> r.ok /\ Told(e)]
===================================================================================
