------------------------------- MODULE Envelope -------------------------------
(***************************************************************************)
(* Envelopes.  ADSR: a level that rises at the attack rate to the target,  *)
(* moves at the decay rate to the sustain level, holds it, and after the   *)
(* key is released falls to zero and stays there; a release time, if set,  *)
(* makes the fall from the current level last that long.                   *)
(* AR: a one-pole follower of the (optionally rectified) input, with the   *)
(* attack constant while rising and the release constant while falling.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal

Floor9 == RTen(-9)
ADSR == [kind |-> "adsr", phase |-> "idle", sr |-> R(44100), target |-> R(0), level |-> R(0), ar |-> RRat(1, 1000), dr |-> RRat(1, 1000),
         rr |-> RRat(1, 1000), rt |-> R(-1), sus |-> RRat(1, 2)]
AtLeastFloor(v) == IF RLt(Floor9, v) THEN v ELSE Floor9

KeyOn(a) == [a EXCEPT !.phase = "attack", !.target = IF RLe(@, 0) THEN R(1) ELSE @]
KeyOff(a) == [a EXCEPT !.phase = "release", !.target = R(0), !.rr = IF RLt(0, a.rt) THEN RDiv(a.level, RMul(a.rt, a.sr)) ELSE @]
SetTarget(a, v) == LET t == AtLeastFloor(v)
                   IN [a EXCEPT !.target = t, !.sus = t, !.phase = IF RLt(a.level, t) THEN "attack" ELSE IF RLt(t, a.level) THEN "decay" ELSE @]
SetRate(a, v) == [a EXCEPT !.sr = v, !.ar = RDiv(RMul(a.sr, @), v), !.dr = RDiv(RMul(a.sr, @), v), !.rr = RDiv(RMul(a.sr, @), v)]

\* One sample.  Tests against a boundary are decided by rounding when the level meets it, so near is a set of outcomes.
Tiny == RTen(-10)
Meets(x, y) == RWithin(x, y, RMul(Tiny, RMax(R(1), RAbs(y))))
Attacked(a) == [a EXCEPT !.level = a.target, !.target = a.sus, !.phase = "decay"]
Settled(a) == [a EXCEPT !.level = a.sus, !.phase = "sustain"]
Ended(a) == [a EXCEPT !.level = R(0), !.phase = "idle"]
Moved(a, v) == [a EXCEPT !.level = v]
Outcomes(a, v, reached, end) == IF Meets(v, end.level) THEN {Moved(a, v), end} ELSE IF reached THEN {end} ELSE {Moved(a, v)}
Ticks(a) ==
  CASE a.phase = "attack" -> LET v == RAdd(a.level, a.ar) IN Outcomes(a, v, RLe(a.target, v), Attacked(a))
    [] a.phase = "decay" ->
         LET down == RSub(a.level, a.dr)
             up == RAdd(a.level, a.dr)
             D == Outcomes(a, down, RLe(down, a.sus), Settled(a))
             U == Outcomes(a, up, RLe(a.sus, up), Settled(a))
         IN IF Meets(a.level, a.sus) THEN D \cup U ELSE IF RLt(a.sus, a.level) THEN D ELSE U
    [] a.phase = "release" -> LET v == RSub(a.level, a.rr) IN Outcomes(a, v, RLe(v, 0), Ended(a))
    [] OTHER -> {a}

\* ---- follower ------------------------------------------------------------------------------------------------
\* times are in milliseconds
FollowerOf(sr, at, rt, rect) == [kind |-> "ar", sr |-> sr, at |-> at, rt |-> rt, rect |-> rect, last |-> R(0)]
Gain(ms, sr) == IF RLt(0, ms) THEN RExp(RDiv(-1000, RMul(ms, sr))) ELSE R(0)
Follow(f, x) ==
  LET v == IF f.rect THEN RAbs(x) ELSE x
      g == IF RLt(f.last, v) THEN Gain(f.at, f.sr) ELSE Gain(f.rt, f.sr)
  IN [f EXCEPT !.last = RAdd(RMul(RSub(1, g), v), RMul(g, @))]
Quiet(f) == [f EXCEPT !.last = R(0)]

\* ---- conformance: the state is the set of levels the envelope may be at --------------------------------------------
Val(s) == IF s.kind = "ar" THEN s.last ELSE s.level
Next1(s, x) == IF s.kind = "ar" THEN {Follow(s, x)} ELSE Ticks(s)
Shows(s, x, y) == RNear(y, IF s.kind = "ar" THEN s.last ELSE RMul(s.level, x), RTen(-7))
After(S, x, y) == {t \in UNION {Next1(s, x) : s \in S} : Shows(t, x, y)}
RECURSIVE AfterAll(_, _, _)
AfterAll(S, xs, ys) == IF xs = <<>> THEN (IF ys = <<>> THEN S ELSE {}) ELSE IF ys = <<>> THEN {} ELSE AfterAll(After(S, Head(xs), Head(ys)), Tail(xs), Tail(ys))

Setting(s, e) ==
  CASE e.op = "key_on" -> KeyOn(s)
    [] e.op = "key_off" -> KeyOff(s)
    [] e.op = "set_attack_target" -> [s EXCEPT !.target = AtLeastFloor(e.v)]
    [] e.op = "set_attack_rate" -> [s EXCEPT !.ar = e.v]
    [] e.op = "set_decay_rate" -> [s EXCEPT !.dr = e.v]
    [] e.op = "set_release_rate" -> [s EXCEPT !.rr = e.v, !.rt = R(-1)]
    [] e.op = "set_sustain_level" -> [s EXCEPT !.sus = e.v]
    [] e.op = "set_decay_time" -> [s EXCEPT !.dr = RDiv(RSub(1, s.sus), RMul(e.v, s.sr))]
    [] e.op = "set_attack_time" -> IF s.kind = "ar" THEN Quiet([s EXCEPT !.at = e.v]) ELSE [s EXCEPT !.ar = RDiv(1, RMul(e.v, s.sr))]
    [] e.op = "set_release_time" -> IF s.kind = "ar" THEN Quiet([s EXCEPT !.rt = e.v])
                                    ELSE [s EXCEPT !.rt = e.v, !.rr = RDiv(s.sus, RMul(e.v, s.sr))]
    [] e.op = "set_target" -> SetTarget(s, e.v)
    [] e.op = "set_sample_rate" -> IF s.kind = "ar" THEN Quiet([s EXCEPT !.sr = e.v]) ELSE SetRate(s, e.v)
    [] e.op = "set_rectification" -> [s EXCEPT !.rect = e.v = 1]
    [] e.op = "reset" -> Quiet(s)

Near12(x, y) == IF RIsFinite(y) THEN RNear(x, y, RTen(-9)) ELSE TRUE
Reports(s, e) ==
  IF s.kind = "ar" THEN Near12(e.sample_rate, s.sr) /\ Near12(e.attack_time, s.at) /\ Near12(e.release_time, s.rt) /\ e.rectification = s.rect
  ELSE /\ Near12(e.sample_rate, s.sr) /\ Near12(e.attack_rate, s.ar) /\ Near12(e.decay_rate, s.dr) /\ Near12(e.release_rate, s.rr)
       /\ Near12(e.attack_target, s.target) /\ Near12(e.sustain_level, s.sus)
       /\ Near12(e.attack_time, RDiv(1, RMul(s.ar, s.sr))) /\ Near12(e.decay_time, RDiv(RSub(1, s.sus), RMul(s.dr, s.sr)))
       /\ Near12(e.release_time, s.rt)

EnvelopeStart == {ADSR}
EnvelopeEval(S, e) ==
  LET T == CASE e.op = "adsr" -> {ADSR}
             [] e.op = "ar" -> {FollowerOf(e.sr, e.attack, e.release, IF "rect" \in DOMAIN e THEN e.rect = 1 ELSE FALSE)}
             [] e.op = "tick" -> After(S, e.x, e.ret)
             [] e.op = "apply" -> AfterAll(S, e.x, e.ret)
             [] OTHER -> {Setting(s, e) : s \in S}
      U == {s \in T : Reports(s, e)}
  IN [st |-> U, ok |-> U # {} /\ (e.op = "apply" => e.intact)]
===============================================================================
