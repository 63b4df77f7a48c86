------------------------------ MODULE Oscillator ------------------------------
(***************************************************************************)
(* Periodic generators.  The sample at time t is amplitude times a shape   *)
(* of the phase (frequency * t) modulo 1; each sample advances the time by *)
(* one sampling period, every setting takes effect at once and changes     *)
(* nothing else, and reset returns to time 0.                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal

OscOf(kind, amp, sr, f, p) ==
  [kind |-> kind, amp |-> amp, sr |-> sr, f |-> f, ph |-> IF kind = "sine" THEN p ELSE R(0),
   par |-> IF kind = "sine" THEN R(0) ELSE IF kind = "triangular" THEN RRat(1, 2) ELSE p, t |-> R(0)]

Cycle(o) == RMod(RMul(o.f, o.t), R(1))

\* The shape's values at phase u; the two-sided set at jumps, because the phase is computed with rounding.
Edge == RTen(-7)
Near(u, v) == RWithin(u, v, Edge) \/ RWithin(RSub(u, 1), v, Edge) \/ RWithin(RAdd(u, 1), v, Edge)
Saw(u, w) ==
  IF REq(w, 0) THEN RSub(1, RMul(2, u))
  ELSE IF REq(w, 1) \/ RLt(u, w) THEN RSub(RDiv(RMul(2, u), w), 1)
  ELSE RSub(1, RDiv(RMul(2, RSub(u, w)), RSub(1, w)))
Shapes(o) ==
  LET u == Cycle(o)
  IN CASE o.kind = "sine" -> {RSin(RAdd(RMul(RMul(2, RPi), RMul(o.f, o.t)), o.ph))}
       [] o.kind = "square" ->
            (IF RLt(u, o.par) THEN {R(1)} ELSE {R(-1)})
            \cup (IF (Near(u, o.par) \/ Near(u, 0)) /\ RLt(0, o.par) /\ RLt(o.par, 1) THEN {R(1), R(-1)} ELSE {})
       [] o.kind \in {"sawtooth", "triangular"} ->
            {Saw(u, o.par)} \cup (IF Near(u, 0) /\ (REq(o.par, 0) \/ REq(o.par, 1)) THEN {R(1), R(-1)} ELSE {})

Advance(o) == [o EXCEPT !.t = RAdd(@, RDiv(1, o.sr))]
OscTol == RTen(-5)
Sounds(o, y) == \E v \in Shapes(o) : RWithin(y, RMul(o.amp, v), RMul(OscTol, RMax(R(1), RAbs(o.amp))))

RECURSIVE SoundsAll(_, _)
SoundsAll(o, ys) == ys = <<>> \/ (Sounds(o, Head(ys)) /\ SoundsAll(Advance(o), Tail(ys)))
RECURSIVE AdvanceBy(_, _)
AdvanceBy(o, n) == IF n = 0 THEN o ELSE AdvanceBy(Advance(o), n - 1)

OscillatorStart == [o |-> OscOf("sine", R(0), R(1), R(1), R(0)), saved |-> 0]
OscillatorEval(st, e) ==
  LET o == st.o
      p == CASE e.op = "new" -> OscOf(e.kind, e.amp, e.sr, e.f, e.p)
             [] e.op = "set_frequency" -> [o EXCEPT !.f = e.v]
             [] e.op = "set_sample_rate" -> [o EXCEPT !.sr = e.v]
             [] e.op = "set_amplitude" -> [o EXCEPT !.amp = e.v]
             [] e.op = "set_phase" -> [o EXCEPT !.ph = e.v]
             [] e.op = "set_par" -> [o EXCEPT !.par = IF o.kind = "sine" THEN R(0) ELSE e.v]
             [] e.op = "set_timestamp" -> [o EXCEPT !.t = e.v]
             [] e.op = "reset" -> [o EXCEPT !.t = R(0)]
             [] e.op = "tick" -> Advance(o)
             [] e.op = "run" -> AdvanceBy(o, e.n)
             [] e.op = "save" -> o
             [] e.op = "restore" -> st.saved
  IN [ st |-> [o |-> p, saved |-> IF e.op = "save" THEN o ELSE st.saved],
       ok |-> /\ RNear(e.frequency, p.f, RTen(-12)) /\ RNear(e.sample_rate, p.sr, RTen(-12)) /\ RNear(e.amplitude, p.amp, RTen(-12))
              /\ RWithin(e.period, RDiv(1, p.sr), RMul(RTen(-12), RDiv(1, p.sr)))
              /\ RNear(e.phase, p.ph, RTen(-12)) /\ RNear(e.par, p.par, RTen(-9))
              /\ RNear(e.timestamp, p.t, RTen(-9))
              /\ (e.op = "tick" => Sounds(o, e.ret))
              /\ (e.op = "run" => Len(e.ret) = e.n /\ SoundsAll(o, e.ret) /\ e.intact) ]
===============================================================================
