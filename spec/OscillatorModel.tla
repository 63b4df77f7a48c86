---------------------------- MODULE OscillatorModel ----------------------------
(***************************************************************************)
(* All short histories of an oscillator at 8 samples per second.  Checked: *)
(* a full period returns to the same shape value, values stay within the   *)
(* amplitude, a square wave is at its high level during exactly its duty   *)
(* cycle, and a sawtooth passes through -1 and 1.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal, TLC, Json
O == INSTANCE Oscillator
CONSTANTS MaxLen, Tour
VARIABLES o, hist

Kinds == {"sine", "square", "sawtooth", "triangular"}
Pars == {0, 1, 2, 3, 4}
Log(e) == hist' = Append(hist, e) /\ (Tour => IF Len(hist') = MaxLen THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE)
Init == \E k \in Kinds, p \in Pars, f \in {1, 2} :
  /\ k # "triangular" \/ p = 2
  /\ o = O!OscOf(k, R(3), R(8), R(f), RRat(p, 4))
  /\ hist = <<[op |-> "new", kind |-> k, amp |-> 3, sr |-> 8, f |-> f, p |-> p]>>      \* p in quarters
Set(name, o2, v) == o' = o2 /\ Log([op |-> name, v |-> v])
Next == /\ Len(hist) < MaxLen
        /\ \/ o' = O!Advance(o) /\ Log([op |-> "tick"])
           \/ o' = O!AdvanceBy(o, 5) /\ Log([op |-> "run", n |-> 5])
           \/ Set("set_frequency", [o EXCEPT !.f = R(3)], 3)
           \/ Set("set_sample_rate", [o EXCEPT !.sr = R(16)], 16)
           \/ Set("set_amplitude", [o EXCEPT !.amp = R(2)], 2)
           \/ o.kind # "triangular" /\ Set("set_par", [o EXCEPT !.par = IF o.kind = "sine" THEN R(0) ELSE RRat(3, 4)], 3)
           \/ Set("set_timestamp", [o EXCEPT !.t = R(1)], 1)
           \/ o' = [o EXCEPT !.t = R(0)] /\ Log([op |-> "reset"])

Amplitude == \A v \in O!Shapes(o) : RLe(RAbs(v), RAdd(1, RTen(-9)))
Periodic == \A v \in O!Shapes(o) : \E w \in O!Shapes([o EXCEPT !.t = RAdd(@, RDiv(1, o.f))]) : RWithin(v, w, RTen(-6))
\* over 100 points in one period (odd hundredths avoid the edges)
Count == LET s(k) == [o EXCEPT !.t = RDiv(RRat(2 * k + 1, 200), o.f)] IN
  o.kind = "square" => LET high == {k \in 0..99 : O!Shapes(s(k)) = {R(1)}}
                           low == {k \in 0..99 : O!Shapes(s(k)) = {R(-1)}}
                       IN RWithin(RRat(Len(SelectSeq([k \in 1..100 |-> k - 1], LAMBDA k : k \in high)), 100), o.par, RTen(-9)) /\ high \cup low = 0..99
Peaks == o.kind \in {"sawtooth", "triangular"} =>
  /\ \E v \in O!Shapes([o EXCEPT !.t = R(0)]) : RWithin(v, R(-1), RTen(-9)) \/ REq(o.par, 0)
  /\ \E v \in O!Shapes([o EXCEPT !.t = RDiv(o.par, o.f)]) : RWithin(v, R(1), RTen(-6))
================================================================================
