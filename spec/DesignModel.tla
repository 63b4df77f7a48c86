------------------------------ MODULE DesignModel ------------------------------
(***************************************************************************)
(* Every (designer, type, order, corner, width, gain, ripple) of a grid:   *)
(* the prescribed response has the characteristics the designer is known   *)
(* for, and every grid point becomes a behaviour for the real code.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal, TLC, Json
D == INSTANCE Design
CONSTANTS Orders, Corners, Widths, Gains, Ripples, Qs, Tour

VARIABLE e
Types == {"lp", "hp", "bp", "bs", "ls", "hs", "bsh"}
Base(by, t, fc) == [op |-> "design", by |-> by, type |-> t, fs |-> 1000, fc |-> fc]
Second == {[op |-> "design", by |-> x[1], type |-> x[2], fs |-> 1000, fc |-> x[3], q |-> x[4], gain |-> x[5] - 10] :
             x \in ({"rbj"} \X {"lp", "hp", "bp", "ls", "hs", "ap"} \X Corners \X Qs \X Gains)
                   \cup ({"zolzer"} \X {"lp", "hp", "bp", "ls", "hs"} \X Corners \X Qs \X Gains)}
Analog == {x \in {[op |-> "design", by |-> y[1], type |-> y[2], n |-> y[3], fs |-> 1000, fc |-> y[4], bw |-> y[5], gain |-> y[6] - 10, ripple |-> y[7]] :
             y \in {"butterworth", "cheb1", "cheb2"} \X Types \X Orders \X Corners \X Widths \X Gains \X Ripples} :
           /\ (x.by # "cheb2" \/ D!IsShelf(x.type) => x.ripple < 5)
           /\ (x.by = "cheb2" /\ ~D!IsShelf(x.type) => x.ripple > 5)
           /\ (x.by = "butterworth" => x.ripple = 1)
           /\ (~D!IsShelf(x.type) => x.gain = 6)
           /\ (D!IsShelf(x.type) => x.gain > x.ripple \/ -x.gain > x.ripple)
           /\ (x.type \notin {"bp", "bs", "bsh"} => x.bw = 40)
           /\ 2 * x.fc > x.bw /\ 2 * x.fc + x.bw < 1000 }
Init == e \in Second \cup Analog
Next == FALSE /\ UNCHANGED e
Emit == Tour => PrintT("GEN " \o ToJson(<<e>>))

fr == D!Freqs(e)
Shape ==
  IF D!IsSecond(e) THEN
    \A k \in 1..Len(fr) : LET h == D!CNorm2(D!Second(e, fr[k])) IN e.type = "ap" => RNear(h, 1, RTen(-9))
  ELSE \A k \in 1..Len(fr) :
    LET p == D!PowerAt(e, fr[k])
        o == D!Proto(e, fr[k])
        G == D!Db2Mag(R(e.gain))
        rip == RPow(R(10), RDiv(R(-e.ripple), 10))
        eps == RTen(-9)
    IN CASE D!IsShelf(e.type) -> RLe(RMin(R(1), RMul(G, G)), RAdd(p, eps)) /\ RLe(p, RAdd(RMax(R(1), RMul(G, G)), eps))
         [] e.by = "butterworth" -> RLe(0, p) /\ RLe(p, RAdd(1, eps)) /\ (IF RLe(o, 1) THEN RLe(RRat(1, 2), RAdd(p, eps)) ELSE RLe(p, RRat(1, 2)))
         [] e.by = "cheb1" -> IF RLe(o, 1) THEN RLe(rip, RAdd(p, eps)) /\ RLe(p, 1) ELSE RLe(p, RAdd(rip, eps))
         [] e.by = "cheb2" -> IF RLe(1, o) THEN RLe(p, RAdd(rip, eps)) ELSE RLe(rip, RAdd(p, eps)) /\ RLe(p, 1)
================================================================================
