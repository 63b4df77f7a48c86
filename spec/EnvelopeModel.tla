----------------------------- MODULE EnvelopeModel -----------------------------
(***************************************************************************)
(* The ADSR machine on integer levels: every history of key presses and    *)
(* samples.  Level steps are exact here, so TLC can decide the phase order,*)
(* the bounds of the level, and that a released key always ends in silence *)
(* (a liveness property).  Histories are also printed for the real code.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Peak, Attack, Decay, Release, Sustain, MaxLen, Tour
VARIABLES phase, level, target, hist
vars == <<phase, level, target, hist>>

Log(e) == IF Tour THEN /\ hist' = Append(hist, e)
                       /\ IF Len(hist') = MaxLen THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE
          ELSE hist' = hist
Init == phase = "idle" /\ level = 0 /\ target = 0 /\ hist = <<>>
KeyOn == phase' = "attack" /\ target' = (IF target = 0 THEN Peak ELSE target) /\ UNCHANGED level /\ Log([op |-> "key_on"])
KeyOff == phase' = "release" /\ target' = 0 /\ UNCHANGED level /\ Log([op |-> "key_off"])
Sample ==
  /\ CASE phase = "attack" -> IF level + Attack >= target THEN level' = target /\ target' = Sustain /\ phase' = "decay"
                              ELSE level' = level + Attack /\ UNCHANGED <<target, phase>>
       [] phase = "decay" -> /\ UNCHANGED target
                             /\ IF level > Sustain
                                THEN IF level - Decay <= Sustain THEN level' = Sustain /\ phase' = "sustain" ELSE level' = level - Decay /\ UNCHANGED phase
                                ELSE IF level + Decay >= Sustain THEN level' = Sustain /\ phase' = "sustain" ELSE level' = level + Decay /\ UNCHANGED phase
       [] phase = "release" -> /\ UNCHANGED target
                               /\ IF level - Release <= 0 THEN level' = 0 /\ phase' = "idle" ELSE level' = level - Release /\ UNCHANGED phase
       [] OTHER -> UNCHANGED <<phase, level, target>>
  /\ Log([op |-> "tick"])
Next == (Tour => Len(hist) < MaxLen) /\ (KeyOn \/ KeyOff \/ Sample)
Spec == Init /\ [][Next]_vars /\ WF_vars(Sample /\ ~Tour)

InRange == level \in 0..(IF Peak > Sustain THEN Peak ELSE Sustain)
Settled == phase = "sustain" => level = Sustain
Silent == phase = "idle" => level = 0
Order == [][ /\ (phase = "attack" => phase' \in {"attack", "decay", "release"})
             /\ (phase = "decay" => phase' \in {"decay", "sustain", "attack", "release"})
             /\ (phase = "sustain" => phase' \in {"sustain", "attack", "release"})
             /\ (phase = "release" => phase' \in {"release", "idle", "attack"})
             /\ (phase = "idle" => phase' \in {"idle", "attack", "release"})
             /\ (phase = "release" /\ phase' = "release" => level' <= level)
             /\ (phase \in {"sustain", "idle"} => level' = level) ]_vars
\* if the key is not pressed again, release leads to silence
Ends == (phase = "release" ~> (phase = "idle" \/ phase = "attack"))
================================================================================
