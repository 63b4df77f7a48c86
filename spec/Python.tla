---------------------------------- MODULE Python ----------------------------------
(***************************************************************************)
(* A session with the Python module.  Its functions answer what the        *)
(* definitions of their family say (those that the C library has, by the   *)
(* conventions of the C library), and its objects - two moving filters, an *)
(* oscillator, an encoder and a decoder of files, a resampler, a reader of *)
(* tags - are the machines of their own specifications, side by side, none *)
(* of them disturbed by what the others do.                                *)
(* Arrays are one-dimensional: their elements count, whatever their type   *)
(* and layout in memory.  A call with an array of other dimensions, or     *)
(* with two arrays that should be of the same size and are not, or with    *)
(* numbers where they cannot be converted, or a negative size, is refused: *)
(* it raises, and changes nothing.                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal, TLC
Bi == INSTANCE Bindings
Tx == INSTANCE Strings
Te == INSTANCE Temporal
Fe == INSTANCE Features
Co == INSTANCE Conversions
Mo == INSTANCE MovingWindow
Os == INSTANCE Oscillator
Au == INSTANCE Audio
Re == INSTANCE Resample
Me == INSTANCE Metadata

PythonStart == [env |-> Bi!BindingsStart, filters |-> Mo!MovingWindowStart, osc |-> Os!OscillatorStart,
                audio |-> Au!AudioStart, resampler |-> Re!ResampleStart, tags |-> Me!MetadataStart]

Has(e, k) == k \in DOMAIN e
\* two arrays, element by element
Paired(e) == \/ e.fam = "spectral" /\ e.op \in {"conv", "xcorr"}
             \/ e.fam = "features" /\ (Has(e, "f") \/ Has(e, "y"))
             \/ e.fam = "conversions" /\ e.op = "real2complex" /\ Has(e, "y")
Second(e) == IF e.fam = "spectral" THEN e.g ELSE IF Has(e, "f") THEN e.f ELSE e.y
Refused(e) == \/ Has(e, "dims") /\ e.dims # 1
              \/ Has(e, "dims2") /\ e.dims2 # 1
              \/ Has(e, "imaginary") /\ e.imaginary = 1       \* complex numbers where real ones are needed
              \/ Has(e, "n") /\ e.fam \in {"windows", "arrays", "conversions", "oscillator"} /\ e.op # "filter" /\ e.n < 0
              \/ Paired(e) /\ Len(e.x) # Len(Second(e))

\* what this interface does not show counts as specified
AudioShown(s, e) == LET t == Au!Step(s, e) IN [pos |-> IF t.dec.path = "" THEN -1 ELSE t.dec.pos,
                                               samples |-> IF t.dec.path = "" THEN 0 ELSE Len(Au!File(t).data)] @@ e
OscShown(e) == [period |-> RDiv(1, e.sample_rate)] @@ e
ResampleShown(s, e) == [channels |-> IF e.op = "new" THEN Len(e.gain) ELSE s.ch] @@ e
Untouched(e) == Has(e, "intact") => e.intact

Answer(st, e) ==
  CASE e.fam \in {"arrays", "statistics", "spectral", "windows", "system"} ->
         LET r == Bi!BindingsEval(st.env, e) IN [st |-> [st EXCEPT !.env = r.st], ok |-> r.ok]
    [] e.fam = "conversions" -> [st |-> st, ok |-> Co!ConversionsEval(0, e).ok /\ Untouched(e)]
    [] e.fam = "text" -> [st |-> st, ok |-> Tx!StringsEval(0, e).ok]
    [] e.fam = "temporal" -> [st |-> st, ok |-> Te!TemporalEval(Te!TemporalStart, e).ok /\ Untouched(e)]
    [] e.fam = "features" -> [st |-> st, ok |-> Fe!FeaturesEval(0, e).ok /\ Untouched(e)]
    [] e.fam = "filter" -> LET r == Mo!MovingWindowEval(st.filters, e) IN
         [st |-> [st EXCEPT !.filters = IF e.op = "new" THEN [@ EXCEPT ![e.s] = r.st[e.s]] ELSE r.st], ok |-> r.ok]
    [] e.fam = "oscillator" -> LET r == Os!OscillatorEval(st.osc, OscShown(e)) IN [st |-> [st EXCEPT !.osc = r.st], ok |-> r.ok]
    [] e.fam = "audio" -> LET r == Au!AudioEval(st.audio, AudioShown(st.audio, e)) IN [st |-> [st EXCEPT !.audio = r.st], ok |-> r.ok]
    [] e.fam = "resampler" -> LET r == Re!ResampleEval(st.resampler, ResampleShown(st.resampler, e)) IN [st |-> [st EXCEPT !.resampler = r.st], ok |-> r.ok]
    [] e.fam = "tags" -> LET r == Me!MetadataEval(st.tags, e) IN [st |-> [st EXCEPT !.tags = r.st], ok |-> r.ok]

PythonEval(st, e) == IF Refused(e) THEN [st |-> st, ok |-> e.raised] ELSE IF e.raised THEN [st |-> st, ok |-> FALSE] ELSE Answer(st, e)
====================================================================================
