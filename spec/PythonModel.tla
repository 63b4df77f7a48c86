-------------------------------- MODULE PythonModel --------------------------------
(***************************************************************************)
(* Sessions that interleave the objects of the Python module with calls    *)
(* that are refused.  Each object is where its own calls alone would have  *)
(* brought it.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FReal, TLC, Json
CONSTANTS MaxLen, Tour
P == INSTANCE Python
VARIABLES st, hist
vars == <<st, hist>>

X == <<R(1), R(-2), R(4)>>
Filter(s) == {[fam |-> "filter", op |-> "new", s |-> s, kind |-> k, n |-> 2] : k \in {"average", "median"}}
             \cup {[fam |-> "filter", op |-> "tick", s |-> s, x |-> R(3)], [fam |-> "filter", op |-> "filter", s |-> s, x |-> X],
                   [fam |-> "filter", op |-> "reset", s |-> s], [fam |-> "filter", op |-> "resize", s |-> s, n |-> 3]}
Oscillators == {[fam |-> "oscillator", op |-> "new", kind |-> k, amp |-> R(2), sr |-> R(8), f |-> R(1), p |-> RRat(1, 4)] : k \in {"square", "sawtooth"}}
               \cup {[fam |-> "oscillator", op |-> "run", n |-> n] : n \in {3, -1}}
               \cup {[fam |-> "oscillator", op |-> "set_par", v |-> RRat(3, 4)], [fam |-> "oscillator", op |-> "reset"]}
Files == {[fam |-> "audio", op |-> "encoder", type |-> "f", ch |-> 2, rate |-> 8000], [fam |-> "audio", op |-> "decoder", type |-> "f"]}
         \cup {[fam |-> "audio", op |-> o, p |-> "a"] : o \in {"eopen", "dopen"}}
         \cup {[fam |-> "audio", op |-> "write", x |-> <<R(0), RRat(1, 2), R(-1), R(1)>>, dims |-> d] : d \in {1, 2}}
         \cup {[fam |-> "audio", op |-> "eclose"], [fam |-> "audio", op |-> "read", n |-> 3], [fam |-> "audio", op |-> "seek", k |-> 1]}
Resamplers == {[fam |-> "resampler", op |-> "new", q |-> "hold", ratio |-> R(2), gain |-> <<R(1), R(2)>>, x |-> X],
               [fam |-> "resampler", op |-> "process", n |-> 2], [fam |-> "resampler", op |-> "reset"]}
Bad == {[fam |-> "spectral", op |-> "conv", x |-> X, g |-> <<R(1)>>], [fam |-> "arrays", op |-> "floor", x |-> X, dims |-> 2],
        [fam |-> "windows", op |-> "window", w |-> "welch", n |-> -2]}
Environment == {[fam |-> "system", op |-> "set", name |-> <<65>>, value |-> <<66>>, over |-> 1], [fam |-> "system", op |-> "get", name |-> <<65>>]}
Tags == {[fam |-> "tags", op |-> o, p |-> "a"] : o \in {"make", "open", "remove"}}
        \cup {[fam |-> "tags", op |-> "tag", p |-> "a", title |-> <<233>>, artist |-> <<65>>, album |-> <<>>, genre |-> <<71>>, year |-> 1987, track |-> 3],
              [fam |-> "tags", op |-> "title"]}
Calls == Filter("a") \cup Filter("b") \cup Oscillators \cup Files \cup Resamplers \cup Bad \cup Environment \cup Tags

\* the objects there are
Made(f, s) == \E k \in 1..Len(hist) : hist[k].fam = f /\ (f = "filter" => hist[k].s = s) /\ hist[k].op \in {"new", "encoder", "decoder"}
Had(o) == \E k \in 1..Len(hist) : hist[k].op = o
Enabled(c) == CASE c.fam = "filter" -> c.op = "new" \/ Made("filter", c.s)
                [] c.fam = "oscillator" -> c.op = "new" \/ Made("oscillator", "")
                [] c.fam = "resampler" -> c.op = "new" \/ Made("resampler", "")
                [] c.fam = "audio" -> /\ (c.op \in {"eopen", "write", "eclose"} => Had("encoder"))
                                      /\ (c.op \in {"dopen", "read", "seek"} => Had("decoder"))
                                      /\ ~(c.op = "eopen" /\ st.audio.dec.path = "a") /\ ~(c.op = "dopen" /\ st.audio.enc.path = "a")
                [] OTHER -> TRUE
\* the state a call leads to does not depend on its answer, but for how much a resampler takes
Take(s, c) == IF c.op = "process" THEN [used |-> c.n, made |-> P!Re!Promise(s.resampler, c.n), y |-> <<>>] ELSE << >>
After(s, c) ==
  IF P!Refused(c) THEN s
  ELSE CASE c.fam = "filter" -> LET f == s.filters[c.s]
                                    g == CASE c.op = "new" -> P!Mo!Fresh(c.kind, c.n) [] c.op = "tick" -> P!Mo!Feed(f, c.x) [] c.op = "filter" -> P!Mo!FeedAll(f, c.x)
                                           [] c.op = "reset" -> P!Mo!Fresh(f.kind, Len(f.w)) [] c.op = "resize" -> P!Mo!Fresh(f.kind, c.n)
                                IN [s EXCEPT !.filters[c.s] = g]
         [] c.fam = "oscillator" -> LET o == s.osc.o
                                        g == CASE c.op = "new" -> P!Os!OscOf(c.kind, c.amp, c.sr, c.f, c.p) [] c.op = "run" -> P!Os!AdvanceBy(o, c.n)
                                               [] c.op = "set_par" -> [o EXCEPT !.par = c.v] [] c.op = "reset" -> [o EXCEPT !.t = R(0)]
                                    IN [s EXCEPT !.osc.o = g]
         [] c.fam = "audio" -> [s EXCEPT !.audio = P!Au!Step(s.audio, c)]
         [] c.fam = "resampler" -> LET r == s.resampler IN
              [s EXCEPT !.resampler = CASE c.op = "new" -> [r EXCEPT !.ratio = c.ratio, !.gain = c.gain, !.x = c.x, !.ch = 2, !.used = 0, !.made = 0]
                                        [] c.op = "reset" -> [r EXCEPT !.used = 0, !.made = 0]
                                        [] c.op = "process" -> LET t == Take(s, c) IN [r EXCEPT !.used = @ + t.used, !.made = @ + t.made]]
         [] c.fam = "tags" -> [s EXCEPT !.tags = CASE c.op = "make" -> P!Me!Make(@, c.p) [] c.op = "remove" -> P!Me!Delete(@, c.p) [] c.op = "open" -> P!Me!Open(@, c.p)
                                                   [] c.op = "tag" -> P!Me!Tagged(@, c.p, P!Me!TagOf(c)) [] OTHER -> @]
         [] c.fam = "system" -> IF c.op = "set" THEN [s EXCEPT !.env = (c.name :> c.value) @@ @] ELSE s
         [] OTHER -> s
Machine(c) == CASE c.fam = "filter" -> IF c.s = "a" THEN "filter a" ELSE "filter b" [] OTHER -> c.fam
Reals(f) == [f EXCEPT !.w = [k \in 1..Len(f.w) |-> RAdd(f.w[k], 0)]]
View(s, m) == CASE m = "filter a" -> Reals(s.filters["a"]) [] m = "filter b" -> Reals(s.filters["b"]) [] m = "oscillator" -> s.osc [] m = "audio" -> s.audio
                [] m = "resampler" -> s.resampler [] m = "system" -> s.env [] m = "tags" -> s.tags
Machines == {"filter a", "filter b", "oscillator", "audio", "resampler", "system", "tags"}

Init == st = P!PythonStart /\ hist = <<>>
Next == \E c \in Calls :
  /\ Len(hist) < MaxLen
  /\ Enabled(c)
  /\ st' = After(st, c)
  /\ hist' = Append(hist, c)
  /\ (Tour => IF Len(hist') = MaxLen THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
RECURSIVE Replay(_, _)
Replay(s, h) == IF h = <<>> THEN s ELSE Replay(After(s, Head(h)), Tail(h))
Independent == \A m \in Machines : View(st, m) = View(Replay(P!PythonStart, SelectSeq(hist, LAMBDA c : Machine(c) = m)), m)
RefusalIsNothing == [][P!Refused(hist'[Len(hist')]) => st' = st]_vars
OnlyItsOwn == [][\A m \in Machines : View(st', m) # View(st, m) => Machine(hist'[Len(hist')]) = m]_vars
====================================================================================
