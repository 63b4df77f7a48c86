------------------------------ MODULE BindingsModel ------------------------------
(***************************************************************************)
(* Short sessions: calls of different families in any order, with the      *)
(* environment as their only memory.  The answers the definitions give are *)
(* accepted, others are not, and a call answers alike wherever in a        *)
(* session it is made.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FReal, TLC, Json
CONSTANTS MaxLen, Tour
B == INSTANCE Bindings
VARIABLES env, hist
vars == <<env, hist>>

Inputs == {<<0>>, <<3, 1>>, <<2, -1, 2, 5>>, <<1, 2, 2, 4, -3>>}
Elementwise == {"floor", "rectify", "normalize"}
Searches == {"linear_search", "index_of"}
Numbers == {"mean", "max", "peak", "peakabs", "median", "variance", "moment"}
Transforms == {"hartley", "dct", "conv"}
A == <<65>>
Calls ==
  {[fam |-> "arrays", op |-> o, x |-> x] : o \in Elementwise, x \in Inputs \ {<<0>>}}
    \cup {[fam |-> "arrays", op |-> o, x |-> x, v |-> v] : o \in Searches \cup {"contains"}, x \in Inputs, v \in {2, 7}}
    \cup {[fam |-> "statistics", op |-> o, x |-> x, n |-> 3] : o \in Numbers, x \in Inputs}
    \cup {[fam |-> "spectral", op |-> o, x |-> x, g |-> x] : o \in Transforms, x \in Inputs}
    \cup {[fam |-> "windows", op |-> "window", w |-> w, n |-> n] : w \in {"hamming", "triangular"}, n \in {1, 4}}
    \cup {[fam |-> "conversions", op |-> o, v |-> v] : o \in {"mag2db", "deg2rad"}, v \in {1, 20}}
    \cup {[fam |-> "system", op |-> "set", name |-> n, value |-> v, over |-> 1] : n \in {A, <<>>, <<65, 61>>}, v \in {<<66>>, <<>>}}
    \cup {[fam |-> "system", op |-> o, name |-> n] : o \in {"get", "exist"}, n \in {A, <<>>}}

\* the answer by definition
F(x) == TLCEval([k \in 1..Len(x) |-> R(x[k])])
Sy == INSTANCE System
Answer(s, c) ==
  CASE c.fam = "arrays" /\ c.op = "floor" -> [r |-> F(c.x), intact |-> TRUE]
    [] c.fam = "arrays" /\ c.op = "rectify" -> [r |-> B!St!Magnitudes(F(c.x)), intact |-> TRUE]
    [] c.fam = "arrays" /\ c.op = "normalize" -> [r |-> B!St!Mapped(F(c.x), LAMBDA v : RDiv(v, B!St!Big(F(c.x)))), intact |-> TRUE]
    [] c.fam = "arrays" /\ c.op \in Searches -> [place |-> B!OrMinusOne(F(c.x), R(c.v)), intact |-> TRUE]
    [] c.fam = "arrays" /\ c.op = "contains" -> [ret |-> \E k \in 1..Len(c.x) : c.x[k] = c.v, intact |-> TRUE]
    [] c.fam = "statistics" /\ c.op \in {"peak", "peakabs"} ->
         LET y == F(c.x)
             k == B!St!FirstMax(IF c.op = "peak" THEN y ELSE B!St!Magnitudes(y))
         IN [at |-> k - 1, ret |-> y[k], intact |-> TRUE]
    [] c.fam = "statistics" -> LET y == F(c.x)
                               IN [ret |-> CASE c.op = "mean" -> B!St!Mean(y) [] c.op = "max" -> B!St!Maximum(y) [] c.op = "median" -> B!St!Median(y)
                                             [] c.op = "variance" -> B!St!Variance(y) [] c.op = "moment" -> B!St!Moment(y, c.n), intact |-> TRUE]
    [] c.fam = "spectral" -> LET y == F(c.x)
                             IN [r |-> CASE c.op = "hartley" -> B!Sp!Dht(y) [] c.op = "dct" -> B!Sp!Dct(y) [] c.op = "conv" -> B!Sp!Conv(y, y), intact |-> TRUE, kept |-> TRUE]
    [] c.fam = "windows" -> [r |-> B!Wi!Window(c.w, c.n), intact |-> TRUE]
    [] c.fam = "conversions" -> [ret |-> IF c.op = "mag2db" THEN B!Co!Mag2Db(R(c.v)) ELSE B!Co!Deg2Rad(R(c.v))]
    [] c.op = "set" -> [error |-> IF c.name = <<>> THEN "empty" ELSE IF Sy!ValidName(c.name) THEN "none" ELSE "invalid"]
    [] c.op = "get" -> IF c.name \in DOMAIN s THEN [found |-> TRUE, value |-> s[c.name], error |-> "none"]
                       ELSE [found |-> FALSE, value |-> <<>>, error |-> IF c.name = <<>> THEN "empty" ELSE "not_found"]
    [] c.op = "exist" -> [ret |-> c.name \in DOMAIN s]
Real(c) == IF "x" \in DOMAIN c THEN [f \in DOMAIN c |-> IF f \in {"x", "g"} THEN F(c[f]) ELSE IF f = "v" THEN R(c[f]) ELSE c[f]]
           ELSE IF c.fam = "conversions" THEN [c EXCEPT !.v = R(c.v)] ELSE c
Event(s, c) == Answer(s, c) @@ Real(c)
\* answers that differ in one part
Bent(c, a) == (IF "r" \in DOMAIN a THEN {[a EXCEPT !.r[k] = RAdd(a.r[k], RRat(1, 1000))] : k \in 1..Len(a.r)} \cup {[a EXCEPT !.r = Append(a.r, R(0))]} ELSE {})
             \cup (IF "ret" \in DOMAIN a THEN {[a EXCEPT !.ret = IF c.op \in {"contains", "exist"} THEN ~a.ret ELSE RAdd(a.ret, RRat(1, 1000))]} ELSE {})
             \cup (IF "at" \in DOMAIN a THEN {[a EXCEPT !.at = a.at + 1]} ELSE {})
             \cup (IF "place" \in DOMAIN a THEN {[a EXCEPT !.place = a.place + 1]} ELSE {})
             \cup (IF "intact" \in DOMAIN a THEN {[a EXCEPT !.intact = FALSE]} ELSE {})
             \cup (IF "error" \in DOMAIN a THEN {[a EXCEPT !.error = "unknown"]} ELSE {})
             \cup (IF "found" \in DOMAIN a THEN {[a EXCEPT !.found = ~a.found]} ELSE {})
Init == env = << >> /\ hist = <<>>
Next == \E c \in Calls :
  /\ Len(hist) < MaxLen
  /\ env' = B!BindingsEval(env, Event(env, c)).st
  /\ hist' = Append(hist, c)
  /\ (Tour => IF Len(hist') = MaxLen THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
Accepts == \A c \in Calls : B!BindingsEval(env, Event(env, c)).ok
\* (a "found" of a value that is not there: the record of a missing variable has no value to compare)
Rejects == \A c \in Calls : \A a \in Bent(c, Answer(env, c)) : ~B!BindingsEval(env, a @@ Real(c)).ok
Memory == [][env' # env => hist'[Len(hist')].op = "set"]_vars
===================================================================================
