--------------------------------- MODULE Bindings ---------------------------------
(***************************************************************************)
(* The interfaces of other languages.  A call names a family of the        *)
(* library and an operation of it, and answers what the definitions of     *)
(* that family say; where the other language has its own convention (a     *)
(* place that is -1 when there is none, a truth value), it is stated here. *)
(* The only state is the environment of the process.                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FReal, TLC
Ar == INSTANCE Arrays
St == INSTANCE Statistics
Sp == INSTANCE Spectral
Wi == INSTANCE Windows
Co == INSTANCE Conversions
Sy == INSTANCE System

BindingsStart == Sy!SystemStart
Pure(env, r) == [st |-> env, ok |-> r.ok]
Untouched(e) == "intact" \in DOMAIN e => e.intact
OrMinusOne(x, v) == LET k == Ar!Find(x, v) IN IF k = Len(x) THEN -1 ELSE k
Half(n) == n \div 2 + 1
Whole(n) == 2 * (n - 1)
\* build moments are only known to be dates and times of this form: "Mmm dd yyyy" and "hh:mm:ss"
IsDigit(c) == c \in 48..57
LooksLikeDate(d) == Len(d) = 11 /\ \A k \in 8..11 : IsDigit(d[k])
LooksLikeTime(t) == Len(t) = 8 /\ t[3] = 58 /\ t[6] = 58 /\ \A k \in {1, 2, 4, 5, 7, 8} : IsDigit(t[k])
Own(e) == CASE e.fam = "arrays" /\ e.op \in {"linear_search", "binary_search", "index_of"} -> e.place = OrMinusOne(e.x, e.v)
            [] e.fam = "arrays" /\ e.op = "contains" -> e.ret = (OrMinusOne(e.x, e.v) # -1)
            [] e.fam = "spectral" /\ e.op = "sizes" -> e.half = Half(e.n) /\ e.whole = Whole(e.n)
            [] e.fam = "system" /\ e.op = "version" ->
                 e.major = e.wmajor /\ e.minor = e.wminor /\ e.patch = e.wpatch /\ e.text = Sy!Dotted(e.wmajor, e.wminor, e.wpatch) /\ LooksLikeDate(e.date) /\ LooksLikeTime(e.time)
IsOwn(e) == \/ e.fam = "arrays" /\ e.op \in {"linear_search", "binary_search", "index_of", "contains"}
            \/ e.fam = "spectral" /\ e.op = "sizes"
            \/ e.fam = "system" /\ e.op = "version"
GetSilent(env, e) == IF ~Sy!Askable(e.name) THEN TRUE ELSE IF e.name \in DOMAIN env THEN e.found /\ e.value = env[e.name] ELSE ~e.found

BindingsEval(env, e) ==
  CASE IsOwn(e) -> [st |-> env, ok |-> Own(e) /\ Untouched(e)]
    [] e.fam = "system" /\ e.op = "get" /\ "error" \notin DOMAIN e -> [st |-> env, ok |-> GetSilent(env, e)]
    [] e.fam = "system" -> Sy!SystemEval(env, e)
    [] e.fam = "arrays" -> Pure(env, Ar!ArraysEval(0, e))
    [] e.fam = "statistics" -> [st |-> env, ok |-> St!StatisticsEval(0, e).ok /\ Untouched(e)]
    [] e.fam = "spectral" -> Pure(env, Sp!SpectralEval(0, e))
    [] e.fam = "windows" -> Pure(env, Wi!WindowsEval(0, e))
    [] e.fam = "conversions" -> Pure(env, Co!ConversionsEval(0, e))
====================================================================================
