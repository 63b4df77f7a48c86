---------------------------------- MODULE System ----------------------------------
(***************************************************************************)
(* The process environment (a partial function from non-empty names        *)
(* without "=" to texts), and the constant facts about library, compiler   *)
(* and platform.  Texts are sequences of bytes.                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

SystemStart == << >>               \* the empty environment: a function with empty domain
Equals == 61
ValidName(n) == n # <<>> /\ \A k \in 1..Len(n) : n[k] # Equals
\* what looking up a name no variable can have answers is left to the host
Askable(n) == \A k \in 1..Len(n) : n[k] # Equals
Set(env, n, v, over) == IF n \in DOMAIN env /\ ~over THEN env ELSE (n :> v) @@ env

Digit(d) == <<48 + d>>
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN Digit(n) ELSE Decimal(n \div 10) \o Digit(n % 10)
Dotted(a, b, c) == Decimal(a) \o <<46>> \o Decimal(b) \o <<46>> \o Decimal(c)

SystemEval(env, e) ==
  CASE e.op = "clear" -> [st |-> << >>, ok |-> TRUE]
    [] e.op = "set" ->
         IF ValidName(e.name) THEN [st |-> Set(env, e.name, e.value, e.over = 1), ok |-> e.error = "none"]
         ELSE [st |-> env, ok |-> e.error = IF e.name = <<>> THEN "empty" ELSE "invalid"]
    [] e.op = "get" ->
         [st |-> env, ok |-> IF ~Askable(e.name) THEN TRUE ELSE IF e.name \in DOMAIN env THEN e.found /\ e.value = env[e.name] /\ e.error = "none"
                             ELSE ~e.found /\ e.error = IF e.name = <<>> THEN "empty" ELSE "not_found"]
    [] e.op = "exist" -> [st |-> env, ok |-> Askable(e.name) => e.ret = (e.name \in DOMAIN env)]
    [] e.op = "version" ->
         [st |-> env, ok |-> e.major = e.wmajor /\ e.minor = e.wminor /\ e.patch = e.wpatch /\ e.text = Dotted(e.wmajor, e.wminor, e.wpatch)
                             /\ e.date = e.wdate /\ e.time = e.wtime]
    [] e.op = "libraries" -> [st |-> env, ok |-> e.fft = e.wfft /\ e.codec = e.wcodec /\ e.resample = e.wresample]
    [] e.op = "platform" -> [st |-> env, ok |-> e.os = e.wos /\ e.processor = e.wprocessor /\ e.compiler = e.wcompiler]
====================================================================================
