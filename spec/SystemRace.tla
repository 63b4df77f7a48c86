-------------------------------- MODULE SystemRace --------------------------------
(***************************************************************************)
(* The environment used from several threads at once.  Each operation must *)
(* take effect at one moment between its call and its return (a            *)
(* linearizable object), and the host's primitives, which are not safe to  *)
(* run while another thread changes the environment, must not overlap a    *)
(* change.  The set of explanations of what was seen so far is carried     *)
(* along: an explanation is an environment and the results of those        *)
(* pending operations which have taken effect.                             *)
(***************************************************************************)
EXTENDS System

Answer(error, found, value) == [error |-> error, found |-> found, value |-> value]
\* the operation s taking effect in env
Effect(env, s) ==
  CASE s.what = "set" -> [env |-> Set(env, s.name, s.value, s.over = 1), answer |-> Answer("none", FALSE, <<>>)]
    [] s.what = "get" -> [env |-> env, answer |-> IF s.name \in DOMAIN env THEN Answer("none", TRUE, env[s.name]) ELSE Answer("not_found", FALSE, <<>>)]
    [] s.what = "exist" -> [env |-> env, answer |-> Answer("none", s.name \in DOMAIN env, <<>>)]

Explanation(env) == [env |-> env, done |-> << >>]
\* everything pending may have taken effect, in any order
RECURSIVE Closure(_, _)
Closure(C, pending) ==
  LET more == UNION {{[env |-> Effect(c.env, pending[t]).env, done |-> (t :> Effect(c.env, pending[t]).answer) @@ c.done]
                       : t \in DOMAIN pending \ DOMAIN c.done} : c \in C}
  IN IF more \subseteq C THEN C ELSE Closure(C \cup more, pending)
Without(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]
\* pending operations are called, return, and use primitives
Called(w, t, s) == LET p == (t :> s) @@ w.pending IN [w EXCEPT !.pending = p, !.C = Closure(@, p)]
Returned(w, t, answer) ==
  [w EXCEPT !.pending = Without(@, t),
            !.C = {[env |-> c.env, done |-> Without(c.done, t)] : c \in {x \in @ : t \in DOMAIN x.done /\ x.done[t] = answer}}]
Entered(w, t, p) == [w EXCEPT !.inside = @ \cup {<<t, p>>}]
Left(w, t, p) == [w EXCEPT !.inside = @ \ {<<t, p>>}]
Exclusive(inside) == \A a, b \in inside : a # b => (a[2] = "read" /\ b[2] = "read")
Explained(w) == w.C # {}
World(env) == [C |-> {Explanation(env)}, pending |-> << >>, inside |-> {}]

RECURSIVE Through(_, _, _, _)
Through(w, log, k, prog) ==
  IF k > Len(log) \/ ~Explained(w) \/ ~Exclusive(w.inside) THEN w
  ELSE LET x == log[k]
       IN Through(CASE x.ev = "call" -> Called(w, x.t, prog[x.t][x.k])
                    [] x.ev = "enter" -> Entered(w, x.t, x.p)
                    [] x.ev = "leave" -> Left(w, x.t, x.p)
                    [] x.ev = "return" -> Returned(w, x.t, Answer(x.error, x.found, x.value)), log, k + 1, prog)

SystemRaceStart == [env |-> << >>, prog |-> << >>]
AsEnv(pairs) == [n \in {pairs[k][1] : k \in 1..Len(pairs)} |-> pairs[CHOOSE k \in 1..Len(pairs) : pairs[k][1] = n][2]]
SystemRaceEval(st, e) ==
  CASE e.op = "clear" -> [st |-> SystemRaceStart, ok |-> TRUE]
    [] e.op = "put" -> LET had == IF e.by \in DOMAIN st.prog THEN st.prog[e.by] ELSE <<>>
                           step == [what |-> e.what, name |-> e.name, value |-> IF e.what = "set" THEN e.value ELSE <<>>, over |-> IF e.what = "set" THEN e.over ELSE 0]
                       IN [st |-> [st EXCEPT !.prog = (e.by :> Append(had, step)) @@ @], ok |-> TRUE]
    [] e.op = "go" -> LET w == Through(World(st.env), e.log, 1, st.prog)
                          left == AsEnv(e.left)
                      IN [st |-> [env |-> left, prog |-> << >>],
                          ok |-> Exclusive(w.inside) /\ DOMAIN w.pending = {} /\ Cardinality({e.left[k][1] : k \in 1..Len(e.left)}) = Len(e.left)
                                 /\ \E c \in w.C : c.env = left]
===================================================================================
