------------------------------ MODULE TraceCheck ------------------------------
(***************************************************************************)
(* Conformance of recorded behaviours.  A log is a sequence of events, one *)
(* per operation applied to the real library; an event with first = TRUE   *)
(* starts a new behaviour.  Eval(st, e) is given by the specification of   *)
(* the part under test: the state after e, and whether everything e        *)
(* recorded agrees with the specification in state st.                     *)
(*                                                                         *)
(* Every event yields exactly one state of this module, so a log of N      *)
(* events that is accepted has N distinct states (the driver checks it).   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

CONSTANTS Eval(_, _), Start

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, st, ok

\* An exception no operation of the specification announces ("exc") is never part of a correct behaviour.
Judge(s, e) == IF "exc" \in DOMAIN e THEN [st |-> s, ok |-> FALSE] ELSE Eval(s, e)

TCInit ==
  /\ i \in {k \in 1..Len(T) : T[k].first}
  /\ LET r == Judge(Start, T[i]) IN st = r.st /\ ok = r.ok

TCNext ==
  /\ ok
  /\ i < Len(T)
  /\ ~T[i + 1].first
  /\ i' = i + 1
  /\ LET r == Judge(st, T[i + 1]) IN st' = r.st /\ ok' = r.ok

TCSpec == TCInit /\ [][TCNext]_<<i, st, ok>>

Conforms == ok
===============================================================================
