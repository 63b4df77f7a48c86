---------------------------------- MODULE Logger ----------------------------------
(***************************************************************************)
(* Loggers: a message is composed piece by piece and delivered when its    *)
(* logger is destroyed, to the console or to the end of a file, unless its *)
(* level is below the default (minimum) level.  Texts are byte sequences.  *)
(* State: default level, name and path, the logger alive (or none), what   *)
(* the console and the files have received.                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

Levels == <<"trace", "debug", "info", "warning", "error", "critical", "off">>
Rank(l) == CHOOSE k \in 1..7 : Levels[k] = l
Console == <<99, 111, 110, 115, 111, 108, 101>>      \* "console"
None == [alive |-> FALSE, level |-> "trace", name |-> <<>>, file |-> <<>>, msg |-> <<>>]
LoggerStart == [level |-> "trace", name |-> Console, path |-> <<>>, cur |-> None, console |-> <<>>, files |-> << >>]

Space == <<32>>
Esc(a, b) == <<27, 91, a, b, 109>>
Colour == [grey |-> 48, red |-> 49, green |-> 50, yellow |-> 51, blue |-> 52, magenta |-> 53, cyan |-> 54, white |-> 55]
Manipulated(m) ==
  CASE m \in DOMAIN Colour -> Esc(51, Colour[m])
    [] m = "bold" -> <<27, 91, 49, 109>>
    [] m \in {"endc", "reset"} -> Esc(48, 48)
    [] m = "tab" -> <<9>>
    [] m = "endl" -> <<10>>

RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
\* q quarters
Quarters(q) ==
  LET a == IF q < 0 THEN -q ELSE q
  IN (IF q < 0 THEN <<45>> ELSE <<>>) \o Decimal(a \div 4)
     \o (CASE a % 4 = 0 -> <<>> [] a % 4 = 1 -> <<46, 50, 53>> [] a % 4 = 2 -> <<46, 53>> [] OTHER -> <<46, 55, 53>>)

Deliver(st) ==
  LET c == st.cur
      text == c.msg \o Esc(48, 48)
      dead == [st EXCEPT !.cur = None]
  IN IF ~c.alive \/ c.level = "off" \/ Rank(c.level) < Rank(st.level) THEN dead
     ELSE IF c.file \in {<<>>, Console} THEN [dead EXCEPT !.console = @ \o text]
     ELSE [dead EXCEPT !.files = IF c.file \in DOMAIN @ THEN [@ EXCEPT ![c.file] = @ \o text] ELSE (c.file :> text) @@ @]

Add(st, t) == [st EXCEPT !.cur.msg = @ \o t]
Step(st, e) ==
  CASE e.op = "start" -> LoggerStart
    [] e.op = "default_level" -> [st EXCEPT !.level = e.v]
    [] e.op = "default_name" -> [st EXCEPT !.name = e.v]
    [] e.op = "default_path" -> [st EXCEPT !.path = e.v]
    [] e.op = "new" -> LET s == Deliver(st) IN
                       [s EXCEPT !.cur = [alive |-> TRUE, level |-> e.level, msg |-> <<>>,
                                          name |-> IF "name" \in DOMAIN e THEN e.name ELSE s.name,
                                          file |-> IF "file" \in DOMAIN e THEN e.file ELSE s.path]]
    [] e.op = "end" -> Deliver(st)
    [] e.op = "level" -> [st EXCEPT !.cur.level = e.v]
    [] e.op = "text" -> Add(st, e.x \o Space)
    [] e.op = "number" -> Add(st, e.x \o Space)
    [] e.op = "quarters" -> Add(st, Quarters(e.k) \o Space)
    [] e.op = "space" -> Add(st, Space)
    [] e.op = "manip" -> Add(st, Manipulated(e.m))

LoggerEval(st, e) ==
  LET s == Step(st, e)
  IN [st |-> s,
      ok |-> /\ e.dlevel = s.level /\ e.dname = s.name /\ e.dpath = s.path
             /\ s.cur.alive => e.clevel = s.cur.level /\ e.cname = s.cur.name /\ e.cstr = s.cur.msg
             /\ e.console = s.console
             /\ LET open == {f \in DOMAIN s.files : TRUE}
                IN \A k \in 1..Len(e.files) : e.files[k][2] = (IF e.files[k][1] \in open THEN s.files[e.files[k][1]] ELSE <<>>)]
====================================================================================
