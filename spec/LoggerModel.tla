------------------------------- MODULE LoggerModel -------------------------------
(***************************************************************************)
(* Every short history of default settings and messages.                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Tour
L == INSTANCE Logger
VARIABLES st, hist
vars == <<st, hist>>
F == <<102>>
Init == st = L!LoggerStart /\ hist = <<[op |-> "start"]>>
Do(e) == st' = L!Step(st, e) /\ hist' = Append(hist, e) /\ (Tour => IF Len(hist') = MaxLen THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE)
Defaults == \/ \E l \in {"trace", "warning", "off"} : Do([op |-> "default_level", v |-> l])
            \/ \E p \in {<<>>, F} : Do([op |-> "default_path", v |-> p])
New == \E l \in {"trace", "warning", "critical"} :
         \/ Do([op |-> "new", level |-> l])
         \/ Do([op |-> "new", level |-> l, name |-> <<110>>, file |-> L!Console])
Use == st.cur.alive /\ \/ Do([op |-> "text", x |-> <<104, 0, 105>>])
                       \/ Do([op |-> "manip", m |-> "red"])
                       \/ Do([op |-> "level", v |-> "warning"])
                       \/ Do([op |-> "end"])
Next == Len(hist) < MaxLen /\ (Defaults \/ New \/ Use)
Spec == Init /\ [][Next]_vars

RECURSIVE Count(_, _)
Count(s, x) == IF Len(s) < Len(x) THEN 0 ELSE (IF SubSeq(s, 1, Len(x)) = x THEN 1 ELSE 0) + Count(Tail(s), x)
Ends(s) == Count(s, L!Esc(48, 48))
Total == Ends(st.console) + (IF F \in DOMAIN st.files THEN Ends(st.files[F]) ELSE 0)
Made == Cardinality({k \in 1..Len(hist) : hist[k].op = "new"})
\* nothing is delivered twice, nothing is delivered while it is composed
Delivered == Total + (IF st.cur.alive THEN 1 ELSE 0) <= Made
\* what has been delivered is never changed
AppendOnly == [][/\ SubSeq(st'.console, 1, Len(st.console)) = st.console
                 /\ F \in DOMAIN st.files => SubSeq(st'.files[F], 1, Len(st.files[F])) = st.files[F]]_vars
\* a disabled default level delivers nothing
Quiet == [][st.level = "off" => st'.console = st.console /\ st'.files = st.files]_vars
==================================================================================
