--------------------------------- MODULE MetaModel ---------------------------------
(* Every short history on every kind of object over small contents. *)
EXTENDS Meta, Json
CONSTANTS MaxLen, Depth, Values, Tour
VARIABLES st, hist
vars == <<st, hist>>

Contents == UNION {[1..n -> Values] : n \in 0..MaxLen}
Init == st = MetaStart /\ hist = <<>>
Do(rec, n) == st' = n /\ hist' = Append(hist, rec)
Next == /\ Len(hist) < Depth
        /\ \/ hist = <<>> /\ \E k \in Kinds, x \in Contents : (k \in Fixed => x # <<>>) /\ Do([op |-> "new", kind |-> k, x |-> x], New(st, k, x))
           \/ hist # <<>> /\ Has(st.kind, "put") /\ \E i \in 0..(Len(st.x) - 1), v \in Values : Do([op |-> "put", i |-> i, v |-> v], Put(st, i, v))
Spec == Init /\ [][Next]_vars

\* elements are replaced, never added or lost; only writable objects change
Shape == hist # <<>> => Len(st.x) = Len(hist[1].x) /\ (st.kind \notin Writable => st.x = hist[1].x)
Latest == \A k \in 1..Len(st.x) :
            LET w == {n \in 2..Len(hist) : hist[n].i = k - 1} IN
            st.x[k] = IF w = {} THEN hist[1].x[k] ELSE hist[CHOOSE n \in w : \A m \in w : m <= n].v
Whole == \A v \in Values : Found(st.x, 0, Len(st.x), v) = (\E k \in 1..Len(st.x) : st.x[k] = v)
Parts == \A v \in Values, c \in 0..Len(st.x) : Found(st.x, 0, Len(st.x), v) = (Found(st.x, 0, c, v) \/ Found(st.x, c, Len(st.x), v))
Traits == \A t \in DOMAIN Types : LET y == Types[t] IN (y[1] <=> y[2] # "none") /\ ~(y[4] /\ y[5]) /\ (y[3] => ~y[1])
Conditions == \A cond, asserts \in BOOLEAN, m \in {<<>>, <<77>>} : LET o == Outcome(st, cond, m, asserts) IN (cond => ~o.said /\ ~o.died) /\ (~cond /\ asserts => o.died)
Emit == (Tour /\ hist # <<>>) => PrintT("GEN " \o ToJson(<<hist>>))
====================================================================================
