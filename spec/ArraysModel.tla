------------------------------ MODULE ArraysModel ------------------------------
(* Laws of the element-wise operations and the searches on every small vector of quarters. *)
EXTENDS Naturals, Integers, Sequences, FReal, TLC, Json
S == INSTANCE Arrays
CONSTANTS MaxN, Values, Shift, Tour
VARIABLES x, hist

RECURSIVE Vectors(_)
Vectors(n) == IF n = 0 THEN {<<>>} ELSE {Append(v, a) : v \in Vectors(n - 1), a \in Values}
Init == x \in UNION {Vectors(n) : n \in 1..MaxN} /\ hist = <<>>
Next == FALSE /\ UNCHANGED <<x, hist>>
Emit == Tour => PrintT("GEN " \o ToJson([k \in 1..Len(x) |-> x[k] - Shift]))

v == TLCEval([k \in 1..Len(x) |-> RRat(x[k] - Shift, 4)])
N == Len(x)
Whole(a) == REq(RFloor(a), a)
Roundings == \A k \in 1..N :
  LET a == v[k] IN
    /\ RLe(RFloor(a), a) /\ RLt(a, RAdd(RFloor(a), 1)) /\ Whole(RFloor(a))
    /\ RLe(a, S!Up(a)) /\ RLt(S!Up(a), RAdd(a, 1)) /\ Whole(S!Up(a))
    /\ Whole(S!Nearest(a)) /\ RLe(RAbs(RSub(a, S!Nearest(a))), RRat(1, 2)) /\ RLe(RAbs(a), RAdd(RAbs(S!Nearest(a)), RRat(49, 100)))
    /\ Whole(S!Towards0(a)) /\ RLe(RAbs(S!Towards0(a)), RAbs(a)) /\ RLt(RAbs(RSub(a, S!Towards0(a))), 1)
    /\ REq(S!Clip(S!Clip(a, R(-1), R(1)), R(-1), R(1)), S!Clip(a, R(-1), R(1)))
\* summing the differences gives the sequence back
RECURSIVE Summed(_)
Summed(y) == IF y = <<>> THEN <<>> ELSE LET p == Summed(SubSeq(y, 1, Len(y) - 1))
                                        IN Append(p, RAdd(y[Len(y)], IF p = <<>> THEN R(0) ELSE p[Len(p)]))
Primitive == LET s == Summed(S!Differences(v)) IN \A k \in 1..N : REq(s[k], v[k])
Finds == \A a \in Values : LET k == S!Find(v, RRat(a - Shift, 4))
                           IN /\ k = N <=> ~\E j \in 1..N : x[j] = a
                              /\ k < N => x[k + 1] = a /\ \A j \in 1..k : x[j] # a
Rows == \A n \in 2..9 : LET p == S!Points(v[1], v[N], n)
                        IN REq(p[1], v[1]) /\ RWithin(p[n], v[N], RTen(-12)) /\ \A k \in 2..(n - 1) : RWithin(RAdd(p[k - 1], p[k + 1]), RMul(2, p[k]), RTen(-12))
================================================================================
