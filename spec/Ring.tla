--------------------------------- MODULE Ring ---------------------------------
(***************************************************************************)
(* Bounded double-ended queues (ring_buffer, fixed_ring_buffer and the     *)
(* non-owning view ring_span) as seen through their public interface: a    *)
(* capacity and the sequence of stored elements, oldest first.             *)
(*                                                                         *)
(* Two objects "a" and "b" exist at a time, so that copies, moves and      *)
(* assignments are observable: a copy must be independent of its source.   *)
(* The state of an object is [cap, q]; cap = -1: the object does not exist *)
(* or has been moved from (nothing is promised about it then).             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

None == [cap |-> -1, q |-> <<>>]
RingStart == [a |-> None, b |-> None]

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Front(s) == SubSeq(s, 1, Len(s) - 1)
Fill(n, x) == [k \in 1..n |-> x]

\* Inserting at one end of a full buffer overwrites the other end.
PushBack(o, x)  == [o EXCEPT !.q = IF Len(@) = o.cap THEN Append(Tail(@), x) ELSE Append(@, x)]
PushFront(o, x) == [o EXCEPT !.q = IF Len(@) = o.cap THEN <<x>> \o Front(@) ELSE <<x>> \o @]
PopFront(o)     == [o EXCEPT !.q = Tail(@)]
PopBack(o)      == [o EXCEPT !.q = Front(@)]
Clear(o)        == [o EXCEPT !.q = <<>>]
Resize(n)       == [cap |-> n, q |-> <<>>]
SetAt(o, k, x)  == [o EXCEPT !.q[k + 1] = x]

Other(s) == IF s = "a" THEN "b" ELSE "a"

\* The state after operation e.  For binary operations e.s is the target and the other object the source.
Apply(st, e) ==
  LET s == e.s
      o == st[s]
      p == st[Other(s)]
      upd(x) == [st EXCEPT ![s] = x]
  IN CASE e.op = "new"          -> [RingStart EXCEPT ![s] = [cap |-> e.cap, q |-> IF "fill" \in DOMAIN e THEN Fill(e.cap, e.fill) ELSE <<>>]]
       [] e.op = "make"         -> upd([cap |-> e.cap, q |-> IF "fill" \in DOMAIN e THEN Fill(e.cap, e.fill) ELSE <<>>])
       [] e.op = "emplace_back2" -> upd(PushBack(o, e.x))
       [] e.op = "emplace_front2" -> upd(PushFront(o, e.x))
       [] e.op = "set_rev"      -> upd(SetAt(o, Len(o.q) - 1 - e.k, e.x))
       [] e.op = "push_back"    -> upd(PushBack(o, e.x))
       [] e.op = "emplace_back" -> upd(PushBack(o, e.x))
       [] e.op = "push_front"   -> upd(PushFront(o, e.x))
       [] e.op = "emplace_front" -> upd(PushFront(o, e.x))
       [] e.op = "pop_front"    -> upd(PopFront(o))
       [] e.op = "pop_back"     -> upd(PopBack(o))
       [] e.op = "clear"        -> upd(Clear(o))
       [] e.op = "resize"       -> upd(Resize(e.n))
       [] e.op = "set_index"    -> upd(SetAt(o, e.k, e.x))
       [] e.op = "set_at"       -> upd(SetAt(o, e.k, e.x))
       [] e.op = "set_iter"     -> upd(SetAt(o, e.k, e.x))
       [] e.op = "set_front"    -> upd(SetAt(o, 0, e.x))
       [] e.op = "set_back"     -> upd(SetAt(o, Len(o.q) - 1, e.x))
       [] e.op \in {"at", "walk"} -> st
       [] e.op \in {"copy", "copy_assign"} -> upd(p)
       [] e.op \in {"move", "move_assign"} -> [upd(p) EXCEPT ![Other(s)] = None]
       [] e.op = "self_assign"  -> st
       [] e.op = "drop"         -> upd(None)
       [] e.op = "swap"         -> [a |-> st.b, b |-> st.a]

\* What one object must show when it is looked at from every side.
Shows(o, v) ==
  /\ v.size = Len(o.q)
  /\ v.cap = o.cap
  /\ v.empty = (Len(o.q) = 0)
  /\ v.full = (Len(o.q) = o.cap)
  /\ v.fwd = o.q
  /\ v.cfwd = o.q
  /\ v.rev = [k \in 1..Len(o.q) |-> o.q[Len(o.q) + 1 - k]]
  /\ v.idx = o.q
  /\ v.ats = o.q
  /\ v.dist = Len(o.q)
  /\ (o.q # <<>> => v.front = o.q[1] /\ v.back = o.q[Len(o.q)])
  /\ v.intact /\ v.room
  \* the elements lie one after another in a circle of cap places
  /\ (o.q # <<>> => \E h \in 0..(o.cap - 1) : v.place = [k \in 1..Len(o.q) |-> (h + k - 1) % o.cap])

\* Iterators to positions i and j: how they compare, how far they are apart, and where moving one of them ends.
Walked(o, e) ==
  LET i == e.i
      j == e.j
      n == Len(o.q)
  IN /\ e.cmp = <<i < j, i <= j, i > j, i >= j, i = j, i # j>>
     /\ e.dist = j - i
     /\ e.at = <<j, i, j, j, j, i>> \o (IF i < n THEN <<i, i + 1, i + 1, i>> ELSE <<>>)
     /\ (i < n => e.ret = o.q[IF e.w \in {"rev", "crev"} THEN n - i ELSE i + 1])

RingEval(st, e) ==
  LET n == Apply(st, e)
      o == st[e.s]
  IN [ st |-> n,
       ok |-> /\ \A s \in {"a", "b"} : n[s].cap >= 0 => s \in DOMAIN e /\ Shows(n[s], e[s])
              /\ (e.op = "at" => IF e.k < Len(o.q) THEN e.thrown = "no" /\ e.ret = o.q[e.k + 1]
                                 ELSE e.thrown = "out_of_range")
              \* the non-owning view hands the removed element to the caller
              /\ (e.op = "pop_front" /\ "ret" \in DOMAIN e => e.ret = o.q[1])
              /\ (e.op = "pop_back" /\ "ret" \in DOMAIN e => e.ret = o.q[Len(o.q)])
              \* a copying view leaves its own value behind, a keeping one the element
              /\ ("left" \in DOMAIN e => e.left = -5)
              /\ ("kept" \in DOMAIN e => e.kept = (IF e.op = "pop_front" THEN o.q[1] ELSE o.q[Len(o.q)]))
              /\ (e.op = "walk" => Walked(o, e)) ]
===============================================================================
