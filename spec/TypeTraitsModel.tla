------------------------------ MODULE TypeTraitsModel ------------------------------
(* Every short program of type transformations. *)
EXTENDS TypeTraits, Json
CONSTANTS MaxLen, Tour
VARIABLES t, hist
vars == <<t, hist>>

Init == t = <<>> /\ hist = <<>>
Next == \/ hist = <<>> /\ \E s \in Starts : t' = Begin(s) /\ hist' = <<s>>
        \/ /\ hist # <<>> /\ Len(hist) <= MaxLen
           /\ \E f \in Unary : Applies(f, t) /\ t' = Apply(f, t) /\ hist' = Append(hist, f)
Spec == Init /\ [][Next]_vars
Ready == hist # <<>>

\* a reference is outermost and never qualified, nothing points to a reference, arrays are qualified by their elements
Formed == Ready => /\ \A k \in 1..(Len(t) - 1) : t[k].k \notin {"lref", "rref"}
                   /\ \A k \in 1..Len(t) : t[k].k \in {"lref", "rref", "arr", "open"} => ~t[k].c /\ ~t[k].v
                   /\ t[1].k \in Cores /\ \A k \in 2..Len(t) : t[k].k \notin Cores
\* doing it twice is doing it once, except for what peels or adds a level
Again == Ready => \A f \in Unary \ {"remove_pointer", "add_pointer", "remove_extent", "decay"} : Applies(f, t) => Apply(f, Apply(f, t)) = Apply(f, t)
Undone == Ready => /\ Apply("remove_pointer", Apply("add_pointer", t)) = Apply("remove_reference", t)
                   /\ ~IsRef(t) => Apply("remove_reference", Apply("add_lvalue_reference", t)) = t
                   /\ Apply("remove_cv", t) = Apply("remove_const", Apply("remove_volatile", t))
                   /\ Apply("add_cv", t) = Apply("add_volatile", Apply("add_const", t))
                   /\ IsRef(t) => Apply("add_const", t) = t
                   /\ ~IsRef(t) => Apply("remove_const", Apply("add_const", t)) = Apply("remove_const", t)
Collapse == Ready => /\ Last(Apply("add_lvalue_reference", t)).k = "lref"
                     /\ Last(Apply("add_rvalue_reference", t)).k = (IF Last(t).k = "lref" THEN "lref" ELSE "rref")
Values == Ready => LET d == Apply("decay", t) IN ~IsRef(d) /\ ~IsArray(d) /\ (IsCore(d) => ~d[1].c /\ ~d[1].v) /\ Apply("decay", d) = d
Signs == Ready /\ CanSign(t) => /\ Apply("make_signed", Apply("make_unsigned", t)) = Apply("make_signed", t)
                                /\ Apply("make_unsigned", t) # Apply("make_signed", t)
                                /\ Apply("make_signed", t)[1].c = t[1].c
CommonLaws == hist = <<>> => \A a, b \in Arithmetic : /\ Common(a, b) = Common(b, a) /\ Common(a, a) = a
                                                      /\ Common(a, "ldouble") = "ldouble"
                                                      /\ \A c \in Arithmetic : {a, b, c} \cap {"char", "schar", "uchar", "short", "ushort"} = {} => Common(Common(a, b), c) = Common(a, Common(b, c))
Emit == (Tour /\ Ready) => PrintT("GEN " \o ToJson(<<hist>>))
====================================================================================
