----------------------------- MODULE MC_Features -----------------------------
(* C01-C05: every call of one operation on all small feature vectors.        *)
(* The operations as the code works (on representations) must have their     *)
(* meaning on denotations; every call is replayed on the implementation.     *)
EXTENDS MC
CONSTANTS Op,      \* which operation
          Size,    \* largest number of features
          V        \* activations

VARIABLES call, done
vars == <<call, done>>

W4   == <<"3", "-5", "0.5", "7">>
Col4 == <<"1", "10", "-100", "1000">>
Take(s, n) == SubSeq(s, 1, n)
Lays  == {"std", "rev", "stride", "slice", "col"}
MLays == <<"c", "f", "wide", "flip">>

Constructed ==
  Lits(V, Size)
  \cup {[c |-> k, v |-> v] : k \in {"vec", "iter"}, v \in UpTo(V, Size)}
  \cup {[c |-> "array", v |-> v, lay |-> y] : v \in UpTo(V, Size), y \in {"std", "rev", "stride", "slice"}}
  \cup UNION {{[f EXCEPT !.c = "record"] : f \in SparseLits(V, n)} : n \in 0..Size}
  \cup UNION {{[c |-> "unitary", n |-> n, i |-> Sorted(S)] : S \in SUBSET (0..(n - 1))} : n \in 0..Size}
  \cup {[c |-> "indices", i |-> Sorted(S)] : S \in SUBSET (0..Size)}
\* around the activity threshold 1e-7
Tiny == {[c |-> "dense", v |-> v] : v \in Tuples({"1e-7", "-1e-7", "1.01e-7", "-1.01e-7", "0.99e-7"}, 1)}

B(a, b) == [k |-> "aff", a |-> a, b |-> b]
Fns1 == {B("2", "0"), B("-1", "1"), B("1", "0.00000999"), B("0", "-1e-5"), B("3", "1.01e-5"),
         [k |-> "sq"], [k |-> "abs"], [k |-> "neg"], [k |-> "gate", a |-> "0", b |-> "0"], [k |-> "gate", a |-> "-1", b |-> "4"],
         [k |-> "cos"], [k |-> "exp"], [k |-> "const", b |-> "0"], [k |-> "const", b |-> "-2"], [k |-> "id"]}
A(a, b, c) == [k |-> "aff", a |-> a, b |-> b, c |-> c]
Fns2 == {[k |-> "add"], [k |-> "sub"], [k |-> "mul"], [k |-> "max"], [k |-> "min"], [k |-> "left"], [k |-> "right"],
         [k |-> "sqd"], [k |-> "and"], [k |-> "or"], [k |-> "nand", c |-> "1"],
         A("2", "-1", "0"), A("1", "1", "1"), A("1", "-2", "0.00000999"), A("0", "1", "-1.01e-5")}

Calls ==
  CASE Op = "read"  -> {[op |-> "read", f |-> f] : f \in Constructed \cup Tiny}
    [] Op = "lin"   -> UNION {{[op |-> "lin", f |-> f, g |-> g, w |-> Take(W4, n), lay |-> y,
                                m |-> [j \in 1..k |-> Take(Col4, n)], mlay |-> MLays[k + 1], alpha |-> IF k = 2 THEN "0" ELSE "-2"]
                               : f \in LitsOf(V, n), g \in LitsOf(V, n), <<k, y>> \in {<<0, "std">>, <<1, "rev">>, <<2, "stride">>, <<3, "col">>, <<1, "slice">>}}
                              : n \in 0..Size}
    [] Op = "map"   -> {[op |-> "map", f |-> f, fn |-> g] : f \in Lits(V, Size), g \in Fns1}
    [] Op = "merge" -> {c \in {[op |-> "merge", f |-> f, g |-> h, fn |-> g] : f \in Lits(V, Size), h \in Lits(V, Size), g \in Fns2}
                          : MergeOk(Build(c.f), Build(c.g))}
    [] Op = "eq" -> {c \in {[op |-> "feq", f |-> f, g |-> h] : f \in Lits(V, Size), h \in Lits(V, Size)} : Comparable(Build(c.f), Build(c.g))}
    [] Op = "stack" -> {[op |-> "stack", f |-> f, g |-> g, h |-> h] : f \in Lits(V, Size), g \in Lits(V, Size),
                          h \in {[c |-> "dense", v |-> <<"7">>], [c |-> "sparse", n |-> 3, i |-> <<2>>, v |-> <<"-4">>], [c |-> "sparse", n |-> 0, i |-> <<>>, v |-> <<>>]}}

Init == call \in Calls /\ done = FALSE
Do   == /\ ~done /\ done' = TRUE /\ UNCHANGED call
        /\ Emit(<<call>>)
Next == Do \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Meaning ==
  LET f == Build(call.f) IN
  CASE Op = "read"  -> ReadsAsVector(f)
    [] Op = "lin"   -> LinearAlgebra(f, Build(call.g), call.w, call.alpha)
    [] Op = "map"   -> MapMeaning(f, call.fn)
    [] Op = "merge" -> MergeMeaning(f, Build(call.g), call.fn)
    [] Op = "eq"    -> \A l \in Lits(V, 1) : EqualMeaning(f, Build(call.g), Build(l))
    [] Op = "stack" -> StackMeaning(f, Build(call.g), Build(call.h))
=============================================================================
