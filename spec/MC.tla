--------------------------------- MODULE MC ---------------------------------
(* What the bounded models share: finite sets of literals, and writing a    *)
(* behaviour out as a scenario for the implementation.                      *)
EXTENDS Features, Json

\* sequences of length n, and of length at most n, over S (as tuples)
RECURSIVE Tuples(_, _)
Tuples(S, n)   == IF n = 0 THEN {<<>>} ELSE {Append(t, x) : t \in Tuples(S, n - 1), x \in S}
UpTo(S, n)     == UNION {Tuples(S, k) : k \in 0..n}
\* a set of integers as an increasing sequence
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE a \in S : \A b \in S : a <= b IN <<x>> \o Sorted(S \ {x})
Ids(n)    == Sorted(0..(n - 1))

DenseLits(V, n)  == {[c |-> "dense", v |-> v] : v \in Tuples(V, n)}
SparseLits(V, n) == UNION {{[c |-> "sparse", n |-> n, i |-> Sorted(S), v |-> v] : v \in Tuples(V, Cardinality(S))} : S \in SUBSET (0..(n - 1))}
Lits(V, n)       == UNION {DenseLits(V, k) \cup SparseLits(V, k) : k \in 0..n}
LitsOf(V, n)     == DenseLits(V, n) \cup SparseLits(V, n)

\* one behaviour (a sequence of commands) for the implementation to follow
Emit(cmds) == PrintT("SCN " \o ToJson(cmds))
NoPhi      == [c |-> "dense", v |-> <<>>]
Input(x, phi, fail) == [x |-> x, phi |-> phi, fail |-> fail]
=============================================================================
