------------------------------ MODULE Features ------------------------------
(***************************************************************************)
(* Feature vectors (src/features.rs).                                      *)
(*                                                                         *)
(* A feature vector has a representation:                                  *)
(*    dense   [r |-> "d", n |-> length,  v |-> sequence of numerals]       *)
(*    sparse  [r |-> "s", n |-> dim,     a |-> function: index -> numeral] *)
(* (indices count from 0, as in the code; DOMAIN a is the set of listed,   *)
(* "active", entries) and a denotation, Den(f): the vector in Real^n.      *)
(*                                                                         *)
(* The operations are specified on representations, the way the code       *)
(* works.  The section "Properties" states what they must mean on          *)
(* denotations; MC_Features checks that the operations have them, and the  *)
(* trace specification checks the code against both.                       *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

Dense(v)     == [r |-> "d", n |-> Len(v), v |-> Strict(v)]
Sparse(n, a) == [r |-> "s", n |-> n, a |-> Strict(a)]
IsDense(f)   == f.r = "d"
IsSparse(f)  == f.r = "s"

Active(f)    == IF IsDense(f) THEN 0..(f.n - 1) ELSE DOMAIN f.a
At(f, i)     == IF IsDense(f) THEN f.v[i + 1]
                ELSE IF i \in DOMAIN f.a THEN f.a[i] ELSE "0"
Den(f)       == IF IsDense(f) THEN f.v ELSE Strict([k \in 1..f.n |-> IF (k - 1) \in DOMAIN f.a THEN f.a[k - 1] ELSE "0"])
Range(s)     == {s[k] : k \in DOMAIN s}
SeqMax(s)    == LET m[j \in 0..Len(s)] == IF j = 0 THEN 0 ELSE LET p == m[j - 1] IN IF s[j] > p THEN s[j] ELSE p IN m[Len(s)]
MaxI(a, b)   == IF a >= b THEN a ELSE b

\* the values a sparse vector lists / a dense vector holds, as a sequence
RECURSIVE Values(_, _)
Values(a, S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE x \in S : TRUE IN <<a[i]>> \o Values(a, S \ {i})
ListOf(a)    == Values(a, DOMAIN a)
Entries(f)   == IF IsDense(f) THEN f.v ELSE ListOf(f.a)

---------------------------------------------------------------------------
(* Construction.  A literal says through which constructor a vector is     *)
(* built; Build gives the vector it must denote.                           *)
MkFun(ks, vs) == [k \in Range(ks) |-> vs[CHOOSE j \in DOMAIN ks : ks[j] = k /\ \A h \in DOMAIN ks : ks[h] = k => h <= j]]
MkOnes(ks)    == [k \in Range(ks) |-> "1"]
Build(t) ==
  CASE t.c \in {"dense", "vec", "iter", "array"} -> Dense(t.v)
    [] t.c \in {"sparse", "record"}              -> Sparse(t.n, MkFun(t.i, t.v))
    [] t.c = "unitary"                           -> Sparse(t.n, MkOnes(t.i))
    [] t.c = "indices"                           -> Sparse(IF t.i = <<>> THEN 0 ELSE 1 + SeqMax(t.i), MkOnes(t.i))

\* a snapshot taken from the code: {r:"d",n,v} or {r:"s",n,i,v}
OfSnap(s) == IF s.r = "d" THEN [r |-> "d", n |-> s.n, v |-> s.v] ELSE Sparse(s.n, MkFun(s.i, s.v))

---------------------------------------------------------------------------
(* Scalar functions handed to map and merge, by name; the harness          *)
(* implements the same table as closures.                                  *)
Fn1(g, x) ==
  CASE g.k = "id"     -> Canon(x)
    [] g.k = "aff"    -> Add(Mul(g.a, x), g.b)
    [] g.k = "neg"    -> Neg(x)
    [] g.k = "sq"     -> Mul(x, x)
    [] g.k = "abs"    -> Abs(x)
    [] g.k = "cos"    -> Cos(x)
    [] g.k = "exp"    -> Exp(x)
    [] g.k = "const"  -> Canon(g.b)
    [] g.k = "gate"   -> IF Lt(g.a, x) THEN Canon(x) ELSE Canon(g.b)
    [] g.k = "recip"  -> Div("1", x)
    [] g.k = "self"   -> Div(x, x)
Fn2(g, x, y) ==
  CASE g.k = "add"    -> Add(x, y)
    [] g.k = "sub"    -> Sub(x, y)
    [] g.k = "mul"    -> Mul(x, y)
    [] g.k = "max"    -> MaxN(x, y)
    [] g.k = "min"    -> MinN(x, y)
    [] g.k = "left"   -> Canon(x)
    [] g.k = "right"  -> Canon(y)
    [] g.k = "aff"    -> Add(Add(Mul(g.a, x), Mul(g.b, y)), g.c)
    [] g.k = "sqd"    -> Mul(Sub(x, y), Sub(x, y))
    [] g.k = "and"    -> IF IsZero(x) THEN "0" ELSE Canon(y)
    [] g.k = "or"     -> IF IsZero(x) THEN Canon(y) ELSE Canon(x)
    [] g.k = "nand"   -> IF IsZero(x) /\ IsZero(y) THEN Canon(g.c) ELSE "0"
    [] g.k = "div"    -> Div(x, y)
\* magnitude of the terms a closure adds up: its f64 rounding error is relative to it
Scale1(g, x)    == IF g.k = "aff" THEN Add(Abs(Mul(g.a, x)), Abs(g.b)) ELSE IF g.k \in {"cos"} THEN MaxN("1", Abs(x)) ELSE "0"
Scale2(g, x, y) == IF g.k \in {"add", "sub"} THEN Add(Abs(x), Abs(y))
                   ELSE IF g.k = "aff" THEN Add(Add(Abs(Mul(g.a, x)), Abs(Mul(g.b, y))), Abs(g.c))
                   ELSE IF g.k = "sqd" THEN Mul(Add(Abs(x), Abs(y)), Add(Abs(x), Abs(y))) ELSE "0"

\* "maps zero(s) to a negligible value": such an operation keeps sparse vectors sparse
Threshold     == "1e-5"
Negligible(z) == Lt(Abs(z), Threshold)

---------------------------------------------------------------------------
(* Operations on representations.                                          *)
MapF(f, g) ==
  IF IsDense(f) THEN Dense([k \in 1..f.n |-> Fn1(g, f.v[k])])
  ELSE LET null == Fn1(g, "0") IN
       IF Negligible(null)
       THEN Sparse(f.n, [i \in DOMAIN f.a |-> Fn1(g, f.a[i])])
       ELSE Dense([k \in 1..f.n |-> IF (k - 1) \in DOMAIN f.a THEN Fn1(g, f.a[k - 1]) ELSE null])

ZeroAt(f, i) == IF i < f.n THEN At(f, i) ELSE "0"        \* zero-padded reading
Padded(f, h, g) == LET m == MaxI(f.n, h.n) IN Dense([k \in 1..m |-> Fn2(g, ZeroAt(f, k - 1), ZeroAt(h, k - 1))])
MergeOk(f, h) == IsDense(f) /\ IsDense(h) => f.n = h.n   \* the only precondition
MergeF(f, h, g) ==
  IF IsSparse(f) /\ IsSparse(h) /\ Negligible(Fn2(g, "0", "0"))
  THEN Sparse(MaxI(f.n, h.n), [i \in DOMAIN f.a \cup DOMAIN h.a |-> Fn2(g, At(f, i), At(h, i))])
  ELSE Padded(f, h, g)

StackF(f, h) ==
  IF IsSparse(f) /\ IsSparse(h)
  THEN Sparse(f.n + h.n, [i \in DOMAIN f.a \cup {f.n + j : j \in DOMAIN h.a} |-> IF i < f.n THEN f.a[i] ELSE h.a[i - f.n]])
  ELSE Dense(Den(f) \o Den(h))

RemoveF(f, i) ==
  IF IsDense(f) THEN IF i < f.n THEN [f EXCEPT !.v[i + 1] = "0"] ELSE f
  ELSE Sparse(f.n, [j \in DOMAIN f.a \ {i} |-> f.a[j]])

NActive(f) == IF IsDense(f) THEN Cardinality({k \in 1..f.n : Lt("1e-7", Abs(f.v[k]))}) ELSE Cardinality(DOMAIN f.a)

SumF(f)      == SumN(Entries(f))
SumSq(f)     == LET e == Entries(f) IN SumN([k \in DOMAIN e |-> Mul(e[k], e[k])])
\* sum over the entries of one operand, as the code does
Terms(f, w)  == Entries(Sparse(f.n, [i \in Active(f) |-> Mul(At(f, i), w[i + 1])]))
DotW(f, w)   == SumN(Terms(f, w))
DotF(f, h)   == IF IsSparse(h) THEN DotW(h, Den(f)) ELSE DotW(f, Den(h))
ScaledAdd(f, alpha, w) == [k \in DOMAIN w |-> IF (k - 1) \in Active(f) THEN Add(w[k], Mul(alpha, At(f, k - 1))) ELSE w[k]]

---------------------------------------------------------------------------
(* Comparison up to f64 rounding.                                          *)
\* sc: the magnitude rounding is relative to, component by component; <<>>: zero throughout
ScAt(sc, k)  == IF sc = <<>> THEN "0" ELSE sc[k]
CloseSeq(a, b, sc) == /\ Len(a) = Len(b)
                      /\ \A k \in DOMAIN a : Close(a[k], b[k], ScAt(sc, k))
Zeros(n)     == Strict([k \in 1..n |-> "0"])
Const(n, c)  == Strict([k \in 1..n |-> c])
\* same representation, length and listed entries, components close
SameF(f, h, sc) ==
  /\ f.r = h.r /\ f.n = h.n
  /\ IF IsDense(f) THEN CloseSeq(f.v, h.v, sc)
     ELSE /\ DOMAIN f.a = DOMAIN h.a
          /\ \A i \in DOMAIN f.a : Close(f.a[i], h.a[i], ScAt(sc, i + 1))
\* equal component by component, with no allowance
ExactF(f, h) ==
  /\ f.r = h.r /\ f.n = h.n
  /\ IF IsDense(f) THEN \A k \in 1..f.n : EqN(f.v[k], h.v[k])
     ELSE DOMAIN f.a = DOMAIN h.a /\ \A i \in DOMAIN f.a : EqN(f.a[i], h.a[i])

\* what == answers, for two vectors of one representation (it is not defined across representations)
Comparable(f, h) == f.r = h.r
EqualF(f, h)     == ExactF(f, h)

MapScale(f, g)      == LET d == Den(f) IN Strict([k \in 1..f.n |-> Scale1(g, d[k])])
MergeScale(f, h, g) == [k \in 1..MaxI(f.n, h.n) |-> Scale2(g, ZeroAt(f, k - 1), ZeroAt(h, k - 1))]

---------------------------------------------------------------------------
(* Properties, on denotations.                                             *)
VecDot(u, w) == SumN([k \in DOMAIN u |-> Mul(u[k], w[k])])
EqSeq(a, b)  == Len(a) = Len(b) /\ \A k \in DOMAIN a : EqN(a[k], b[k])

\* C23: equality is an equivalence, finer than (for dense vectors: the same as) equality of denotations
EqualMeaning(f, h, k) ==
  /\ EqualF(f, f)
  /\ EqualF(f, h) <=> EqualF(h, f)
  /\ EqualF(f, h) /\ EqualF(h, k) => EqualF(f, k)
  /\ EqualF(f, h) => f.n = h.n /\ EqSeq(Den(f), Den(h))
  /\ IsDense(f) /\ IsDense(h) /\ EqSeq(Den(f), Den(h)) => EqualF(f, h)
  /\ IsSparse(f) /\ IsSparse(h) /\ f.n = h.n /\ Active(f) = Active(h) /\ EqSeq(Den(f), Den(h)) => EqualF(f, h)
\* C01
ReadsAsVector(f) ==
  /\ Len(Den(f)) = f.n
  /\ \A i \in 0..(f.n - 1) : At(f, i) = Den(f)[i + 1]
  /\ EqN(SumF(f), SumN(Den(f)))
  /\ EqN(SumSq(f), VecDot(Den(f), Den(f)))
  /\ NActive(f) <= f.n
\* C02
LinearAlgebra(f, h, w, alpha) ==
  /\ EqN(DotW(f, w), VecDot(Den(f), w))
  /\ EqN(DotF(f, h), VecDot(Den(f), Den(h)))
  /\ EqN(DotF(f, h), DotF(h, f))
  /\ EqSeq(ScaledAdd(f, alpha, w), [k \in DOMAIN w |-> Add(w[k], Mul(alpha, Den(f)[k]))])
  /\ \A k \in DOMAIN w : IsZero(Den(f)[k]) => ScaledAdd(f, alpha, w)[k] = w[k] \/ EqN(ScaledAdd(f, alpha, w)[k], w[k])
\* C03
MapMeaning(f, g) ==
  LET h == MapF(f, g) IN
  /\ h.n = f.n
  /\ IsSparse(h) <=> IsSparse(f) /\ Negligible(Fn1(g, "0"))
  /\ \A k \in 1..f.n : EqN(Den(h)[k], IF IsSparse(h) /\ (k - 1) \notin DOMAIN f.a THEN "0" ELSE Fn1(g, Den(f)[k]))
\* C04
MergeMeaning(f, h, g) ==
  MergeOk(f, h) =>
  LET m == MergeF(f, h, g) IN
  /\ m.n = MaxI(f.n, h.n)
  /\ IsSparse(m) <=> IsSparse(f) /\ IsSparse(h) /\ Negligible(Fn2(g, "0", "0"))
  /\ \A k \in 1..m.n : LET x == ZeroAt(f, k - 1) y == ZeroAt(h, k - 1) IN
       EqN(Den(m)[k], IF IsSparse(m) /\ (k - 1) \notin Active(f) \cup Active(h) THEN "0" ELSE Fn2(g, x, y))
\* C05
StackMeaning(f, h, m) ==
  LET s == StackF(f, h) IN
  /\ s.n = f.n + h.n
  /\ Den(s) = Den(f) \o Den(h)
  /\ IsSparse(s) <=> IsSparse(f) /\ IsSparse(h)
  /\ \A j \in 0..(h.n - 1) : At(s, f.n + j) = At(h, j)
  /\ StackF(StackF(f, h), m) = StackF(f, StackF(h, m))
\* C06 (removal)
RemoveMeaning(f, i) ==
  LET h == RemoveF(f, i) IN
  /\ h.n = f.n /\ h.r = f.r
  /\ \A k \in 1..f.n : Den(h)[k] = IF k - 1 = i THEN "0" ELSE Den(f)[k]
=============================================================================
