------------------------------ MODULE MC_Terms ------------------------------
(* C09: the enumeration of terms, as an odometer: degrees are stepped through *)
(* in lexicographic order, the last input's degree fastest, and every state   *)
(* must be the term with that number.  Replayed: every basis within the       *)
(* bounds, projected at the inputs Xs.                                        *)
EXTENDS MC, Bases
CONSTANTS MaxOrder, MaxDims, MaxTerms

VARIABLES o, d, deg, j
vars == <<o, d, deg, j>>

\* inputs: distinct values in every dimension, so that exchanged dimensions or degrees show
XPoly == <<"1.5", "-2", "0.5", "3">>
XNum  == <<"0.25", "-0.75", "1", "2.5">>
Lims  == <<<<"-1", "1">>, <<"-2", "3">>, <<"0", "4">>, <<"1", "2">>>>
Take(s, n) == SubSeq(s, 1, n)
Num0   == Take(<<"0", "0", "0", "0">>, d)
Basis_(k, z, sp) ==
  IF k = "poly" THEN [k |-> k, d |-> d, o |-> o, z |-> z]
  ELSE IF k = "cheb" THEN [k |-> k, o |-> o, lim |-> Take(Lims, d), z |-> z, sp |-> sp]
  ELSE [k |-> k, o |-> o, lim |-> Take(Lims, d), sp |-> sp]
Xs(k)  == IF k = "poly" THEN {Take(XPoly, d), Take(XNum, d), Num0} ELSE {Take(XNum, d), Num0, Take(<<"0.5", "0.5", "1", "1.5">>, d)}
Bound(k) == IF k = "cheb" THEN o <= 11 ELSE TRUE
Probe(b) == LET n == NDim(b) IN Sorted({i \in {0, 1, n \div 2, n - 2, n - 1, n, n + 1} : i >= 0})
Cmds(k, z, sp) == {<<[op |-> "project", b |-> Basis_(k, z, sp), in |-> Input(x, NoPhi, <<>>), ids |-> Probe(Basis_(k, z, sp))]>> : x \in Xs(k)}
Replay == \A k \in {"poly", "four", "cheb"} : \A z \in BOOLEAN :
             (k = "four" /\ z) \/ ~Bound(k) \/ \A c \in Cmds(k, z, z) : Emit(c)

Init == /\ o \in 0..MaxOrder /\ d \in 1..MaxDims /\ Power(o + 1, d) <= MaxTerms
        /\ deg = [k \in 1..d |-> 0] /\ j = 0
\* the odometer: the last degree that can grow does, those after it restart
Succ(t) == LET i == CHOOSE k \in DOMAIN t : t[k] < o /\ \A h \in (k + 1)..Len(t) : t[h] = o
           IN [k \in DOMAIN t |-> IF k < i THEN t[k] ELSE IF k = i THEN t[k] + 1 ELSE 0]
More == \E k \in DOMAIN deg : deg[k] < o
Tick == /\ More /\ (j = 0 => Replay)
        /\ deg' = Succ(deg) /\ j' = j + 1 /\ UNCHANGED <<o, d>>
Last == /\ ~More /\ (j = 0 => Replay) /\ UNCHANGED vars
Next == Tick \/ Last
Spec == Init /\ [][Next]_vars

Numbered  == j > 0 => deg = Digits(j, o + 1, d)
Complete  == ~More => j = Terms01(o + 1, d)
Ordered   == [][LexLess(deg, deg')]_deg
Listing   == j = 0 => Enumeration(o, d)
Dims      == j = 0 => /\ NDim([k |-> "poly", d |-> d, o |-> o, z |-> TRUE]) = Terms01(o + 1, d) + 1
\* the j-th feature is the product, cosine or Chebyshev product its degrees say
Feature ==
  j > 0 =>
  LET x == Take(XPoly, d)  env == [x |-> x]
      s == [i \in 1..d |-> Rescale(Lims[i], x[i])]
      p == Project(Basis_("poly", FALSE, FALSE), env)  f == Project(Basis_("four", FALSE, FALSE), env) IN
  /\ EqN(p.f.v[j], ProdN([i \in 1..d |-> PowN(x[i], deg[i])]))
  /\ Close(f.f.v[j], Cos(Mul(Pi, SumN([i \in 1..d |-> Mul(OfInt(deg[i]), s[i])]))), "1e-20")
  /\ o <= 11 =>
       LET c == Project(Basis_("cheb", FALSE, FALSE), env) IN
       EqN(c.f.v[j], ProdN([i \in 1..d |-> Cheb(deg[i], Sub(Mul("2", s[i]), "1"))]))
\* Chebyshev polynomials are those of the first kind: T_n(cos t) = cos(n t)
FirstKind == j = 0 /\ d = 1 => \A t \in {"0.3", "1.1", "2.9"} : Close(Cheb(o, Cos(t)), Cos(Mul(OfInt(o), t)), "1e-25")
=============================================================================
