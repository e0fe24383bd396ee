------------------------------ MODULE MC_Kernels ------------------------------
(* C12: kernels between lattice points; a walker moves y away from x along one  *)
(* dimension at a time.                                                         *)
EXTENDS MC, Bases
CONSTANTS MaxDims, Steps

VARIABLES K, x, y
vars == <<K, x, y>>
Kinds == {"exp", "m32", "m52", "eq", "cos", "rq"}
Ls(d) == {<<"1.5">>, SubSeq(<<"0.5", "2", "3">>, 1, d), SubSeq(<<"4", "1", "0.75">>, 1, d)}
Xs(d) == {[k \in 1..d |-> "0"], SubSeq(<<"-1", "0.5", "2">>, 1, d)}
Ctor(d, k) == IF Len(k.ls) = 1 /\ d # 1 THEN "non_ard" ELSE "new"
Cmd(k, a, b) == <<[op |-> "kern", kern |-> k, ctor |-> Ctor(Len(a), k), x |-> a, y |-> b]>>
\* the same kernel as a basis over several prototypes
Basis_(k, a) == LET c == <<a, [i \in DOMAIN a |-> Add(a[i], "0.25")], [i \in DOMAIN a |-> OfInt(i)]>> IN
               <<[op |-> "project", b |-> [k |-> "kern", kern |-> k, cent |-> c, homog |-> FALSE], in |-> Input(a, NoPhi, <<>>), ids |-> Ids(5)]>>

Init == \E d \in 1..MaxDims : \E kk \in Kinds, ls \in Ls(d), a \in Xs(d), var \in {"1", "2.5"} :
  /\ K = [k |-> kk, var |-> var, ls |-> ls, pow |-> IF var = "1" THEN "1" ELSE "1.5"]
  /\ x = a /\ y = a
Away == \E k \in DOMAIN x :
  /\ Lt(Sub(y[k], x[k]), OfInt(Steps))
  /\ y' = [y EXCEPT ![k] = Add(y[k], "1")]
  /\ UNCHANGED <<K, x>>
Next == Away \/ ((\A k \in DOMAIN x : ~Lt(Sub(y[k], x[k]), OfInt(Steps))) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* every state is a scenario (TLC evaluates this once per state)
Replayed == Emit(Cmd(K, x, y)) /\ (x = y => Emit(Basis_(K, x)))
Shape == KernelShape(K, x, y)
\* every dimension counts: a step away in any one strictly decreases the kernel
Decreases == [][K.k # "cos" => Lt(Kernel(K, x, y'), Kernel(K, x, y))]_y
\* with a single lengthscale the kernel is invariant under exchanging dimensions
Rev(a) == [i \in DOMAIN a |-> a[Len(a) + 1 - i]]
Isotropic == Len(K.ls) = 1 => Close(Kernel(K, x, y), Kernel(K, Rev(x), Rev(y)), "1e-20")
=============================================================================
