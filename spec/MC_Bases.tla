------------------------------ MODULE MC_Bases ------------------------------
(* C08, C13, C14: builder programs.  A program is a sequence of instructions *)
(* for a stack machine: push a leaf basis, stack the two topmost, add a      *)
(* bias, normalise.  Every basis that can be built within the bound is       *)
(* projected in every environment, by the model and by the implementation.   *)
EXTENDS MC, Bases
CONSTANTS Leaves,      \* the leaf bases available
          Uses,        \* how many pushes a program has at most
          Ops,         \* the other instructions available: subset of {"stack","wb","l0","l1","l2","linf"}
          Len_,        \* length of the program
          Envs         \* the environments

VARIABLES shelf,       \* bases built so far (a stack)
          len          \* instructions so far
vars == <<shelf, len>>

Unary == Ops \ {"stack"}
\* scenario: project the basis in every environment, asking for every component and beyond
Cmd(b, e) == [op |-> "project", b |-> b, in |-> Input(e.x, e.phi, Sorted(e.fail)), ids |-> Ids(NDim(b) + 3)]
Put(sh)   == shelf' = sh /\ len' = len + 1
Init  == shelf = <<>> /\ len = 0
RECURSIVE LeafCount(_)
LeafCount(b) == IF b.k = "stack" THEN LeafCount(b.a) + LeafCount(b.b) ELSE IF Composite(b) THEN LeafCount(b.a) ELSE 1
RECURSIVE Count(_)
Count(sh) == IF sh = <<>> THEN 0 ELSE LeafCount(Head(sh)) + Count(Tail(sh))
Push  == /\ len < Len_ /\ Count(shelf) < Uses
         /\ \E b \in Leaves : Put(<<b>> \o shelf)
Apply == /\ len < Len_ /\ shelf # <<>>
         /\ \E k \in Unary : Put(<<[k |-> k, a |-> shelf[1]]>> \o Tail(shelf))
Stack == /\ len < Len_ /\ Len(shelf) > 1 /\ "stack" \in Ops
         /\ Put(<<[k |-> "stack", a |-> shelf[2], b |-> shelf[1]]>> \o Tail(Tail(shelf)))
Next  == Push \/ Apply \/ Stack \/ (len = Len_ /\ UNCHANGED vars)
Spec  == Init /\ [][Next]_vars

\* every finished program is a scenario (TLC evaluates this once per state)
Replayed == Len(shelf) = 1 => \A e \in Envs : Emit(<<Cmd(shelf[1], e)>>)
E(e)     == [x |-> e.x, phi |-> Build(e.phi), fail |-> e.fail, tiles |-> <<>>]
Top(P(_, _)) == shelf # <<>> => \A e \in Envs : P(shelf[1], E(e))
\* C08
HasContract == Top(Contract)
ByComponent == Top(Separately)
\* C14
FailsFirst == Top(FirstFailure)
Sum        == LET P(b, e) == b.k = "stack" => Concatenation(b.a, b.b, e) IN Top(P)
BiasLast   == LET P(b, e) == b.k = "wb" => LET p == Project(b, e) q == Project(b.a, e) IN p.st = "ok" => Den(p.f) = Den(q.f) \o <<"1">> IN Top(P)
\* C13
Normalised == LET P(b, e) == b.k \in Norms => UnitNorm(b.k, Project(b.a, e)) IN Top(P)

---------------------------------------------------------------------------
P(n)       == [k |-> "phi", n |-> n]
F(n, c)    == [k |-> "fail", n |-> n, c |-> c]
Lim(a, b)  == <<a, b>>
Part(a, b, n) == [lo |-> a, hi |-> b, n |-> n]
Kern       == [k |-> "m32", var |-> "2", ls |-> <<"2">>, pow |-> "1"]
Phis2      == {[c |-> "dense", v |-> <<"2", "-3">>], [c |-> "sparse", n |-> 2, i |-> <<1>>, v |-> <<"-4">>], [c |-> "sparse", n |-> 2, i |-> <<>>, v |-> <<>>]}
EnvOf(phi, fail) == [x |-> <<>>, phi |-> phi, fail |-> fail]

\* C14: user-defined leaves, two of them fallible
LeavesC14 == {P(2), F(1, 1), F(2, 2), [k |-> "bias", c |-> "-2"], [k |-> "fixs", n |-> 3, i |-> <<1>>]}
EnvsC14   == {EnvOf(phi, {}) : phi \in Phis2} \cup {EnvOf([c |-> "dense", v |-> <<"2", "-3">>], {1}), EnvOf([c |-> "sparse", n |-> 2, i |-> <<1>>, v |-> <<"-4">>], {2}),
               EnvOf([c |-> "dense", v |-> <<"0", "1">>], {1, 2})}
\* C13: projections given outright
LeavesC13 == {P(2)}
EnvsC13   == {EnvOf(phi, {}) : phi \in LitsOf({"0", "2", "-3", "0.125"}, 2)}
LeavesC13t == {P(3)}
EnvsC13t  == {EnvOf(phi, {}) : phi \in LitsOf({"0", "2", "-3"}, 3)}
\* C08: every kind of leaf
Cent      == {<<"0">>}
LeavesC08 == {[k |-> "bias", c |-> "3"], [k |-> "fixd", v |-> <<"1", "-2">>], [k |-> "fixs", n |-> 3, i |-> <<0, 2>>], P(2),
              [k |-> "poly", d |-> 1, o |-> 2, z |-> TRUE], [k |-> "four", o |-> 2, lim |-> <<Lim("-1", "3")>>, sp |-> FALSE],
              [k |-> "cheb", o |-> 2, lim |-> <<Lim("-1", "3")>>, z |-> TRUE, sp |-> TRUE],
              \* tables given by the user: repeated, unordered and zero rows
              [k |-> "polyx", e |-> <<<<3>>, <<0>>, <<1>>>>],
              [k |-> "fourx", lim |-> <<Lim("-1", "3")>>, co |-> <<<<"2">>, <<"-0.5">>>>],
              [k |-> "chebx", lim |-> <<Lim("-1", "3")>>, e |-> <<<<4>>, <<0>>, <<4>>>>],
              [k |-> "grid", parts |-> <<Part("-1", "3", 4)>>],
              [k |-> "kern", kern |-> Kern, cent |-> <<<<"0">>, <<"1">>>>, homog |-> TRUE],
              [k |-> "kpart", kk |-> "eq", parts |-> <<Part("-1", "3", 2)>>]}
EnvsC08   == {[x |-> <<x>>, phi |-> phi, fail |-> {}] : x \in {"0.5", "2"}, phi \in {[c |-> "dense", v |-> <<"2", "-3">>], [c |-> "sparse", n |-> 2, i |-> <<1>>, v |-> <<"-4">>]}}
=============================================================================
