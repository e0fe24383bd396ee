------------------------------- MODULE MC_Vast -------------------------------
(* Vast: what is done to a quotient is done to the vector it stands for.        *)
(* All shapes and pairs of vectors of the given size; the scenarios have every  *)
(* index multiplied by Scale, which leaves the cells what they are.             *)
EXTENDS MC, Vast
CONSTANTS Sets,        \* the shapes, by name: "one" segment, "two" segments, "more"
          Asks,        \* what the implementation is asked for
          V, V2,       \* the values of f, and those of g (none: g is f)
          Scale, Most

AskRead == <<"read">>  AskLin == <<"lin">>  AskMap == <<"map">>  AskMerge == <<"merge">>  AskStack == <<"stack">>
AskEdit == <<"edit">>  AskInject == <<"inject">>  AskEq == <<"eq">>  AskSave == <<"save">>  AskBase == <<"base">>

VARIABLES sh, f, g, done
vars == <<sh, f, g, done>>

Sh(p, c, a)  == [p |-> p, cuts |-> c, at |-> a]
\* in the last one the first cell has no members
Shapes(s) ==
  CASE s = "one" -> {Sh(1, <<3>>, <<2>>), Sh(2, <<5>>, <<4>>), Sh(2, <<4>>, <<1, 3>>), Sh(1, <<1>>, <<0>>)}
    [] s = "two" -> {Sh(1, <<2, 3>>, <<1>>), Sh(1, <<1, 2>>, <<0>>)}
    [] s = "more" -> {Sh(2, <<4, 6>>, <<3>>), Sh(3, <<8>>, <<7>>), Sh(1, <<2, 4, 5>>, <<1, 3>>)}
Dims(s)      == {NCells(s, q) : q \in 1..Len(s.cuts)}
LitsFor(s, v) == UNION {LitsOf(v, n) : n \in Dims(s)}
\* the same shape, with every index multiplied
Big(s) == [p |-> s.p, cuts |-> [k \in DOMAIN s.cuts |-> s.cuts[k] * Scale],
           at |-> [k \in DOMAIN s.at |-> s.at[k] * Scale + IF \E c \in DOMAIN s.cuts : s.cuts[c] = s.at[k] + 1 THEN Scale - 1 ELSE 0]]
Lits1(k) == [j \in 1..k |-> IF j % 2 = 1 THEN "1.5" ELSE "-2"]
Fns  == <<[k |-> "neg"], [k |-> "sq"], [k |-> "aff", a |-> "2", b |-> "0"], [k |-> "aff", a |-> "2", b |-> "1"], [k |-> "const", b |-> "3"]>>
Fns2 == <<[k |-> "add"], [k |-> "mul"], [k |-> "max"], [k |-> "left"], [k |-> "right"], [k |-> "aff", a |-> "1", b |-> "-1", c |-> "1"]>>
Fmts == <<"json", "bin", "clone", "stream", "value">>
Mix(t)     == IF t.c = "dense" THEN Len(t.v) + Cardinality({k \in DOMAIN t.v : t.v[k] = "1"}) ELSE 2 * Len(t.i) + t.n
Pick(s)    == s[((Mix(f) * 3 + Mix(g)) % Len(s)) + 1]
NumCells(t) == IF t.c = "dense" THEN Len(t.v) ELSE t.n
Call ==
  LET k == NumCells(f)  n == Size(Big(sh), k) IN
  [op |-> "vast", sh |-> Big(sh), f |-> f, g |-> g, h |-> g, fn |-> Pick(Fns), fn2 |-> Pick(Fns2), fmt |-> Pick(Fmts),
   ask |-> Asks, k |-> 1 + (Mix(g) * Scale) \div 2, w |-> Lits1(k), m |-> <<Lits1(k), [j \in 1..k |-> "0.25"]>>,
   lay |-> Pick(<<"std", "rev", "stride", "slice", "col">>), mlay |-> Pick(<<"c", "f", "wide", "flip", "tall">>), alpha |-> "-0.5",
   rem |-> <<Big(sh).at[1], n, n + 65536>>]
\* the operation is one that may be asked for with this pair
Askable == /\ "lin" \in Range(Asks)   => NumCells(g) = NumCells(f)
           /\ {"merge", "inject"} \cap Range(Asks) # {} => MergeOk(Build(f), Build(g))
           /\ "eq" \in Range(Asks)    => Build(f).r = Build(g).r

Init == /\ sh \in UNION {Shapes(s) : s \in Sets}
        /\ f \in LitsFor(sh, V) /\ g \in (IF V2 = {} THEN {f} ELSE LitsFor(sh, V2)) /\ done = FALSE
Do   == ~done /\ done' = TRUE /\ UNCHANGED <<sh, f, g>>
        /\ IF Askable /\ (Mix(f) * 7 + Mix(g) * 5 + sh.p + Len(sh.at)) % Most = 0 THEN Emit(<<Call>>) ELSE TRUE
Next == Do \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* a shape for the first of the given segments followed by those again
TwiceSh(F, G) ==
  LET n == Size(sh, F.n)  q == Segments(sh, F.n)  r == Segments(sh, G.n) IN
  [w |-> Weights(sh, F.n) \o Weights(sh, G.n), n |-> n + Size(sh, G.n)]
\* where the component i of F stacked on G comes from
StackCell(F, G, i) == LET n == Size(sh, F.n) IN IF i < n THEN CellAt(sh, i) ELSE F.n + CellAt(sh, i - n)
SumOn(t)     == SumN(Strict([k \in 1..t.n |-> At(t, k - 1)]))
Same(a, b)   == a.r = b.r /\ a.n = b.n /\ Active(a) = Active(b) /\ \A i \in Active(a) : EqN(At(a, i), At(b, i))

Expand(F, v) == LET n == Size(sh, F.n) IN Strict([k \in 1..n |-> v[CellAt(sh, k - 1) + 1]])
\* the cells are what they are said to be: as many members as the weights say, and constant under scaling
CellsAre ==
  \A q \in DOMAIN sh.cuts : LET k == NCells(sh, q)  w == Weights(sh, k) IN
  /\ Size(sh, k) = sh.cuts[q] /\ Len(w) = k
  /\ \A c \in 1..k : w[c] = Cardinality({i \in 0..(sh.cuts[q] - 1) : CellAt(sh, i) = c - 1})
  /\ \A j \in DOMAIN sh.at : CellAt(Big(sh), Big(sh).at[j]) = CellAt(sh, sh.at[j])
  /\ NCells(Big(sh), q) = k
Transported ==
  LET F == Build(f)  G == Build(g)  U(h) == Up(sh, h)  w == Weights(sh, F.n) IN
  /\ \A k \in DOMAIN Fns  : Same(U(MapF(F, Fns[k])), MapF(U(F), Fns[k]))
  /\ MergeOk(F, G) => \A k \in DOMAIN Fns2 : Same(U(MergeF(F, G, Fns2[k])), MergeF(U(F), U(G), Fns2[k]))
  /\ \A s \in {StackF(F, G)} : \A S \in {StackF(U(F), U(G))} :
       /\ S.r = s.r /\ S.n = TwiceSh(F, G).n
       /\ \A i \in 0..(S.n - 1) : EqN(At(S, i), At(s, StackCell(F, G, i))) /\ (i \in Active(S) <=> StackCell(F, G, i) \in Active(s))
       /\ EqN(VSum(TwiceSh(F, G).w, s), SumF(S))
  /\ \A j \in DOMAIN sh.at : sh.at[j] < Size(sh, F.n) => Same(U(RemoveF(F, CellAt(sh, sh.at[j]))), RemoveF(U(F), sh.at[j]))
  /\ Same(U(AsDense(F)), AsDense(U(F))) /\ Same(U(AsSparse(F)), AsSparse(U(F)))
  /\ EqN(VSum(w, F), SumF(U(F))) /\ EqN(VSumSq(w, F), SumSq(U(F))) /\ VNActive(w, F) = NActive(U(F))
  /\ \A k \in Norms : EqN(VNorm(k, w, F), NormOf(k, U(F)))
  /\ \A d \in {Strict([k \in 1..F.n |-> Lits1(F.n)[k]])} : EqN(VDot(w, F, d), DotW(U(F), Expand(F, d)))
  /\ F.n = G.n => EqN(VDot(w, F, Den(G)), DotF(U(F), U(G)))
  /\ F.r = G.r /\ F.n = G.n => (VEqual(w, F, G) <=> EqualF(U(F), U(G)))

\* two steps of every optimiser, along f and along g
Opts == {[k |-> "sgd", lr |-> "0.5"], [k |-> "isgd", lr |-> "3"], [k |-> "mom", lr |-> "0.5", mu |-> "0.75"], [k |-> "nag", lr |-> "0.5", mu |-> "0.75"],
         [k |-> "adagrad", lr |-> "0.5"], [k |-> "adam", lr |-> "0.25", b1 |-> "0.5", b2 |-> "0.75"], [k |-> "adamax", lr |-> "0.25", b1 |-> "0.5", b2 |-> "0.75"]}
Stepped ==
  LET F == Build(f)  G == Build(g)  w == Weights(sh, F.n)  n == Size(sh, F.n) IN
  F.n = G.n => \A o \in Opts :
    \E a \in {VStep(o, OptInit(o, F.n), w, F, "-2")} : \E A \in {OptStep(o, OptInit(o, n), Up(sh, F), "-2")} :
      /\ \A i \in 1..n : EqN(A.d[i], Expand(F, a.d)[i])
      /\ \E b \in {VStep(o, a.s, w, G, "0.5")} : \E B \in {OptStep(o, A.s, Up(sh, G), "0.5")} :
           \A i \in 1..n : EqN(B.d[i], Expand(F, b.d)[i])
=============================================================================
