-------------------------------- MODULE Optim --------------------------------
(***************************************************************************)
(* Optimisers (src/optim/): their state and what one step does.            *)
(*                                                                         *)
(* An optimiser is described by o: k plus lr (learning rate), mu           *)
(* (momentum), b1, b2 (decay rates), lim (flaky only).  Its state is a     *)
(* record; OptInit is the state after construction or reset, OptStep the   *)
(* effect of a step along the features f scaled by e: the new state and    *)
(* the change d of every weight.  The gradient is e times the features,    *)
(* and steps ascend.                                                       *)
(***************************************************************************)
EXTENDS Features

Eps == "1e-7"
Stateful(o) == o.k \in {"mom", "nag", "adagrad", "adam", "adamax"}

OptInit(o, n) ==
  CASE o.k \in {"sgd", "isgd", "flaky"} -> [k |-> o.k]
    [] o.k \in {"mom", "nag"}           -> [v |-> Zeros(n)]
    [] o.k = "adagrad"                  -> [s |-> Zeros(n)]
    [] o.k = "adam"                     -> [t |-> 0, p |-> "1", q |-> "1", m |-> Zeros(n), u |-> Zeros(n)]
    [] o.k = "adamax"                   -> [t |-> 0, p |-> "1", m |-> Zeros(n), u |-> Zeros(n)]

\* state and weight change after a step; t counts the steps, p = b1^t, q = b2^t
OptStep(o, s, f, e) ==
  LET g == Strict([i \in 1..f.n |-> Mul(e, Den(f)[i])]) IN
  CASE o.k = "sgd" \/ o.k = "flaky" -> [s |-> s, d |-> Strict([i \in DOMAIN g |-> Mul(o.lr, g[i])])]
    [] o.k = "isgd" ->
         LET c == Div(o.lr, Add("1", Mul(o.lr, SumSq(f)))) IN
         [s |-> s, d |-> Strict([i \in DOMAIN g |-> Mul(c, g[i])])]
    [] o.k = "mom" ->
         LET v == Strict([i \in DOMAIN g |-> Add(Mul(o.mu, s.v[i]), g[i])]) IN
         [s |-> [v |-> v], d |-> Strict([i \in DOMAIN g |-> Mul(o.lr, v[i])])]
    [] o.k = "nag" ->
         LET v == Strict([i \in DOMAIN g |-> Add(Mul(o.mu, s.v[i]), g[i])]) IN
         [s |-> [v |-> v], d |-> Strict([i \in DOMAIN g |-> Mul(o.lr, Add(g[i], Mul(o.mu, v[i])))])]
    [] o.k = "adagrad" ->
         LET a == Strict([i \in DOMAIN g |-> Add(s.s[i], Mul(g[i], g[i]))]) IN
         [s |-> [s |-> a], d |-> Strict([i \in DOMAIN g |-> Div(Mul(o.lr, g[i]), Add(Sqrt(a[i]), Eps))])]
    [] o.k = "adam" ->
         LET p == Mul(s.p, o.b1)  q == Mul(s.q, o.b2)
             m == Strict([i \in DOMAIN g |-> Add(Mul(o.b1, s.m[i]), Mul(Sub("1", o.b1), g[i]))])
             u == Strict([i \in DOMAIN g |-> Add(Mul(o.b2, s.u[i]), Mul(Sub("1", o.b2), Mul(g[i], g[i])))])
         IN [s |-> [t |-> s.t + 1, p |-> p, q |-> q, m |-> m, u |-> u],
             d |-> Strict([i \in DOMAIN g |->
                IF (i - 1) \in Active(f)
                THEN Div(Mul(o.lr, Div(m[i], Sub("1", p))), Add(Sqrt(Div(u[i], Sub("1", q))), Eps))
                ELSE "0"])]
    [] o.k = "adamax" ->
         LET p == Mul(s.p, o.b1)
             m == Strict([i \in DOMAIN g |-> Add(Mul(o.b1, s.m[i]), Mul(Sub("1", o.b1), g[i]))])
             u == Strict([i \in DOMAIN g |-> MaxN(Mul(o.b2, s.u[i]), Abs(g[i]))])
         IN [s |-> [t |-> s.t + 1, p |-> p, m |-> m, u |-> u],
             d |-> Strict([i \in DOMAIN g |->
                IF (i - 1) \in Active(f) THEN Div(Mul(o.lr, Div(m[i], Sub("1", p))), Add(u[i], Eps)) ELSE "0"])]
\* a user-defined optimiser that refuses errors above its limit
StepFails(o, e) == o.k = "flaky" /\ Lt(o.lim, e)

\* many steps: the sequence us of <<features, error>> pairs gone through n times; d is the total
\* change of the weights, a the total of its magnitudes (singleton sets make TLC evaluate in order)
The(S)     == CHOOSE x \in S : TRUE
Both(x, y) == [s |-> y.s, d |-> Strict([i \in DOMAIN x.d |-> Add(x.d[i], y.d[i])]),
               a |-> Strict([i \in DOMAIN x.a |-> Add(x.a[i], y.a[i])])]
One(r)     == [s |-> r.s, d |-> r.d, a |-> Strict([i \in DOMAIN r.d |-> Abs(r.d[i])])]
RECURSIVE Round(_, _, _)
Round(o, s, us) ==
  IF Len(us) = 1 THEN The({One(r) : r \in {OptStep(o, s, us[1][1], us[1][2])}})
  ELSE The({The({Both(x, y) : y \in {Round(o, x.s, Tail(us))}}) : x \in {Round(o, s, <<us[1]>>)}})
RECURSIVE Rounds(_, _, _, _)
Rounds(o, s, us, n) ==
  IF n = 1 THEN Round(o, s, us)
  ELSE The({The({Both(x, y) : y \in {Rounds(o, x.s, us, n - n \div 2)}}) : x \in {Rounds(o, s, us, n \div 2)}})

---------------------------------------------------------------------------
(* The same optimisers in closed form: the weight change at step T as a    *)
(* function of the whole history of gradients G[1..T] of one weight.  The  *)
(* recurrences above must agree with these (checked by MC_Optim), which    *)
(* are the textbook definitions.                                           *)
DecSum(a, c, G, T) == SumN([k \in 1..T |-> Mul(PowN(a, T - k), Mul(c, G[k]))])
Closed(o, G, T) ==
  CASE o.k \in {"sgd", "flaky"} -> Mul(o.lr, G[T])
    [] o.k = "mom" -> Mul(o.lr, DecSum(o.mu, "1", G, T))
    \* Nesterov: the velocity looked ahead by one momentum step
    [] o.k = "nag" -> Mul(o.lr, Add(G[T], Mul(o.mu, DecSum(o.mu, "1", G, T))))
    [] o.k = "adagrad" -> Div(Mul(o.lr, G[T]), Add(Sqrt(SumN([k \in 1..T |-> Mul(G[k], G[k])])), Eps))
    [] o.k = "adam" ->
         LET m == Div(DecSum(o.b1, Sub("1", o.b1), G, T), Sub("1", PowN(o.b1, T)))
             u == Div(DecSum(o.b2, Sub("1", o.b2), [k \in 1..T |-> Mul(G[k], G[k])], T), Sub("1", PowN(o.b2, T)))
         IN Div(Mul(o.lr, m), Add(Sqrt(u), Eps))
    [] o.k = "adamax" ->
         LET m == Div(DecSum(o.b1, Sub("1", o.b1), G, T), Sub("1", PowN(o.b1, T)))
             u == MaxAbs([k \in 1..T |-> Mul(PowN(o.b2, T - k), Abs(G[k]))])
         IN Div(Mul(o.lr, m), Add(u, Eps))
=============================================================================
