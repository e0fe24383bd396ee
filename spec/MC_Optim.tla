------------------------------- MODULE MC_Optim -------------------------------
(* C16, C17, C21: optimisers over all short histories of steps and resets.       *)
(*                                                                               *)
(* Three runs of one optimiser go side by side:                                  *)
(*   a   steps and is reset, fed with features in the representation chosen;     *)
(*   b   is created anew whenever a is reset (C17);                              *)
(*   c   is fed the same features, always densely (C21).                         *)
(* Design of the reset: "full", or "keep" (forgets to restart the running        *)
(* products of the decay rates, refuted for Adam and AdaMax).                    *)
EXTENDS MC, Optim
CONSTANTS Kinds, Depth, Errors, Design, Feats

VARIABLES o,           \* the optimiser
          a, b, c,     \* states
          W, dW,       \* weights of a; change made by the last step of a, b, c
          G,           \* per weight: the gradients since the last reset, and at which steps it was active
          on,          \* weights whose feature was active at every step so far
          steps,       \* steps and resets so far
          hist
vars == <<o, a, b, c, W, dW, G, on, steps, hist>>
view == <<o, a, b, c, W, dW, G, on, steps>>

Dim_ == 2
Opt(k) == CASE k = "sgd" -> [k |-> k, lr |-> "0.5"] [] k = "isgd" -> [k |-> k, lr |-> "3"]
            [] k \in {"mom", "nag"} -> [k |-> k, lr |-> "0.5", mu |-> "0.75"]
            [] k = "adagrad" -> [k |-> k, lr |-> "0.5"]
            [] k \in {"adam", "adamax"} -> [k |-> k, lr |-> "0.25", b1 |-> "0.5", b2 |-> "0.75"]
D(v)    == [c |-> "dense", v |-> v]
S(i, v) == [c |-> "sparse", n |-> Dim_, i |-> i, v |-> v]
\* "S(<<0>>, <<"0">>)" lists an explicit zero
FeatsAll == {D(<<"1", "-2">>), D(<<"0", "0.5">>), S(<<1>>, <<"3">>), S(<<0, 1>>, <<"-1", "0.5">>), S(<<0>>, <<"0">>), S(<<>>, <<>>)}
FeatsFew == {D(<<"1", "-2">>), S(<<1>>, <<"3">>), S(<<0, 1>>, <<"-1", "0.5">>)}

Phi    == [k |-> "phi", n |-> Dim_]
New(id) == [op |-> "lnew", id |-> id, b |-> Phi, o |-> o, kind |-> "s", m |-> 1, ctor |-> "new"]
StepCmd(id, f, e) == [op |-> "lstep", id |-> id, f |-> f, plain |-> FALSE, e |-> e]
Twin(i, j, S_) == [op |-> "ltwin", a |-> i, b |-> j, where |-> Sorted(S_)]
NewCmd(id, op_) == [op |-> "lnew", id |-> id, b |-> Phi, o |-> op_, kind |-> "s", m |-> 1, ctor |-> "new"]

Init == /\ o \in {Opt(k) : k \in Kinds}
        /\ a = OptInit(o, Dim_) /\ b = a /\ c = a
        /\ W = Zeros(Dim_) /\ dW = <<Zeros(Dim_), Zeros(Dim_), Zeros(Dim_)>>
        /\ G = [i \in 1..Dim_ |-> <<>>] /\ on = 0..(Dim_ - 1)
        /\ steps = 0
        /\ hist = <<NewCmd("a", o), NewCmd("b", o), NewCmd("c", o)>>
Step == \E f \in Feats, e \in Errors :
  LET F == Build(f)  Fd == Dense(Den(F))
      ra == OptStep(o, a, F, e)  rb == OptStep(o, b, F, e)  rc == OptStep(o, c, Fd, e) IN
  /\ steps < Depth /\ steps' = steps + 1
  /\ a' = ra.s /\ b' = rb.s /\ c' = rc.s /\ dW' = <<ra.d, rb.d, rc.d>>
  /\ W' = [i \in DOMAIN W |-> Add(W[i], ra.d[i])]
  /\ G' = [i \in DOMAIN G |-> Append(G[i], Mul(e, Den(F)[i]))]
  /\ on' = on \cap Active(F)
  /\ hist' = hist \o <<StepCmd("a", f, e), StepCmd("b", f, e), StepCmd("c", [c |-> "dense", v |-> Den(F)], e)>>
                 \o (IF o.k \in {"adam", "adamax"} THEN <<Twin("a", "c", on')>> ELSE <<Twin("a", "c", 0..(Dim_ - 1))>>)
  /\ Emit(hist') /\ UNCHANGED o
Reset ==
  /\ steps < Depth /\ steps' = steps + 1
  /\ a' = (IF Design = "keep" /\ "p" \in DOMAIN a THEN [OptInit(o, Dim_) EXCEPT !.p = a.p] ELSE OptInit(o, Dim_))
  /\ b' = OptInit(o, Dim_) /\ c' = OptInit(o, Dim_)
  /\ dW' = <<Zeros(Dim_), Zeros(Dim_), Zeros(Dim_)>>
  /\ G' = [i \in DOMAIN G |-> <<>>] /\ UNCHANGED <<W, o>>
  /\ on' = on
  \* b is a new learner given a's weights
  /\ hist' = hist \o <<[op |-> "lreset", id |-> "a"], [op |-> "lreset", id |-> "c"], NewCmd("b", o)>>
  /\ Emit(hist')
Next == Step \/ Reset \/ (steps = Depth /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

T == Len(G[1])
\* C16: the recurrences are the textbook definitions
Textbook ==
  (T > 0 /\ o.k # "isgd") =>
    \A i \in 1..Dim_ : (i - 1) \in on \/ o.k \notin {"adam", "adamax"} => Close(dW[1][i], Closed(o, G[i], T), "1e-20")
\* a zero error leaves the weights alone, from the initial state
ZeroFirst == T = 1 => \A i \in 1..Dim_ : IsZero(G[i][1]) => IsZero(dW[1][i])
\* C17
AsNew     == dW[1] = dW[2] /\ a = b
KeepsW    == [][(\E i \in 1..Dim_ : Len(G'[i]) < Len(G[i])) => W' = W]_vars
\* a cycle of steps gone through n times in one go (Optim!Rounds) is those steps one by one
RECURSIVE Iter(_, _, _, _)
Iter(s, us, j, n) == IF n = 0 THEN [s |-> s, d |-> Zeros(Dim_), a |-> Zeros(Dim_)]
  ELSE LET r == OptStep(o, s, us[j][1], us[j][2])  t == Iter(r.s, us, (j % Len(us)) + 1, n - 1)
       IN [s |-> t.s, d |-> [i \in 1..Dim_ |-> Add(r.d[i], t.d[i])], a |-> [i \in 1..Dim_ |-> Add(Abs(r.d[i]), t.a[i])]]
InRounds ==
  steps < 2 => \A f, g \in Feats : \A e \in Errors : \A n \in {1, 2, 3} :
    LET us == <<<<Build(f), e>>, <<Build(g), "0.5">>>>  x == Rounds(o, a, us, n)  y == Iter(a, us, 1, 2 * n) IN
    /\ x.s = y.s
    /\ \A i \in 1..Dim_ : Close(x.d[i], y.d[i], "1e-20") /\ Close(x.a[i], y.a[i], "1e-20") /\ Le(Abs(x.d[i]), x.a[i])
\* C21
SameForm  == \A i \in 1..Dim_ : (o.k \notin {"adam", "adamax"} \/ (i - 1) \in on) => EqN(dW[1][i], dW[3][i])
\* for sparse features the moments decay although the weight rests
Decays    == o.k \in {"adam", "adamax"} => a = c
Rests     == [][o.k \in {"adam", "adamax"} => \A i \in 1..Dim_ : (i - 1) \notin on' /\ (i - 1) \in on => W'[i] = W[i]]_vars
=============================================================================
