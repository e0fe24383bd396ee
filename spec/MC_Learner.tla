------------------------------ MODULE MC_Learner ------------------------------
(* C15, C18, C19, C20, C22: histories of a learner.                              *)
(*                                                                               *)
(*   p      the learner                                                          *)
(*   solo   one scalar learner per output, given that output's errors (C19)      *)
(*   slot   what was saved, with the history position (C20)                      *)
(*   q      a restored learner that continues next to p (C20)                    *)
(* Designs: "own" (every output has its optimiser state), "shared" (all outputs  *)
(* go through one state: what the code does, refuted for C19 with stateful       *)
(* optimisers), "early" (an update touches the optimiser before the basis has    *)
(* succeeded: refuted for C18), "partial" (saving forgets the optimiser state:   *)
(* refuted for C20).                                                             *)
EXTENDS MC, Learner
CONSTANTS Kind, Ms, Kinds, Acts, Depth, Design, Bs, Ins, Errs

VARIABLES p, solo, slot, q, last, steps, hist
vars == <<p, solo, slot, q, last, steps, hist>>
view == <<p, solo, slot, q, last, steps>>

D(v)    == [c |-> "dense", v |-> v]
S(nn, i, v) == [c |-> "sparse", n |-> nn, i |-> i, v |-> v]
Opt(k) == CASE k = "sgd" -> [k |-> k, lr |-> "0.25"] [] k = "isgd" -> [k |-> k, lr |-> "4"]
            [] k \in {"mom", "nag"} -> [k |-> k, lr |-> "0.5", mu |-> "0.75"]
            [] k = "adagrad" -> [k |-> k, lr |-> "0.5"]
            [] k \in {"adam", "adamax"} -> [k |-> k, lr |-> "0.25", b1 |-> "0.5", b2 |-> "0.75"]
            [] k = "flaky" -> [k |-> k, lr |-> "0.5", lim |-> "1"]
Phi(k)  == [k |-> "phi", n |-> k]
Fl(k, c) == [k |-> "fail", n |-> k, c |-> c]
St(a, b) == [k |-> "stack", a |-> a, b |-> b]
BPhi    == {Phi(2)}
BFail   == {St(Phi(2), Fl(1, 1)), [k |-> "wb", a |-> St(Fl(1, 2), Fl(0, 1))]}
InsOk   == {Input(<<>>, D(<<"1", "-2">>), <<>>), Input(<<>>, S(2, <<1>>, <<"3">>), <<>>)}
InsFail == {Input(<<>>, D(<<"1", "-2">>), <<>>), Input(<<>>, S(2, <<1>>, <<"3">>), <<1>>), Input(<<>>, D(<<"1", "-2">>), <<1, 2>>)}
InOne   == {Input(<<>>, D(<<"1", "-2">>), <<>>)}

m_        == Outputs(p)
EnvOf(in) == [x |-> in.x, phi |-> Build(in.phi), fail |-> Range(in.fail), tiles |-> <<>>]
Fails_(in) == Failing(p.b, EnvOf(in)) # <<>>
Feat(in)  == Project(p.b, EnvOf(in)).f
Which     == IF Design = "shared" THEN "shared" ELSE "own"
Upd(L, in, us) == Update(L, Feat(in), us, IF Which = "shared" /\ "shared" \in L.alive THEN "shared" ELSE "own")
\* what a failed update leaves behind, by design
Touch(L, in) == IF Design = "early" THEN [L EXCEPT !.S = [j \in DOMAIN L.S |-> OptStep(L.o, L.S[j], Dense(Zeros(NDim(L.b))), "0").s]] ELSE L
RECURSIVE SoloAll(_, _, _)
SoloAll(ss, f, us) == IF us = <<>> THEN ss
  ELSE LET j == us[1][1] IN SoloAll([ss EXCEPT ![j] = Update(ss[j], f, <<<<1, us[1][2]>>>>, "own")], f, Tail(us))
HasQ == q # <<>>

NewCmd(id, L) == [op |-> "lnew", id |-> id, b |-> L.b, o |-> L.o, kind |-> Kind, m |-> Outputs(L), ctor |-> "short"]
Init == /\ \E b \in Bs, k \in Kinds, m \in Ms : p = NewLearner(b, Opt(k), Kind, m)
        /\ solo = [j \in 1..m_ |-> NewLearner(p.b, p.o, "s", 1)]
        /\ slot = <<>> /\ q = <<>> /\ last = "new" /\ steps = 0
        /\ hist = <<NewCmd("a", p)>>

Tick(what, cmds) == /\ steps < Depth /\ steps' = steps + 1 /\ last' = what
                    /\ hist' = hist \o cmds /\ Emit(hist \o cmds)
\* the command for p, and for the restored learner as well
Cmd(c) == IF HasQ THEN <<c @@ [id |-> "a"], c @@ [id |-> "b"], [op |-> "ltwin", a |-> "a", b |-> "b", where |-> Ids(NDim(p.b))]>> ELSE <<c @@ [id |-> "a"]>>
Learn(in, us, what, c) ==
  IF Fails_(in)
  THEN /\ p' = Touch(p, in) /\ q' = (IF HasQ THEN <<Touch(q[1], in)>> ELSE q) /\ UNCHANGED <<solo, slot>>
       /\ Tick("failed", Cmd(c))
  ELSE /\ p' = Upd(p, in, us) /\ q' = (IF HasQ THEN <<Upd(q[1], in, us)>> ELSE q)
       /\ solo' = SoloAll(solo, Feat(in), us) /\ UNCHANGED slot
       /\ Tick(what, Cmd(c))

\* errors for all outputs, and (vector learners) too few and too many
ErrLists == {[j \in 1..m_ |-> IF j % 2 = 1 THEN e ELSE Mul(e, "-2")] : e \in Errs}
            \cup (IF Kind = "v" THEN {<<>>, [j \in 1..(m_ + 1) |-> OfInt(j)]} \cup (IF m_ > 0 THEN {[j \in 1..(m_ - 1) |-> "1"]} ELSE {}) ELSE {})
Tup(s) == SubSeq(s, 1, Len(s))
EvalA   == "eval" \in Acts /\ \E in \in Ins :
  /\ UNCHANGED <<p, solo, slot, q>> /\ Tick("eval", Cmd([op |-> "leval", in |-> in]))
UpdA    == "upd" \in Acts /\ \E in \in Ins, es \in ErrLists :
  Learn(in, Pairs(es, m_), "upd", [op |-> "lupd", in |-> in, e |-> Tup(es)])
UpdIA   == "updi" \in Acts /\ Kind = "v" /\ \E in \in Ins, j \in 1..m_, e \in Errs :
  Learn(in, <<<<j, e>>>>, "updi", [op |-> "lupdi", in |-> in, j |-> j, e |-> e])
UpdWA   == "updw" \in Acts /\ \E in \in Ins, e \in Errs, lay \in {"std", "rev"} :
  LET es == [j \in 1..m_ |-> IF j % 2 = 0 THEN e ELSE Mul(e, "3")] IN
  Learn(in, Pairs(es, m_), "updw", [op |-> "lupdw", in |-> in, cl |-> [k |-> "fix", e |-> Tup(es), lay |-> lay]])
\* the closure returns the difference to a target
TargetA == "target" \in Acts /\ \E in \in Ins, y \in {"1", "-3"} :
  LET v == Values_(p, Feat(in))  es == [j \in 1..m_ |-> Sub(y, v[j])] IN
  /\ ~Fails_(in)
  /\ Learn(in, Pairs(es, m_), "target", [op |-> "lupdw", in |-> in, cl |-> [k |-> "to", y |-> [j \in 1..m_ |-> y], lay |-> "std"]])
PanicA  == "panic" \in Acts /\ \E in \in Ins :
  /\ p' = (IF Fails_(in) THEN Touch(p, in) ELSE p) /\ UNCHANGED <<solo, slot, q>>
  /\ Tick("failed", Cmd([op |-> "lupdw", in |-> in, cl |-> [k |-> "panic", lay |-> "std"]]))
ResetA  == "reset" \in Acts /\
  /\ p' = ResetL(p) /\ q' = (IF HasQ THEN <<ResetL(q[1])>> ELSE q)
  /\ solo' = [j \in 1..m_ |-> ResetL(solo[j])] /\ UNCHANGED slot
  /\ Tick("reset", Cmd([op |-> "lreset"]))
\* the optimiser is replaced: the weights stay, the history of the optimiser does not
SwapA   == "swap" \in Acts /\ \E k \in {"mom", "adam"} :
  /\ p' = SwapL(p, Opt(k)) /\ q' = (IF HasQ THEN <<SwapL(q[1], Opt(k))>> ELSE q)
  /\ solo' = [j \in 1..m_ |-> SwapL(solo[j], Opt(k))] /\ UNCHANGED slot
  /\ Tick("swap", Cmd([op |-> "lswap", o |-> Opt(k)]))
SaveA   == "save" \in Acts /\ ~HasQ /\ \E fmt \in {"json", "bin", "clone"} :
  /\ slot = <<>> /\ slot' = <<IF Design = "partial" THEN ResetL(p) ELSE p>>
  /\ UNCHANGED <<p, solo, q>>
  /\ Tick("save", <<[op |-> "lsave", id |-> "a", slot |-> "x", fmt |-> fmt]>>)
\* the crash: p itself is lost and comes back from the slot
CrashA  == "save" \in Acts /\ slot # <<>> /\ ~HasQ /\
  /\ p' = slot[1] /\ UNCHANGED <<slot, q>> /\ solo' = solo
  /\ last # "crash"
  /\ Tick("crash", <<[op |-> "lload", id |-> "a", slot |-> "x"]>>)
\* or it continues next to the original, right after it was saved
ForkA   == "save" \in Acts /\ slot # <<>> /\ last = "save" /\
  /\ q' = <<slot[1]>> /\ UNCHANGED <<p, solo, slot>>
  /\ Tick("fork", <<[op |-> "lload", id |-> "b", slot |-> "x"]>>)
Next == EvalA \/ UpdA \/ UpdIA \/ UpdWA \/ TargetA \/ PanicA \/ ResetA \/ SwapA \/ SaveA \/ CrashA \/ ForkA \/ (steps = Depth /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* C15: an evaluation changes nothing
EvalPure == [][last' \in {"eval", "save"} => p' = p]_vars
\* C15: neither a reset nor a new optimiser touches the weights
EditPure == [][last' \in {"reset", "swap"} => p'.W = p.W]_vars
\* C15 (SGD): an update moves the weights along the features only
AlongF   == "swap" \notin Acts /\ p.o.k \in {"sgd", "isgd"} => \A j \in 1..m_ : \A i \in 1..NDim(p.b) :
              (\A in \in Ins : Fails_(in) \/ IsZero(Den(Feat(in))[i])) => IsZero(p.W[j][i])
\* C18: a failed call leaves the whole learner, hidden state included
FailKeeps == [][last' = "failed" => p' = p]_vars
\* C19: each output learns as a scalar learner on its own
Independent == "save" \notin Acts => \A j \in 1..m_ : p.W[j] = solo[j].W[1]
\* C19: an update of one output leaves the others
OnlyOne == [][last' = "updi" => Cardinality({j \in 1..m_ : p'.W[j] # p.W[j]}) <= 1]_vars
\* C20: the restored learner is indistinguishable
SameAsOriginal == HasQ => q[1] = p
CrashRestores  == [][last' = "crash" => p' = slot[1]]_vars
\* C22: an update towards a target contracts (ISGD) and never overshoots
Contraction ==
  [][last' = "target" => \A y \in {"1", "-3"} : \A in \in InOne :
       LET f == Feat(in) qq == SumSq(f)
           v == Value(f, p.W[1])  w == Value(f, p'.W[1])
           \* the step was towards y along f
           was == EqN(w, Add(v, Mul(Sub(y, v), Div(Mul(p.o.lr, qq), Add("1", Mul(p.o.lr, qq))))))
       IN p.o.k = "isgd" /\ ~IsZero(qq) /\ was =>
            /\ Le(MinN(v, y), w) /\ Le(w, MaxN(v, y))
            /\ Close(Mul(Sub(y, w), Add("1", Mul(p.o.lr, qq))), Sub(y, v), "1e-20")]_vars
\* C22: and every update towards a target is such a step
Steps22 ==
  [][last' = "target" /\ p.o.k = "isgd" => \E y \in {"1", "-3"} : \E in \in Ins :
       LET f == Feat(in) qq == SumSq(f) v == Value(f, p.W[1]) w == Value(f, p'.W[1]) IN
       Close(w, Add(v, Mul(Sub(y, v), Div(Mul(p.o.lr, qq), Add("1", Mul(p.o.lr, qq))))), "1e-20")]_vars
=============================================================================
