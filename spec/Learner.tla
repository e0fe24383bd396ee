------------------------------- MODULE Learner -------------------------------
(***************************************************************************)
(* Linear function approximators (src/lib.rs).                             *)
(*                                                                         *)
(* A learner is                                                            *)
(*   [b |-> basis, o |-> optimiser, kind |-> "s" or "v",                   *)
(*    W |-> the weight columns, one per output (one for a scalar learner), *)
(*    S |-> the optimiser state each output would have on its own,         *)
(*    sh |-> one optimiser state shared by all outputs,                    *)
(*    alive |-> which of the two designs explain the learner so far,       *)
(*    M  |-> for every feature, the largest change of its weights so far]  *)
(*                                                                         *)
(* The property (C19) is that outputs are independent: design "own".  The  *)
(* code knows only one optimiser, whose state all columns of a vector      *)
(* learner pass through: design "shared", a deviation modelled here so     *)
(* that it can be told from any other one.  For a single output, and for   *)
(* optimisers without state, the two are the same.                         *)
(***************************************************************************)
EXTENDS Bases, Optim

Outputs(L) == Len(L.W)
Designs(o, m) == IF Stateful(o) /\ m > 1 THEN {"own", "shared"} ELSE {"own"}
NewLearner(b, o, kind, m) ==
  LET n == NDim(b) IN
  [b |-> b, o |-> o, kind |-> kind, W |-> [j \in 1..m |-> Zeros(n)],
   S |-> [j \in 1..m |-> OptInit(o, n)], sh |-> OptInit(o, n), alive |-> Designs(o, m), M |-> Zeros(n)]

Value(f, w)     == SumN([k \in DOMAIN w |-> Mul(Den(f)[k], w[k])])
ValueMag(f, w)  == SumN([k \in DOMAIN w |-> Abs(Mul(Den(f)[k], w[k]))])
Values_(L, f)   == [j \in 1..Outputs(L) |-> Value(f, L.W[j])]
AddSeq(a, d)    == [k \in DOMAIN a |-> Add(a[k], d[k])]

\* One update: us is a sequence of <<output, error>> pairs, in the order of the outputs.
\* Result: both designs' new optimiser states and weight changes.
RECURSIVE Walk(_, _, _, _)
Walk(o, sh, f, us) ==                       \* the shared state passes through the columns in turn
  IF us = <<>> THEN [sh |-> sh, ds |-> <<>>]
  ELSE LET r == OptStep(o, sh, f, us[1][2])
           q == Walk(o, r.s, f, Tail(us))
       IN [sh |-> q.sh, ds |-> <<r.d>> \o q.ds]
PosOf(us, j) == IF \E i \in DOMAIN us : us[i][1] = j THEN CHOOSE i \in DOMAIN us : us[i][1] = j ELSE 0
Apply(L, f, us) ==
  LET n   == f.n
      own == Strict([i \in DOMAIN us |-> OptStep(L.o, L.S[us[i][1]], f, us[i][2])])
      shr == IF "shared" \in L.alive THEN Walk(L.o, L.sh, f, us) ELSE [sh |-> L.sh, ds |-> <<>>]
      col(ds, j) == IF PosOf(us, j) = 0 THEN Zeros(n) ELSE ds[PosOf(us, j)]
  IN [S  |-> Strict([j \in 1..Outputs(L) |-> IF PosOf(us, j) = 0 THEN L.S[j] ELSE own[PosOf(us, j)].s]),
      sh |-> shr.sh,
      D  |-> [own    |-> Strict([j \in 1..Outputs(L) |-> col(Strict([i \in DOMAIN us |-> own[i].d]), j)]),
              shared |-> IF "shared" \in L.alive THEN Strict([j \in 1..Outputs(L) |-> col(shr.ds, j)]) ELSE <<>>]]

\* the learner after an update under a design
Update(L, f, us, design) ==
  LET r == Apply(L, f, us) IN
  [L EXCEPT !.S = r.S, !.sh = r.sh,
            !.W = [j \in 1..Outputs(L) |-> AddSeq(L.W[j], r.D[design][j])]]
ResetL(L) == LET n == NDim(L.b) IN
  [L EXCEPT !.S = [j \in 1..Outputs(L) |-> OptInit(L.o, n)], !.sh = OptInit(L.o, n)]
\* its optimiser replaced by a new one
SwapL(L, o) == ResetL([L EXCEPT !.o = o, !.alive = Designs(o, Outputs(L)), !.M = Zeros(Len(L.M))])

\* pairs for a list of errors: the j-th error to output j, as far as both go
Pairs(es, m) == [j \in 1..(IF Len(es) < m THEN Len(es) ELSE m) |-> <<j, es[j]>>]
\* the learner that output j is on its own
Solo(L, j) == [L EXCEPT !.W = <<L.W[j]>>, !.S = <<L.S[j]>>, !.sh = L.S[j], !.alive = {"own"}, !.kind = "s"]
=============================================================================
