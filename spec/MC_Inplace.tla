----------------------------- MODULE MC_Inplace -----------------------------
(* C07: an in-place edit in steps, with the closure panicking at its k-th    *)
(* invocation.  Two designs: "commit" computes the result aside and then     *)
(* assigns it; "takeout" moves the value out of the cell, computes, and puts *)
(* the result back (TLC refutes it: the panic finds the cell empty).         *)
EXTENDS MC
CONSTANTS Design, Size, V

VARIABLES cell,     \* the memory behind &mut self
          before,   \* what it held when the call started
          op,       \* the edit: [k |-> "map"|"merge", fn, g]
          calls,    \* invocations of the closure so far
          boom,     \* the invocation that panics
          pc        \* idle, running, returned, caught
vars == <<cell, before, op, calls, boom, pc>>

Junk  == Dense(<<>>)
Bound(f, o) == IF o.k = "map" THEN f.n + 1 ELSE MaxI(f.n, Build(o.g).n) + 1 + f.n
Least(f, o) == IF o.k = "map" THEN Len(Entries(f)) ELSE IF IsDense(f) THEN 0 ELSE 0
Result(f, o) == IF o.k = "map" THEN MapF(f, o.fn) ELSE MergeF(f, Build(o.g), o.fn)
Aff(a, b) == [k |-> "aff", a |-> a, b |-> b]
Maps   == {[k |-> "map", fn |-> g, g |-> NoPhi] : g \in {Aff("2", "0"), Aff("1", "1")}}
Merges == {[k |-> "merge", fn |-> g, g |-> h] : g \in {[k |-> "add"], [k |-> "nand", c |-> "1"], [k |-> "mul"]}, h \in Lits({"5"}, 2)}

Lit(f) == IF IsDense(f) THEN [c |-> "dense", v |-> f.v]
          ELSE [c |-> "sparse", n |-> f.n, i |-> Sorted(DOMAIN f.a), v |-> [j \in 1..Cardinality(DOMAIN f.a) |-> f.a[Sorted(DOMAIN f.a)[j]]]]
\* the scenario: the call, then further operations
After == <<[op |-> "fmap", reg |-> "a", fn |-> [k |-> "neg"], mode |-> "inplace"], [op |-> "fremove", reg |-> "a", i |-> 0],
           [op |-> "fstack", reg |-> "a", g |-> [c |-> "dense", v |-> <<"1">>], front |-> FALSE], [op |-> "fdrop", reg |-> "a"]>>
Scenario(f, o, k) ==
  <<[op |-> "fnew", reg |-> "a", f |-> f],
    IF o.k = "map" THEN [op |-> "fpmap", reg |-> "a", fn |-> o.fn, k |-> k] ELSE [op |-> "fpmerge", reg |-> "a", fn |-> o.fn, g |-> o.g, k |-> k]>> \o After

Init == \E l \in Lits(V, Size) :
  /\ cell = Build(l) /\ before = Build(l)
  /\ op \in {o \in Maps \cup Merges : o.k = "merge" => MergeOk(Build(l), Build(o.g))}
  /\ calls = 0 /\ boom \in 1..(2 * Size + 3) /\ pc = "idle"
  /\ boom <= Bound(Build(l), op) + 1
  /\ Emit(Scenario(l, op, boom))
Start == /\ pc = "idle" /\ pc' = "running"
         /\ cell' = (IF Design = "takeout" THEN Junk ELSE cell)
         /\ UNCHANGED <<before, op, calls, boom>>
\* the closure is called once more; how often it is called in all is left open
Invoke == /\ pc = "running" /\ calls < Bound(before, op)
          /\ calls' = calls + 1
          /\ pc' = (IF calls + 1 = boom THEN "caught" ELSE "running")
          /\ UNCHANGED <<cell, before, op, boom>>
Return == /\ pc = "running" /\ calls >= Least(before, op)
          /\ pc' = "returned" /\ cell' = Result(before, op)
          /\ UNCHANGED <<before, op, calls, boom>>
Next == Start \/ Invoke \/ Return \/ (pc \in {"returned", "caught"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Survives == pc = "caught" => cell = before
Completes == pc = "returned" => cell = Result(before, op)
=============================================================================
