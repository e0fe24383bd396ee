------------------------------ MODULE MC_Edits ------------------------------
(* C06: edit histories on the dense and the sparse form of one vector, with  *)
(* a clone taken at any point.  Every transition is replayed with the        *)
(* shortest history leading to it.                                           *)
EXTENDS MC
CONSTANTS Size, V, Depth,
          AddMaps, AddMerges, AddStacks   \* sets of closures / operands (see the cfg files)

VARIABLES d, s,    \* the two forms
          c,       \* the clone and what it was cloned from: <<>> or <<"d"|"s", features>>
          k,       \* edits so far
          hist     \* the commands (hidden from the state by the view)
vars == <<d, s, c, k, hist>>
view == <<d, s, c, k>>

Aff(a, b) == [k |-> "aff", a |-> a, b |-> b]
MapFns   == {Aff("-2", "0"), Aff("0.5", "1"), [k |-> "gate", a |-> "0", b |-> "0"], [k |-> "const", b |-> "0"]}
MergeFns == {[k |-> "add"], [k |-> "mul"], [k |-> "or"], [k |-> "nand", c |-> "1"], [k |-> "max"]}
Operands == {[c |-> "sparse", n |-> 3, i |-> <<1>>, v |-> <<"-1">>], [c |-> "unitary", n |-> 1, i |-> <<0>>]}
MaxDim   == 8

Reg(r, x) == [op |-> r] @@ x
Both(x)   == <<x @@ [reg |-> "d"], x @@ [reg |-> "s"]>>
Twin      == <<[op |-> "ftwin", a |-> "d", b |-> "s", scale |-> "1"]>>
Step(cmds) == /\ k < Depth /\ k' = k + 1
              /\ hist' = hist \o cmds
              /\ Emit(hist \o cmds)

Init == \E l \in SparseLits(V, Size) \cup SparseLits(V, 1) \cup SparseLits(V, 0) :
          LET f == Build(l) IN
          /\ s = f /\ d = Dense(Den(f)) /\ c = <<>> /\ k = 0
          /\ hist = <<[op |-> "fnew", reg |-> "d", f |-> [c |-> "dense", v |-> Den(f)]], [op |-> "fnew", reg |-> "s", f |-> l]>>

Remove == \E i \in 0..d.n :
  /\ d' = RemoveF(d, i) /\ s' = RemoveF(s, i) /\ UNCHANGED c
  /\ Step(Both([op |-> "fremove", i |-> i]) \o Twin)
Map == \E g \in MapFns \cup AddMaps, mode \in {"into", "inplace"} :
  /\ d' = MapF(d, g) /\ s' = MapF(s, g) /\ UNCHANGED c
  /\ Step(Both([op |-> "fmap", fn |-> g, mode |-> mode]) \o Twin)
Merge == \E h \in Operands \cup AddMerges, g \in MergeFns :
  LET H == Build(h) IN
  /\ MergeOk(d, H) /\ MergeOk(s, H)
  /\ d' = MergeF(d, H, g) /\ s' = MergeF(s, H, g) /\ UNCHANGED c
  /\ Step(<<[op |-> "fmerge", reg |-> "d", g |-> h, fn |-> g, mode |-> "inplace"], [op |-> "fmerge", reg |-> "s", g |-> h, fn |-> g, mode |-> "inplace"]>> \o Twin)
\* the sparse form merged with the dense one (and the dense one with itself)
MergeTwin == \E g \in {[k |-> "sub"], [k |-> "add"]} :
  /\ d.n = s.n
  /\ s' = MergeF(s, d, g) /\ d' = MergeF(d, d, g) /\ UNCHANGED c
  /\ Step(<<[op |-> "fmerger", reg |-> "s", other |-> "d", fn |-> g, mode |-> "ref"], [op |-> "fmerger", reg |-> "d", other |-> "d", fn |-> g, mode |-> "into"]>> \o Twin)
Stack == \E h \in Operands \cup AddStacks, front \in BOOLEAN :
  LET H == Build(h) IN
  /\ d.n + H.n <= MaxDim
  /\ d' = (IF front THEN StackF(H, d) ELSE StackF(d, H)) /\ s' = (IF front THEN StackF(H, s) ELSE StackF(s, H)) /\ UNCHANGED c
  /\ Step(Both([op |-> "fstack", g |-> h, front |-> front]) \o Twin)
Clone == \E r \in {"d", "s"} :
  /\ c = <<>> /\ c' = <<r, IF r = "d" THEN d ELSE s>> /\ UNCHANGED <<d, s>>
  /\ Step(<<[op |-> "fclone", reg |-> r, to |-> "c"]>>)
Next == Remove \/ Map \/ Merge \/ MergeTwin \/ Stack \/ Clone \/ (k = Depth /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* both forms denote one vector after every step
Alike == d.n = s.n /\ EqSeq(Den(d), Den(s))
DenseStaysDense == IsDense(d)
\* a removal sets exactly one component to zero
Removal == \A i \in 0..(d.n + 1) : RemoveMeaning(d, i) /\ RemoveMeaning(s, i)
\* a clone is never affected by edits of the original
CloneKept == [][c # <<>> => c' = c]_vars
=============================================================================
