------------------------------- MODULE MC_Grid -------------------------------
(* C10: an input walks over the lattice of half cells of a grid, one half     *)
(* cell in one dimension at a time, from outside one corner to outside the    *)
(* opposite one.                                                              *)
EXTENDS MC, Bases
CONSTANTS MaxDims, MaxParts

VARIABLES parts, at      \* the grid; half-cell coordinates of the input, -2 .. 2n+2
vars == <<parts, at>>
Los    == <<"0", "-1", "2">>
Widths == <<"1", "0.5", "2">>
Part(k, n) == [lo |-> Los[k], hi |-> Add(Los[k], Mul(OfInt(n), Widths[k])), n |-> n]
X(ps, a) == [k \in DOMAIN ps |-> Add(ps[k].lo, Mul(Div(OfInt(a[k]), "2"), Width(ps[k])))]
x      == X(parts, at)
Grid   == [k |-> "grid", parts |-> parts]
Cmd(ps, a) == LET b == [k |-> "grid", parts |-> ps] IN
              <<[op |-> "project", b |-> b, in |-> Input(X(ps, a), NoPhi, <<>>), ids |-> Ids(NDim(b) + 2)]>>

Init == /\ \E d \in 1..MaxDims : \E ns \in Tuples(1..MaxParts, d) : parts = [k \in 1..d |-> Part(k, ns[k])]
        /\ at = [k \in DOMAIN parts |-> -2]
Walk == \E k \in DOMAIN parts :
  /\ at[k] < 2 * parts[k].n + 2
  \* one step at a time near the bounds, and over the whole lattice inside
  /\ at' = [at EXCEPT ![k] = at[k] + 1]
  /\ UNCHANGED parts
Next == Walk \/ ((\A k \in DOMAIN parts : at[k] = 2 * parts[k].n + 2) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* every state is a scenario (TLC evaluates this once per state)
Replayed  == Emit(Cmd(parts, at))
One       == OneCell(parts, x)
Bijection == (\A k \in DOMAIN at : at[k] = -2) => CellBijection(parts)
\* walking from one half cell to the next changes the feature exactly when a cell is left
Feat(a)   == Project(Grid, [x |-> X(parts, a)]).f
Moves     == [][(Feat(at) = Feat(at')) <=> (GridCell(parts, X(parts, at)) = GridCell(parts, X(parts, at')))]_at
\* an inner cell is entered at its lower edge
Edges     == \A k \in DOMAIN at : Cell(parts[k], x[k]) =
                LET h == at[k] IN IF h < 0 THEN 0 ELSE IF h >= 2 * parts[k].n THEN parts[k].n - 1 ELSE h \div 2
=============================================================================
