------------------------------- MODULE MC_Tiles -------------------------------
(* C11: tilings over a lattice of inputs around the origin.                     *)
(* The design "euclid" rounds shifted coordinates towards minus infinity, as    *)
(* tiles require; "truncate" rounds towards zero and is refuted (the tiles at   *)
(* the origin are then twice as wide).                                          *)
EXTENDS MC, Tiles
CONSTANTS MaxTilings, MaxDims, Grain, Reach, Design

VARIABLES n, x, t      \* number of tilings, input, the tiling being computed
vars == <<n, x, t>>
Lattice == {Div(OfInt(i), OfInt(Grain)) : i \in -(Reach * Grain)..(Reach * Grain)}
Coarse  == {Div(OfInt(i), "2") : i \in -(2 * Reach)..(2 * Reach)}
Points(d) == IF d = 1 THEN Tuples(Lattice, 1) ELSE Tuples(Coarse, d)

RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE q \in S : TRUE IN <<p>> \o AsSeq(S \ {p})
\* neighbours of a point: half a lattice step up to one tile away in one or all dimensions
Near(p) == {[p EXCEPT ![k] = Add(p[k], s)] : k \in DOMAIN p, s \in {"0.25", "-0.5", "-1", "0.75"}}
           \cup {[k \in DOMAIN p |-> Add(p[k], s)] : s \in {"0.5", "-0.25", "1", "-0.75"}} \cup {[k \in DOMAIN p |-> Neg(p[k])]}
Cmd(m, p) == <<[op |-> "tile", n |-> m, m |-> "3656522554933248000", xs |-> <<p>> \o AsSeq(Near(p) \ {p}), ms |-> <<"1", "7", "64">>, h |-> "sip"]>>

Round(a) == IF Design = "euclid" \/ Le("0", a) THEN FloorN(a) ELSE Neg(FloorN(Neg(a)))
Code(p, m, u) == [k \in DOMAIN p |-> Round(Div(Add(FloorN(Mul(p[k], OfInt(m))), OfInt(u * (1 + 2 * (k - 1)))), OfInt(m)))]

Init == /\ n \in 1..MaxTilings /\ \E d \in 1..MaxDims : x \in Points(d)
        /\ t = 0
        /\ Emit(Cmd(n, x))
Tiling == t < n /\ t' = t + 1 /\ UNCHANGED <<n, x>>
Next == Tiling \/ (t = n /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

IsTile   == t < n => Code(x, n, t) = TileOf(x, n, t)
Unit     == t < n => \A k \in DOMAIN x : Code([x EXCEPT ![k] = Add(x[k], "1")], n, t) = [Code(x, n, t) EXCEPT ![k] = Add(Code(x, n, t)[k], "1")]
SameInput == t = 0 => SharesAll(x, n) /\ UnitWide(x, n) /\ CodeTileIsTile(x, n)
Nearby   == t = 0 => \A y \in Near(x) : Local(x, y, n) /\ Linear(x, y, n) /\ Shared(x, y, n) = Shared(y, x, n)
=============================================================================
