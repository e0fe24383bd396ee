-------------------------------- MODULE Tiles --------------------------------
(***************************************************************************)
(* Tile coding (src/basis/tile_coding.rs), with the hash function left     *)
(* open: a tile coder is specified by which inputs share a tile.           *)
(***************************************************************************)
EXTENDS Features

\* the tile input x falls in, in tiling t of n: in every dimension i (from 0)
\* the unit interval containing x_i after a shift by t(1+2i)/n
TileOf(x, n, t) == [k \in DOMAIN x |-> FloorN(Add(x[k], Div(OfInt(t * (1 + 2 * (k - 1))), OfInt(n))))]
Shared(x, y, n) == {t \in 0..(n - 1) : TileOf(x, n, t) = TileOf(y, n, t)}

\* the discretisation the code uses: floor(x_i n), shifted by t(1+2i), divided by n rounding down
CodeTile(x, n, t) == [k \in DOMAIN x |->
   FloorN(Div(Add(FloorN(Mul(x[k], OfInt(n))), OfInt(t * (1 + 2 * (k - 1)))), OfInt(n)))]
CodeTileIsTile(x, n) == \A t \in 0..(n - 1) : CodeTile(x, n, t) = TileOf(x, n, t)

\* unit-wide tiles, also around the origin: moving by one moves to the next tile in every tiling
UnitWide(x, n) == \A t \in 0..(n - 1) : \A k \in DOMAIN x :
   TileOf([x EXCEPT ![k] = Add(x[k], "1")], n, t) = [TileOf(x, n, t) EXCEPT ![k] = Add(TileOf(x, n, t)[k], "1")]
\* generalisation: inputs one unit or more apart in some dimension share nothing
Local(x, y, n) == (\E k \in DOMAIN x : Le("1", Abs(Sub(x[k], y[k])))) => Shared(x, y, n) = {}
SharesAll(x, n) == Shared(x, x, n) = 0..(n - 1)
\* the number of shared tilings in one dimension falls linearly with distance
Linear(x, y, n) == Len(x) = 1 /\ Lt(Abs(Sub(x[1], y[1])), "1") =>
   LET c == Cardinality(Shared(x, y, n))
       e == Mul(OfInt(n), Sub("1", Abs(Sub(x[1], y[1])))) IN
   Le(Abs(Sub(OfInt(c), e)), "1")
=============================================================================
