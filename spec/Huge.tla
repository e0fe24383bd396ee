-------------------------------- MODULE Huge --------------------------------
(***************************************************************************)
(* Sparse vectors over index spaces far larger than memory, which the      *)
(* sparse representation exists for: as in Features and Bases, with sizes  *)
(* and indices written as numerals (TLC's integers have 32 bits).          *)
(* MC_Huge checks that these operators are those of Features, transported  *)
(* along j |-> j * B.                                                      *)
(***************************************************************************)
EXTENDS Bases

HSparse(n, a) == [n |-> n, a |-> Strict(a)]
HBuild(t)     == HSparse(Canon(t.n), [i \in Range(t.i) |-> t.v[CHOOSE j \in DOMAIN t.i : t.i[j] = i]])
HAt(f, i)     == IF i \in DOMAIN f.a THEN f.a[i] ELSE "0"
\* a snapshot agrees with h; S(i) is what rounding at index i is relative to
HIs(s, h, S(_)) ==
  /\ s.r = "s" /\ s.n = h.n
  /\ Range(s.i) = DOMAIN h.a
  /\ \A k \in DOMAIN s.i : Close(s.v[k], h.a[s.i[k]], S(s.i[k]))
HExact(s, h) == LET S(i) == "0" IN HIs(s, h, S) /\ \A k \in DOMAIN s.i : EqN(s.v[k], h.a[s.i[k]])

HStack(f, h)   == HSparse(Add(f.n, h.n), [i \in DOMAIN f.a \cup {Add(f.n, j) : j \in DOMAIN h.a} |-> IF Lt(i, f.n) THEN f.a[i] ELSE h.a[Sub(i, f.n)]])
HRemove(f, i)  == HSparse(f.n, [j \in DOMAIN f.a \ {i} |-> f.a[j]])
HMap(f, g)     == HSparse(f.n, [i \in DOMAIN f.a |-> Fn1(g, f.a[i])])                                 \* where g maps zero to zero
HMerge(f, h, g) == HSparse(MaxN(f.n, h.n), [i \in DOMAIN f.a \cup DOMAIN h.a |-> Fn2(g, HAt(f, i), HAt(h, i))])
HTerms(f, h)   == ListOf([i \in DOMAIN f.a \cap DOMAIN h.a |-> Mul(f.a[i], h.a[i])])
HEqual(f, h)   == f.n = h.n /\ DOMAIN f.a = DOMAIN h.a /\ \A i \in DOMAIN f.a : EqN(f.a[i], h.a[i])

\* the features of a stack of sparse parts (lists of indices, grids) at input x
RECURSIVE HCells(_)
HCells(parts) == IF parts = <<>> THEN "1" ELSE Mul(OfInt(Head(parts).n), HCells(Tail(parts)))
RECURSIVE HRowMajor(_, _, _)
HRowMajor(cell, parts, k) == IF k = 0 THEN "0" ELSE Add(Mul(HRowMajor(cell, parts, k - 1), OfInt(parts[k].n)), OfInt(cell[k]))
HLeaf(b, x) ==
  CASE b.k = "fixs" -> HSparse(Canon(b.n), [i \in Range(b.i) |-> "1"])
    [] b.k = "grid" -> HSparse(HCells(b.parts), [i \in {HRowMajor(GridCell(b.parts, x), b.parts, Len(b.parts))} |-> "1"])
RECURSIVE HProject(_, _)
HProject(ps, x) == IF Len(ps) = 1 THEN HLeaf(ps[1], x) ELSE HStack(HLeaf(Head(ps), x), HProject(Tail(ps), x))

---------------------------------------------------------------------------
(* What the implementation may report. *)
WideOk(e) ==
  LET f == HBuild(e.f)  g == HBuild(e.g)  h == HBuild(e.h)  o == e.out
      S1(i) == Scale1(e.fn, HAt(f, i))
      S2(i) == Scale2(e.fn2, HAt(f, i), HAt(g, i))
      t == HTerms(f, g)  mag == SumN([k \in DOMAIN t |-> Abs(t[k])])
      l == ListOf(f.a)   tot == SumN([k \in DOMAIN l |-> Abs(l[k])]) IN
  /\ HExact(o.fg, HStack(f, g)) /\ HExact(o.left, HStack(HStack(f, g), h)) /\ HExact(o.right, HStack(f, HStack(g, h)))
  /\ \A m \in {HMap(f, e.fn)} : HIs(o.map, m, S1) /\ HIs(o.into, m, S1) /\ HIs(o.inplace, m, S1)
  /\ \A m \in {HMerge(f, g, e.fn2)} : HIs(o.merge, m, S2) /\ HIs(o.minto, m, S2) /\ HIs(o.minplace, m, S2)
  /\ HExact(o.rem, HRemove(f, e.at[1]))
  /\ \A k \in DOMAIN e.at : LET d == IF e.at[k] \in DOMAIN f.a THEN f.a[e.at[k]] ELSE "none" IN
       \A r \in {o.get[k], o.uget[k]} : IF d = "none" THEN r = "none" ELSE r # "none" /\ EqN(r, d)
  /\ o.n = f.n /\ o.nact = Cardinality(DOMAIN f.a)
  /\ Close(o.sum, SumN(l), tot)
  /\ Close(o.dot, SumN(t), mag) /\ Close(o.tod, SumN(t), mag)
  /\ o.eq = HEqual(f, g) /\ o.refl = TRUE
  /\ HExact(o.saved, f) /\ HExact(o.self, f) /\ HExact(o.other, g)
HugeOk(e) ==
  LET o == e.out IN
  \A h \in {HProject(e.ps, e.x)} :
  /\ o.st = "ok" /\ o.dim = h.n /\ HExact(o.snap, h)
  /\ \A k \in DOMAIN e.at : /\ o.ith[k].i = e.at[k]
        /\ IF Lt(e.at[k], h.n) THEN o.ith[k].st = "ok" /\ EqN(o.ith[k].v, HAt(h, e.at[k])) ELSE o.ith[k].st = "err"
=============================================================================
