-------------------------------- MODULE Vast --------------------------------
(***************************************************************************)
(* Vectors with very many components, of which few are different.          *)
(*                                                                         *)
(* A shape sh = [p, cuts, at] divides the indices 0..cuts[Len(cuts)]-1     *)
(* into cells: the cuts divide them into segments; in every segment each   *)
(* index in `at' is a cell of its own, and the others are divided into p   *)
(* cells by their residue modulo p.  A vector that is constant on the      *)
(* cells of the first q segments is given by its quotient: the (ordinary,  *)
(* short) feature vector over those cells, segment after segment, the      *)
(* residues 0..p-1 before the single indices.  The operations that work    *)
(* component by component are those of Features on quotients; sums weigh   *)
(* every cell with its size.  MC_Vast checks this against the vectors      *)
(* themselves (Up), for small shapes.                                      *)
(***************************************************************************)
EXTENDS Learner

Cut(sh, s)         == IF s = 0 THEN 0 ELSE sh.cuts[s]
SinglesBelow(sh, c) == Cardinality({j \in DOMAIN sh.at : sh.at[j] < c})
\* number of indices below c with residue r
ResBelow(sh, c, r) == (c + sh.p - 1 - r) \div sh.p
SegWeights(sh, s) ==
  LET a == Cut(sh, s - 1)  b == Cut(sh, s)
      single(r) == Cardinality({j \in DOMAIN sh.at : sh.at[j] >= a /\ sh.at[j] < b /\ sh.at[j] % sh.p = r}) IN
  [k \in 1..(sh.p + SinglesBelow(sh, b) - SinglesBelow(sh, a)) |->
     IF k <= sh.p THEN ResBelow(sh, b, k - 1) - ResBelow(sh, a, k - 1) - single(k - 1) ELSE 1]
RECURSIVE WeightsTo(_, _)
WeightsTo(sh, q) == IF q = 0 THEN <<>> ELSE WeightsTo(sh, q - 1) \o SegWeights(sh, q)
NCells(sh, q)    == q * sh.p + SinglesBelow(sh, Cut(sh, q))
\* segments of a quotient with n cells, and what it stands for
Segments(sh, n)  == CHOOSE q \in 1..Len(sh.cuts) : NCells(sh, q) = n
Size(sh, n)      == Cut(sh, Segments(sh, n))
Weights(sh, n)   == Strict(WeightsTo(sh, Segments(sh, n)))
CellAt(sh, i) ==           \* the cell (from 0) of index i
  LET s == CHOOSE s \in 1..Len(sh.cuts) : Cut(sh, s - 1) <= i /\ i < Cut(sh, s)
      before == NCells(sh, s - 1) IN
  IF \E j \in DOMAIN sh.at : sh.at[j] = i THEN before + sh.p + SinglesBelow(sh, i) - SinglesBelow(sh, Cut(sh, s - 1))
  ELSE before + (i % sh.p)
\* the vector a quotient stands for
Up(sh, f) ==
  LET n == Size(sh, f.n) IN
  IF IsDense(f) THEN Dense([k \in 1..n |-> At(f, CellAt(sh, k - 1))])
  ELSE Sparse(n, [i \in {j \in 0..(n - 1) : CellAt(sh, j) \in DOMAIN f.a} |-> At(f, CellAt(sh, i))])

---------------------------------------------------------------------------
(* w: the weights of the cells of f *)
Times(w, x)    == Mul(OfInt(w), x)
WSum(w, f, term(_)) == SumN(Strict([k \in DOMAIN w |-> IF (k - 1) \in Active(f) THEN Times(w[k], term(k)) ELSE "0"]))
CountIn(w, S)  == LET RECURSIVE C(_)
                      C(k) == IF k = 0 THEN 0 ELSE C(k - 1) + IF k \in S THEN w[k] ELSE 0
                  IN C(Len(w))
VSum(w, f)     == LET t(k) == At(f, k - 1) IN WSum(w, f, t)
VSumAbs(w, f)  == LET t(k) == Abs(At(f, k - 1)) IN WSum(w, f, t)
VSumSq(w, f)   == LET t(k) == Mul(At(f, k - 1), At(f, k - 1)) IN WSum(w, f, t)
VDot(w, f, u)  == LET t(k) == Mul(At(f, k - 1), u[k]) IN WSum(w, f, t)
VDotAbs(w, f, u) == LET t(k) == Abs(Mul(At(f, k - 1), u[k])) IN WSum(w, f, t)
VListed(w, f)  == CountIn(w, {k \in DOMAIN w : (k - 1) \in Active(f)})
VNActive(w, f) == IF IsSparse(f) THEN VListed(w, f) ELSE CountIn(w, {k \in DOMAIN w : Lt("1e-7", Abs(f.v[k]))})
VMax(w, f)     == MaxAbs(Strict([k \in DOMAIN w |-> IF w[k] > 0 /\ (k - 1) \in Active(f) THEN At(f, k - 1) ELSE "0"]))
VNorm(k, w, f) == CASE k = "l0" -> OfInt(VNActive(w, f)) [] k = "l1" -> VSumAbs(w, f)
                    [] k = "l2" -> Sqrt(VSumSq(w, f))    [] k = "linf" -> VMax(w, f)
\* equality of the vectors: cells without members do not count
VEqual(w, f, h) ==
  /\ f.r = h.r /\ f.n = h.n
  /\ \A k \in DOMAIN w : w[k] > 0 => (k - 1 \in Active(f) <=> k - 1 \in Active(h)) /\ EqN(At(f, k - 1), At(h, k - 1))
\* an optimiser's step along f
VStep(o, s, w, f, e) ==
  IF o.k = "isgd"
  THEN LET c == Div(o.lr, Add("1", Mul(o.lr, VSumSq(w, f)))) IN
       [s |-> s, d |-> Strict([i \in 1..f.n |-> Mul(c, Mul(e, Den(f)[i]))])]
  ELSE OptStep(o, s, f, e)

---------------------------------------------------------------------------
(* What the implementation may report.  A recorded vector is summed up     *)
(* cell by cell: how many components are listed, their least and greatest  *)
(* value; `out': how many are listed outside of the cells.                 *)
VIs(w, n, s, f, sc) ==
  /\ s.r = f.r /\ s.n = n /\ s.out = 0
  /\ Len(s.cnt) = f.n
  /\ \A k \in 1..f.n :
       IF w[k] > 0 /\ (k - 1) \in Active(f)
       THEN s.cnt[k] = w[k] /\ \A x \in {s.lo[k], s.hi[k]} : x # "none" /\ Close(x, At(f, k - 1), ScAt(sc, k))
       ELSE s.cnt[k] = 0
VExact(w, n, s, f) == VIs(w, n, s, f, <<>>) /\ \A k \in 1..f.n : s.cnt[k] > 0 => EqN(s.lo[k], At(f, k - 1)) /\ EqN(s.hi[k], At(f, k - 1))
AsDense(f)         == Dense(Den(f))
AsSparse(f)        == Sparse(f.n, [i \in Active(f) |-> At(f, i)])

VReadOk(e, o, f, w, n) ==
  /\ VExact(w, n, o.snap, f) /\ o.isd = IsDense(f) /\ o.iss = IsSparse(f)
  /\ o.n = n /\ o.nact = VNActive(w, f)
  /\ \A x \in {AsDense(f)} : \A s \in {o.dense, o.into, o.vec, o.arr, o.index} : VExact(w, n, s, x)
  /\ \A x \in {AsSparse(f)} : VExact(w, n, o.get, x) /\ VExact(w, n, o.uget, x)
  /\ \A k \in DOMAIN o.beyond : o.beyond[k] = "none"
  /\ Close(o.sum, VSum(w, f), VSumAbs(w, f))
  /\ Close(o.fold.sum, VSum(w, f), VSumAbs(w, f)) /\ Close(o.fold.sq, VSumSq(w, f), "0")
  /\ o.fold.cnt = VListed(w, f) /\ Close(o.fold.max, VMax(w, f), "0")
VLinOk(e, o, f, w, n) ==
  \A g \in {Build(e.g)} :
  LET mag == VDotAbs(w, f, e.w)  fg == VDot(w, f, Den(g))  mg == VDotAbs(w, f, Den(g)) IN
  /\ Close(o.dot, VDot(w, f, e.w), mag) /\ Close(o.tod, VDot(w, f, e.w), mag)
  /\ Close(o.ff, fg, mg) /\ Close(o.gf, fg, mg)
  /\ Len(o.mat) = Len(e.m)
  /\ \A j \in DOMAIN e.m : Close(o.mat[j], VDot(w, f, e.m[j]), VDotAbs(w, f, e.m[j]))
  /\ \A d \in {Den(f)} : \A k \in {Strict([j \in DOMAIN w |-> Abs(e.w[j])])} :
       /\ VIs(w, n, o.add, Dense([j \in DOMAIN w |-> IF IsZero(d[j]) THEN e.w[j] ELSE Add(e.w[j], d[j])]), k)
       /\ VIs(w, n, o.sadd, Dense([j \in DOMAIN w |-> IF IsZero(d[j]) THEN e.w[j] ELSE Add(e.w[j], Mul(e.alpha, d[j]))]), k)
  /\ o.rest = TRUE /\ VExact(w, n, o.self, f)
VMapOk(e, o, f, w, n) ==
  \A h \in {MapF(f, e.fn)} : \A sc \in {MapScale(f, e.fn)} :
  /\ \A s \in {o.map, o.into, o.inplace} : VIs(w, n, s, h, sc)
  /\ VExact(w, n, o.self, f)
VMergeOk(e, o, f, w, n) ==
  \A g \in {Build(e.g)} : \A h \in {MergeF(f, g, e.fn2)} : \A sc \in {Strict(MergeScale(f, g, e.fn2))} :
  \A v \in {Weights(e.sh, h.n)} :
  /\ \A s \in {o.merge, o.into, o.inplace} : VIs(v, Size(e.sh, h.n), s, h, sc)
  /\ VExact(w, n, o.self, f) /\ VExact(Weights(e.sh, g.n), Size(e.sh, g.n), o.other, g)
VStackOk(e, o, f, w, n) ==
  \A g \in {Build(e.g)} : \A h \in {Build(e.h)} :
  \A v \in {Weights(e.sh, g.n)} : \A u \in {Weights(e.sh, h.n)} : \A s \in {StackF(f, g)} :
  LET m == n + Size(e.sh, g.n)  t == m + Size(e.sh, h.n) IN
  /\ VExact(w \o v, m, o.fg, s)
  /\ \A z \in {StackF(s, h)} : VExact(w \o v \o u, t, o.left, z) /\ VExact(w \o v \o u, t, o.right, z)
VEditOk(e, o, f, w, n) ==
  /\ Len(o.rem) = Len(e.rem)
  /\ \A k \in DOMAIN e.rem :
       \A h \in {IF e.rem[k] < n THEN RemoveF(f, CellAt(e.sh, e.rem[k])) ELSE f} : VExact(w, n, o.rem[k], h)
VPanicOk(e, o, f, w, n) ==
  \A g \in {Build(e.g)} :
  /\ o.mseen = o.mraised /\ o.gseen = o.graised
  /\ \A h \in {IF o.mraised THEN f ELSE MapF(f, e.fn)} : VIs(w, n, o.map, h, IF o.mraised THEN <<>> ELSE MapScale(f, e.fn))
  /\ \A h \in {IF o.graised THEN f ELSE MergeF(f, g, e.fn2)} :
       VIs(Weights(e.sh, h.n), Size(e.sh, h.n), o.merge, h, IF o.graised THEN <<>> ELSE MergeScale(f, g, e.fn2))
  /\ VExact(Weights(e.sh, g.n), Size(e.sh, g.n), o.other, g)
VEqOk(e, o, f, w, n) ==
  \A g \in {Build(e.g)} : \A q \in {VEqual(w, f, g)} :
  /\ Comparable(f, g)
  /\ o.eq = q /\ o.qe = q /\ o.ne = ~q /\ o.refl = TRUE /\ o.clone = TRUE
VSaveOk(e, o, f, w, n) == o.st = "ok" /\ VExact(w, n, o.snap, f)
\* the normalisers, a bias added, the vector on top of itself: bases over one that yields f
VBaseOk(e, o, f, w, n) ==
  /\ \A k \in Norms : \A z \in {VNorm(k, w, f)} :
       IF IsZero(z) THEN TRUE ELSE o[k].dim = n /\ VIs(w, n, o[k].snap, ScaleBy(f, z), <<>>)
  /\ o.wb.dim = n + 1 /\ VExact(Append(w, 1), n + 1, o.wb.snap, StackF(f, Dense(<<"1">>)))
  /\ o.twice.dim = 2 * n /\ VExact(w \o w, 2 * n, o.twice.snap, StackF(f, f))
  /\ Len(o.ith) = Len(e.rem) /\ Len(o.wb.ith) = Len(e.rem) /\ Len(o.twice.ith) = Len(e.rem)
  /\ \A j \in DOMAIN e.rem : LET i == e.rem[j] IN
       IF i < n THEN o.ith[j] # "err" /\ EqN(o.ith[j], At(f, CellAt(e.sh, i))) /\ o.twice.ith[j] = o.ith[j] /\ o.wb.ith[j] = o.ith[j]
       ELSE /\ o.ith[j] = "err"
            /\ o.wb.ith[j] = (IF i = n THEN "1" ELSE "err")
            /\ IF i < 2 * n THEN LET x == At(f, CellAt(e.sh, i - n)) IN o.twice.ith[j] # "err" /\ EqN(o.twice.ith[j], x)
               ELSE o.twice.ith[j] = "err"
VastOk(e) ==
  \A f \in {Build(e.f)} : \A w \in {Weights(e.sh, f.n)} : \A n \in {Size(e.sh, f.n)} :
  /\ DOMAIN e.out = Range(e.ask)
  /\ \A a \in Range(e.ask) : LET o == e.out[a] IN
       CASE a = "read" -> VReadOk(e, o, f, w, n)   [] a = "lin" -> VLinOk(e, o, f, w, n)
         [] a = "map" -> VMapOk(e, o, f, w, n)     [] a = "merge" -> VMergeOk(e, o, f, w, n)
         [] a = "stack" -> VStackOk(e, o, f, w, n) [] a = "edit" -> VEditOk(e, o, f, w, n)
         [] a = "inject" -> VPanicOk(e, o, f, w, n) [] a = "eq" -> VEqOk(e, o, f, w, n)
         [] a = "save" -> VSaveOk(e, o, f, w, n)   [] a = "base" -> VBaseOk(e, o, f, w, n)

---------------------------------------------------------------------------
(* Learners with very many features.  X: for every output its weights, the *)
(* total magnitude A of their changes and the state S of the optimiser.    *)
(* Every step is explained from the one before without taking over what    *)
(* was recorded.                                                           *)
VNew(o, m, k) == [W |-> [j \in 1..m |-> Zeros(k)], A |-> [j \in 1..m |-> Zeros(k)], S |-> [j \in 1..m |-> OptInit(o, k)]]
VLearn(X, o, w, f, us) ==
  LET r == Strict([j \in DOMAIN X.W |-> IF PosOf(us, j) = 0 THEN [s |-> X.S[j], d |-> Zeros(f.n)]
                                        ELSE VStep(o, X.S[j], w, f, us[PosOf(us, j)][2])]) IN
  [W |-> Strict([j \in DOMAIN r |-> Strict([k \in 1..f.n |-> Add(X.W[j][k], r[j].d[k])])]),
   A |-> Strict([j \in DOMAIN r |-> Strict([k \in 1..f.n |-> Add(X.A[j][k], Abs(r[j].d[k]))])]),
   S |-> [j \in DOMAIN r |-> r[j].s]]
\* the recorded weights; untouched ones are exactly what they were
VWeights(X, w, n, W) ==
  /\ Len(W) = Len(X.W)
  /\ \A j \in DOMAIN W : VIs(w, n, W[j], Dense(X.W[j]),
       Strict([k \in DOMAIN w |-> IF IsZero(X.A[j][k]) THEN "0" ELSE Add(Abs(X.W[j][k]), X.A[j][k])]))
  /\ \A j \in DOMAIN W : \A k \in DOMAIN w : w[k] > 0 /\ IsZero(X.A[j][k]) => EqN(W[j].lo[k], X.W[j][k]) /\ EqN(W[j].hi[k], X.W[j][k])
VValues(X, w, f)    == Strict([j \in DOMAIN X.W |-> VDot(w, f, X.W[j])])
VValueMags(X, w, f) == Strict([j \in DOMAIN X.W |-> VDotAbs(w, f, [k \in DOMAIN w |-> Add(Abs(X.W[j][k]), X.A[j][k])])])
VDid(X, e, s, o, w, n, f) ==      \* the learner after step s, reported as o; {}: not explained
  CASE s.do = "eval" -> IF /\ CloseSeq(o.v, VValues(X, w, f), VValueMags(X, w, f))
                           /\ CloseSeq(o.it, VValues(X, w, f), VValueMags(X, w, f)) THEN {X} ELSE {}
    [] s.do \in {"upd", "step", "updi"} ->
         IF o.st # "ok" THEN {}
         ELSE {VLearn(X, e.o, w, f, IF s.do = "updi" THEN <<<<s.j, s.e[1]>>>> ELSE Pairs(s.e, Len(X.W)))}
    [] s.do = "with" ->
         IF /\ o.st = "ok" /\ o.calls = 1
            /\ VExact(w, n, o.cphi, f)
            /\ CloseSeq(o.cv, VValues(X, w, f), VValueMags(X, w, f))
         THEN {VLearn(X, e.o, w, f, Pairs(o.ce, Len(X.W)))} ELSE {}
    [] s.do = "reset" -> {[X EXCEPT !.S = [j \in DOMAIN X.S |-> OptInit(e.o, Len(w))]]}
    [] s.do = "save"  -> IF o.st = "ok" THEN {X} ELSE {}
RECURSIVE VSteps(_, _, _, _, _)
VSteps(X, e, k, w, n) ==
  IF k > Len(e.steps) THEN TRUE ELSE
  \E f \in {IF "f" \in DOMAIN e.steps[k] THEN Build(e.steps[k].f) ELSE Dense(<<>>)} :
  \E Y \in VDid(X, e, e.steps[k], e.out.steps[k], w, n, f) :
     VWeights(Y, w, n, e.out.steps[k].W) /\ VSteps(Y, e, k + 1, w, n)
VLearnOk(e) ==
  \A w \in {Weights(e.sh, NCells(e.sh, Len(e.sh.cuts)))} : \A n \in {Cut(e.sh, Len(e.sh.cuts))} :
  /\ e.out.n = n /\ e.out.m = e.m
  /\ Len(e.out.steps) = Len(e.steps)
  /\ VSteps(VNew(e.o, e.m, Len(w)), e, 1, w, n)

---------------------------------------------------------------------------
(* Learners with very many outputs; the optimiser has no state.  X: for    *)
(* every feature the quotient of its row of weights, and the total         *)
(* magnitude of their changes.                                             *)
ORow(X, f, c, z) == Strict([k \in 1..f.n |-> z[k][c]])
OValue(X, f, c)  == SumN([k \in 1..f.n |-> Mul(Den(f)[k], X.W[k][c])])
OMag(X, f, c)    == SumN([k \in 1..f.n |-> Abs(Mul(Den(f)[k], Add(Abs(X.W[k][c]), X.A[k][c])))])
OValues(X, f)    == Strict([c \in DOMAIN X.W[1] |-> OValue(X, f, c)])
OMags(X, f)      == Strict([c \in DOMAIN X.W[1] |-> OMag(X, f, c)])
\* errors e: for the first cells; the outputs of the others are not updated
OLearn(X, o, f, e) ==
  LET d(k, c) == IF c > Len(e) \/ e[c] = "none" THEN "0" ELSE VStep(o, OptInit(o, f.n), [j \in 1..f.n |-> 1], f, e[c]).d[k] IN
  [W |-> Strict([k \in DOMAIN X.W |-> Strict([c \in DOMAIN X.W[k] |-> Add(X.W[k][c], d(k, c))])]),
   A |-> Strict([k \in DOMAIN X.W |-> Strict([c \in DOMAIN X.W[k] |-> Add(X.A[k][c], Abs(d(k, c)))])])]
OWeights(X, w, m, W) ==
  /\ Len(W) = Len(X.W)
  /\ \A k \in DOMAIN W : VIs(w, m, W[k], Dense(X.W[k]), Strict([c \in DOMAIN w |-> IF IsZero(X.A[k][c]) THEN "0" ELSE Add(Abs(X.W[k][c]), X.A[k][c])]))
OnlyAt(e, c, x)  == [k \in 1..c |-> IF k = c THEN x ELSE "none"]
ODid(X, e, s, o, w, m, f) ==
  CASE s.do = "eval" ->
         \E v \in {OValues(X, f)} : \E g \in {OMags(X, f)} :
         /\ \A r \in {o.v, o.it, o.try} : VIs(w, m, r, Dense(v), g)
         /\ o.len = m /\ o.left = (IF s.j < m THEN m - s.j - 1 ELSE 0)
         /\ IF s.j >= m THEN o.nth = "none"
            ELSE LET c == CellAt(e.sh, s.j) + 1 IN o.nth # "none" /\ Close(o.nth, v[c], g[c]) /\ Close(o.idx, v[c], g[c])
    [] s.do \in {"upd", "updi"} -> o.st = "ok"
    [] s.do = "with" ->
         /\ o.st = "ok" /\ o.calls = 1
         /\ \E v \in {OValues(X, f)} : \E g \in {OMags(X, f)} : VIs(w, m, o.cv, Dense(v), g)
    [] s.do \in {"save", "reset"} -> o.st = "ok"
ONext(X, e, s, f) ==
  CASE s.do \in {"upd", "with"} -> OLearn(X, e.o, f, s.e)
    [] s.do = "updi" -> OLearn(X, e.o, f, OnlyAt(e, CellAt(e.sh, s.j) + 1, s.e[1]))
    [] OTHER -> X
\* An update that fails at output s.j, the first of the last segment: the outputs before it have learnt, it
\* has not, and those after it may have.
OFailed(X, e, k0, s, o, w, m, f) ==
  /\ o.st = "err" /\ o.code = -2
  /\ \E Y \in {OLearn(X, e.o, f, s.e)} : \A k \in DOMAIN X.W : \A c \in DOMAIN w :
       LET kept(x) == IF k0 = 1 THEN IsZero(x) ELSE LET b == e.out.steps[k0 - 1].W[k] IN EqN(x, b.lo[c]) \/ EqN(x, b.hi[c])
           moved(x) == Close(x, Y.W[k][c], Add(Abs(Y.W[k][c]), Y.A[k][c])) IN
       /\ o.W[k].r = "d" /\ o.W[k].n = m /\ o.W[k].out = 0 /\ o.W[k].cnt[c] = w[c]
       /\ w[c] > 0 => \A x \in {o.W[k].lo[c], o.W[k].hi[c]} :
            IF c = CellAt(e.sh, s.j) + 1 THEN kept(x)
            ELSE IF c <= NCells(e.sh, Len(e.sh.cuts) - 1) THEN moved(x) ELSE kept(x) \/ moved(x)
RECURSIVE OSteps(_, _, _, _, _)
OSteps(X, e, k, w, m) ==
  IF k > Len(e.steps) THEN TRUE ELSE
  \E f \in {IF "phi" \in DOMAIN e.steps[k] THEN Build(e.steps[k].phi) ELSE Dense(<<>>)} :
  LET s == e.steps[k]  o == e.out.steps[k] IN
  IF s.do = "fail" THEN k = Len(e.steps) /\ OFailed(X, e, k, s, o, w, m, f)
  ELSE /\ ODid(X, e, s, o, w, m, f)
       /\ \E Y \in {ONext(X, e, s, f)} : OWeights(Y, w, m, o.W) /\ OSteps(Y, e, k + 1, w, m)
VOutsOk(e) ==
  \A w \in {Weights(e.sh, NCells(e.sh, Len(e.sh.cuts)))} : \A m \in {Cut(e.sh, Len(e.sh.cuts))} :
  /\ e.out.n = e.n /\ e.out.m = m
  /\ Len(e.out.steps) = Len(e.steps)
  /\ \E z \in {[k \in 1..e.n |-> Zeros(Len(w))]} : OSteps([W |-> z, A |-> z], e, 1, w, m)
=============================================================================
