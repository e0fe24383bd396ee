-------------------------------- MODULE Bases --------------------------------
(***************************************************************************)
(* Basis expressions (src/basis/): what a basis is, how many features it   *)
(* has, and what projecting an input onto it yields.                       *)
(*                                                                         *)
(* A basis is a term, tagged by k:                                         *)
(*   bias c | fixd v | fixs n,i | poly d,o,z | four o,lim | cheb o,lim,z   *)
(*   polyx e | fourx lim,co | chebx lim,e   the same with their tables of  *)
(*              exponents, coefficients, degrees given by the user          *)
(*   grid parts | tile n,m,id | kern kern,cent[,kerns] | kpart kk,parts    *)
(*   stack a,b | wb a | l0 a | l1 a | l2 a | linf a                        *)
(*   phi n      a user-defined basis: yields the features given with the   *)
(*              input                                                      *)
(*   fail n,c   a user-defined basis that fails with code c on inputs      *)
(*              listing c, and otherwise is all ones                       *)
(* An environment is [x |-> input, phi |-> features, fail |-> set of       *)
(* codes, tiles |-> projections of the tile leaves].  The features chosen  *)
(* by a hash function are the one thing the specification leaves open      *)
(* (see Tiles.tla), so they are taken from the environment.                *)
(***************************************************************************)
EXTENDS Features

RECURSIVE Power(_, _)
Power(a, n) == IF n = 0 THEN 1 ELSE a * Power(a, n - 1)
\* the digits of k in the given base, most significant first, d of them
Digits(k, base, d) == [j \in 1..d |-> (k \div Power(base, d - j)) % base]

---------------------------------------------------------------------------
(* Kernels *)
RECURSIVE SqDist(_, _, _, _)
SqDist(x, y, ls, k) == IF k = 0 THEN "0"
  ELSE LET z == Div(Sub(x[k], y[k]), ls[((k - 1) % Len(ls)) + 1]) IN Add(SqDist(x, y, ls, k - 1), Mul(z, z))
KernelAt(K, r2) ==     \* as a function of the squared weighted distance
  LET r == Sqrt(r2) IN
  CASE K.k = "exp" -> Mul(K.var, Exp(Neg(r)))
    [] K.k = "m32" -> LET s == Mul(Sqrt("3"), r) IN Mul(Mul(K.var, Add("1", s)), Exp(Neg(s)))
    [] K.k = "m52" -> LET s == Mul(Sqrt("5"), r) IN
                      Mul(Mul(K.var, Add(Add("1", s), Div(Mul(s, s), "3"))), Exp(Neg(s)))
    [] K.k = "eq"  -> Mul(K.var, Exp(Div(r2, "-2")))
    [] K.k = "cos" -> Mul(K.var, Cos(r))
    [] K.k = "rq"  -> Mul(K.var, Exp(Mul(Neg(K.pow), Ln(Add("1", Div(r2, "2"))))))
Kernel(K, x, y)  == KernelAt(K, SqDist(x, y, K.ls, Len(x)))
KernelScale(K)   == IF K.k = "cos" THEN K.var ELSE "0"

Width(p)      == Div(Sub(p.hi, p.lo), OfInt(p.n))
Centre(p, c)  == Add(p.lo, Mul(Width(p), Add(OfInt(c), "0.5")))
\* the cell of partition p an input lies in; out of bounds belongs to the outermost
Cell(p, x) ==
  IF Le(x, p.lo) THEN 0
  ELSE IF Le(p.hi, x) THEN p.n - 1
  ELSE LET c == FloorN(Div(Mul(Sub(x, p.lo), OfInt(p.n)), Sub(p.hi, p.lo)))
       IN IF Le(OfInt(p.n), c) THEN p.n - 1 ELSE ToInt(c)
RECURSIVE Cells(_)
Cells(parts) == IF parts = <<>> THEN 1 ELSE Head(parts).n * Cells(Tail(parts))
RECURSIVE RowMajor(_, _, _)
RowMajor(cell, parts, k) == IF k = 0 THEN 0 ELSE RowMajor(cell, parts, k - 1) * parts[k].n + cell[k]
GridCell(parts, x) == [k \in DOMAIN parts |-> Cell(parts[k], x[k])]
\* the j-th cell (from 0) in row-major order
RECURSIVE CellOf(_, _)
CellOf(parts, j) == IF parts = <<>> THEN <<>>
  ELSE LET sub == Cells(Tail(parts)) IN <<j \div sub>> \o CellOf(Tail(parts), j % sub)
PartKernel(b) == [k |-> b.kk, var |-> "1", ls |-> Strict([k \in DOMAIN b.parts |-> Width(b.parts[k])])]
PartCentroid(parts, j) == LET c == CellOf(parts, j) IN Strict([k \in DOMAIN parts |-> Centre(parts[k], c[k])])

---------------------------------------------------------------------------
(* Chebyshev polynomials of the first kind, by their recurrence, and the   *)
(* magnitude of the terms of T_n in the monomial basis at x (the rounding  *)
(* of an evaluation in f64 is relative to it)                              *)
RECURSIVE ChebTab(_, _)             \* <<T_0(x), ..., T_n(x)>>
ChebTab(n, x) == IF n = 0 THEN <<"1">> ELSE IF n = 1 THEN <<"1", Canon(x)>>
  ELSE LET t == ChebTab(n - 1, x) IN Append(t, Sub(Mul("2", Mul(x, t[n])), t[n - 1]))
RECURSIVE ChebMagTab(_, _)
ChebMagTab(n, x) == IF n = 0 THEN <<"1">> ELSE IF n = 1 THEN <<"1", MaxN("1", Abs(x))>>
  ELSE LET t == ChebMagTab(n - 1, x) IN Append(t, Add(Mul("2", Mul(Abs(x), t[n])), t[n - 1]))
Cheb(n, x) == ChebTab(n, x)[n + 1]
Rescale(lim, x) == Div(Sub(x, lim[1]), Sub(lim[2], lim[1]))

Terms01(base, d) == Power(base, d) - 1                     \* tuples of degrees but the all-zero one
PolyTerm(x, deg) == ProdN([i \in DOMAIN deg |-> PowN(x[i], deg[i])])
FourTerm(s, deg) == Cos(Mul(Pi, SumN([i \in DOMAIN deg |-> Mul(OfInt(deg[i]), s[i])])))
\* rounding of the argument, far from the limits
FourScale(o, s)  == MaxN("1", Mul("1e-3", Mul(OfInt(o), SumN([i \in DOMAIN s |-> Abs(s[i])]))))
\* the product of the polynomials of the given degrees, tab holding their values for every input
ChebTerm(tab, deg) == ProdN([i \in DOMAIN deg |-> tab[i][deg[i] + 1]])

---------------------------------------------------------------------------
Composite(b) == b.k \in {"stack", "wb", "l0", "l1", "l2", "linf"}
Norms == {"l0", "l1", "l2", "linf"}

RECURSIVE NDim(_)
NDim(b) ==
  CASE b.k = "bias" -> 1
    [] b.k = "fixd" -> Len(b.v)
    [] b.k = "fixs" -> b.n
    [] b.k = "poly" -> Terms01(b.o + 1, b.d) + IF b.z THEN 1 ELSE 0
    [] b.k = "four" -> Terms01(b.o + 1, Len(b.lim))
    [] b.k = "cheb" -> Terms01(b.o + 1, Len(b.lim)) + IF b.z THEN 1 ELSE 0
    [] b.k \in {"polyx", "chebx"} -> Len(b.e)
    [] b.k = "fourx" -> Len(b.co)
    [] b.k = "grid" -> Cells(b.parts)
    [] b.k = "tile" -> b.m
    [] b.k = "kern" -> Len(b.cent)
    [] b.k = "kpart" -> Cells(b.parts)
    [] b.k = "stack" -> NDim(b.a) + NDim(b.b)
    [] b.k = "wb" -> NDim(b.a) + 1
    [] b.k \in Norms -> NDim(b.a)
    [] b.k \in {"phi", "fail"} -> b.n

\* Results of a projection.  sc: magnitude the f64 rounding of each component is relative to;
\* st: "ok", "err" (code), or "any" (no value is promised: normalisation of an all-zero projection)
Ok(f, sc)  == [st |-> "ok", f |-> f, sc |-> Strict(sc)]
\* nothing is rounded; <<>> stands for as many zeros as there are features (there may be very many)
Exactly(f) == [st |-> "ok", f |-> f, sc |-> <<>>]
Scales(p)  == IF p.sc = <<>> THEN Zeros(p.f.n) ELSE p.sc
Err(c)     == [st |-> "err", code |-> c]
NoValue        == [st |-> "any"]

Zeroth(b, v, sc) == IF b.z THEN Ok(Dense(v \o <<"1">>), sc \o <<"0">>) ELSE Ok(Dense(v), sc)

StackR(p, q) ==
  IF p.st = "err" THEN p ELSE IF q.st = "err" THEN q
  ELSE IF p.st = "any" \/ q.st = "any" THEN NoValue
  ELSE Ok(StackF(p.f, q.f), Scales(p) \o Scales(q))

NormOf(k, f) ==
  CASE k = "l0"   -> OfInt(NActive(f))
    [] k = "l1"   -> LET e == Entries(f) IN SumN([j \in DOMAIN e |-> Abs(e[j])])
    [] k = "l2"   -> Sqrt(SumSq(f))
    [] k = "linf" -> MaxAbs(Entries(f))
ScaleBy(f, z) == IF IsDense(f) THEN Dense([k \in 1..f.n |-> Div(f.v[k], z)])
                 ELSE Sparse(f.n, [i \in DOMAIN f.a |-> Div(f.a[i], z)])
NormR(k, p) ==
  IF p.st # "ok" THEN p
  ELSE LET z == NormOf(k, p.f) IN
       \* all zero, or as near to it as rounding comes
       IF IsZero(z) \/ Le(z, Mul("1e-9", SumN(p.sc))) THEN NoValue
       ELSE LET t == Div(SumN(p.sc), z)  d == Den(p.f) IN
            Ok(ScaleBy(p.f, z), [j \in DOMAIN p.sc |-> Div(Add(p.sc[j], Mul(Abs(d[j]), t)), z)])

\* the kernel of the j-th prototype: its own, or one for all
KernelOf(b, j) == IF "kerns" \in DOMAIN b THEN b.kerns[j] ELSE b.kern

RECURSIVE Project(_, _)
Project(b, env) ==
  CASE b.k = "bias" -> Ok(Dense(<<b.c>>), <<"0">>)
    [] b.k = "fixd" -> Ok(Dense(b.v), Zeros(Len(b.v)))
    [] b.k = "fixs" -> Exactly(Sparse(b.n, MkOnes(b.i)))
    [] b.k = "poly" ->
         LET v == Strict([j \in 1..Terms01(b.o + 1, b.d) |-> PolyTerm(env.x, Digits(j, b.o + 1, b.d))])
         IN Zeroth(b, v, Zeros(Len(v)))
    [] b.k = "four" ->
         LET d == Len(b.lim)
             s == Strict([i \in 1..d |-> Rescale(b.lim[i], env.x[i])])
             v == [j \in 1..Terms01(b.o + 1, d) |-> FourTerm(s, Digits(j, b.o + 1, d))]
         IN Ok(Dense(v), Const(Len(v), FourScale(b.o, s)))
    [] b.k = "cheb" ->
         LET d == Len(b.lim)
             s == Strict([i \in 1..d |-> Sub(Mul("2", Rescale(b.lim[i], env.x[i])), "1")])
             T == Strict([i \in 1..d |-> ChebTab(b.o, s[i])])
             M == Strict([i \in 1..d |-> ChebMagTab(b.o, s[i])])
             v == Strict([j \in 1..Terms01(b.o + 1, d) |-> ChebTerm(T, Digits(j, b.o + 1, d))])
             m == Strict([j \in DOMAIN v |-> Mul("1e-4", ChebTerm(M, Digits(j, b.o + 1, d)))])
         IN Zeroth(b, v, m)
    [] b.k = "polyx" ->
         Ok(Dense(Strict([j \in DOMAIN b.e |-> PolyTerm(env.x, b.e[j])])), Zeros(Len(b.e)))
    [] b.k = "fourx" ->
         LET s == Strict([i \in DOMAIN b.lim |-> Rescale(b.lim[i], env.x[i])])
             z == Strict([j \in DOMAIN b.co |-> VecDot(b.co[j], s)])
             w == Strict([j \in DOMAIN b.co |-> SumN([i \in DOMAIN s |-> Abs(Mul(b.co[j][i], s[i]))])])
         IN Ok(Dense([j \in DOMAIN z |-> Cos(Mul(Pi, z[j]))]), [j \in DOMAIN z |-> MaxN("1", Mul("1e-3", w[j]))])
    [] b.k = "chebx" ->
         LET d == Len(b.lim)
             s == Strict([i \in 1..d |-> Sub(Mul("2", Rescale(b.lim[i], env.x[i])), "1")])
             T == Strict([i \in 1..d |-> ChebTab(11, s[i])])
             M == Strict([i \in 1..d |-> ChebMagTab(11, s[i])])
         IN Ok(Dense(Strict([j \in DOMAIN b.e |-> ChebTerm(T, b.e[j])])),
               Strict([j \in DOMAIN b.e |-> Mul("1e-4", ChebTerm(M, b.e[j]))]))
    [] b.k = "grid" ->
         LET n == Cells(b.parts) IN
         Exactly(Sparse(n, [i \in {RowMajor(GridCell(b.parts, env.x), b.parts, Len(b.parts))} |-> "1"]))
    [] b.k = "tile" -> Exactly(env.tiles[b.id])
    [] b.k = "kern" ->
         Ok(Dense([j \in DOMAIN b.cent |-> Kernel(KernelOf(b, j), env.x, b.cent[j])]),
            [j \in DOMAIN b.cent |-> KernelScale(KernelOf(b, j))])
    [] b.k = "kpart" ->
         LET K == PartKernel(b) IN
         Ok(Dense([j \in 1..Cells(b.parts) |-> Kernel(K, env.x, PartCentroid(b.parts, j - 1))]), Zeros(Cells(b.parts)))
    [] b.k = "stack" -> StackR(Project(b.a, env), Project(b.b, env))
    [] b.k = "wb"    -> StackR(Project(b.a, env), Ok(Dense(<<"1">>), <<"0">>))
    [] b.k \in Norms -> NormR(b.k, Project(b.a, env))
    [] b.k = "phi"   -> Ok(env.phi, Zeros(b.n))
    [] b.k = "fail"  -> IF b.c \in env.fail THEN Err(b.c) ELSE Ok(Dense(Const(b.n, "1")), Zeros(b.n))

\* one component of the projection on its own (for bases too large to be projected here): its value
\* and the magnitude rounding is relative to; only for bases whose components do not depend on each other
Apart(b) == b.k \in {"bias", "fixd", "fixs", "poly", "four", "cheb", "grid", "kern", "kpart", "phi"}
RECURSIVE Separable(_)
Separable(b) == \/ Apart(b)
                \/ b.k = "wb" /\ Separable(b.a)
                \/ b.k = "stack" /\ Separable(b.a) /\ Separable(b.b)
RECURSIVE Component(_, _, _)
Component(b, env, i) ==
  LET one(v)    == [v |-> v, sc |-> "0"]
      scaled(k) == Rescale(b.lim[k], env.x[k])
      last      == b.z /\ i + 1 = NDim(b) IN
  CASE b.k = "poly" -> IF last THEN one("1") ELSE one(PolyTerm(env.x, Digits(i + 1, b.o + 1, b.d)))
    [] b.k = "four" -> [v |-> FourTerm([k \in DOMAIN b.lim |-> scaled(k)], Digits(i + 1, b.o + 1, Len(b.lim))),
                         sc |-> FourScale(b.o, [k \in DOMAIN b.lim |-> scaled(k)])]
    [] b.k = "cheb" ->
         IF last THEN one("1")
         ELSE LET deg == Digits(i + 1, b.o + 1, Len(b.lim))
                  T == Strict([k \in DOMAIN b.lim |-> ChebTab(b.o, Sub(Mul("2", scaled(k)), "1"))])
                  M == Strict([k \in DOMAIN b.lim |-> ChebMagTab(b.o, Sub(Mul("2", scaled(k)), "1"))])
              IN [v |-> ChebTerm(T, deg), sc |-> Mul("1e-4", ChebTerm(M, deg))]
    [] b.k = "kern"  -> LET K == KernelOf(b, i + 1) IN [v |-> Kernel(K, env.x, b.cent[i + 1]), sc |-> KernelScale(K)]
    [] b.k = "kpart" -> one(Kernel(PartKernel(b), env.x, PartCentroid(b.parts, i)))
    [] b.k = "wb"    -> IF i + 1 = NDim(b) THEN one("1") ELSE Component(b.a, env, i)
    [] b.k = "stack" -> IF i < NDim(b.a) THEN Component(b.a, env, i) ELSE Component(b.b, env, i - NDim(b.a))
    [] OTHER -> one(At(Project(b, env).f, i))

\* the i-th activation, the way the code computes it (a stack asks only the part concerned)
RECURSIVE Ith(_, _, _)
Ith(b, env, i) ==
  IF i >= NDim(b) THEN Err(-1)
  ELSE IF b.k = "stack" THEN IF i < NDim(b.a) THEN Ith(b.a, env, i) ELSE Ith(b.b, env, i - NDim(b.a))
  ELSE IF b.k = "wb" THEN IF i < NDim(b.a) THEN Ith(b.a, env, i) ELSE [st |-> "ok", v |-> "1"]
  ELSE LET p == Project(b, env) IN IF p.st = "ok" THEN [st |-> "ok", v |-> At(p.f, i)] ELSE p

\* the tile coder leaves of a basis
RECURSIVE TileLeaves(_)
TileLeaves(b) == IF b.k = "tile" THEN {b} ELSE IF b.k = "stack" THEN TileLeaves(b.a) \cup TileLeaves(b.b)
                 ELSE IF Composite(b) THEN TileLeaves(b.a) ELSE {}
\* codes of the failing parts, leftmost first
RECURSIVE Failing(_, _)
Failing(b, env) == IF b.k = "fail" THEN IF b.c \in env.fail THEN <<b.c>> ELSE <<>>
                   ELSE IF b.k = "stack" THEN Failing(b.a, env) \o Failing(b.b, env)
                   ELSE IF Composite(b) THEN Failing(b.a, env) ELSE <<>>

---------------------------------------------------------------------------
(* Properties *)
\* C08
Contract(b, env) ==
  LET p == Project(b, env) IN
  /\ p.st = "ok" => /\ p.f.n = NDim(b)
                    /\ \A i \in 0..(NDim(b) - 1) : Ith(b, env, i).st = "ok" /\ EqN(Ith(b, env, i).v, At(p.f, i))
  /\ \A i \in NDim(b)..(NDim(b) + 2) : Ith(b, env, i).st = "err"
Separately(b, env) ==
  Separable(b) => LET p == Project(b, env) IN \A i \in 0..(NDim(b) - 1) :
    /\ EqN(Component(b, env, i).v, At(p.f, i))
    /\ EqN(Component(b, env, i).sc, ScAt(p.sc, i + 1))
\* C09: the enumeration is a bijection between 1..(o+1)^d-1 and the non-zero degree tuples, in lexicographic order
LexLess(s, t) == \E k \in DOMAIN s : s[k] < t[k] /\ \A j \in 1..(k - 1) : s[j] = t[j]
Enumeration(o, d) ==
  LET N == Terms01(o + 1, d) IN
  /\ {Digits(j, o + 1, d) : j \in 1..N} = {t \in [1..d -> 0..o] : \E k \in 1..d : t[k] # 0}
  /\ \A j \in 1..(N - 1) : LexLess(Digits(j, o + 1, d), Digits(j + 1, o + 1, d))
\* C10
OneCell(parts, x) ==
  LET f == Project([k |-> "grid", parts |-> parts], [x |-> x]).f IN
  /\ Cardinality(DOMAIN f.a) = 1 /\ \A i \in DOMAIN f.a : f.a[i] = "1" /\ i \in 0..(Cells(parts) - 1)
SameCell(parts, x, y) ==
  (GridCell(parts, x) = GridCell(parts, y))
  <=> Project([k |-> "grid", parts |-> parts], [x |-> x]).f = Project([k |-> "grid", parts |-> parts], [x |-> y]).f
CellBijection(parts) ==
  \A j \in 0..(Cells(parts) - 1) :
     /\ RowMajor(CellOf(parts, j), parts, Len(parts)) = j
     /\ GridCell(parts, PartCentroid(parts, j)) = CellOf(parts, j)
\* C12
KernelShape(K, x, y) ==
  /\ EqN(Kernel(K, x, y), Kernel(K, y, x))
  /\ EqN(Kernel(K, x, x), K.var)
  /\ Le(Abs(Kernel(K, x, y)), Add(K.var, Mul(K.var, "1e-40")))
KernelDecreasing(K, r2, s2) == Lt(r2, s2) => Lt(KernelAt(K, s2), KernelAt(K, r2))
\* C13
UnitNorm(k, p) ==
  LET q == NormR(k, p) IN
  p.st = "ok" /\ q.st = "ok" =>
  /\ k # "l0" => Close(NormOf(k, q.f), "1", "0")
  /\ k = "l0" => Close(SumN(Den(q.f)), Div(SumN(Den(p.f)), OfInt(NActive(p.f))), "1e-9")
  /\ q.f.r = p.f.r /\ q.f.n = p.f.n /\ Active(q.f) = Active(p.f)
  /\ \A i, j \in 1..p.f.n : LET a == Den(p.f) c == Den(q.f) IN
       /\ Close(Mul(a[i], c[j]), Mul(a[j], c[i]), "0")
       /\ Lt("0", a[i]) <=> Lt("0", c[i])
\* C14
Concatenation(a, b, env) ==
  LET p == Project(a, env) q == Project(b, env) s == Project([k |-> "stack", a |-> a, b |-> b], env) IN
  /\ p.st = "ok" /\ q.st = "ok" => s.st = "ok" /\ Den(s.f) = Den(p.f) \o Den(q.f)
  /\ NDim([k |-> "stack", a |-> a, b |-> b]) = NDim(a) + NDim(b)
FirstFailure(b, env) ==
  LET p == Project(b, env) fs == Failing(b, env) IN
  IF fs = <<>> THEN p.st # "err" ELSE p = Err(Head(fs))
=============================================================================
