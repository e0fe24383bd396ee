-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace specification.  The harness records one event per call it makes   *)
(* on the real code (op, arguments, out = everything observable            *)
(* afterwards); this module accepts a recording iff every event is one the *)
(* specification allows.  A recording consists of episodes, each starting  *)
(* with an event "begin"; every episode is one initial state, every event  *)
(* one step.  TLC stops with a deadlock at the first event that no action  *)
(* explains; the last state names it.                                      *)
(*                                                                         *)
(* Visible state (features, weights) is taken over from the recording      *)
(* after it has been checked, so that f64 rounding does not accumulate;    *)
(* hidden state (optimiser state, the effect of a panic) is inferred.      *)
(***************************************************************************)
EXTENDS Learner, Tiles, Huge, Vast, Json, IOUtils

Trace  == ndJsonDeserialize(IOEnv.TRACE)
Starts == {k \in DOMAIN Trace : Trace[k].op = "begin"}

VARIABLES l,      \* events explained so far
          regs,   \* feature registers: name -> features
          lrn,    \* learners: name -> learner
          saved   \* saved learners: slot -> learner
vars == <<l, regs, lrn, saved>>

Init == /\ l \in Starts
        /\ regs = <<>> /\ lrn = <<>> /\ saved = <<>>

\* no action explains a call that panicked unexpectedly
IsEvent(op) == /\ l < Len(Trace) /\ Trace[l + 1].op = op
               /\ "panic" \notin DOMAIN Trace[l + 1].out
               /\ l' = l + 1
E == Trace[l + 1]
Put(f, k, v) == (k :> v) @@ f
Pure == UNCHANGED <<regs, lrn, saved>>
Known(id, what) == PrintT(<<"KNOWN", id, what, l + 1>>)

---------------------------------------------------------------------------
(* Features, one call at a time *)
ReadOk(e) ==
  LET f == Build(e.f)  d == Den(f)  o == e.out
      mag == SumN([k \in 1..f.n |-> Abs(d[k])]) IN
  /\ ExactF(OfSnap(o.snap), f)
  /\ o.isd = IsDense(f) /\ o.iss = IsSparse(f)
  /\ o.n = f.n /\ o.nact = NActive(f)
  /\ EqSeq(o.dense, d) /\ EqSeq(o.into, d) /\ EqSeq(o.vec, d) /\ EqSeq(o.arr, d)
  /\ EqSeq(o.index, d)
  /\ \A k \in 1..f.n : LET s == IF (k - 1) \in Active(f) THEN d[k] ELSE "none" IN
        (IF s = "none" THEN o.get[k] = "none" ELSE o.get[k] # "none" /\ EqN(o.get[k], s))
        /\ (IF s = "none" THEN o.uget[k] = "none" ELSE o.uget[k] # "none" /\ EqN(o.uget[k], s))
  /\ \A k \in DOMAIN o.beyond : o.beyond[k] = "none"             \* lookups past the end find nothing
  /\ Close(o.sum, SumF(f), mag)
  /\ Close(o.fold.sum, SumF(f), mag) /\ Close(o.fold.sq, SumSq(f), SumSq(f))
  /\ o.fold.cnt = Len(Entries(f))
  /\ Close(o.fold.max, MaxAbs(Entries(f)), "0")
  /\ o.eq = TRUE                                                  \* equal to its clone
  /\ o.mapd = (IF IsDense(f) THEN "d" ELSE "none") /\ o.maps = (IF IsSparse(f) THEN "s" ELSE "none")
  /\ o.either = f.r
Read == IsEvent("read") /\ ReadOk(E) /\ Pure

LinOk(e) ==
  LET f == Build(e.f)  h == Build(e.g)  d == Den(f)  o == e.out
      mag(u, w) == SumN([k \in DOMAIN u |-> Abs(Mul(u[k], w[k]))]) IN
  /\ Close(o.dot, VecDot(d, e.w), mag(d, e.w)) /\ Close(o.dot2, VecDot(d, e.w), mag(d, e.w))
  /\ Close(o.dot3, VecDot(d, e.w), mag(d, e.w))
  /\ Close(o.ff, VecDot(d, Den(h)), mag(d, Den(h))) /\ Close(o.gf, VecDot(d, Den(h)), mag(d, Den(h)))
  /\ Len(o.mat) = Len(e.m) /\ Len(o.matv) = Len(e.m)
  /\ \A j \in DOMAIN e.m : /\ Close(o.mat[j], VecDot(d, e.m[j]), mag(d, e.m[j]))
                            /\ Close(o.matv[j], VecDot(d, e.m[j]), mag(d, e.m[j]))
  \* vectors of weights in the given layout and of dynamic dimension
  /\ \A a \in {o.add, o.dadd} : Len(a) = f.n /\ \A k \in 1..f.n :
        IF IsZero(d[k]) THEN EqN(a[k], e.w[k]) ELSE Close(a[k], Add(e.w[k], d[k]), Abs(e.w[k]))
  /\ \A a \in {o.sadd, o.dsadd} : Len(a) = f.n /\ \A k \in 1..f.n :
        IF IsZero(d[k]) THEN EqN(a[k], e.w[k]) ELSE Close(a[k], Add(e.w[k], Mul(e.alpha, d[k])), Abs(e.w[k]))
  /\ o.rest = TRUE                             \* memory between the elements of a strided view is untouched
  /\ ExactF(OfSnap(o.self), f)
Lin == IsEvent("lin") /\ LinOk(E) /\ Pure

MapOk(e) ==
  LET f == Build(e.f)  h == MapF(f, e.fn)  sc == MapScale(f, e.fn)  o == e.out IN
  /\ SameF(OfSnap(o.map), h, sc) /\ SameF(OfSnap(o.into), h, sc) /\ SameF(OfSnap(o.inplace), h, sc)
  /\ ExactF(OfSnap(o.self), f)
Map == IsEvent("map") /\ MapOk(E) /\ Pure

MergeOkE(e) ==
  LET f == Build(e.f)  g == Build(e.g)  h == MergeF(f, g, e.fn)  sc == MergeScale(f, g, e.fn)  o == e.out IN
  /\ SameF(OfSnap(o.merge), h, sc) /\ SameF(OfSnap(o.into), h, sc) /\ SameF(OfSnap(o.inplace), h, sc)
  /\ ExactF(OfSnap(o.self), f) /\ ExactF(OfSnap(o.other), g)
Merge == IsEvent("merge") /\ MergeOkE(E) /\ Pure

StackOk(e) ==
  LET f == Build(e.f)  g == Build(e.g)  h == Build(e.h)  o == e.out IN
  /\ ExactF(OfSnap(o.fg), StackF(f, g))
  /\ ExactF(OfSnap(o.left), StackF(StackF(f, g), h))
  /\ ExactF(OfSnap(o.right), StackF(f, StackF(g, h)))
Stack == IsEvent("stack") /\ StackOk(E) /\ Pure

\* ==, !=, reflexivity, clones
EqOk(e) ==
  LET f == Build(e.f)  g == Build(e.g)  o == e.out  q == EqualF(f, g) IN
  /\ Comparable(f, g)
  /\ o.eq = q /\ o.qe = q /\ o.ne = ~q /\ o.refl = <<TRUE, TRUE>> /\ o.clone = <<TRUE, TRUE>>
  /\ ExactF(OfSnap(o.self), f) /\ ExactF(OfSnap(o.other), g)
FEq == IsEvent("feq") /\ EqOk(E) /\ Pure

---------------------------------------------------------------------------
(* Features, edit histories.  Every event reports every register.          *)
Same(r, out) == /\ DOMAIN out = DOMAIN r
                /\ \A k \in DOMAIN r : ExactF(OfSnap(out[k]), r[k])
\* the registers as recorded, given that register k now holds h up to sc
Adopt(k, h, sc) ==
  LET out == E.out.regs IN
  /\ DOMAIN out = DOMAIN regs \cup {k}
  /\ \A j \in DOMAIN regs \ {k} : ExactF(OfSnap(out[j]), regs[j])
  /\ SameF(OfSnap(out[k]), h, sc)
  /\ regs' = [j \in DOMAIN out |-> OfSnap(out[j])]
  /\ UNCHANGED <<lrn, saved>>
FNew    == IsEvent("fnew")    /\ LET h == Build(E.f) IN Adopt(E.reg, h, Zeros(h.n))
FRemove == IsEvent("fremove") /\ LET h == RemoveF(regs[E.reg], E.i) IN Adopt(E.reg, h, Zeros(h.n))
FMap    == IsEvent("fmap")    /\ LET f == regs[E.reg] IN Adopt(E.reg, MapF(f, E.fn), MapScale(f, E.fn))
FMerge ==
  /\ IsEvent("fmerge")
  /\ LET f == regs[E.reg] g == Build(E.g) IN
     MergeOk(f, g) /\ Adopt(E.reg, MergeF(f, g, E.fn), MergeScale(f, g, E.fn))
FMergeR ==
  /\ IsEvent("fmerger")
  /\ LET f == regs[E.reg] g == regs[E.other] IN
     MergeOk(f, g) /\ Adopt(E.reg, MergeF(f, g, E.fn), MergeScale(f, g, E.fn))
FStack ==
  /\ IsEvent("fstack")
  /\ LET h == IF E.front THEN StackF(Build(E.g), regs[E.reg]) ELSE StackF(regs[E.reg], Build(E.g))
     IN Adopt(E.reg, h, Zeros(h.n))
FClone  == IsEvent("fclone")  /\ LET h == regs[E.reg] IN Adopt(E.to, h, Zeros(h.n))
FDrop ==
  /\ IsEvent("fdrop")
  /\ Same([k \in DOMAIN regs \ {E.reg} |-> regs[k]], E.out.regs)
  /\ regs' = [k \in DOMAIN regs \ {E.reg} |-> regs[k]] /\ UNCHANGED <<lrn, saved>>
\* In-place edits with a closure that panics at its k-th invocation.  The closure takes the value out,
\* computes and puts the result back; how often it is called is not specified, so the event says whether
\* the panic was raised at all.
FPanicMap ==
  /\ IsEvent("fpmap")
  /\ E.out.seen = E.out.raised
  /\ IF E.out.raised THEN Adopt(E.reg, regs[E.reg], Zeros(regs[E.reg].n))
     ELSE LET f == regs[E.reg] IN Adopt(E.reg, MapF(f, E.fn), MapScale(f, E.fn))
FPanicMerge ==
  /\ IsEvent("fpmerge")
  /\ E.out.seen = E.out.raised
  /\ LET f == regs[E.reg] g == Build(E.g) IN
     /\ IF E.out.raised THEN Adopt(E.reg, f, Zeros(f.n))
        ELSE MergeOk(f, g) /\ Adopt(E.reg, MergeF(f, g, E.fn), MergeScale(f, g, E.fn))
     /\ ExactF(OfSnap(E.out.other), g)
\* the dense and the sparse form of one vector, edited alike, still denote one vector
FTwin ==
  /\ IsEvent("ftwin")
  /\ LET f == regs[E.a] g == regs[E.b] IN f.n = g.n /\ \A k \in 1..f.n : Close(Den(f)[k], Den(g)[k], E.scale)
  /\ Same(regs, E.out.regs) /\ Pure
Edits == FNew \/ FRemove \/ FMap \/ FMerge \/ FMergeR \/ FStack \/ FClone \/ FDrop \/ FPanicMap \/ FPanicMerge \/ FTwin

---------------------------------------------------------------------------
(* Bases *)
Env(in, tiles) == [x |-> in.x, phi |-> Build(in.phi), fail |-> Range(in.fail), tiles |-> tiles]
TilesOk(b, tiles) == \A t \in TileLeaves(b) : LET f == tiles[t.id] IN
  /\ IsSparse(f) /\ f.n = t.m /\ DOMAIN f.a \subseteq 0..(t.m - 1)
  /\ Cardinality(DOMAIN f.a) <= t.n /\ (t.n > 0 => DOMAIN f.a # {})
  /\ \A i \in DOMAIN f.a : EqN(f.a[i], "1")
\* what project/ith on b may report, given that the specification projects to p
ProjOk(p, n, snap) == OfSnap(snap).n = n /\ (p.st = "ok" => SameF(OfSnap(snap), p.f, p.sc))
IthOk(p, n, f, r) ==      \* f: the recorded projection; r: one ith result [i, st, v]
  /\ r.st # "panic"
  /\ r.st = "na" \/
     (/\ r.i >= n => r.st = "err"
      /\ (r.i < n /\ p.st = "ok") => r.st = "ok" /\ Close(r.v, At(f, r.i), ScAt(p.sc, r.i + 1))
      /\ (r.i < n /\ p.st = "any") => r.st = "ok")
Tls(o) == [k \in DOMAIN o.tiles |-> OfSnap(o.tiles[k])]
\* o: everything observed of basis b at one input, for which the specification projects to p
LookOk(b, o, tl, p) ==      \* (the callers bind p with a quantifier: TLC then evaluates it once)
  LET n == NDim(b) IN
  /\ o.dim = n /\ o.nf = n
  /\ TilesOk(b, tl)
  /\ IF p.st = "err" THEN o.st = "err" /\ o.code = p.code
     ELSE /\ o.st = "ok" /\ ProjOk(p, n, o.snap) /\ ProjOk(p, n, o.again)
          /\ OfSnap(o.again).r = OfSnap(o.snap).r
  /\ \E f \in {IF o.st = "ok" THEN OfSnap(o.snap) ELSE Dense(<<>>)} : \A k \in DOMAIN o.ith : IthOk(p, n, f, o.ith[k])
Looks(b, in, o) == \E tl \in {Tls(o)} : \E p \in {Project(b, Env(in, tl))} : LookOk(b, o, tl, p)
\* one basis over a history of inputs: every answer depends on the input of that call alone
ProjectOk(e, tl, p) ==
  LET o == e.out  n == NDim(e.b) IN
  /\ LookOk(e.b, o, tl, p)
  /\ \A k \in DOMAIN o.pre  : Looks(e.b, e.more[k], o.pre[k])
  /\ \A k \in DOMAIN o.post : Looks(e.b, e.more[k], o.post[k])
  /\ \A k \in DOMAIN o.twin : LookOk(e.b, o.twin[k], tl, p)
  /\ \A k \in DOMAIN o.alt  :       \* called with another type of input
       /\ ProjOk(p, n, o.alt[k].snap)
       /\ \E f \in {OfSnap(o.snap)} : \A q \in DOMAIN o.alt[k].ith : IthOk(p, n, f, o.alt[k].ith[q])
ProjectE ==
  /\ IsEvent("project")
  /\ \E tl \in {Tls(E.out)} : \E p \in {Project(E.b, Env(E.in, tl))} : ProjectOk(E, tl, p)
  /\ Pure

\* a basis with very many features, looked at in places
DeepOk(e) ==
  LET o == e.out  n == NDim(e.b)  env == Env([x |-> e.x, phi |-> [c |-> "dense", v |-> <<>>], fail |-> <<>>], <<>>) IN
  /\ o.dim = n /\ o.n = n
  /\ Len(o.see) = Len(e.at)
  /\ \A k \in DOMAIN e.at : LET i == e.at[k] z == o.see[k] IN
       IF i >= n THEN z.st = "err" /\ z.v = "none"
       ELSE \E c \in {Component(e.b, env, i)} : z.st = "ok" /\ Close(z.v, c.v, c.sc) /\ Close(z.ith, c.v, c.sc)
DeepE == IsEvent("deep") /\ DeepOk(E) /\ Pure

KernOk(e) ==
  LET K == e.kern  o == e.out  v == Kernel(K, e.x, e.y)  sc == KernelScale(K) IN
  /\ Close(o.xy, v, sc) /\ Close(o.yx, v, sc) /\ Close(o.vec, v, sc) /\ Close(o.proto, v, sc) /\ Close(o.xx, K.var, "0")
  /\ Len(e.x) = 1 => Close(o.one, v, sc) /\ Close(o.eno, v, sc)
  /\ Le(Abs(o.xy), Mul(K.var, "1.000000001"))
KernE == IsEvent("kern") /\ KernOk(E) /\ Pure
\* a kernel along a ray: values at increasing distances strictly decrease
RayOk(e) ==
  /\ \A k \in DOMAIN e.ts : Close(e.out.v[k], KernelAt(e.kern, Mul(e.ts[k], e.ts[k])), KernelScale(e.kern))
  /\ e.kern.k # "cos" => \A k \in 2..Len(e.ts) : Lt(e.out.v[k], e.out.v[k - 1])
KernRay == IsEvent("kray") /\ RayOk(E) /\ Pure

TileOk(e) ==
  LET o == e.out  S == [k \in DOMAIN e.xs |-> Range(o.act[k])] IN
  /\ o.unit = TRUE /\ o.ith = TRUE /\ o.same = TRUE /\ o.dim = e.m
  /\ \A k \in DOMAIN e.xs : Cardinality(S[k]) = e.n /\ \A i \in S[k] : Le("0", i) /\ Lt(i, e.m)
  /\ \A j, k \in DOMAIN e.xs : j < k => Cardinality(S[j] \cap S[k]) = Cardinality(Shared(e.xs[j], e.xs[k], e.n))
  /\ \A q \in DOMAIN e.ms : \A k \in DOMAIN e.xs :
        Range(o.small[q][k]) = {ModN(i, e.ms[q]) : i \in S[k]}
TileE == IsEvent("tile") /\ TileOk(E) /\ Pure

\* index spaces beyond 32 bits
WideE == IsEvent("wide") /\ WideOk(E) /\ Pure
HugeE == IsEvent("huge") /\ HugeOk(E) /\ Pure

\* vectors of very many components, and learners over and of them (= TRUE: to TLC an expression, not an action)
VastE   == IsEvent("vast") /\ (VastOk(E) = TRUE) /\ Pure
VLearnE == IsEvent("vlearn") /\ (VLearnOk(E) = TRUE) /\ Pure
VOutsE  == IsEvent("vouts") /\ (VOutsOk(E) = TRUE) /\ Pure

\* saving and restoring a basis or a feature vector
RECURSIVE Forget(_)
Forget(b) == CASE b.k = "cheb" -> [b EXCEPT !.z = FALSE]
               [] b.k = "stack" -> [b EXCEPT !.a = Forget(b.a), !.b = Forget(b.b)]
               [] b.k \in Norms \cup {"wb"} -> [b EXCEPT !.a = Forget(b.a)]
               [] OTHER -> b
BSaveOk(e, b) == \E tl \in {Tls(e.out)} : \E p \in {Project(b, Env(e.in, tl))} : LET o == e.out n == NDim(b) IN
  /\ o.st = "ok" /\ o.dim1 = n
  /\ IF p.st = "err" THEN o.p1.st = "err" /\ o.p1.code = p.code
     ELSE o.p1.st = "ok" /\ ProjOk(p, n, o.p1.snap)
BSave ==
  /\ IsEvent("bsave")
  /\ \/ BSaveOk(E, E.b)
     \/ /\ ~BSaveOk(E, E.b) /\ Forget(E.b) # E.b /\ E.fmt # "clone" /\ BSaveOk(E, Forget(E.b))
        /\ Known("C20", "Chebyshev::with_zeroth is lost by saving and restoring")
  /\ Pure
FSave == IsEvent("fsave") /\ E.out.st = "ok" /\ ExactF(OfSnap(E.out.snap), Build(E.f)) /\ Pure

---------------------------------------------------------------------------
(* Learners *)
L == lrn[E.id]
HasTiles(b) == TileLeaves(b) # {}
\* the features the learner's basis reports for the input of the event
PhiOk(b, in, o) ==
  /\ "phi" \in DOMAIN o
  /\ LET f == OfSnap(o.phi) IN
     IF HasTiles(b) THEN f.n = NDim(b)
     ELSE LET p == Project(b, Env(in, <<>>)) IN p.st = "any" \/ SameF(f, p.f, p.sc)
BasisFails(b, in) == Failing(b, Env(in, <<>>)) # <<>>
FailCode(b, in)   == Head(Failing(b, Env(in, <<>>)))

WExact(W, V) == Len(W) = Len(V) /\ \A j \in DOMAIN W : EqSeq(W[j], V[j])
\* largest change of every feature's weights so far, and what rounding in hidden state is relative to
MaxPer(M, D) == Strict([k \in DOMAIN M |-> MaxN(M[k], MaxAbs([j \in DOMAIN D |-> D[j][k]]))])
Hidden(o, M) == IF Stateful(o) THEN M ELSE Zeros(Len(M))
\* the size of the gradient of every weight: where it is zero and the weight is not to change, it is
\* exactly as before; where parts of a change cancel, up to rounding
Grad(o, f, us, m) == Strict([j \in 1..m |-> LET i == PosOf(us, j) IN
  IF i = 0 THEN Zeros(f.n) ELSE Strict([k \in 1..f.n |-> Abs(Mul(o.lr, Mul(us[i][2], Den(f)[k])))])])
\* recorded weights V agree with W + D
WClose(V, W, D, M, G) ==
  /\ Len(V) = Len(W)
  /\ \A j \in DOMAIN W : /\ Len(V[j]) = Len(W[j])
        /\ \A k \in DOMAIN W[j] :
             IF D[j][k] = "0" /\ IsZero(G[j][k]) THEN EqN(V[j][k], W[j][k])
             ELSE IF D[j][k] = "0" THEN Close(V[j][k], W[j][k], Add(Abs(W[j][k]), Add(G[j][k], Mul("1e-3", M[k]))))
             ELSE Close(V[j][k], Add(W[j][k], D[j][k]), Add(Abs(W[j][k]), Add(Abs(D[j][k]), Mul("1e-3", M[k]))))
\* the update us along features f explains the recorded weights V; the designs that do survive
Explains(id, X, f, us, V) ==
  \E r \in {Apply(X, f, us)} :
  LET M(h) == MaxPer(X.M, r.D[h]) IN
  \E G \in {Grad(X.o, f, us, Len(X.W))} :
  \E A \in {{h \in X.alive : WClose(V, X.W, r.D[h], Hidden(X.o, M(h)), G)}} :
  /\ A # {}
  /\ ("own" \notin A /\ "own" \in X.alive =>
        Known("C19", "a vector learner's outputs share one optimiser state: " \o X.o.k))
  /\ lrn' = [lrn EXCEPT ![id] = [X EXCEPT !.S = r.S, !.sh = r.sh, !.W = V, !.alive = A,
                                          !.M = M(CHOOSE h \in A : TRUE)]]
  /\ UNCHANGED <<regs, saved>>
Untouched(o) == WExact(o.W, L.W) /\ Pure

LNew ==
  /\ IsEvent("lnew")
  /\ LET X == NewLearner(E.b, E.o, E.kind, E.m) IN
     /\ E.out.n = NDim(E.b) /\ E.out.m = E.m
     /\ WExact(E.out.W, X.W)
     /\ lrn' = Put(lrn, E.id, X)
  /\ UNCHANGED <<regs, saved>>

\* an iterator over the outputs v that was not (only) advanced one by one
WayOk(w, v, m) ==
  LET n == Len(v)  k == w.k
      from(s, a) == [j \in 1..(IF a > Len(s) THEN 0 ELSE Len(s) - a + 1) |-> s[a + j - 1]]
      each(s) == [j \in 1..((Len(s) + k) \div (k + 1)) |-> s[(j - 1) * (k + 1) + 1]] IN
  /\ IF k < n THEN w.nth # "none" /\ Close(w.nth, v[k + 1], m[k + 1]) ELSE w.nth = "none"
  /\ CloseSeq(w.rest, from(v, k + 2), from(m, k + 2))
  /\ IF k < n THEN w.last # "none" /\ Close(w.last, v[n], m[n]) ELSE w.last = "none"
  /\ w.count = (IF k < n THEN n - k ELSE 0)
  /\ CloseSeq(w.fold, from(v, k + 1), from(m, k + 1))
  /\ CloseSeq(w.step, each(v), each(m))
EvalOk(o, f) ==
  LET v == Values_(L, f)  m == [j \in DOMAIN v |-> ValueMag(f, L.W[j])] IN
  /\ CloseSeq(o.v, v, m)
  /\ L.kind = "v" =>
       /\ CloseSeq(o.it, v, m) /\ CloseSeq(o.try, v, m) /\ CloseSeq(o.idx, v, m)
       /\ o.lens = [k \in 1..(Outputs(L) + 1) |-> Outputs(L) + 1 - k]
       /\ o.hints = TRUE
       /\ \A q \in DOMAIN o.ways : WayOk(o.ways[q], v, m)
LEval ==
  /\ IsEvent("leval")
  /\ Untouched(E.out)
  /\ IF BasisFails(L.b, E.in)
     THEN LET c == FailCode(L.b, E.in) IN
          /\ E.out.st = "err" /\ E.out.code = c
          /\ L.kind = "v" => /\ E.out.codes = <<c, c>> /\ E.out.itpanic = TRUE
     ELSE E.out.st = "ok" /\ PhiOk(L.b, E.in, E.out) /\ EvalOk(E.out, OfSnap(E.out.phi))

Fails(us)     == {i \in DOMAIN us : StepFails(L.o, us[i][2])}
\* an update that reached the optimiser, whose error (if any) is returned; columns after a failing one may
\* or may not have been stepped
Learn(f, us) ==
  IF Fails(us) = {} THEN E.out.st = "ok" /\ Explains(E.id, L, f, us, E.out.W)
  ELSE LET first == CHOOSE i \in Fails(us) : \A k \in Fails(us) : i <= k
           r == Apply(L, f, us)
           G == Grad(L.o, f, us, Outputs(L)) IN
       /\ E.out.st = "err" /\ E.out.code = -2
       /\ Len(E.out.W) = Outputs(L)
       /\ \A j \in 1..Outputs(L) :
            LET i == PosOf(us, j)
                kept == EqSeq(E.out.W[j], L.W[j])
                moved == WClose(<<E.out.W[j]>>, <<L.W[j]>>, <<r.D.own[j]>>, Hidden(L.o, L.M), <<G[j]>>) IN
            IF i = 0 \/ i \in Fails(us) THEN kept ELSE IF i < first THEN moved ELSE kept \/ moved
       /\ lrn' = [lrn EXCEPT ![E.id].W = E.out.W]
       /\ UNCHANGED <<regs, saved>>

Refused == /\ BasisFails(L.b, E.in)
           /\ E.out.st = "err" /\ E.out.code = FailCode(L.b, E.in)
           /\ Untouched(E.out)
LUpd ==
  /\ IsEvent("lupd")
  /\ \/ Refused
     \/ /\ ~BasisFails(L.b, E.in) /\ PhiOk(L.b, E.in, E.out)
        /\ Learn(OfSnap(E.out.phi), Pairs(E.e, Outputs(L)))
LUpdI ==
  /\ IsEvent("lupdi")
  /\ \/ Refused
     \/ /\ ~BasisFails(L.b, E.in) /\ PhiOk(L.b, E.in, E.out)
        /\ Learn(OfSnap(E.out.phi), <<<<E.j, E.e>>>>)

\* the closure is called once, with the features and the predictions
ClosureSaw(o, f) ==
  LET v == Values_(L, f) IN
  /\ o.calls = 1
  /\ SameF(OfSnap(o.cphi), f, Zeros(f.n))
  /\ CloseSeq(o.cv, v, [j \in DOMAIN v |-> ValueMag(f, L.W[j])])
\* (C22) an implicit step never overshoots; a plain one contracts by 1 - rate * norm
Contracts ==
  LET f == OfSnap(E.out.phi)  q == SumSq(f)
      v == Value(f, L.W[1])  y == E.cl.y[1]  w == Value(f, E.out.W[1])
      mag == Add(Add(Abs(y), ValueMag(f, L.W[1])), ValueMag(f, E.out.W[1]))
      left == IF L.o.k = "isgd" THEN Div("1", Add("1", Mul(L.o.lr, q))) ELSE Sub("1", Mul(L.o.lr, q))
      slack == Mul("1e-9", Mul(mag, MaxN("1", Abs(left)))) IN
  /\ Le(Abs(Sub(Sub(y, w), Mul(left, Sub(y, v)))), slack)
  /\ L.o.k = "isgd" => Le(MinN(v, y), Add(w, slack)) /\ Le(w, Add(MaxN(v, y), slack))
LUpdW ==
  /\ IsEvent("lupdw")
  /\ \/ Refused /\ E.out.calls = 0
     \/ /\ ~BasisFails(L.b, E.in) /\ PhiOk(L.b, E.in, E.out)
        /\ ClosureSaw(E.out, OfSnap(E.out.phi))
        /\ IF E.cl.k = "panic" THEN E.out.st = "panic" /\ Untouched(E.out)
           ELSE /\ Learn(OfSnap(E.out.phi), Pairs(E.out.ce, Outputs(L)))
                /\ (E.cl.k = "to" /\ L.kind = "s" /\ L.o.k \in {"sgd", "isgd"} => Contracts)
\* the optimiser used directly on the weights: step and step_scaled
LStep ==
  /\ IsEvent("lstep")
  /\ Learn(Build(E.f), <<<<1, IF E.plain THEN "1" ELSE E.e>>>>)
\* a long history of direct steps, of which only the end is recorded
LBurn ==
  /\ IsEvent("lburn")
  /\ E.out.st = "ok"
  /\ \E r \in {Rounds(L.o, L.S[1], [k \in DOMAIN E.cyc |-> <<Build(E.cyc[k].f), E.cyc[k].e>>], E.n)} :
     LET M == MaxPer(L.M, <<r.a>>) V == E.out.W[1] w == L.W[1] IN
     /\ Len(E.out.W) = 1 /\ Len(V) = Len(w)
     /\ \A k \in DOMAIN w :
          IF r.a[k] = "0" THEN EqN(V[k], w[k])
          ELSE Close(V[k], Add(w[k], r.d[k]), Add(Abs(w[k]), Add(r.a[k], Mul("1e-3", Hidden(L.o, M)[k]))))
     /\ lrn' = [lrn EXCEPT ![E.id] = [L EXCEPT !.S = <<r.s>>, !.sh = r.s, !.W = E.out.W, !.M = M]]
  /\ UNCHANGED <<regs, saved>>
LReset ==
  /\ IsEvent("lreset")
  /\ WExact(E.out.W, L.W)
  /\ lrn' = [lrn EXCEPT ![E.id] = ResetL(L)] /\ UNCHANGED <<regs, saved>>
\* steps beyond the range of floats, of which nothing is said; then a reset and other weights: as new
LWreck ==
  /\ IsEvent("lwreck")
  /\ WExact(E.out.W, E.W)
  /\ lrn' = [lrn EXCEPT ![E.id] = [ResetL(L) EXCEPT !.W = E.W, !.M = Zeros(Len(L.M))]] /\ UNCHANGED <<regs, saved>>
LSet ==
  /\ IsEvent("lset")
  /\ WExact(E.out.W, E.W)
  /\ lrn' = [lrn EXCEPT ![E.id].W = E.W] /\ UNCHANGED <<regs, saved>>
\* the optimiser replaced by a new one: the weights stay, its state starts afresh
LSwap ==
  /\ IsEvent("lswap")
  /\ WExact(E.out.W, L.W)
  /\ lrn' = [lrn EXCEPT ![E.id] = SwapL(L, E.o)] /\ UNCHANGED <<regs, saved>>
LSave ==
  /\ IsEvent("lsave")
  /\ E.out.st = "ok" /\ WExact(E.out.W, L.W)
  /\ saved' = Put(saved, E.slot, L) /\ UNCHANGED <<regs, lrn>>
LLoad ==
  /\ IsEvent("lload")
  /\ E.out.st = "ok"
  /\ WExact(E.out.W, saved[E.slot].W)
  /\ lrn' = Put(lrn, E.id, saved[E.slot]) /\ UNCHANGED <<regs, saved>>
\* two learners given the same history in two representations have the same weights, where E.where says
LTwin ==
  /\ IsEvent("ltwin")
  /\ LET A == lrn[E.a].W B == lrn[E.b].W IN
     \A j \in DOMAIN A : \A k \in DOMAIN A[j] :
        (k - 1) \in Range(E.where) => Close(A[j][k], B[j][k], Add(Abs(A[j][k]), Mul("1e-2", lrn[E.a].M[k])))
  /\ Pure
Learning == LNew \/ LEval \/ LUpd \/ LUpdI \/ LUpdW \/ LStep \/ LBurn \/ LWreck \/ LReset \/ LSet \/ LSwap \/ LSave \/ LLoad \/ LTwin

---------------------------------------------------------------------------
\* the episode is complete
Done == /\ \/ l = Len(Trace)
           \/ l < Len(Trace) /\ Trace[l + 1].op = "begin"
        /\ UNCHANGED vars

Next == Read \/ DeepE \/ Lin \/ Map \/ Merge \/ Stack \/ FEq \/ Edits
        \/ ProjectE \/ KernE \/ KernRay \/ TileE \/ WideE \/ HugeE \/ VastE \/ VLearnE \/ VOutsE \/ BSave \/ FSave \/ Learning \/ Done
Spec == Init /\ [][Next]_vars
Where == [l |-> l]
=============================================================================
