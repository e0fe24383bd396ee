------------------------------- MODULE MC_Huge -------------------------------
(* C01-C06, C10 beyond 32 bits: the operators of Huge are those of Features  *)
(* and Bases transported along j |-> j * B, for several B.                   *)
EXTENDS MC, Huge
CONSTANTS Size, V, Bs

VARIABLES call, done
vars == <<call, done>>
Up(f, b)   == HSparse(Mul(OfInt(f.n), b), [i \in {Mul(OfInt(j), b) : j \in DOMAIN f.a} |-> f.a[ToInt(Div(i, b))]])
UpLit(t, b) == [t EXCEPT !.n = Mul(OfInt(t.n), b), !.i = [k \in DOMAIN t.i |-> Mul(OfInt(t.i[k]), b)]]
SLits      == UNION {SparseLits(V, n) : n \in 0..Size}
Fns        == <<[k |-> "neg"], [k |-> "sq"], [k |-> "aff", a |-> "2", b |-> "0"]>>
Fns2       == <<[k |-> "add"], [k |-> "mul"], [k |-> "max"], [k |-> "left"], [k |-> "right"]>>
Pick(s, f, g) == s[((Len(f.i) * 3 + Len(g.i) + f.n) % Len(s)) + 1]
Fmts       == <<"json", "bin", "clone", "stream", "value">>
Call(f, g, b) ==
  [op |-> "wide", f |-> UpLit(f, b), g |-> UpLit(g, b), h |-> UpLit([c |-> "record", n |-> 2, i |-> <<1>>, v |-> <<"7">>], b),
   fn |-> Pick(Fns, f, g), fn2 |-> Pick(Fns2, f, g), fmt |-> Pick(Fmts, g, f),
   at |-> <<b>> \o [k \in 1..(f.n + 1) |-> Mul(OfInt(k - 1), b)] \o [k \in 1..(f.n + 1) |-> Add("1", Mul(OfInt(k - 1), b))]]

Init == \E f, g \in SLits, b \in Bs : call = [f |-> f, g |-> g, b |-> b] /\ done = FALSE
Do   == ~done /\ done' = TRUE /\ UNCHANGED call /\ Emit(<<Call(call.f, call.g, call.b)>>)
Next == Do \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Transported ==
  LET f == Build(call.f)  g == Build(call.g)  b == call.b
      U(h) == Up(h, b) IN
  /\ HBuild(UpLit(call.f, b)) = U(f)
  /\ HStack(U(f), U(g)) = U(StackF(f, g))
  /\ \A i \in 0..2 : HRemove(U(f), Mul(OfInt(i), b)) = U(RemoveF(f, i))
  /\ \A k \in DOMAIN Fns : HMap(U(f), Fns[k]) = U(MapF(f, Fns[k]))
  /\ \A k \in DOMAIN Fns2 : HMerge(U(f), U(g), Fns2[k]) = U(MergeF(f, g, Fns2[k]))
  /\ EqN(SumN(HTerms(U(f), U(g))), VecDot(Den(StackF(f, Sparse(MaxI(0, g.n - f.n), <<>>))), Den(StackF(g, Sparse(MaxI(0, f.n - g.n), <<>>)))))
  /\ HEqual(U(f), U(g)) <=> EqualF(f, g)
=============================================================================
