//! Vectors with very many components of which few are different: scenarios give, and reports sum up,
//! such a vector by the cells of a shape (see spec/Vast.tla).
use crate::{code_of, dynamic::*, pack, unpack, vals::*, with_weights, matrix};
use lfa::{
    basis::{Basis, Combinators, EnumerableBasis},
    optim::Optimiser,
    DenseActivations, Features, ScalarLFA, SparseActivations, VectorLFA, LFA,
};
use ndarray::{linalg::Dot, Array1, Array2};
use serde_json::{json, Map, Value};
use spaces::Space;
use std::{
    cell::{Cell, RefCell},
    panic::{catch_unwind, AssertUnwindSafe},
};

/// The cell of every index.
#[derive(Clone)]
struct Cells {
    of: Vec<usize>,
    k: usize,
}
struct Shape {
    prefix: Vec<Cells>, // by number of segments
}
impl Shape {
    fn new(v: &Value) -> Shape {
        let (p, cuts, at) = (u(v, "p"), us(&v["cuts"]), us(&v["at"]));
        let (mut of, mut k, mut from, mut prefix) = (Vec::new(), 0, 0, Vec::new());
        for to in cuts {
            let mut single = k + p;
            for i in from..to {
                if at.binary_search(&i).is_ok() {
                    of.push(single);
                    single += 1;
                } else {
                    of.push(k + i % p);
                }
            }
            k = single;
            from = to;
            prefix.push(Cells { of: of.clone(), k });
        }
        Shape { prefix }
    }
    fn full(&self) -> &Cells { self.prefix.last().unwrap() }
    fn with(&self, k: usize) -> &Cells { self.prefix.iter().find(|c| c.k == k).unwrap_or_else(|| panic!("scenario: {} cells", k)) }
    /// A vector given by its cells, made through the literal's own constructor.
    fn build(&self, t: &Value) -> (Features, &Cells) {
        let small = build(t);
        let c = self.with(small.n_features());
        let n = c.of.len();
        let x = match s(t, "c") {
            "dense" => Features::dense(c.expand(&dense(&small))),
            "vec" => Features::from(c.expand(&dense(&small))),
            "iter" => c.expand(&dense(&small)).into_iter().collect(),
            "array" => Features::from(arr(&c.expand(&dense(&small)), s(t, "lay"))),
            "sparse" => Features::sparse(n, c.listed(&small)),
            "record" => Features::from(SparseActivations { dim: n, activations: c.listed(&small).into_iter().collect() }),
            "unitary" => Features::unitary(n, c.listed(&small).into_iter().map(|e| e.0)),
            "indices" => Features::from(c.listed(&small).into_iter().map(|e| e.0).collect::<Vec<_>>()),
            t => panic!("scenario: constructor {}", t),
        };
        (x, c)
    }
}
fn dense(x: &Features) -> Vec<f64> {
    match x {
        Features::Dense(a) => a.to_vec(),
        _ => panic!("scenario: dense"),
    }
}
impl Cells {
    fn n(&self) -> usize { self.of.len() }
    fn expand(&self, v: &[f64]) -> Vec<f64> { self.of.iter().map(|&c| v[c]).collect() }
    fn listed(&self, small: &Features) -> Vec<(usize, f64)> {
        match small {
            Features::Sparse(sa) => self.of.iter().enumerate().filter_map(|(i, c)| sa.activations.get(c).map(|&x| (i, x))).collect(),
            _ => panic!("scenario: sparse"),
        }
    }
    fn then(&self, other: &Cells) -> Cells {
        let mut of = self.of.clone();
        of.extend(other.of.iter().map(|c| c + self.k));
        Cells { of, k: self.k + other.k }
    }
    fn sum_up(&self, r: &str, n: usize, e: impl Iterator<Item = (usize, f64)>) -> Value {
        let mut seen: Vec<(usize, f64, f64)> = vec![(0, f64::NAN, f64::NAN); self.k];
        let (mut out, mut twice, mut hit) = (0, 0, vec![false; self.of.len()]);
        for (i, x) in e {
            match self.of.get(i) {
                None => out += 1,
                Some(&c) => {
                    twice += std::mem::replace(&mut hit[i], true) as usize;
                    let z = &mut seen[c];
                    *z = if z.0 == 0 { (1, x, x) } else { (z.0 + 1, if x < z.1 || x.is_nan() { x } else { z.1 }, if x > z.2 || x.is_nan() { x } else { z.2 }) };
                },
            }
        }
        let f = |k: usize, x: f64| if k == 0 { json!("none") } else { num(x) };
        json!({"r": r, "n": n, "out": out + twice, "cnt": seen.iter().map(|z| z.0).collect::<Vec<_>>(),
               "lo": seen.iter().map(|z| f(z.0, z.1)).collect::<Vec<_>>(), "hi": seen.iter().map(|z| f(z.0, z.2)).collect::<Vec<_>>()})
    }
    fn row<'a>(&self, v: impl IntoIterator<Item = &'a f64>) -> Value {
        let v: Vec<f64> = v.into_iter().copied().collect();
        self.sum_up("d", v.len(), v.into_iter().enumerate())
    }
    fn shot(&self, x: &Features) -> Value {
        match x {
            Features::Dense(a) => self.row(a.iter()),
            Features::Sparse(sa) => self.sum_up("s", sa.dim, sa.activations.iter().map(|(&i, &x)| (i, x))),
        }
    }
}

fn read(c: &Cells, x: &Features) -> Value {
    let n = x.n_features();
    let ids = 0..c.n();
    let opt = |v: Option<&f64>| v.map_or(json!("none"), |&x| num(x));
    json!({
        "snap": c.shot(x), "isd": x.is_dense(), "iss": x.is_sparse(), "n": n, "nact": x.n_active(),
        "dense": c.row(&x.to_dense()), "into": c.row(&x.clone().into_dense()),
        "vec": c.row(&Vec::<f64>::from(x.clone())), "arr": c.row(&DenseActivations::from(x.clone())),
        "index": c.row(&ids.clone().map(|i| x[i]).collect::<Vec<_>>()),
        "get": c.sum_up("s", n, ids.clone().filter_map(|i| x.get(i).map(|&v| (i, v)))),
        "uget": c.sum_up("s", n, ids.filter_map(|i| unsafe { x.uget(i) }.map(|&v| (i, v)))),
        "beyond": [opt(x.get(n)), opt(x.get(n + 1)), opt(x.get(n + 65536)), opt(x.get(n + (1 << 32)))],
        "sum": num(x.sum()),
        "fold": {"sum": num(x.fold(0.0, |a, v| a + v)), "sq": num(x.fold(0.0, |a, v| a + v * v)),
                 "cnt": x.fold(0.0, |a, _| a + 1.0) as i64, "max": num(x.fold(0.0, |a, v| a.max(v.abs())))},
    })
}

fn lin(e: &Value, sh: &Shape, c: &Cells, x: &Features) -> Value {
    let y = sh.build(&e["g"]).0;
    let (w, lay, alpha) = (c.expand(&fs(&e["w"])), s(e, "lay"), f(&e["alpha"]));
    let (mut d1, mut d2) = (0.0, 0.0);
    with_weights(&w, lay, &mut |v| {
        d1 = x.dot(&v.view());
        d2 = Dot::dot(x, &v.view());
    });
    let cols: Vec<Vec<f64>> = e["m"].as_array().unwrap().iter().map(|m| c.expand(&fs(m))).collect();
    let mut m = matrix(c.n(), cols.len(), s(e, "mlay"));
    for (j, col) in cols.iter().enumerate() {
        m.column_mut(j).assign(&Array1::from(col.clone()));
    }
    let (add, r1) = with_weights(&w, lay, &mut |v| x.addto(v));
    let (sadd, r2) = with_weights(&w, lay, &mut |v| x.scaled_addto(alpha, v));
    json!({"dot": num(d1), "tod": num(d2), "ff": num(Dot::<Features>::dot(x, &y)), "gf": num(Dot::<Features>::dot(&y, x)),
           "mat": nums(x.matmul(&m).iter()), "add": c.row(&add), "sadd": c.row(&sadd), "rest": r1 && r2, "self": c.shot(x)})
}

fn panicking(e: &Value, sh: &Shape, c: &Cells, x: &Features) -> Value {
    let (y, d) = sh.build(&e["g"]);
    let big = if d.n() > c.n() { d } else { c };
    let (g1, g2) = (fn1(&e["fn"]), fn2(&e["fn2"]));
    let (mut a, mut b) = (x.clone(), x.clone());
    let (calls, raised) = (Cell::new(0), Cell::new(false));
    let bump = || {
        calls.set(calls.get() + 1);
        if calls.get() == u(e, "k") {
            raised.set(true);
            panic!("injected");
        }
    };
    let mseen = catch_unwind(AssertUnwindSafe(|| a.map_inplace(|v| { bump(); g1(v) }))).is_err();
    let mraised = raised.replace(false);
    calls.set(0);
    let gseen = catch_unwind(AssertUnwindSafe(|| b.merge_inplace(&y, |v, w| { bump(); g2(v, w) }))).is_err();
    let graised = raised.get();
    json!({"mseen": mseen, "mraised": mraised, "gseen": gseen, "graised": graised, "map": c.shot(&a),
           "merge": if graised { c } else { big }.shot(&b), "other": d.shot(&y)})
}

fn base(e: &Value, c: &Cells, x: &Features) -> Value {
    let n = c.n();
    let i = Inp { x: vec![], phi: x.clone(), fail: vec![] };
    let ith = |b: &DynBasis| -> Value { us(&e["rem"]).into_iter().map(|k| b.ith(&i, k).map_or(json!("err"), num)).collect() };
    let look = |b: DynBasis, c: &Cells, far: bool| {
        let d: usize = b.dim().into();
        let mut o = json!({"dim": d, "snap": b.project(&i).map_or(json!({"r": "e"}), |x| c.shot(&x))});
        if far {
            o["ith"] = ith(&b);
        }
        o
    };
    let p = || DynBasis::Phi(n);
    let one = Cells { of: vec![0], k: 1 };
    json!({"l0": look(DynBasis::L0(Box::new(p().normalise_l0())), c, false), "l1": look(DynBasis::L1(Box::new(p().normalise_l1())), c, false),
           "l2": look(DynBasis::L2(Box::new(p().normalise_l2())), c, false), "linf": look(DynBasis::Linf(Box::new(p().normalise_linf())), c, false),
           "wb": look(DynBasis::WithBias(Box::new(p().with_bias())), &c.then(&one), true),
           "twice": look(DynBasis::Stack(Box::new(p().stack(p()))), &c.then(c), true), "ith": ith(&p())})
}

pub fn vast(e: &Value) -> Value {
    let sh = Shape::new(&e["sh"]);
    let (x, c) = sh.build(&e["f"]);
    let mut out = Map::new();
    for a in e["ask"].as_array().unwrap().iter().map(|a| a.as_str().unwrap()) {
        let o = match a {
            "read" => read(c, &x),
            "lin" => lin(e, &sh, c, &x),
            "map" => {
                let g = fn1(&e["fn"]);
                let mut z = x.clone();
                z.map_inplace(&g);
                json!({"map": c.shot(&x.map(&g)), "into": c.shot(&x.clone().map_into(&g)), "inplace": c.shot(&z), "self": c.shot(&x)})
            },
            "merge" => {
                let ((y, d), g) = (sh.build(&e["g"]), fn2(&e["fn2"]));
                let big = if d.n() > c.n() { d } else { c };
                let mut z = x.clone();
                z.merge_inplace(&y, &g);
                json!({"merge": big.shot(&x.merge(&y, &g)), "into": big.shot(&x.clone().merge_into(&y, &g)), "inplace": big.shot(&z),
                       "self": c.shot(&x), "other": d.shot(&y)})
            },
            "stack" => {
                let ((y, d), (z, h)) = (sh.build(&e["g"]), sh.build(&e["h"]));
                let (two, three) = (c.then(d), c.then(d).then(h));
                json!({"fg": two.shot(&x.clone().stack(y.clone())), "left": three.shot(&x.clone().stack(y.clone()).stack(z.clone())),
                       "right": three.shot(&x.clone().stack(y.stack(z)))})
            },
            "edit" => json!({"rem": us(&e["rem"]).into_iter().map(|i| { let mut z = x.clone(); z.remove(i); c.shot(&z) }).collect::<Vec<_>>()}),
            "inject" => panicking(e, &sh, c, &x),
            "eq" => {
                let y = sh.build(&e["g"]).0;
                #[allow(clippy::eq_op)]
                let refl = x == x && y == y;
                json!({"eq": x == y, "qe": y == x, "ne": x != y, "refl": refl, "clone": x == x.clone() && y.clone() == y})
            },
            "save" => {
                let r: Result<Features, String> = match s(e, "fmt") {
                    "clone" => Ok(x.clone()),
                    fmt => pack(fmt, &x).and_then(|t| unpack(fmt, &t)),
                };
                r.map_or_else(|m| json!({"st": "err", "msg": m}), |z| json!({"st": "ok", "snap": c.shot(&z)}))
            },
            "base" => base(e, c, &x),
            t => panic!("scenario: ask {}", t),
        };
        out.insert(a.to_string(), o);
    }
    Value::Object(out)
}

fn told(out: &mut Value, r: lfa::Result<()>) {
    match r {
        Ok(()) => out["st"] = json!("ok"),
        Err(e) => {
            out["st"] = json!("err");
            out["code"] = json!(code_of(&e));
        },
    }
}
fn again<T: Clone + serde::Serialize + serde::de::DeserializeOwned>(x: &mut T, fmt: &str, out: &mut Value) {
    let r: Result<T, String> = match fmt {
        "clone" => Ok(x.clone()),
        _ => pack(fmt, x).and_then(|t| unpack(fmt, &t)),
    };
    match r {
        Ok(y) => {
            *x = y;
            out["st"] = json!("ok");
        },
        Err(m) => *out = json!({"st": "unsaved", "msg": m}),
    }
}

/// Learners with very many features.
pub fn vlearn(e: &Value) -> Value {
    let sh = Shape::new(&e["sh"]);
    let c = sh.full();
    let (n, m, scalar) = (c.n(), u(e, "m"), s(e, "kind") == "s");
    let mut a: ScalarLFA<DynBasis, DynOpt> = LFA::scalar(DynBasis::Phi(n), optimiser(&e["o"], n));
    let mut v: VectorLFA<DynBasis, DynOpt> = LFA::vector(DynBasis::Phi(n), optimiser(&e["o"], n), if scalar { 0 } else { m });
    let mut steps = Vec::new();
    for st in e["steps"].as_array().unwrap() {
        let mut o = json!({});
        let i = Inp { x: vec![], phi: if st["f"].is_object() { sh.build(&st["f"]).0 } else { Features::dense(vec![]) }, fail: vec![] };
        let es = if st["e"].is_array() { fs(&st["e"]) } else { vec![] };
        let calls = Cell::new(0);
        let seen: RefCell<Option<(Value, Vec<f64>, Vec<f64>)>> = RefCell::new(None);
        let errors = |p: &Features, v: &[f64]| -> Vec<f64> {
            calls.set(calls.get() + 1);
            let q: Vec<f64> = fs(&st["y"]).iter().zip(v).map(|(y, v)| y - v).collect();
            *seen.borrow_mut() = Some((c.shot(p), v.to_vec(), q.clone()));
            q
        };
        match (s(st, "do"), scalar) {
            ("eval", true) => {
                let x = json!([a.evaluate(&i).map_or(json!("NaN"), num)]);
                o["it"] = x.clone();
                o["v"] = x;
            },
            ("eval", false) => {
                o["v"] = v.evaluate(&i).map_or(json!([]), |x| nums(x.iter()));
                o["it"] = nums((0..m).map(|j| v.evaluate_index(&i, j).unwrap_or(f64::NAN)).collect::<Vec<_>>().iter());
            },
            ("upd", true) => told(&mut o, a.update(&i, es[0])),
            ("upd", false) => told(&mut o, v.update(&i, es)),
            ("updi", _) => told(&mut o, v.update_index(&i, u(st, "j") - 1, es[0])),
            ("step", _) => told(&mut o, a.optimiser.step_scaled(&mut a.weights.view_mut(), &i.phi, es[0])),
            ("with", true) => told(&mut o, a.update_with(&i, |p, v| errors(p, &[v])[0])),
            ("with", false) => told(&mut o, v.update_with(&i, |p, v| Array1::from(errors(p, &v.to_vec())))),
            ("reset", true) => a.optimiser.reset(),
            ("reset", false) => v.optimiser.reset(),
            ("save", true) => again(&mut a, s(st, "fmt"), &mut o),
            ("save", false) => again(&mut v, s(st, "fmt"), &mut o),
            (t, _) => panic!("scenario: do {}", t),
        }
        if let Some((p, v, q)) = seen.into_inner() {
            o["cphi"] = p;
            o["cv"] = nums(v.iter());
            o["ce"] = nums(q.iter());
            o["calls"] = json!(calls.get());
        }
        o["W"] = if scalar { json!([c.row(&a.weights)]) } else { v.weights.columns().into_iter().map(|w| c.row(&w)).collect() };
        steps.push(o);
    }
    json!({"n": if scalar { a.weights.len() } else { v.weights.nrows() }, "m": if scalar { 1 } else { v.n_outputs() }, "steps": steps})
}

/// Learners with very many outputs.
pub fn vouts(e: &Value) -> Value {
    let sh = Shape::new(&e["sh"]);
    let c = sh.full();
    let (n, m) = (u(e, "n"), c.n());
    let o = optimiser(&e["o"], n);
    let mut v: VectorLFA<DynBasis, DynOpt> = match s(e, "lay") {
        "short" => LFA::vector(DynBasis::Phi(n), o, m),
        lay => LFA::new(DynBasis::Phi(n), matrix(n, m, lay), o),
    };
    let mut steps = Vec::new();
    for st in e["steps"].as_array().unwrap() {
        let mut o = json!({});
        let i = Inp { x: vec![], phi: if st["phi"].is_object() { build(&st["phi"]) } else { Features::dense(vec![]) }, fail: vec![] };
        let errs = || -> Vec<f64> { let q = fs(&st["e"]); sh.with(q.len()).expand(&q) };
        match s(st, "do") {
            "eval" => {
                let j = u(st, "j");
                o["v"] = v.evaluate(&i).map_or(json!({"r": "e"}), |x| c.row(&x));
                o["it"] = c.row(&v.iter(&i).collect::<Vec<_>>());
                let mut it = v.try_iter(&i).unwrap();
                o["len"] = json!(it.len());
                o["nth"] = it.nth(j).map_or(json!("none"), num);
                o["left"] = json!(if j < m { it.len() } else { it.count() });
                o["try"] = c.row(&v.try_iter(&i).unwrap().collect::<Vec<_>>());
                o["idx"] = if j < m { v.evaluate_index(&i, j).map_or(json!("err"), num) } else { json!("none") };
            },
            "upd" | "fail" => {
                let q = errs();
                told(&mut o, if st["lazy"] == json!(true) { v.update(&i, q.into_iter().filter(|x| !x.is_nan())) } else { v.update(&i, q) })
            },
            "updi" => told(&mut o, v.update_index(&i, u(st, "j"), fs(&st["e"])[0])),
            "with" => {
                let (calls, cv) = (Cell::new(0), RefCell::new(json!({})));
                let r = v.update_with(&i, |_, x| {
                    calls.set(calls.get() + 1);
                    *cv.borrow_mut() = c.row(&x);
                    Array1::from(errs())
                });
                told(&mut o, r);
                o["calls"] = json!(calls.get());
                o["cv"] = cv.into_inner();
            },
            "save" => again(&mut v, s(st, "fmt"), &mut o),
            "reset" => {
                v.optimiser.reset();
                o["st"] = json!("ok");
            },
            t => panic!("scenario: do {}", t),
        }
        o["W"] = (0..n).map(|k| c.row(&v.weights.row(k))).collect();
        steps.push(o);
    }
    let w: &Array2<f64> = &v.weights;
    json!({"n": w.nrows(), "m": v.n_outputs(), "steps": steps})
}
