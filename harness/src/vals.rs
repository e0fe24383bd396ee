//! Numbers, feature literals, snapshots and the closures handed to map/merge.
use lfa::{Features, SparseActivations};
use ndarray::{s, Array1};
use serde_json::{json, Value};

/// Shortest decimal that reads back as the same f64.
pub fn num(x: f64) -> Value {
    if x.is_nan() {
        return json!("NaN");
    }
    if x.is_infinite() {
        return json!(if x > 0.0 { "inf" } else { "-inf" });
    }
    let a = x.abs();
    json!(if a == 0.0 || (a > 1e-4 && a < 1e15) { format!("{}", x) } else { format!("{:e}", x) })
}
pub fn nums<'a>(xs: impl IntoIterator<Item = &'a f64>) -> Value { Value::Array(xs.into_iter().map(|&x| num(x)).collect()) }
pub fn f(v: &Value) -> f64 {
    let t = v.as_str().unwrap_or_else(|| panic!("scenario: numeral expected, got {}", v));
    t.parse().unwrap()
}
pub fn fs(v: &Value) -> Vec<f64> { v.as_array().unwrap().iter().map(f).collect() }
pub fn us(v: &Value) -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() }
pub fn is(v: &Value) -> Vec<i64> { v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() }
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or_else(|| panic!("scenario: {} missing in {}", k, v)) }
pub fn u(v: &Value, k: &str) -> usize { v[k].as_u64().unwrap_or_else(|| panic!("scenario: {} missing in {}", k, v)) as usize }

/// An array with the given elements and memory layout.
pub fn arr(v: &[f64], lay: &str) -> Array1<f64> {
    match lay {
        "std" => Array1::from(v.to_vec()),
        "rev" => Array1::from(v.iter().rev().copied().collect::<Vec<_>>()).slice_move(s![..;-1]),
        "stride" => {
            let mut w = Vec::new();
            for &x in v {
                w.extend([x, 77.0, -5.5]);
            }
            Array1::from(w).slice_move(s![..;3])
        },
        "slice" => {
            let mut w = vec![91.0, 92.0];
            w.extend(v);
            w.push(93.0);
            let n = v.len() as isize;
            Array1::from(w).slice_move(s![2..2 + n])
        },
        _ => panic!("scenario: layout {}", lay),
    }
}

pub fn build(t: &Value) -> Features {
    match s(t, "c") {
        "dense" => Features::dense(fs(&t["v"])),
        "vec" => Features::from(fs(&t["v"])),
        "iter" => fs(&t["v"]).into_iter().collect(),
        "array" => Features::from(arr(&fs(&t["v"]), s(t, "lay"))),
        "sparse" => Features::sparse(u(t, "n"), us(&t["i"]).into_iter().zip(fs(&t["v"]))),
        "record" => Features::from(SparseActivations {
            dim: u(t, "n"),
            activations: us(&t["i"]).into_iter().zip(fs(&t["v"])).collect(),
        }),
        "unitary" => Features::unitary(u(t, "n"), us(&t["i"])),
        "indices" => Features::from(us(&t["i"])),
        c => panic!("scenario: constructor {}", c),
    }
}

pub fn snap(f: &Features) -> Value {
    match f {
        Features::Dense(a) => json!({"r": "d", "n": a.len(), "v": nums(a.iter())}),
        Features::Sparse(sa) => {
            let mut e: Vec<(usize, f64)> = sa.activations.iter().map(|(&i, &x)| (i, x)).collect();
            e.sort_by_key(|p| p.0);
            json!({"r": "s", "n": sa.dim, "i": e.iter().map(|p| p.0).collect::<Vec<_>>(),
                   "v": e.iter().map(|p| num(p.1)).collect::<Vec<_>>()})
        },
    }
}

pub fn fn1(g: &Value) -> Box<dyn Fn(f64) -> f64> {
    let k = |n: &str| if g[n].is_string() { f(&g[n]) } else { 0.0 };
    let (a, b) = (k("a"), k("b"));
    match s(g, "k") {
        "id" => Box::new(|x| x),
        "aff" => Box::new(move |x| a * x + b),
        "neg" => Box::new(|x| -x),
        "sq" => Box::new(|x| x * x),
        "abs" => Box::new(|x: f64| x.abs()),
        "cos" => Box::new(|x: f64| x.cos()),
        "exp" => Box::new(|x: f64| x.exp()),
        "const" => Box::new(move |_| b),
        "gate" => Box::new(move |x| if x > a { x } else { b }),
        "recip" => Box::new(|x| 1.0 / x),
        "self" => Box::new(|x| x / x),
        t => panic!("scenario: fn1 {}", t),
    }
}
pub fn fn2(g: &Value) -> Box<dyn Fn(f64, f64) -> f64> {
    let k = |n: &str| if g[n].is_string() { f(&g[n]) } else { 0.0 };
    let (a, b, c) = (k("a"), k("b"), k("c"));
    match s(g, "k") {
        "add" => Box::new(|x, y| x + y),
        "sub" => Box::new(|x, y| x - y),
        "mul" => Box::new(|x, y| x * y),
        "max" => Box::new(|x: f64, y| x.max(y)),
        "min" => Box::new(|x: f64, y| x.min(y)),
        "left" => Box::new(|x, _| x),
        "right" => Box::new(|_, y| y),
        "aff" => Box::new(move |x, y| a * x + b * y + c),
        "sqd" => Box::new(|x, y| (x - y) * (x - y)),
        "and" => Box::new(|x, y| if x == 0.0 { 0.0 } else { y }),
        "or" => Box::new(|x, y| if x == 0.0 { y } else { x }),
        "nand" => Box::new(move |x, y| if x == 0.0 && y == 0.0 { c } else { 0.0 }),
        "div" => Box::new(|x, y| x / y),
        t => panic!("scenario: fn2 {}", t),
    }
}
