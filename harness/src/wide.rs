//! Sparse vectors and bases over index spaces far larger than memory; indices and sizes are numerals.
use crate::{code_of, dynamic::*, pack, unpack, vals::*};
use lfa::{
    basis::{Basis, Combinators, EnumerableBasis, Fixed, UniformGrid},
    Features, SparseActivations,
};
use serde_json::{json, Value};
use spaces::Space;

fn big(v: &Value) -> usize { v.as_str().and_then(|t| t.parse().ok()).unwrap_or_else(|| panic!("scenario: index {}", v)) }
fn bigs(v: &Value) -> Vec<usize> { v.as_array().unwrap().iter().map(big).collect() }
fn sparse(t: &Value) -> Features {
    let e = bigs(&t["i"]).into_iter().zip(fs(&t["v"]));
    match s(t, "c") {
        "record" => Features::Sparse(SparseActivations { dim: big(&t["n"]), activations: e.collect() }),
        _ => Features::sparse(big(&t["n"]), e),
    }
}
fn shot(x: &Features) -> Value {
    match x {
        Features::Dense(_) => json!({"r": "d"}),
        Features::Sparse(sa) => {
            let mut e: Vec<(usize, f64)> = sa.activations.iter().map(|(&i, &x)| (i, x)).collect();
            e.sort_by_key(|p| p.0);
            json!({"r": "s", "n": sa.dim.to_string(), "i": e.iter().map(|p| p.0.to_string()).collect::<Vec<_>>(),
                   "v": e.iter().map(|p| num(p.1)).collect::<Vec<_>>()})
        },
    }
}

pub fn wide(c: &Value) -> Value {
    let (x, y, z) = (sparse(&c["f"]), sparse(&c["g"]), sparse(&c["h"]));
    let (g1, g2, at) = (fn1(&c["fn"]), fn2(&c["fn2"]), bigs(&c["at"]));
    let get = |x: &Features, i: usize| x.get(i).map_or(json!("none"), |&v| num(v));
    let (mut m, mut mm, mut rem) = (x.clone(), x.clone(), x.clone());
    m.map_inplace(&g1);
    mm.merge_inplace(&y, &g2);
    rem.remove(at[0]);
    let fmt = s(c, "fmt");
    let saved: Result<Features, String> = match fmt {
        "clone" => Ok(x.clone()),
        _ => pack(fmt, &x).and_then(|t| unpack(fmt, &t)),
    };
    json!({
        "fg": shot(&x.clone().stack(y.clone())),
        "left": shot(&x.clone().stack(y.clone()).stack(z.clone())), "right": shot(&x.clone().stack(y.clone().stack(z))),
        "map": shot(&x.map(&g1)), "into": shot(&x.clone().map_into(&g1)), "inplace": shot(&m),
        "merge": shot(&x.merge(&y, &g2)), "minto": shot(&x.clone().merge_into(&y, &g2)), "minplace": shot(&mm),
        "rem": shot(&rem), "get": at.iter().map(|&i| get(&x, i)).collect::<Vec<_>>(),
        "uget": at.iter().map(|&i| unsafe { x.uget(i) }.map_or(json!("none"), |&v| num(v))).collect::<Vec<_>>(),
        "n": x.n_features().to_string(), "nact": x.n_active(), "sum": num(x.sum()),
        "dot": num(ndarray::linalg::Dot::<Features>::dot(&x, &y)), "tod": num(ndarray::linalg::Dot::<Features>::dot(&y, &x)),
        "eq": x == y, "refl": x == x.clone(),
        "saved": saved.map_or_else(|e| json!({"r": "e", "msg": e}), |x| shot(&x)),
        "self": shot(&x), "other": shot(&y),
    })
}

fn leaf(b: &Value) -> DynBasis {
    match s(b, "k") {
        "fixs" => DynBasis::FixS(Fixed::sparse(big(&b["n"]), bigs(&b["i"]))),
        "grid" => DynBasis::Grid(UniformGrid::new(parts(&b["parts"]))),
        t => panic!("scenario: huge {}", t),
    }
}

pub fn huge(c: &Value) -> Value {
    let i = Inp { x: fs(&c["x"]), phi: Features::dense(vec![]), fail: vec![] };
    let mut ls: Vec<DynBasis> = c["ps"].as_array().unwrap().iter().map(leaf).collect();
    let b = if c["left"].as_bool().unwrap() {
        let first = ls.remove(0);
        ls.into_iter().fold(first, |a, l| DynBasis::Stack(Box::new(a.stack(l))))
    } else {
        let last = ls.pop().unwrap();
        ls.into_iter().rev().fold(last, |a, l| DynBasis::Stack(Box::new(l.stack(a))))
    };
    let fmt = s(c, "fmt");
    let b: DynBasis = match fmt {
        "clone" => b.clone(),
        _ => match pack(fmt, &b).and_then(|t| unpack(fmt, &t)) {
            Ok(b) => b,
            Err(e) => return json!({"st": "unsaved", "msg": e}),
        },
    };
    let n: usize = b.dim().into();
    let p = b.project(&i);
    let ith: Vec<Value> = bigs(&c["at"]).into_iter().map(|k| match b.ith(&i, k) {
        Ok(v) => json!({"i": k.to_string(), "st": "ok", "v": num(v)}),
        Err(_) => json!({"i": k.to_string(), "st": "err", "v": "0"}),
    }).collect();
    match p {
        Ok(x) => json!({"st": "ok", "dim": n.to_string(), "snap": shot(&x), "ith": ith}),
        Err(e) => json!({"st": "err", "code": code_of(&e)}),
    }
}

/// A basis with very many (materialised) features.
pub fn deep(c: &Value) -> Value {
    let b = basis(&c["b"]);
    let i = Inp { x: fs(&c["x"]), phi: Features::dense(vec![]), fail: vec![] };
    let n: usize = b.dim().into();
    let p = match b.project(&i) {
        Ok(p) => p,
        Err(e) => return json!({"st": "err", "code": code_of(&e)}),
    };
    let see: Vec<Value> = us(&c["at"]).into_iter().map(|k| {
        let v = if k < p.n_features() { num(p.get(k).copied().unwrap_or(0.0)) } else { json!("none") };
        match b.ith(&i, k) {
            Ok(a) => json!({"st": "ok", "v": v, "ith": num(a)}),
            Err(_) => json!({"st": "err", "v": v, "ith": "0"}),
        }
    }).collect();
    json!({"dim": n, "n": p.n_features(), "see": see})
}
