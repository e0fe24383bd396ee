//! Interpreter of scenarios: reads commands (JSON lines) on stdin, makes the
//! calls on the real lfa, and writes each command back with what was observed.
mod dynamic;
mod vals;
mod vast;
mod wide;

use dynamic::*;
use lfa::{
    basis::{Basis, EnumerableBasis, TileCoding},
    optim::Optimiser,
    DenseActivations, Features, ScalarLFA, VectorLFA, LFA,
};
use ndarray::{s as sl, Array1, Array2, ArrayView1, ArrayViewMut1, ShapeBuilder};
use serde_json::{json, Map, Value};
use spaces::Space;
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashMap},
    io::{BufRead, Write},
    panic::{catch_unwind, AssertUnwindSafe},
};
use vals::*;

#[derive(Clone)]
enum Learner {
    S(ScalarLFA<DynBasis, DynOpt>),
    V(VectorLFA<DynBasis, DynOpt>),
}
enum Saved {
    Bytes(String, Vec<u8>, bool), // format, contents, scalar
    Clone(Learner),
}
#[derive(Default)]
struct World {
    regs: BTreeMap<String, Features>,
    lrn: HashMap<String, Learner>,
    saved: HashMap<String, Saved>,
}

fn opt(v: Option<&f64>) -> Value { v.map_or(json!("none"), |&x| num(x)) }
fn dim(b: &DynBasis) -> usize { b.dim().into() }

fn read(c: &Value) -> Value {
    let x = build(&c["f"]);
    let n = x.n_features();
    let ids: Vec<usize> = (0..n).collect();
    let get: Vec<Value> = ids.iter().map(|&i| opt(x.get(i))).collect();
    let uget: Vec<Value> = ids.iter().map(|&i| opt(unsafe { x.uget(i) })).collect();
    let rows = |a: &Array1<f64>| nums(a.iter());
    json!({
        "snap": snap(&x), "isd": x.is_dense(), "iss": x.is_sparse(), "n": n, "nact": x.n_active(),
        "dense": rows(&x.to_dense()), "into": rows(&x.clone().into_dense()),
        "vec": nums(Vec::<f64>::from(x.clone()).iter()), "arr": rows(&DenseActivations::from(x.clone())),
        "index": Value::Array(ids.iter().map(|&i| num(x[i])).collect()),
        "get": get, "uget": uget,
        "beyond": [opt(x.get(n)), opt(x.get(n + 3))],
        "sum": num(x.sum()),
        "fold": {"sum": num(x.fold(0.0, |a, v| a + v)), "sq": num(x.fold(0.0, |a, v| a + v * v)),
                 "cnt": x.fold(0.0, |a, _| a + 1.0) as i64, "max": num(x.fold(0.0, |a, v| a.max(v.abs())))},
        "eq": x == x.clone(),
        "mapd": x.clone().map_dense(|_| "d").unwrap_or("none"),
        "maps": x.clone().map_sparse(|_| "s").unwrap_or("none"),
        "either": x.clone().map_either(|_| "d", |_| "s"),
    })
}

/// Weights laid out as the scenario asks, handed to k as a mutable view; the
/// second result says that the memory around the view is unchanged.
fn with_weights(w: &[f64], lay: &str, k: &mut dyn FnMut(&mut ArrayViewMut1<f64>)) -> (Vec<f64>, bool) {
    let n = w.len();
    match lay {
        "col" => {
            let mut m = Array2::from_shape_fn((n, 3), |(i, j)| 1000.0 * j as f64 + i as f64);
            m.column_mut(1).assign(&ArrayView1::from(w));
            let before = m.clone();
            k(&mut m.column_mut(1));
            let ok = m.column(0) == before.column(0) && m.column(2) == before.column(2);
            (m.column(1).to_vec(), ok)
        },
        _ => {
            let mut a = arr(w, lay);
            k(&mut a.view_mut());
            (a.to_vec(), true)
        },
    }
}

/// A matrix of zeros with the given memory layout.
fn matrix(n: usize, k: usize, lay: &str) -> Array2<f64> {
    match lay {
        "f" => Array2::zeros((n, k).f()),
        "wide" => Array2::zeros((n, 2 * k + 1)).slice_move(sl![.., 0..2 * k as isize;2]),
        "flip" => Array2::zeros((n, k)).slice_move(sl![..;-1, ..;-1]),
        "rrev" => Array2::zeros((n, k)).slice_move(sl![..;-1, ..]),
        "crev" => Array2::zeros((n, k)).slice_move(sl![.., ..;-1]),
        "fcrev" => Array2::zeros((n, k).f()).slice_move(sl![.., ..;-1]),
        "frrev" => Array2::zeros((n, k).f()).slice_move(sl![..;-1, ..]),
        "tall" => Array2::zeros((3 * n + 2, k).f()).slice_move(sl![1..1 + 3 * n as isize;3, ..]),
        _ => Array2::zeros((n, k)),
    }
}

fn lin(c: &Value) -> Value {
    let (x, y, w) = (build(&c["f"]), build(&c["g"]), fs(&c["w"]));
    let lay = s(c, "lay");
    let cols: Vec<Vec<f64>> = c["m"].as_array().unwrap().iter().map(fs).collect();
    let (n, k) = (w.len(), cols.len());
    let (mut d1, mut d2) = (0.0, 0.0);
    with_weights(&w, lay, &mut |v| {
        d1 = x.dot(&v.view());
        d2 = ndarray::linalg::Dot::dot(&x, &v.view());
    });
    let mut m = matrix(n, k, s(c, "mlay"));
    for j in 0..k {
        for i in 0..n {
            m[(i, j)] = cols[j][i];
        }
    }
    let own = Array1::from(w.clone());
    let (d3, alpha) = (x.dot(&own), f(&c["alpha"]));
    let (mut dyn1, mut dyn2) = (own.clone().into_dyn(), own.into_dyn());
    x.addto(&mut dyn1);
    x.scaled_addto(alpha, &mut dyn2);
    let (add, r1) = with_weights(&w, lay, &mut |v| x.addto(v));
    let (sadd, r2) = with_weights(&w, lay, &mut |v| x.scaled_addto(alpha, v));
    json!({"dot": num(d1), "dot2": num(d2), "dot3": num(d3), "dadd": nums(dyn1.iter()), "dsadd": nums(dyn2.iter()),
           "matv": nums(x.matmul(&m.view()).iter()),
           "ff": num(ndarray::linalg::Dot::<Features>::dot(&x, &y)), "gf": num(ndarray::linalg::Dot::<Features>::dot(&y, &x)),
           "mat": nums(x.matmul(&m).iter()), "add": nums(add.iter()), "sadd": nums(sadd.iter()),
           "rest": r1 && r2, "self": snap(&x)})
}

fn map(c: &Value) -> Value {
    let x = build(&c["f"]);
    let g = fn1(&c["fn"]);
    let mut z = x.clone();
    z.map_inplace(&g);
    json!({"map": snap(&x.map(&g)), "into": snap(&x.clone().map_into(&g)), "inplace": snap(&z), "self": snap(&x)})
}

fn merge(c: &Value) -> Value {
    let (x, y) = (build(&c["f"]), build(&c["g"]));
    let g = fn2(&c["fn"]);
    let mut z = x.clone();
    z.merge_inplace(&y, &g);
    json!({"merge": snap(&x.merge(&y, &g)), "into": snap(&x.clone().merge_into(&y, &g)), "inplace": snap(&z),
           "self": snap(&x), "other": snap(&y)})
}

fn stack(c: &Value) -> Value {
    let (x, y, z) = (build(&c["f"]), build(&c["g"]), build(&c["h"]));
    json!({"fg": snap(&x.clone().stack(y.clone())),
           "left": snap(&x.clone().stack(y.clone()).stack(z.clone())), "right": snap(&x.stack(y.stack(z)))})
}

fn feq(c: &Value) -> Value {
    let (x, y) = (build(&c["f"]), build(&c["g"]));
    #[allow(clippy::eq_op)]
    let refl = [x == x, y == y];
    json!({"eq": x == y, "qe": y == x, "ne": x != y, "refl": refl, "clone": [x == x.clone(), y.clone() == y],
           "self": snap(&x), "other": snap(&y)})
}

fn edit(w: &mut World, c: &Value) -> Value {
    let op = s(c, "op");
    let reg = if c["reg"].is_string() { s(c, "reg").to_string() } else { String::new() };
    let mut out = Map::new();
    match op {
        "fnew" => {
            w.regs.insert(reg, build(&c["f"]));
        },
        "fremove" => w.regs.get_mut(&reg).unwrap().remove(u(c, "i")),
        "fmap" => {
            let g = fn1(&c["fn"]);
            let x = w.regs.get_mut(&reg).unwrap();
            match s(c, "mode") {
                "ref" => *x = x.map(g),
                "into" => *x = x.clone().map_into(g),
                _ => x.map_inplace(g),
            }
        },
        "fmerge" | "fmerger" => {
            let g = fn2(&c["fn"]);
            let y = if op == "fmerge" { build(&c["g"]) } else { w.regs[s(c, "other")].clone() };
            let x = w.regs.get_mut(&reg).unwrap();
            match s(c, "mode") {
                "ref" => *x = x.merge(&y, g),
                "into" => *x = x.clone().merge_into(&y, g),
                _ => x.merge_inplace(&y, g),
            }
        },
        "fstack" => {
            let y = build(&c["g"]);
            let x = w.regs.remove(&reg).unwrap();
            w.regs.insert(reg, if c["front"].as_bool().unwrap() { y.stack(x) } else { x.stack(y) });
        },
        "fclone" => {
            let x = w.regs[&reg].clone();
            w.regs.insert(s(c, "to").to_string(), x);
        },
        "fdrop" => {
            w.regs.remove(&reg);
        },
        "fpmap" | "fpmerge" => {
            let (k, calls, raised) = (c["k"].as_i64().unwrap(), Cell::new(0), Cell::new(false));
            let bump = || {
                calls.set(calls.get() + 1);
                if calls.get() == k {
                    raised.set(true);
                    panic!("injected");
                }
            };
            let x = w.regs.get_mut(&reg).unwrap();
            let seen = if op == "fpmap" {
                let g = fn1(&c["fn"]);
                catch_unwind(AssertUnwindSafe(|| {
                    x.map_inplace(|a| {
                        bump();
                        g(a)
                    })
                }))
                .is_err()
            } else {
                let (g, y) = (fn2(&c["fn"]), build(&c["g"]));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    x.merge_inplace(&y, |a, b| {
                        bump();
                        g(a, b)
                    })
                }))
                .is_err();
                out.insert("other".into(), snap(&y));
                r
            };
            out.insert("raised".into(), json!(raised.get()));
            out.insert("seen".into(), json!(seen));
        },
        "ftwin" => (),
        _ => panic!("scenario: {}", op),
    }
    out.insert("regs".into(), Value::Object(w.regs.iter().map(|(k, x)| (k.clone(), snap(x))).collect()));
    Value::Object(out)
}

fn tile_snaps(b: &Value, i: &Inp) -> Vec<Value> {
    let mut t = Vec::new();
    tiles(b, i, &mut t);
    t.sort_by_key(|p| p.0);
    t.into_iter().map(|p| p.1).collect()
}

fn ith_result(k: usize, f: impl FnOnce() -> lfa::Result<f64>) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => json!({"i": k, "st": "ok", "v": num(v)}),
        Ok(Err(_)) => json!({"i": k, "st": "err", "v": "0"}),
        Err(_) => json!({"i": k, "st": "panic", "v": "0"}),
    }
}

/// Everything observable of basis b at input i; `eager`: ask for single features before projecting.
fn look(b: &DynBasis, ast: &Value, i: &Inp, ids: &[usize], eager: bool) -> Value {
    let n = dim(b);
    let mut out = json!({"dim": n, "nf": Basis::<&Inp>::n_features(b), "tiles": tile_snaps(ast, i)});
    let mut ith = Vec::new();
    if eager {
        ith.extend(ids.iter().map(|&k| ith_result(k, || b.ith(i, k))));
    }
    let p = b.project(i);
    match &p {
        Ok(x) => {
            out["st"] = json!("ok");
            out["snap"] = snap(x);
            out["again"] = b.project(i).map_or(json!({"r": "e", "n": -1}), |x| snap(&x));
        },
        Err(e) => {
            out["st"] = json!("err");
            out["code"] = json!(code_of(e));
        },
    }
    // the indices asked for, and every one that is active
    let mut ids = ids.to_vec();
    if let Ok(Features::Sparse(sa)) = &p {
        let mut more: Vec<usize> = sa.activations.keys().copied().filter(|k| !ids.contains(k)).collect();
        more.sort();
        more.truncate(400);
        ids.extend(more);
    }
    for k in ids {
        ith.push(ith_result(k, || b.ith(i, k)));
        if p.is_ok() {
            ith.push(ith_result(k, || default_ith(b, i, k))); // else the same projection again
        }
    }
    out["ith"] = json!(ith);
    out
}

fn project(c: &Value) -> Value {
    let (b, i) = (basis(&c["b"]), inp(&c["in"]));
    let n = dim(&b);
    let ids: Vec<usize> = if c["ids"].is_array() { us(&c["ids"]) } else { (0..n + 3).collect() };
    // one basis, a history of inputs
    let more: Vec<Inp> = c["more"].as_array().map_or(vec![], |v| v.iter().map(inp).collect());
    let few: Vec<usize> = ids.iter().copied().filter(|k| *k < 4 || *k + 2 > n).collect();
    let twin = b.clone();
    let pre: Vec<Value> = more.iter().enumerate().map(|(k, j)| look(&b, &c["b"], j, &few, k % 2 == 1)).collect();
    let mut out = look(&b, &c["b"], &i, &ids, more.len() % 2 == 1);
    let post: Vec<Value> = more.iter().map(|j| look(&b, &c["b"], j, &few, false)).collect();
    out["pre"] = json!(pre);
    out["post"] = json!(post);
    out["twin"] = if more.is_empty() { json!([]) } else { json!([look(&twin, &c["b"], &i, &few, false)]) };
    out["alt"] = match catch_unwind(AssertUnwindSafe(|| b.alt(&i.x, &ids))) {
        Ok(Some((p, q))) => {
            let ith: Vec<Value> = q.into_iter().map(|(k, r)| ith_result(k, || r)).collect();
            json!([{"snap": p.map_or(json!({"r": "e", "n": -1}), |x| snap(&x)), "ith": ith}])
        },
        Ok(None) => json!([]),
        Err(_) => json!([{"snap": {"r": "e", "n": -1}, "ith": []}]),
    };
    out
}

fn tile(c: &Value) -> Value {
    let (n, big): (usize, usize) = (u(c, "n"), s(c, "m").parse().unwrap());
    let xs: Vec<Vec<f64>> = c["xs"].as_array().unwrap().iter().map(fs).collect();
    let t = TileCoding::new(hash_kind(c), n, big);
    let (mut unit, mut same, mut ith) = (true, true, true);
    let mut act = Vec::new();
    for x in &xs {
        let p = t.project(x).unwrap();
        match &p {
            Features::Sparse(sa) => {
                unit &= sa.activations.values().all(|&v| v == 1.0) && sa.dim == big;
                same &= match t.project(x).unwrap() {
                    Features::Sparse(sb) => sb.activations == sa.activations,
                    _ => false,
                };
                let mut ks: Vec<usize> = sa.activations.keys().copied().collect();
                ks.sort();
                for &k in &ks {
                    ith &= t.ith(x, k) == Ok(1.0);
                    for off in [k ^ 1, k ^ 2, k / 2] {
                        if !sa.activations.contains_key(&off) && off < big {
                            ith &= t.ith(x, off) == Ok(0.0);
                        }
                    }
                }
                ith &= t.ith(x, big).is_err();
                act.push(ks.iter().map(|k| k.to_string()).collect::<Vec<_>>());
            },
            _ => unit = false,
        }
    }
    let small: Vec<Vec<Vec<String>>> = c["ms"].as_array().unwrap()
        .iter()
        .map(|m| {
            let m: usize = m.as_str().unwrap().parse().unwrap();
            let t = TileCoding::new(hash_kind(c), n, m);
            xs.iter()
                .map(|x| match t.project(x).unwrap() {
                    Features::Sparse(sa) => {
                        unit &= sa.activations.values().all(|&v| v == 1.0) && sa.dim == m;
                        for k in 0..m.min(40) {
                            ith &= t.ith(x, k) == Ok(if sa.activations.contains_key(&k) { 1.0 } else { 0.0 });
                        }
                        ith &= t.ith(x, m).is_err() && t.ith(x, m + 7).is_err();
                        let mut ks: Vec<usize> = sa.activations.keys().copied().collect();
                        ks.sort();
                        ks.iter().map(|k| k.to_string()).collect()
                    },
                    _ => vec!["-1".to_string()],
                })
                .collect()
        })
        .collect();
    let d: usize = t.dim().into();
    json!({"act": act, "unit": unit, "same": same, "ith": ith, "small": small, "dim": d.to_string()})
}

/// The formats things are saved in: JSON and bincode, the latter's records without names, and both read
/// back from memory or from a stream that lends nothing; "value" goes through a tree of JSON values,
/// which lists the fields of a record in alphabetical order.
fn pack<T: serde::Serialize>(fmt: &str, x: &T) -> Result<Vec<u8>, String> {
    match fmt {
        "json" | "stream" => serde_json::to_vec(x).map_err(|e| e.to_string()),
        "pretty" => serde_json::to_vec_pretty(x).map_err(|e| e.to_string()),
        "value" => serde_json::to_value(x).map(|v| v.to_string().into_bytes()).map_err(|e| e.to_string()),
        "bin" | "binstream" => bincode::serialize(x).map_err(|e| e.to_string()),
        t => panic!("scenario: format {}", t),
    }
}
fn unpack<T: serde::de::DeserializeOwned>(fmt: &str, t: &[u8]) -> Result<T, String> {
    match fmt {
        "json" => serde_json::from_slice(t).map_err(|e| e.to_string()),
        "pretty" => serde_json::from_str(std::str::from_utf8(t).unwrap()).map_err(|e| e.to_string()),
        "stream" => serde_json::from_reader(t).map_err(|e| e.to_string()),
        "value" => serde_json::from_slice::<Value>(t).and_then(serde_json::from_value).map_err(|e| e.to_string()),
        "bin" => bincode::deserialize(t).map_err(|e| e.to_string()),
        "binstream" => bincode::deserialize_from(t).map_err(|e| e.to_string()),
        t => panic!("scenario: format {}", t),
    }
}

fn bsave(c: &Value) -> Value {
    let (b, i) = (basis(&c["b"]), inp(&c["in"]));
    let r: Result<DynBasis, String> = match s(c, "fmt") {
        "clone" => Ok(b.clone()),
        fmt => pack(fmt, &b).and_then(|t| unpack(fmt, &t)),
    };
    drop(b);
    match r {
        Err(e) => json!({"st": "err", "msg": e}),
        Ok(b) => {
            let p1 = match b.project(&i) {
                Ok(x) => json!({"st": "ok", "snap": snap(&x)}),
                Err(e) => json!({"st": "err", "code": code_of(&e)}),
            };
            json!({"st": "ok", "dim1": dim(&b), "tiles": tile_snaps(&c["b"], &i), "p1": p1})
        },
    }
}

fn fsave(c: &Value) -> Value {
    let x = build(&c["f"]);
    let r: Result<Features, String> = match s(c, "fmt") {
        "clone" => Ok(x.clone()),
        fmt => pack(fmt, &x).and_then(|t| unpack(fmt, &t)),
    };
    drop(x);
    match r {
        Ok(y) => json!({"st": "ok", "snap": snap(&y)}),
        Err(e) => json!({"st": "err", "msg": e}),
    }
}

fn weights(l: &Learner) -> Value {
    match l {
        Learner::S(l) => json!([nums(l.weights.iter())]),
        Learner::V(l) => Value::Array((0..l.weights.ncols()).map(|j| nums(l.weights.column(j).iter())).collect()),
    }
}
fn status(out: &mut Value, r: std::thread::Result<lfa::Result<()>>) {
    match r {
        Ok(Ok(())) => out["st"] = json!("ok"),
        Ok(Err(e)) => {
            out["st"] = json!("err");
            out["code"] = json!(code_of(&e));
        },
        Err(_) => out["st"] = json!("panic"),
    }
}

fn learn(w: &mut World, c: &Value) -> Value {
    let op = s(c, "op");
    let id = if c["id"].is_string() { s(c, "id").to_string() } else { String::new() };
    let mut out = json!({});
    match op {
        "lnew" => {
            let b = basis(&c["b"]);
            let n = dim(&b);
            let o = optimiser(&c["o"], n);
            let m = u(c, "m");
            let l = match (s(c, "kind"), c["ctor"].as_str()) {
                ("s", Some("new")) => Learner::S(LFA::new(b, Array1::zeros(n), o)),
                ("s", _) => Learner::S(LFA::scalar(b, o)),
                (_, Some("new")) => Learner::V(LFA::new(b, Array2::zeros((n, m)), o)),
                (_, Some(lay)) if lay != "short" => Learner::V(LFA::new(b, matrix(n, m, lay), o)),
                _ => Learner::V(LFA::vector(b, o, m)),
            };
            out["n"] = json!(match &l {
                Learner::S(l) => l.weights.len(),
                Learner::V(l) => l.weights.nrows(),
            });
            out["m"] = json!(match &l {
                Learner::S(_) => 1,
                Learner::V(l) => l.n_outputs(),
            });
            w.lrn.insert(id.clone(), l);
        },
        "lsave" => {
            let fmt = s(c, "fmt");
            let sv = match &w.lrn[&id] {
                l if fmt == "clone" => Saved::Clone(l.clone()),
                Learner::S(l) => Saved::Bytes(fmt.to_string(), pack(fmt, l).unwrap(), true),
                Learner::V(l) => Saved::Bytes(fmt.to_string(), pack(fmt, l).unwrap(), false),
            };
            w.saved.insert(s(c, "slot").to_string(), sv);
            out["st"] = json!("ok");
        },
        "lload" => {
            let r: Result<Learner, String> = match &w.saved[s(c, "slot")] {
                Saved::Bytes(fmt, t, true) => unpack(fmt, t).map(Learner::S),
                Saved::Bytes(fmt, t, false) => unpack(fmt, t).map(Learner::V),
                Saved::Clone(l) => Ok(l.clone()),
            };
            match r {
                Ok(l) => {
                    out["st"] = json!("ok");
                    w.lrn.insert(id.clone(), l);
                },
                Err(e) => {
                    return json!({"st": "err", "msg": e});
                },
            }
        },
        "ltwin" => return json!({}),
        "lreset" => match w.lrn.get_mut(&id).unwrap() {
            Learner::S(l) => l.optimiser.reset(),
            Learner::V(l) => l.optimiser.reset(),
        },
        "lset" => {
            let cols: Vec<Vec<f64>> = c["W"].as_array().unwrap().iter().map(fs).collect();
            match w.lrn.get_mut(&id).unwrap() {
                Learner::S(l) => {
                    let lay = match s(c, "lay") {
                        "wide" => "stride",
                        "flip" | "rrev" | "frrev" => "rev",
                        "tall" => "slice",
                        _ => "std",
                    };
                    l.weights = arr(&cols[0], lay);
                },
                Learner::V(l) => {
                    let (n, m) = l.weights.dim();
                    let mut a = matrix(n, m, s(c, "lay"));
                    for j in 0..m {
                        for i in 0..n {
                            a[(i, j)] = cols[j][i];
                        }
                    }
                    l.weights = a;
                },
            }
        },
        "lswap" => match w.lrn.get_mut(&id).unwrap() {
            Learner::S(l) => l.optimiser = optimiser(&c["o"], l.weights.len()),
            Learner::V(l) => l.optimiser = optimiser(&c["o"], l.weights.nrows()),
        },
        "lstep" => {
            let x = build(&c["f"]);
            let plain = c["plain"].as_bool().unwrap();
            let e = if plain { 1.0 } else { f(&c["e"]) };
            if let Learner::S(l) = w.lrn.get_mut(&id).unwrap() {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let (o, mut v) = (&mut l.optimiser, l.weights.view_mut());
                    if plain {
                        o.step(&mut v, &x)
                    } else {
                        o.step_scaled(&mut v, &x, e)
                    }
                }));
                status(&mut out, r);
            }
        },
        // steps beyond the range of floats, whatever they do; then a reset and other weights
        "lwreck" => {
            let cyc: Vec<(Features, f64)> = c["cyc"].as_array().unwrap().iter().map(|q| (build(&q["f"]), f(&q["e"]))).collect();
            for (x, e) in &cyc {
                let _ = catch_unwind(AssertUnwindSafe(|| match w.lrn.get_mut(&id).unwrap() {
                    Learner::S(l) => l.optimiser.step_scaled(&mut l.weights.view_mut(), x, *e),
                    Learner::V(l) => l.optimiser.step_scaled(&mut l.weights.column_mut(0), x, *e),
                }));
            }
            match w.lrn.get_mut(&id).unwrap() {
                Learner::S(l) => {
                    l.optimiser.reset();
                    l.weights = Array1::from(fs(&c["W"][0]));
                },
                Learner::V(l) => {
                    l.optimiser.reset();
                    for (j, col) in c["W"].as_array().unwrap().iter().enumerate() {
                        l.weights.column_mut(j).assign(&Array1::from(fs(col)));
                    }
                },
            }
        },
        "lburn" => {
            let cyc: Vec<(Features, f64)> = c["cyc"].as_array().unwrap().iter().map(|q| (build(&q["f"]), f(&q["e"]))).collect();
            if let Learner::S(l) = w.lrn.get_mut(&id).unwrap() {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let (o, mut v) = (&mut l.optimiser, l.weights.view_mut());
                    for _ in 0..u(c, "n") {
                        for (x, e) in &cyc {
                            o.step_scaled(&mut v, x, *e)?;
                        }
                    }
                    Ok(())
                }));
                status(&mut out, r);
            }
        },
        "leval" | "lupd" | "lupdi" | "lupdw" => {
            let i = inp(&c["in"]);
            let l = w.lrn.get_mut(&id).unwrap();
            let phi = match l {
                Learner::S(l) => l.basis.project(&i),
                Learner::V(l) => l.basis.project(&i),
            };
            if let Ok(p) = &phi {
                out["phi"] = snap(p);
            }
            match op {
                "leval" => eval(l, &i, &mut out),
                "lupd" => {
                    let e = fs(&c["e"]);
                    let r = catch_unwind(AssertUnwindSafe(|| match l {
                        Learner::S(l) => l.update(&i, e[0]),
                        Learner::V(l) => match c["ei"].as_str().unwrap_or("vec") {
                            "lazy" => l.update(&i, e.into_iter().filter(|x| !x.is_nan())), // of unknown length
                            "chain" => {
                                let k = e.len() / 2;
                                l.update(&i, e[..k].to_vec().into_iter().chain(e[k..].iter().copied()))
                            },
                            "fn" => {
                                let mut it = e.iter();
                                l.update(&i, std::iter::from_fn(move || it.next().copied()))
                            },
                            "array" => l.update(&i, arr(&e, "rev").iter().copied()),
                            _ => l.update(&i, e),
                        },
                    }));
                    status(&mut out, r);
                },
                "lupdi" => {
                    let (j, e) = (u(c, "j") - 1, f(&c["e"]));
                    if let Learner::V(l) = l {
                        let r = catch_unwind(AssertUnwindSafe(|| l.update_index(&i, j, e)));
                        status(&mut out, r);
                    }
                },
                _ => update_with(l, &i, &c["cl"], &mut out),
            }
        },
        _ => panic!("scenario: {}", op),
    }
    if let Some(l) = w.lrn.get(&id) {
        out["W"] = weights(l);
    }
    out
}

fn eval(l: &mut Learner, i: &Inp, out: &mut Value) {
    match l {
        Learner::S(l) => match l.evaluate(i) {
            Ok(v) => {
                out["st"] = json!("ok");
                out["v"] = json!([num(v)]);
            },
            Err(e) => {
                out["st"] = json!("err");
                out["code"] = json!(code_of(&e));
            },
        },
        Learner::V(l) => match l.evaluate(i) {
            Ok(v) => {
                out["st"] = json!("ok");
                out["v"] = nums(v.iter());
                out["it"] = Value::Array(l.iter(i).map(num).collect());
                let (mut lens, mut hints, mut t) = (Vec::new(), true, Vec::new());
                match l.try_iter(i) {
                    Ok(mut it) => loop {
                        lens.push(it.len());
                        hints &= it.size_hint() == (it.len(), Some(it.len()));
                        match it.next() {
                            Some(v) => t.push(num(v)),
                            None => break,
                        }
                        if t.len() > 100000 {
                            break;
                        }
                    },
                    Err(_) => hints = false,
                }
                out["try"] = json!(t);
                out["lens"] = json!(lens);
                out["hints"] = json!(hints);
                // iterators used in other ways than by next: a cut of k, then one of the ways to go on
                let m = l.n_outputs();
                let mut ways = Vec::new();
                for k in [0, 1, m / 2, m] {
                    let mut nth = l.iter(i);
                    let at = nth.nth(k).map_or(json!("none"), num);
                    let rest = nums(nth.collect::<Vec<_>>().iter());
                    let mut cut = l.iter(i);
                    cut.by_ref().take(k).for_each(drop);
                    let (last, count) = (l.iter(i).skip(k).last().map_or(json!("none"), num), cut.count());
                    let fold = nums(l.iter(i).skip(k).fold(vec![], |mut a, v| { a.push(v); a }).iter());
                    let step = nums(l.iter(i).step_by(k + 1).collect::<Vec<_>>().iter());
                    ways.push(json!({"k": k, "nth": at, "rest": rest, "last": last, "count": count, "fold": fold, "step": step}));
                }
                out["ways"] = json!(ways);
                out["idx"] = Value::Array(
                    (0..l.n_outputs()).map(|j| l.evaluate_index(i, j).map_or(json!("NaN"), num)).collect(),
                );
            },
            Err(e) => {
                out["st"] = json!("err");
                out["code"] = json!(code_of(&e));
                let c1 = l.try_iter(i).err().map_or(-8, |e| code_of(&e));
                let c2 = if l.n_outputs() == 0 { c1 } else { l.evaluate_index(i, 0).err().map_or(-8, |e| code_of(&e)) };
                out["codes"] = json!([c1, c2]);
                out["itpanic"] = json!(catch_unwind(AssertUnwindSafe(|| {
                    l.iter(i);
                }))
                .is_err());
            },
        },
    }
}

fn update_with(l: &mut Learner, i: &Inp, cl: &Value, out: &mut Value) {
    let calls = Cell::new(0);
    let seen: RefCell<Option<(Value, Vec<f64>, Vec<f64>)>> = RefCell::new(None);
    let errors = |p: &Features, v: &[f64]| -> Vec<f64> {
        calls.set(calls.get() + 1);
        let e = match s(cl, "k") {
            "to" => fs(&cl["y"]).iter().zip(v).map(|(y, v)| y - v).collect(),
            "fix" => fs(&cl["e"]),
            "panic" => {
                *seen.borrow_mut() = Some((snap(p), v.to_vec(), vec![]));
                panic!("injected")
            },
            t => panic!("scenario: closure {}", t),
        };
        *seen.borrow_mut() = Some((snap(p), v.to_vec(), e.clone()));
        e
    };
    let r = catch_unwind(AssertUnwindSafe(|| match l {
        Learner::S(l) => l.update_with(i, |p, v| errors(p, &[v])[0]),
        Learner::V(l) => l.update_with(i, |p, v| arr(&errors(p, &v.to_vec()), cl["lay"].as_str().unwrap_or("std"))),
    }));
    status(out, r);
    out["calls"] = json!(calls.get());
    if let Some((p, v, e)) = seen.into_inner() {
        out["cphi"] = p;
        out["cv"] = nums(v.iter());
        out["ce"] = nums(e.iter());
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut o = std::io::BufWriter::new(stdout.lock());
    let mut w = World::default();
    let mut dead = false; // after an unexpected panic the rest of the episode is skipped
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let mut c: Value = serde_json::from_str(&line).expect("scenario: JSON");
        let op = s(&c, "op").to_string();
        if op == "begin" {
            w = World::default();
            dead = false;
        } else if dead {
            continue;
        } else {
            // say what is being attempted, in case the process dies
            let r = catch_unwind(AssertUnwindSafe(|| match op.as_str() {
                "read" => read(&c),
                "lin" => lin(&c),
                "map" => map(&c),
                "merge" => merge(&c),
                "stack" => stack(&c),
                "feq" => feq(&c),
                "project" => project(&c),
                "kern" => kernel_eval(&c),
                "kray" => kernel_ray(&c),
                "tile" => tile(&c),
                "bsave" => bsave(&c),
                "fsave" => fsave(&c),
                "wide" => wide::wide(&c),
                "huge" => wide::huge(&c),
                "deep" => wide::deep(&c),
                "vast" => vast::vast(&c),
                "vlearn" => vast::vlearn(&c),
                "vouts" => vast::vouts(&c),
                t if t.starts_with('f') => edit(&mut w, &c),
                t if t.starts_with('l') => learn(&mut w, &c),
                t => panic!("scenario: op {}", t),
            }));
            c["out"] = match r {
                Ok(v) => v,
                Err(e) => {
                    dead = true;
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|t| t.to_string()));
                    let m = m.unwrap_or_default();
                    if m.starts_with("scenario:") {
                        eprintln!("{} in {}", m, line);
                        std::process::exit(3);
                    }
                    json!({ "panic": m })
                },
            };
        }
        serde_json::to_writer(&mut o, &c).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}
