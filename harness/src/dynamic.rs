//! Bases and optimisers chosen at run time, built from lfa's own types.
use crate::vals::*;
use lfa::{
    basis::{kernels::*, *},
    optim::*,
    Error, Features, Result,
};
use ndarray::ArrayViewMut1;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use spaces::{real::Interval, Card, Dim, Equipartition, ProductSpace, Space};
use std::collections::HashSet;
use std::hash::{BuildHasher, Hasher};

/// SipHash with fixed keys, or a chain of 64-bit mixers.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum HashKind {
    #[default]
    Sip,
    Mix,
}
#[derive(Clone, Debug)]
pub enum AnyHasher {
    Sip(std::collections::hash_map::DefaultHasher),
    Mix(u64),
}
impl BuildHasher for HashKind {
    type Hasher = AnyHasher;
    fn build_hasher(&self) -> AnyHasher {
        match self {
            HashKind::Sip => AnyHasher::Sip(std::collections::hash_map::DefaultHasher::new()),
            HashKind::Mix => AnyHasher::Mix(0x9e3779b97f4a7c15),
        }
    }
}
impl Hasher for AnyHasher {
    fn write(&mut self, bytes: &[u8]) {
        match self {
            AnyHasher::Sip(h) => h.write(bytes),
            AnyHasher::Mix(st) => {
                for c in bytes.chunks(8) {
                    let mut b = [0u8; 8];
                    b[..c.len()].copy_from_slice(c);
                    let mut z = st.rotate_left(23) ^ u64::from_le_bytes(b).wrapping_mul(0xd6e8feb86659fd93);
                    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
                    *st = z ^ (z >> 31);
                }
            },
        }
    }
    fn finish(&self) -> u64 {
        match self {
            AnyHasher::Sip(h) => h.finish(),
            AnyHasher::Mix(st) => *st,
        }
    }
}
pub fn hash_kind(v: &Value) -> HashKind {
    match v["h"].as_str() {
        Some("mix") => HashKind::Mix,
        _ => HashKind::Sip,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Inp {
    pub x: Vec<f64>,
    pub phi: Features,
    pub fail: Vec<i64>,
}
pub fn inp(v: &Value) -> Inp { Inp { x: fs(&v["x"]), phi: build(&v["phi"]), fail: is(&v["fail"]) } }

pub fn user_error(code: i64) -> Error { Error::index_error(code as usize, 999) }
/// The code of one of the user's errors, -9 for any other.
pub fn code_of(e: &Error) -> i64 { (0..64).find(|&c| *e == user_error(c)).unwrap_or(if *e == user_error(1000) { -2 } else { -9 }) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DynBasis {
    Bias(Bias),
    FixD(Fixed<Vec<f64>>),
    FixS(Fixed<(usize, HashSet<usize>)>),
    Poly(Polynomial),
    Four(Fourier),
    Cheb(Chebyshev),
    Grid(UniformGrid),
    Tile(TileCoding<HashKind>),
    KExp(KernelBasis<Vec<f64>, Exponential>),
    K32(KernelBasis<Vec<f64>, Matern32>),
    K52(KernelBasis<Vec<f64>, Matern52>),
    KEq(KernelBasis<Vec<f64>, ExpQuad>),
    KCos(KernelBasis<Vec<f64>, Cosine>),
    KRq(KernelBasis<Vec<f64>, RationalQuadratic>),
    Stack(Box<Stack<DynBasis, DynBasis>>),
    WithBias(Box<Stack<DynBasis, Bias>>),
    L0(Box<L0Normaliser<DynBasis>>),
    L1(Box<L1Normaliser<DynBasis>>),
    L2(Box<L2Normaliser<DynBasis>>),
    Linf(Box<LinfNormaliser<DynBasis>>),
    /// user-defined bases, over lfa's Closure and the default `ith`
    Phi(usize),
    Fail(usize, i64),
}

fn phi_closure(n: usize) -> Closure<impl Fn(&Inp) -> Result<Features>> { Closure::new(n, |i: &Inp| Ok(i.phi.clone())) }
fn fail_closure(n: usize, c: i64) -> Closure<impl Fn(&Inp) -> Result<Features>> {
    Closure::new(n, move |i: &Inp| {
        if i.fail.contains(&c) {
            Err(user_error(c))
        } else {
            Ok(Features::dense(vec![1.0; n]))
        }
    })
}

impl Space for DynBasis {
    type Value = Features;
    fn dim(&self) -> Dim {
        use DynBasis::*;
        match self {
            Bias(b) => b.dim(),
            FixD(b) => b.dim(),
            FixS(b) => b.dim(),
            Poly(b) => b.dim(),
            Four(b) => b.dim(),
            Cheb(b) => b.dim(),
            Grid(b) => b.dim(),
            Tile(b) => b.dim(),
            KExp(b) => b.dim(),
            K32(b) => b.dim(),
            K52(b) => b.dim(),
            KEq(b) => b.dim(),
            KCos(b) => b.dim(),
            KRq(b) => b.dim(),
            Stack(b) => b.dim(),
            WithBias(b) => b.dim(),
            L0(b) => b.dim(),
            L1(b) => b.dim(),
            L2(b) => b.dim(),
            Linf(b) => b.dim(),
            Phi(n) => phi_closure(*n).dim(),
            Fail(n, c) => fail_closure(*n, *c).dim(),
        }
    }
    fn card(&self) -> Card { Card::Infinite }
}
impl Combinators for DynBasis {}
impl<'a> Basis<&'a Inp> for DynBasis {
    fn n_features(&self) -> usize {
        use DynBasis::*;
        match self {
            Bias(b) => Basis::<&[f64]>::n_features(b),
            FixD(b) => Basis::<&[f64]>::n_features(b),
            FixS(b) => Basis::<&[f64]>::n_features(b),
            Poly(b) => Basis::<&Vec<f64>>::n_features(b),
            Four(b) => Basis::<&Vec<f64>>::n_features(b),
            Cheb(b) => Basis::<&Vec<f64>>::n_features(b),
            Grid(b) => Basis::<&Vec<f64>>::n_features(b),
            Tile(b) => Basis::<&Vec<f64>>::n_features(b),
            KExp(b) => Basis::<&[f64]>::n_features(b),
            K32(b) => Basis::<&[f64]>::n_features(b),
            K52(b) => Basis::<&[f64]>::n_features(b),
            KEq(b) => Basis::<&[f64]>::n_features(b),
            KCos(b) => Basis::<&[f64]>::n_features(b),
            KRq(b) => Basis::<&[f64]>::n_features(b),
            Stack(b) => Basis::<&Inp>::n_features(&**b),
            WithBias(b) => Basis::<&Inp>::n_features(&**b),
            L0(b) => Basis::<&Inp>::n_features(&**b),
            L1(b) => Basis::<&Inp>::n_features(&**b),
            L2(b) => Basis::<&Inp>::n_features(&**b),
            Linf(b) => Basis::<&Inp>::n_features(&**b),
            Phi(n) => Basis::<&Inp>::n_features(&phi_closure(*n)),
            Fail(n, c) => Basis::<&Inp>::n_features(&fail_closure(*n, *c)),
        }
    }
    fn project(&self, i: &'a Inp) -> Result<Features> {
        use DynBasis::*;
        let x = &i.x;
        match self {
            Bias(b) => b.project(x),
            FixD(b) => b.project(x),
            FixS(b) => b.project(x),
            Poly(b) => b.project(x),
            Four(b) => b.project(x),
            Cheb(b) => b.project(x),
            Grid(b) => b.project(x),
            Tile(b) => b.project(x),
            KExp(b) => b.project(x.as_slice()),
            K32(b) => b.project(x.as_slice()),
            K52(b) => b.project(x.as_slice()),
            KEq(b) => b.project(x.as_slice()),
            KCos(b) => b.project(x.as_slice()),
            KRq(b) => b.project(x.as_slice()),
            Stack(b) => b.project(i),
            WithBias(b) => b.project(i),
            L0(b) => b.project(i),
            L1(b) => b.project(i),
            L2(b) => b.project(i),
            Linf(b) => b.project(i),
            Phi(n) => phi_closure(*n).project(i),
            Fail(n, c) => fail_closure(*n, *c).project(i),
        }
    }
}
/// A user's basis that relies on the trait's default `ith`.
struct Default_<'b>(&'b DynBasis);
impl<'b> Space for Default_<'b> {
    type Value = Features;
    fn dim(&self) -> Dim { self.0.dim() }
    fn card(&self) -> Card { Card::Infinite }
}
impl<'b> Combinators for Default_<'b> {}
impl<'a, 'b> Basis<&'a Inp> for Default_<'b> {
    fn project(&self, i: &'a Inp) -> Result<Features> { self.0.project(i) }
}
impl<'a, 'b> EnumerableBasis<&'a Inp> for Default_<'b> {}
pub fn default_ith(b: &DynBasis, i: &Inp, k: usize) -> Result<f64> { Default_(b).ith(i, k) }

impl<'a> EnumerableBasis<&'a Inp> for DynBasis {
    fn ith(&self, i: &'a Inp, k: usize) -> Result<f64> {
        use DynBasis::*;
        let x = &i.x;
        match self {
            Bias(b) => b.ith(x, k),
            FixD(b) => b.ith(x, k),
            FixS(b) => b.ith(x, k),
            Poly(b) => b.ith(x, k),
            Four(b) => b.ith(x, k),
            Cheb(b) => b.ith(x, k),
            Grid(b) => b.ith(x, k),
            Tile(b) => b.ith(x, k),
            KExp(b) => b.ith(x.as_slice(), k),
            K32(b) => b.ith(x.as_slice(), k),
            K52(b) => b.ith(x.as_slice(), k),
            KEq(b) => b.ith(x.as_slice(), k),
            KCos(b) => b.ith(x.as_slice(), k),
            KRq(b) => b.ith(x.as_slice(), k),
            Stack(b) => b.ith(i, k),
            WithBias(b) => b.ith(i, k),
            L0(b) => b.ith(i, k),
            L1(b) => b.ith(i, k),
            L2(b) => b.ith(i, k),
            Linf(b) => b.ith(i, k),
            Phi(_) | Fail(..) => default_ith(self, i, k),
        }
    }
}

type Alt = (Result<Features>, Vec<(usize, Result<f64>)>);
impl DynBasis {
    /// The leaf bases called with another type of input: a lazy iterator of unknown length where they take
    /// one, an owned vector for kernels, nothing at all for the constant ones.
    pub fn alt(&self, x: &Vec<f64>, ids: &[usize]) -> Option<Alt> {
        use DynBasis::*;
        macro_rules! go {
            ($b:expr, $x:expr) => {
                Some(($b.project($x), ids.iter().map(|&k| (k, $b.ith($x, k))).collect()))
            };
        }
        match self {
            Bias(b) => go!(b, ()),
            FixD(b) => go!(b, ()),
            FixS(b) => go!(b, ()),
            Poly(b) => go!(b, x.iter().copied().filter(|_| true)),
            Four(b) => go!(b, x.iter().copied().filter(|_| true)),
            Cheb(b) => go!(b, x.iter().copied().filter(|_| true)),
            Grid(b) => go!(b, x.iter().filter(|_| true)),
            Tile(b) => go!(b, x.iter().filter(|_| true)),
            KExp(b) => go!(b, x.clone()),
            K32(b) => go!(b, x.clone()),
            K52(b) => go!(b, x.clone()),
            KEq(b) => go!(b, x.clone()),
            KCos(b) => go!(b, x.clone()),
            KRq(b) => go!(b, x.clone()),
            _ => None,
        }
    }
}

fn pairs(v: &Value) -> Vec<(f64, f64)> { v.as_array().unwrap().iter().map(|p| (f(&p[0]), f(&p[1]))).collect() }
fn space(lim: Vec<(f64, f64)>) -> ProductSpace<Interval> {
    ProductSpace::new(lim.into_iter().map(|(a, b)| Interval::bounded(a, b)).collect::<Vec<_>>())
}
pub fn parts(v: &Value) -> ProductSpace<Equipartition> {
    ProductSpace::new(v.as_array().unwrap().iter().map(|p| Equipartition::new(f(&p["lo"]), f(&p["hi"]), u(p, "n"))).collect::<Vec<_>>())
}
fn flag(v: &Value, k: &str) -> bool { v[k].as_bool().unwrap_or(false) }

macro_rules! with_kernel {
    ($k:expr, $ctor:expr, $id:ident => $body:expr) => {{
        let (k, ctor) = ($k, $ctor);
        let (var, ls) = (f(&k["var"]), fs(&k["ls"]));
        macro_rules! st {
            ($T:ident) => {{
                let $id = match ctor {
                    "non_ard" => $T::non_ard(var, ls[0]),
                    "default" => $T::default(),
                    _ => $T::new(var, ls),
                };
                $body
            }};
        }
        match s(k, "k") {
            "exp" => st!(Exponential),
            "m32" => st!(Matern32),
            "m52" => st!(Matern52),
            "eq" => st!(ExpQuad),
            "cos" => st!(Cosine),
            "rq" => {
                let p = f(&k["pow"]);
                let $id = match ctor {
                    "non_ard" => RationalQuadratic::non_ard(p, var, ls[0]),
                    "default" => RationalQuadratic::default(),
                    _ => RationalQuadratic::new(var, ls, p),
                };
                $body
            },
            t => panic!("scenario: kernel {}", t),
        }
    }};
}

pub fn kernel_eval(v: &Value) -> Value {
    let (x, y) = (fs(&v["x"]), fs(&v["y"]));
    let ctor = v["ctor"].as_str().unwrap_or("new");
    with_kernel!(&v["kern"], ctor, k => {
        let one = x.len() == 1;
        serde_json::json!({
            "xy": num(k.kernel(&x[..], &y[..])), "yx": num(k.kernel(&y[..], &x[..])), "vec": num(k.kernel(&x, &y)),
            "xx": num(k.kernel(&x[..], &x[..])),
            "proto": num(Prototype { centroid: y.clone(), kernel: k.clone() }.distance_from(&x[..])),
            "one": num(if one { k.kernel(x[0], y[0]) } else { 0.0 }),
            "eno": num(if one { k.kernel(y[0], x[0]) } else { 0.0 }),
        })
    })
}
pub fn kernel_ray(v: &Value) -> Value {
    let d = u(v, "d");
    let x = vec![0.0; d * d];
    with_kernel!(&v["kern"], "new", k => {
        serde_json::json!({"v": fs(&v["ts"]).iter().map(|&t| num(k.kernel(&x[..], &vec![t; d * d][..]))).collect::<Vec<_>>()})
    })
}

fn kern_basis(b: &Value) -> DynBasis {
    let cent: Vec<Vec<f64>> = b["cent"].as_array().unwrap().iter().map(fs).collect();
    let kern = &b["kern"];
    let each: Vec<&Value> = b["kerns"].as_array().map_or(vec![kern; cent.len()], |a| a.iter().collect());
    macro_rules! mk {
        ($V:ident, $k:expr) => {{
            let make = $k;
            DynBasis::$V(if flag(b, "ed") {
                // everything is replaced after construction
                let n = cent.len() / 2;
                let mut kb = KernelBasis::homogeneous(vec![vec![0.25; cent.first().map_or(0, |c| c.len())]; n], make(kern));
                for (k, c) in cent.into_iter().enumerate() {
                    let new = make(each[k]);
                    if k < n {
                        let p = &mut kb.prototypes[k];
                        p.centroid = c;
                        p.kernel.variance = new.variance;
                        p.kernel.lengthscales.clear();
                        p.kernel.lengthscales.extend(new.lengthscales.iter());
                        p.kernel = new;
                    } else {
                        kb.prototypes.push(Prototype { centroid: c, kernel: new });
                    }
                }
                kb
            } else if flag(b, "homog") {
                KernelBasis::homogeneous(cent, make(kern))
            } else {
                KernelBasis::new(cent.into_iter().zip(&each).map(|(c, &k)| Prototype { centroid: c, kernel: make(k) }).collect())
            })
        }};
    }
    macro_rules! k {
        ($T:ident) => {
            |kern: &Value| {
                let (var, ls) = (f(&kern["var"]), fs(&kern["ls"]));
                if ls.len() == 1 {
                    $T::non_ard(var, ls[0])
                } else {
                    $T::new(var, ls)
                }
            }
        };
    }
    match s(kern, "k") {
        "exp" => mk!(KExp, k!(Exponential)),
        "m32" => mk!(K32, k!(Matern32)),
        "m52" => mk!(K52, k!(Matern52)),
        "eq" => mk!(KEq, k!(ExpQuad)),
        "cos" => mk!(KCos, k!(Cosine)),
        "rq" => mk!(KRq, |kern: &Value| {
            let (var, ls, pow) = (f(&kern["var"]), fs(&kern["ls"]), f(&kern["pow"]));
            if ls.len() == 1 {
                RationalQuadratic::non_ard(pow, var, ls[0])
            } else {
                RationalQuadratic::new(var, ls, pow)
            }
        }),
        t => panic!("scenario: kernel {}", t),
    }
}

/// Limits that are not the ones wanted.
fn others(lim: &[(f64, f64)]) -> Vec<(f64, f64)> { lim.iter().map(|&(a, b)| (a - 1.0, b + 2.0)).collect() }
fn tuples(v: &Value) -> Vec<Vec<usize>> { v.as_array().unwrap().iter().map(us).collect() }

pub fn basis(b: &Value) -> DynBasis {
    use DynBasis as D;
    let sub = |k: &str| basis(&b[k]);
    match s(b, "k") {
        "bias" if flag(b, "ed") => {
            let mut x = Bias::unit();
            x.0 = f(&b["c"]);
            D::Bias(x)
        },
        "fixd" if flag(b, "ed") => {
            let mut x = Fixed::dense(vec![0.5; 3]);
            x.0 = fs(&b["v"]);
            D::FixD(x)
        },
        "fixs" if flag(b, "ed") => {
            let mut x = Fixed::sparse(2, vec![1]);
            x.0 .0 = u(b, "n");
            x.0 .1 = us(&b["i"]).into_iter().collect();
            D::FixS(x)
        },
        "polyx" => {
            let mut p = Polynomial::new(1, 2);
            p.exponents = tuples(&b["e"]).into_iter().map(|t| t.into_iter().map(|k| k as u8).collect()).collect();
            p.order = p.exponents.iter().flatten().copied().max().unwrap_or(0);
            D::Poly(p)
        },
        "fourx" => {
            let lim = pairs(&b["lim"]);
            let mut x = Fourier::new(0, others(&lim));
            x.coefficients.clear();
            x.coefficients.extend(b["co"].as_array().unwrap().iter().map(fs));
            x.limits = lim;
            D::Four(x)
        },
        "chebx" => {
            let lim = pairs(&b["lim"]);
            let all = Chebyshev::new(11, vec![(-1.0, 1.0)]).with_zeroth().polynomials;
            let mut x = Chebyshev::new(0, others(&lim));
            x.limits = lim;
            x.polynomials = tuples(&b["e"]).into_iter().map(|t| t.into_iter().map(|k| all[(k + 11) % 12][0]).collect()).collect();
            D::Cheb(x)
        },
        "bias" => D::Bias(if s(b, "c") == "1" { Bias::unit() } else { Bias(f(&b["c"])) }),
        "fixd" => D::FixD(Fixed::dense(fs(&b["v"]))),
        "fixs" => D::FixS(Fixed::sparse(u(b, "n"), us(&b["i"]))),
        "poly" => {
            let p = Polynomial::new(u(b, "d"), u(b, "o") as u8);
            D::Poly(if flag(b, "z") { p.with_zeroth() } else { p })
        },
        "four" => {
            let (o, lim) = (u(b, "o") as u8, pairs(&b["lim"]));
            D::Four(if flag(b, "sp") { Fourier::from_space(o, space(lim)) } else { Fourier::new(o, lim) })
        },
        "cheb" => {
            let (o, lim) = (u(b, "o") as u8, pairs(&b["lim"]));
            let c = if flag(b, "sp") { Chebyshev::from_space(o, space(lim)) } else { Chebyshev::new(o, lim) };
            D::Cheb(if flag(b, "z") { c.with_zeroth() } else { c })
        },
        "grid" => D::Grid(UniformGrid::new(parts(&b["parts"]))),
        "tile" => D::Tile(TileCoding::new(hash_kind(b), u(b, "n"), u(b, "m"))),
        "kern" => kern_basis(b),
        "kpart" => match s(b, "kk") {
            "eq" => D::KEq(KernelBasis::exp_quad(parts(&b["parts"]))),
            "m32" => D::K32(KernelBasis::matern_32(parts(&b["parts"]))),
            "m52" => D::K52(KernelBasis::matern_52(parts(&b["parts"]))),
            t => panic!("scenario: kpart {}", t),
        },
        "stack" => D::Stack(Box::new(sub("a").stack(sub("b")))),
        "wb" => D::WithBias(Box::new(sub("a").with_bias())),
        "l0" => D::L0(Box::new(sub("a").normalise_l0())),
        "l1" => D::L1(Box::new(sub("a").normalise_l1())),
        "l2" => D::L2(Box::new(sub("a").normalise_l2())),
        "linf" => D::Linf(Box::new(sub("a").normalise_linf())),
        "phi" => D::Phi(u(b, "n")),
        "fail" => D::Fail(u(b, "n"), b["c"].as_i64().unwrap()),
        t => panic!("scenario: basis {}", t),
    }
}

/// The projections of the tile-coder leaves of a basis, by leaf number.
pub fn tiles(b: &Value, i: &Inp, out: &mut Vec<(usize, Value)>) {
    use DynBasis as D;
    match s(b, "k") {
        "tile" => {
            if let D::Tile(t) = basis(b) {
                out.push((u(b, "id"), snap(&t.project(&i.x).unwrap())))
            }
        },
        "stack" => {
            tiles(&b["a"], i, out);
            tiles(&b["b"], i, out)
        },
        "wb" | "l0" | "l1" | "l2" | "linf" => tiles(&b["a"], i, out),
        _ => (),
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DynOpt {
    Sgd(SGD),
    Isgd(ISGD),
    Mom(SGDMomentum),
    Nag(NAG),
    Adagrad(Adagrad),
    Adam(Adam),
    AdaMax(AdaMax),
    /// a user's optimiser that refuses errors above a limit
    Flaky(f64, f64),
}
pub fn optimiser(o: &Value, n: usize) -> DynOpt {
    let lr = f(&o["lr"]);
    let p = |k: &str| f(&o[k]);
    match s(o, "k") {
        "sgd" => DynOpt::Sgd(SGD(lr)),
        "isgd" => DynOpt::Isgd(ISGD(lr)),
        "mom" => DynOpt::Mom(SGDMomentum::new(n, p("mu"), lr)),
        "nag" => DynOpt::Nag(NAG::new(n, p("mu"), lr)),
        "adagrad" => DynOpt::Adagrad(Adagrad::new(n, lr)),
        "adam" => DynOpt::Adam(Adam::new(n, lr, p("b1"), p("b2"))),
        "adamax" => DynOpt::AdaMax(AdaMax::new(n, lr, p("b1"), p("b2"))),
        "flaky" => DynOpt::Flaky(lr, p("lim")),
        t => panic!("scenario: optimiser {}", t),
    }
}
impl Optimiser<Features> for DynOpt {
    fn step(&mut self, w: &mut ArrayViewMut1<f64>, g: &Features) -> Result<()> {
        match self {
            DynOpt::Sgd(o) => o.step(w, g),
            DynOpt::Isgd(o) => o.step(w, g),
            DynOpt::Mom(o) => o.step(w, g),
            DynOpt::Nag(o) => o.step(w, g),
            DynOpt::Adagrad(o) => o.step(w, g),
            DynOpt::Adam(o) => o.step(w, g),
            DynOpt::AdaMax(o) => o.step(w, g),
            DynOpt::Flaky(..) => self.step_scaled(w, g, 1.0),
        }
    }
    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, g: &Features, e: f64) -> Result<()> {
        match self {
            DynOpt::Sgd(o) => o.step_scaled(w, g, e),
            DynOpt::Isgd(o) => o.step_scaled(w, g, e),
            DynOpt::Mom(o) => o.step_scaled(w, g, e),
            DynOpt::Nag(o) => o.step_scaled(w, g, e),
            DynOpt::Adagrad(o) => o.step_scaled(w, g, e),
            DynOpt::Adam(o) => o.step_scaled(w, g, e),
            DynOpt::AdaMax(o) => o.step_scaled(w, g, e),
            DynOpt::Flaky(lr, lim) => {
                if e > *lim {
                    return Err(user_error(1000));
                }
                for (w, x) in w.iter_mut().zip(g.to_dense().iter()) {
                    *w += *lr * e * x;
                }
                Ok(())
            },
        }
    }
    fn reset(&mut self) {
        match self {
            DynOpt::Sgd(o) => o.reset(),
            DynOpt::Isgd(o) => o.reset(),
            DynOpt::Mom(o) => o.reset(),
            DynOpt::Nag(o) => o.reset(),
            DynOpt::Adagrad(o) => o.reset(),
            DynOpt::Adam(o) => o.reset(),
            DynOpt::AdaMax(o) => o.reset(),
            DynOpt::Flaky(..) => (),
        }
    }
}
