//! The pool's formulas, decimal and float, against exact rationals (or f64 closed forms for powers
//! and logarithms) with error bounds that follow from how often a value is rounded at 1e-12.
use crate::core::*;
use crate::d_props::{ensure, prop};
use crate::dec::*;
use crate::num::{Big, Rat};
use crate::pool::{hmm_out, Q};
use hmmcl_sandbox::cl_pool as dp;
use hmmcl_sandbox::cl_pool_float as fp;
use hmmcl_sandbox::cl_pool::cl_math::PoolMath as _;
use hmmcl_sandbox::cl_pool_float::cl_math::PoolMath as _;
use hmmcl_sandbox::decimal::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cmp::Ordering;

type DP = dp::Pool<'static>;
type FP = fp::Pool<'static>;

/// the floating-point formulas, of the Rust float pool or of the Python model
pub(crate) trait Forms {
    const NAME: &'static str;
    fn tick_to_rp(t: u32) -> f64;
    fn rp_to_tick(rp: f64, up: bool) -> u32;
    fn on_grid(t: u32, sp: u32, up: bool) -> u32;
    /// liquidity, x and y over ticks
    fn over_ticks(x: f64, y: f64, l: f64, t: u32, ta: u32, tb: u32) -> [f64; 3];
    fn liq_x_only(a: f64, b: f64, c: f64) -> f64;
    fn liq_y_only(a: f64, b: f64, c: f64) -> f64;
    fn liq_from_x_y_rp_rng(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64;
    fn x_from_l_rp_rng(a: f64, b: f64, c: f64, d: f64) -> f64;
    fn y_from_l_rp_rng(a: f64, b: f64, c: f64, d: f64) -> f64;
    fn rpa_from_l_rp_y(a: f64, b: f64, c: f64) -> f64;
    fn rpb_from_l_rp_x(a: f64, b: f64, c: f64) -> f64;
    fn rpa_from_x_y_rp_rpb(a: f64, b: f64, c: f64, d: f64) -> f64;
    fn rpb_from_x_y_rp_rpa(a: f64, b: f64, c: f64, d: f64) -> f64;
    fn dx_from_l_drp(a: f64, b: f64, c: f64) -> f64;
    fn dy_from_l_drp(a: f64, b: f64, c: f64) -> f64;
    fn dx_from_l_drp_hmm(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64;
    fn dy_from_l_drp_hmm(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64;
    fn rp_new_from_l_dx(a: f64, b: f64, c: f64) -> f64;
    fn rp_new_from_l_dy(a: f64, b: f64, c: f64) -> f64;
}
pub(crate) struct RF;
impl Forms for RF {
    const NAME: &'static str = "float";
    fn tick_to_rp(t: u32) -> f64 {
        <FP as fp::PoolMath>::tick_to_rp(t)
    }
    fn rp_to_tick(rp: f64, up: bool) -> u32 {
        <FP as fp::PoolMath>::rp_to_tick(rp, up)
    }
    fn on_grid(t: u32, sp: u32, up: bool) -> u32 {
        <FP as fp::PoolMath>::tk_to_possible_tk(t, sp, up)
    }
    fn over_ticks(x: f64, y: f64, l: f64, t: u32, ta: u32, tb: u32) -> [f64; 3] {
        type P = FP;
        [<P as fp::PoolMath>::liq_from_x_y_tick_rng(x, y, t, ta, tb), <P as fp::PoolMath>::x_from_l_tick_rng(l, t, ta, tb), <P as fp::PoolMath>::y_from_l_tick_rng(l, t, ta, tb)]
    }
    fn liq_x_only(a: f64, b: f64, c: f64) -> f64 {
        <FP as fp::PoolMath>::liq_x_only(a, b, c)
    }
    fn liq_y_only(a: f64, b: f64, c: f64) -> f64 {
        <FP as fp::PoolMath>::liq_y_only(a, b, c)
    }
    fn liq_from_x_y_rp_rng(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64 {
        <FP as fp::PoolMath>::liq_from_x_y_rp_rng(a, b, c, d, e)
    }
    fn x_from_l_rp_rng(a: f64, b: f64, c: f64, d: f64) -> f64 {
        <FP as fp::PoolMath>::x_from_l_rp_rng(a, b, c, d)
    }
    fn y_from_l_rp_rng(a: f64, b: f64, c: f64, d: f64) -> f64 {
        <FP as fp::PoolMath>::y_from_l_rp_rng(a, b, c, d)
    }
    fn rpa_from_l_rp_y(a: f64, b: f64, c: f64) -> f64 {
        <FP as fp::PoolMath>::rpa_from_l_rp_y(a, b, c)
    }
    fn rpb_from_l_rp_x(a: f64, b: f64, c: f64) -> f64 {
        <FP as fp::PoolMath>::rpb_from_l_rp_x(a, b, c)
    }
    fn rpa_from_x_y_rp_rpb(a: f64, b: f64, c: f64, d: f64) -> f64 {
        <FP as fp::PoolMath>::rpa_from_x_y_rp_rpb(a, b, c, d)
    }
    fn rpb_from_x_y_rp_rpa(a: f64, b: f64, c: f64, d: f64) -> f64 {
        <FP as fp::PoolMath>::rpb_from_x_y_rp_rpa(a, b, c, d)
    }
    fn dx_from_l_drp(a: f64, b: f64, c: f64) -> f64 {
        <FP as fp::PoolMath>::dx_from_l_drp(a, b, c)
    }
    fn dy_from_l_drp(a: f64, b: f64, c: f64) -> f64 {
        <FP as fp::PoolMath>::dy_from_l_drp(a, b, c)
    }
    fn dx_from_l_drp_hmm(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64 {
        <FP as fp::PoolMath>::dx_from_l_drp_hmm(a, b, c, d, e)
    }
    fn dy_from_l_drp_hmm(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64 {
        <FP as fp::PoolMath>::dy_from_l_drp_hmm(a, b, c, d, e)
    }
    fn rp_new_from_l_dx(a: f64, b: f64, c: f64) -> f64 {
        <FP as fp::PoolMath>::rp_new_from_l_dx(a, b, c)
    }
    fn rp_new_from_l_dy(a: f64, b: f64, c: f64) -> f64 {
        <FP as fp::PoolMath>::rp_new_from_l_dy(a, b, c)
    }
}
impl Forms for crate::py::PyPool {
    const NAME: &'static str = "python";
    fn tick_to_rp(t: u32) -> f64 {
        call(json!(["tick_to_rP", 0, t]))
    }
    fn rp_to_tick(rp: f64, up: bool) -> u32 {
        call(json!(["rP_to_tick", 0, rp, up])) as u32
    }
    fn on_grid(t: u32, sp: u32, up: bool) -> u32 {
        call(json!(["grid", 0, t, sp, up])) as u32
    }
    fn over_ticks(x: f64, y: f64, l: f64, t: u32, ta: u32, tb: u32) -> [f64; 3] {
        [call(json!(["_liq_from_x_y_rP_rng", 0, x, y, t, ta, tb])), call(json!(["_x_from_L_rP_rng", 0, l, t, ta, tb])), call(json!(["_y_from_L_rP_rng", 0, l, t, ta, tb]))]
    }
    fn liq_x_only(a: f64, b: f64, c: f64) -> f64 {
        call(json!(["liq_x_only", 0, a, b, c]))
    }
    fn liq_y_only(a: f64, b: f64, c: f64) -> f64 {
        call(json!(["liq_y_only", 0, a, b, c]))
    }
    fn liq_from_x_y_rp_rng(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64 {
        call(json!(["liq_from_x_y_rP_rng", 0, a, b, c, d, e]))
    }
    fn x_from_l_rp_rng(a: f64, b: f64, c: f64, d: f64) -> f64 {
        call(json!(["x_from_L_rP_rng", 0, a, b, c, d]))
    }
    fn y_from_l_rp_rng(a: f64, b: f64, c: f64, d: f64) -> f64 {
        call(json!(["y_from_L_rP_rng", 0, a, b, c, d]))
    }
    fn rpa_from_l_rp_y(a: f64, b: f64, c: f64) -> f64 {
        call(json!(["rPa_from_L_rP_y", 0, a, b, c]))
    }
    fn rpb_from_l_rp_x(a: f64, b: f64, c: f64) -> f64 {
        call(json!(["rPb_from_L_rP_x", 0, a, b, c]))
    }
    fn rpa_from_x_y_rp_rpb(a: f64, b: f64, c: f64, d: f64) -> f64 {
        call(json!(["rPa_from_x_y_rP_rPb", 0, a, b, c, d]))
    }
    fn rpb_from_x_y_rp_rpa(a: f64, b: f64, c: f64, d: f64) -> f64 {
        call(json!(["rPb_from_x_y_rP_rPa", 0, a, b, c, d]))
    }
    fn dx_from_l_drp(a: f64, b: f64, c: f64) -> f64 {
        call(json!(["dX_from_L_drP", 0, a, b, c]))
    }
    fn dy_from_l_drp(a: f64, b: f64, c: f64) -> f64 {
        call(json!(["dY_from_L_drP", 0, a, b, c]))
    }
    fn dx_from_l_drp_hmm(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64 {
        call(json!(["dX_from_L_drP_hmm", 0, a, b, c, d, e]))
    }
    fn dy_from_l_drp_hmm(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64 {
        call(json!(["dY_from_L_drP_hmm", 0, a, b, c, d, e]))
    }
    fn rp_new_from_l_dx(a: f64, b: f64, c: f64) -> f64 {
        call(json!(["rP_new_from_L_dX", 0, a, b, c]))
    }
    fn rp_new_from_l_dy(a: f64, b: f64, c: f64) -> f64 {
        call(json!(["rP_new_from_L_dY", 0, a, b, c]))
    }
}
fn call(q: serde_json::Value) -> f64 {
    crate::py::ask(q)[0]
}

fn d12(v: i128) -> Decimal {
    Decimal::new(v.unsigned_abs(), 12, v < 0)
}
pub(crate) fn r12(v: i128) -> Rat {
    Rat::new(Big::signed(v < 0, v.unsigned_abs()), Big::pow10(12))
}
fn f12(v: i128) -> f64 {
    v as f64 * Q
}

#[derive(PartialEq, Clone, Copy)]
enum Dir {
    /// never above the exact value (towards zero for magnitudes)
    Down,
    Up,
    Any,
}
/// `got` within `tol` quanta of `exact`, on the promised side
fn near(what: &str, got: &Result<Decimal, String>, exact: &Rat, tol: f64, dir: Dir) -> Result<(), String> {
    let d = match got {
        Ok(d) => *d,
        Err(e) => return Err(format!("{}: refused: {}", what, e)),
    };
    if d.scale != 12 {
        return Err(format!("{}: result at scale {}", what, d.scale));
    }
    let diff = rat(d).sub(exact);
    let dq = diff.to_f64() / Q;
    if dq.abs() > tol {
        return Err(format!("{}: got {}, exact value {} ({} units of 1e-12 off, tolerance {})", what, show(d), exact.to_f64(), dq, tol));
    }
    let s = diff.cmp(&Rat::zero());
    if (dir == Dir::Down && s == Ordering::Greater) || (dir == Dir::Up && s == Ordering::Less) {
        return Err(format!("{}: got {} which is {} the exact value {}", what, show(d), if dir == Dir::Down { "above" } else { "below" }, exact.to_f64()));
    }
    Ok(())
}
fn nearf(what: &str, got: f64, exact: f64, tol: f64) -> Result<(), String> {
    if (got - exact).abs() <= tol {
        Ok(())
    } else {
        Err(format!("{}: got {}, expected {} (tolerance {})", what, got, exact, tol))
    }
}
macro_rules! tryb {
    ($e:expr) => {
        if let Err(m) = $e {
            return Out::Bad(m);
        }
    };
}

// ---------------------------------------------------------------- C08 logarithm
fn ln_in() -> BoxedStrategy<D> {
    let pow2 = (0u32..120, 0u128..3, any::<bool>(), 0u8..=15).prop_map(|(b, k, up, s)| D { v: U(if up { (1u128 << b) + k } else { (1u128 << b).saturating_sub(k) }), s, n: false });
    let scaled_pow2 = (-39i32..47, 0u128..3, any::<bool>()).prop_map(|(b, k, up)| {
        let v = (2f64.powi(b) * 1e12) as u128;
        D { v: U(if up { v + k } else { v.saturating_sub(k) }), s: 12, n: false }
    });
    let one = (-2000i128..2000).prop_map(|k| D { v: U((1_000_000_000_000 + k) as u128), s: 12, n: false });
    let edge = prop_oneof![(0u8..=15).prop_map(|s| D { v: U(0), s, n: false }), any_d(90, 12).prop_map(|d| D { n: true, ..d })];
    prop_oneof![6 => pos_d(90, 12), 3 => pos_d(100, 15), 2 => pow2, 2 => scaled_pow2, 2 => one, 1 => edge].boxed()
}
fn c08_ln(i: &D) -> Out {
    let r = sut(|| i.d().ln());
    if i.v.0 == 0 || i.n {
        return match r {
            Ok(Ok(d)) => bad(format!("ln({:?}) = {}", i, show(d))),
            _ => Out::Ok(true, vec!["refused"]),
        };
    }
    let x = i.rat().to_f64();
    // digits below the compute scale are cut off first
    let cut = if i.s > 12 { Q / x } else { 0.0 };
    let must = x <= 1e14 && cut < 0.01;
    let d = match r {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => return if must { bad(format!("ln({:?}) refused: {:?}", i, e)) } else { Out::Ok(false, vec!["out-of-range"]) },
        Err(e) => return if must { bad(format!("ln({:?}) aborted: {}", i, e)) } else { Out::Ok(false, vec!["out-of-range"]) },
    };
    if cut >= 0.01 {
        return Out::Ok(false, vec!["below-scale"]);
    }
    ensure!(d.scale == i.s, "ln({:?}): scale {}", i, d.scale);
    let tol = 2.5e-10 + 10f64.powi(-(i.s as i32)) * 1.01 + 1.1 * cut + x.ln().abs() * 1e-15;
    let e = x.ln();
    let g = rat(d).to_f64();
    ensure!((g - e).abs() <= tol, "ln({:?}) = {} expected {} (tolerance {})", i, show(d), e, tol);
    Out::Ok(i.v.0 > 1, vec![if x < 1.0 { "below-one" } else { "above-one" }])
}
fn c08_laws(i: &(U, U)) -> Out {
    let (a, b) = ((i.0).0 as i128, (i.1).0 as i128);
    let ln = |v: Decimal| -> Result<f64, String> {
        match sut(|| v.ln()) {
            Ok(Ok(d)) => Ok(rat(d).to_f64()),
            Ok(Err(e)) => Err(format!("{:?}", e)),
            Err(e) => Err(e),
        }
    };
    let (la, lb) = match (ln(d12(a)), ln(d12(b))) {
        (Ok(x), Ok(y)) => (x, y),
        (x, y) => return bad(format!("ln of {} and {}: {:?} {:?}", f12(a), f12(b), x, y)),
    };
    // order (beyond the error bound), products, reciprocals
    ensure!(a < b || la >= lb - 5e-10, "ln({}) = {} < ln({}) = {}", f12(a), la, f12(b), lb);
    let p = d12(a).mul(d12(b));
    if p.value > 1_000_000_000 && rat(p).to_f64() < 1e14 {
        match ln(p) {
            Ok(lp) => ensure!((lp - la - lb).abs() <= 8e-10 + 1.1 / p.value as f64, "ln({} * {}) = {} but the logarithms add up to {}", f12(a), f12(b), lp, la + lb),
            Err(e) => return bad(format!("ln({}) refused: {}", show(p), e)),
        }
    }
    Out::Ok(a != b, vec![])
}
fn c08_bits(i: &D) -> Out {
    let r = sut(|| i.d().bit_length());
    if i.n && i.v.0 != 0 {
        return match r {
            Ok(Ok(d)) => bad(format!("bit length of {:?} = {}", i, show(d))),
            _ => Out::Ok(true, vec!["refused"]),
        };
    }
    let d = match r {
        Ok(Ok(d)) => d,
        o => return bad(format!("bit length of {:?}: {:?}", i, o.map(|x| x.map(|_| ()).is_ok()))),
    };
    let g = big(d).to_f64();
    if i.v.0 == 0 {
        ensure!(g == 0.0, "bit length of 0 = {}", g);
        return ok(false);
    }
    let l = i.rat().to_f64().log2();
    let e = l.floor();
    let close = (l - l.round()).abs() < 1e-9;
    ensure!(d.scale == 0, "bit length at scale {}", d.scale);
    ensure!(g == e || (close && (g == l.round() || g == l.round() - 1.0)), "bit length of {:?} = {}, expected {}", i, g, e);
    Out::Ok(i.v.0 > 1, vec![if l < 0.0 { "below-one" } else { "above-one" }])
}

// ---------------------------------------------------------------- C09 ticks
fn half_log() -> f64 {
    (1e-4f64).ln_1p() / 2.0
}
fn c09_price(i: &(u32, u32)) -> Out {
    // price of a tick, and order
    let (t, u) = (i.0.min(i.1) as u128, i.0.max(i.1) as u128);
    let at = |t: u128| sut(|| DP::tick_to_rp(t));
    let (a, b) = match (at(t), at(u)) {
        (Ok(a), Ok(b)) => (a, b),
        (x, y) => return bad(format!("tick_to_rp({}, {}): {:?} {:?}", t, u, x.is_ok(), y.is_ok())),
    };
    for (t, r) in [(t, a), (u, b)] {
        let e = (t as f64 * half_log()).exp();
        let g = rat(r).to_f64();
        // the root of the base is cut at 1e-12, and so is every product
        let tol = e * (t as f64 * 1.05e-12 + 1e-13) + 40.0 * Q * (1.0 + e);
        ensure!(r.scale == 12 && (g - e).abs() <= tol, "tick_to_rp({}) = {} expected {} (tolerance {})", t, g, e, tol);
        ensure!(t != 0 || g == 1.0, "tick 0 is at root price {}", g);
    }
    ensure!(if t == u { a.value == b.value } else { a.value < b.value }, "tick_to_rp({}) = {} but tick_to_rp({}) = {}", t, show(a), u, show(b));
    let (fa, fb) = (FP::tick_to_rp(t as u32), FP::tick_to_rp(u as u32));
    for (t, g) in [(t, fa), (u, fb)] {
        let e = (t as f64 * half_log()).exp();
        ensure!((g - e).abs() <= e * (t as f64 * 1.3e-16 + 1e-13), "float tick_to_rp({}) = {} expected {}", t, g, e);
    }
    ensure!(if t == u { fa == fb } else { fa < fb }, "float tick_to_rp({}) = {} but tick_to_rp({}) = {}", t, fa, u, fb);
    ok(t != u)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TickIn {
    t: u32,
    /// where between tick t and t+1, in ppm; quanta around the ends
    ppm: u32,
    dq: i8,
    sp: u32,
    /// search start, ticks below
    back: u32,
}
fn tick_in() -> BoxedStrategy<TickIn> {
    let t = prop_oneof![1 => 0u32..20, 6 => 0u32..5000, 3 => 0u32..90_000];
    let ppm = prop_oneof![2 => Just(0u32), 1 => Just(1_000_000), 3 => 0u32..1_000_000];
    let sp = prop_oneof![2 => Just(1u32), 1 => Just(2), 1 => Just(10), 1 => Just(60), 3 => 1u32..300, 1 => 1u32..20_000];
    (t, ppm, -3i8..4, sp, 0u32..60).prop_map(|(t, ppm, dq, sp, back)| TickIn { t, ppm, dq, sp, back }).boxed()
}
fn c09_find(i: &TickIn) -> Out {
    let lo = DP::tick_to_rp(i.t as u128).value;
    let hi = DP::tick_to_rp(i.t as u128 + 1).value;
    let rp = lo + (hi - lo) * i.ppm as u128 / 1_000_000;
    let rp = (rp as i128 + i.dq as i128).max(1_000_000_000_000) as u128;
    // exact answer by search from the known neighbourhood
    let mut fl = (i.t as u128).saturating_sub(1);
    while DP::tick_to_rp(fl + 1).value <= rp {
        fl += 1;
    }
    let exact = DP::tick_to_rp(fl).value == rp;
    let ce = if exact { fl } else { fl + 1 };
    let start = fl.saturating_sub(i.back as u128);
    let d = Decimal::new(rp, 12, false);
    for (up, e) in [(false, fl), (true, ce)] {
        match sut(|| DP::rp_to_tick_loop(d, up, start)) {
            Ok(g) => ensure!(g == e, "tick of root price {} rounded {}: {} but tick {} is at {}", show(d), if up { "up" } else { "down" }, g, e, show(DP::tick_to_rp(e))),
            Err(m) => return bad(format!("tick of root price {}: aborted: {}", show(d), m)),
        }
        let sp = i.sp as u128;
        let es = if up { (e + sp - 1) / sp * sp } else { e / sp * sp };
        match sut(|| DP::rp_to_possible_tk(d, sp, up, start)) {
            Ok(g) => ensure!(g == es, "tick of root price {} on spacing {} rounded {}: {} expected {}", show(d), sp, if up { "up" } else { "down" }, g, es),
            Err(m) => return bad(format!("tick of root price {} on spacing {}: aborted: {}", show(d), sp, m)),
        }
        // through logarithms: exact up to their accuracy
        let pos = (rp as f64 * Q).ln() / half_log();
        let tol = pos * 4e-6 + 3e-5;
        match sut(|| DP::rp_to_tick(d, up)) {
            Ok(g) => {
                let (l, h) = if up { ((pos - tol).ceil(), (pos + tol).ceil()) } else { ((pos - tol).floor(), (pos + tol).floor()) };
                ensure!(g as f64 >= l && g as f64 <= h, "tick of root price {} from its logarithm, rounded {}: {} expected {} to {}", show(d), if up { "up" } else { "down" }, g, l, h);
            }
            Err(m) => return bad(format!("tick of root price {} from its logarithm: aborted: {}", show(d), m)),
        }
    }
    Out::Ok(true, vec![if exact { "on-tick" } else { "between" }])
}
fn c09_find_float<F: Forms>(i: &TickIn) -> Out {
    let lo = F::tick_to_rp(i.t);
    let hi = F::tick_to_rp(i.t + 1);
    let mut rp = if i.ppm == 1_000_000 { hi } else { lo + (hi - lo) * (i.ppm as f64 / 1e6) };
    for _ in 0..i.dq.unsigned_abs() {
        rp = if i.dq > 0 { f64::from_bits(rp.to_bits() + 1) } else { f64::from_bits(rp.to_bits() - 1) };
    }
    let rp = rp.max(1.0);
    let mut fl = i.t.saturating_sub(1);
    while F::tick_to_rp(fl + 1) <= rp {
        fl += 1;
    }
    let exact = F::tick_to_rp(fl) == rp;
    let ce = if exact { fl } else { fl + 1 };
    for (up, e) in [(false, fl), (true, ce)] {
        let g = F::rp_to_tick(rp, up);
        ensure!(g == e, "{}: tick of root price {} rounded {}: {} but tick {} is at {}", F::NAME, rp, if up { "up" } else { "down" }, g, e, F::tick_to_rp(e));
        let es = if up { (e + i.sp - 1) / i.sp * i.sp } else { e / i.sp * i.sp };
        let g = F::on_grid(F::rp_to_tick(rp, up), i.sp, up);
        ensure!(g == es, "{}: tick of root price {} on spacing {} rounded {}: {} expected {}", F::NAME, rp, i.sp, if up { "up" } else { "down" }, g, es);
    }
    Out::Ok(true, vec![if exact { "on-tick" } else { "between" }])
}
fn c09_spacing(i: &(u32, u32)) -> Out {
    let (t, sp) = (i.0, i.1);
    for up in [false, true] {
        let e = if up { (t as u64 + sp as u64 - 1) / sp as u64 * sp as u64 } else { (t / sp) as u64 * sp as u64 };
        match sut(|| DP::tk_to_possible_tk(t as u128, sp as u128, up)) {
            Ok(g) => ensure!(g == e as u128, "tick {} on spacing {} rounded {}: {} expected {}", t, sp, if up { "up" } else { "down" }, g, e),
            Err(m) => return bad(format!("tick {} on spacing {}: aborted: {}", t, sp, m)),
        }
        if e <= u32::MAX as u64 {
            let g = FP::tk_to_possible_tk(t, sp, up);
            ensure!(g as u64 == e, "float: tick {} on spacing {} rounded {}: {} expected {}", t, sp, if up { "up" } else { "down" }, g, e);
        }
    }
    ok(t % sp != 0)
}

// ---------------------------------------------------------------- inputs for the formulas
/// root prices and amounts in quanta; `p` may lie outside [a, b]
#[derive(Clone, Debug, Serialize, Deserialize)]
struct M {
    a: U,
    b: U,
    p: U,
    p2: U,
    l: U,
    x: U,
    y: U,
}
fn m_in() -> BoxedStrategy<M> {
    // lower root price, relative width, position of the prices
    let pos = || prop_oneof![6 => 0i32..=1_000_000, 1 => Just(0), 1 => Just(1_000_000), 1 => -1_000_000i32..0, 1 => 1_000_000i32..2_000_000, 1 => -3i32..4, 1 => 999_997i32..1_000_004];
    (0.0f64..4.0, prop_oneof![8 => -5.0f64..0.7, 1 => 0.7f64..5.0], pos(), pos(), -4.0f64..8.0, (-2.0f64..2.0, prop_oneof![Just(0.0), -2.0f64..2.0]), any::<u64>())
        .prop_map(|(la, lw, p, p2, ll, (ex, ey), low)| {
            let a = (10f64.powf(la) * 1e12) as u128 + (low % 1000) as u128;
            let w = (a as f64 * 10f64.powf(lw)).min(1e17) as i128 + 2;
            let wide = w > a as i128 * 5;
            let b = a + w as u128 + (low / 1000 % 1000) as u128;
            let at = |k: i32| {
                let v = if k.abs() <= 3 {
                    a as i128 + k as i128
                } else if (k - 1_000_000).abs() <= 3 {
                    b as i128 + (k - 1_000_000) as i128
                } else if wide && k > 0 && k < 1_000_000 {
                    (a as f64 * (b as f64 / a as f64).powf(k as f64 / 1e6)) as i128
                } else {
                    a as i128 + (b - a) as i128 * k as i128 / 1_000_000
                };
                v.max(1_000_000_000_000) as u128
            };
            // keep L * price within what 128 bits can multiply
            let cap = 1e13 / (b as f64 * Q).max(1.0);
            let lf = 10f64.powf(ll).min(cap);
            let l = (lf * 1e12) as u128 + (low / 1_000_000 % 1000) as u128;
            let (fa, fb, fp) = (a as f64 * Q, b as f64 * Q, (at(p) as f64 * Q).max(a as f64 * Q).min(b as f64 * Q));
            let x = lf * (fb - fp) / (fp * fb) * 10f64.powf(ex);
            let y = lf * (fp - fa) * 10f64.powf(ey);
            M { a: U(a), b: U(b), p: U(at(p)), p2: U(at(p2)), l: U(l), x: U((x.min(cap) * 1e12) as u128), y: U((y.min(1e13) * 1e12) as u128) }
        })
        .boxed()
}
struct V {
    a: i128,
    b: i128,
    p: i128,
    l: i128,
    x: i128,
    y: i128,
    p2: i128,
}
impl M {
    fn v(&self) -> V {
        let g = |u: U| u.0 as i128;
        V { a: g(self.a), b: g(self.b), p: g(self.p), p2: g(self.p2), l: g(self.l), x: g(self.x), y: g(self.y) }
    }
}
fn side(v: &V) -> &'static str {
    if v.p <= v.a {
        "below-range"
    } else if v.p >= v.b {
        "above-range"
    } else {
        "in-range"
    }
}

// ---------------------------------------------------------------- C10
pub(crate) fn lx(x: i128, a: i128, b: i128) -> (Rat, f64) {
    let e = r12(x).mul(&r12(a)).mul(&r12(b)).div(&r12(b - a));
    let (fx, fa, fb, fd) = (f12(x), f12(a), f12(b), f12(b - a));
    let _ = fa;
    (e, 2.0 * ((fb + 1.0) / fd + fb + fx / fd * 0.0 + 2.0))
}
pub(crate) fn ly(y: i128, a: i128, b: i128) -> (Rat, f64) {
    (r12(y).div(&r12(b - a)), 1.0)
}
fn min_rat(a: (Rat, f64), b: (Rat, f64)) -> (Rat, f64) {
    let t = a.1.max(b.1);
    if a.0.cmp(&b.0) == Ordering::Less {
        (a.0, t)
    } else {
        (b.0, t)
    }
}
pub(crate) fn x_of(l: i128, p: i128, a: i128, b: i128) -> (Rat, f64) {
    let r = p.min(b).max(a);
    let e = r12(l).mul(&r12(b - r)).div(&r12(r)).div(&r12(b));
    let (fr, fb) = (f12(r), f12(b));
    (e, 1.5 * (1.0 / (fr * fb) + 1.0 / fb + 1.0 / fr + 1.0))
}
pub(crate) fn y_of(l: i128, p: i128, a: i128, b: i128) -> (Rat, f64) {
    let r = p.min(b).max(a);
    (r12(l).mul(&r12(r - a)), 1.0)
}
fn c10_liq(i: &M) -> Out {
    let v = i.v();
    let (a, b, p) = (d12(v.a), d12(v.b), d12(v.p));
    let (x, y) = (d12(v.x), d12(v.y));
    let ex = lx(v.x, v.a, v.b);
    let big_x = ex.0.to_f64().max(f12(v.x) * f12(v.a) * f12(v.b)) > 1e14;
    if !big_x {
        tryb!(near("liquidity from x alone", &sut(|| DP::liq_x_only(x, a, b)), &ex.0, ex.1, Dir::Down));
    }
    let ey = ly(v.y, v.a, v.b);
    if ey.0.to_f64() < 1e13 {
        tryb!(near("liquidity from y alone", &sut(|| DP::liq_y_only(y, a, b)), &ey.0, ey.1, Dir::Down));
    }
    for (s, t) in [(b, a), (a, a)] {
        ensure!(sut(|| DP::liq_x_only(x, s, t)).is_err() && sut(|| DP::liq_y_only(y, s, t)).is_err(), "an empty or reversed range [{}, {}] was accepted", show(s), show(t));
    }
    let e = if v.p <= v.a {
        ex
    } else if v.p >= v.b {
        ey
    } else {
        let q = lx(v.x, v.p, v.b);
        if q.0.to_f64() > 1e13 || f12(v.x) * f12(v.p) * f12(v.b) > 1e14 {
            return Out::Ok(false, vec!["too-big"]);
        }
        let r = ly(v.y, v.a, v.p);
        if r.0.to_f64() > 1e13 {
            return Out::Ok(false, vec!["too-big"]);
        }
        min_rat(q, r)
    };
    if e.0.to_f64() > 1e13 || (v.p <= v.a && big_x) {
        return Out::Ok(false, vec!["too-big"]);
    }
    let got = sut(|| DP::liq_from_x_y_rp_rng(x, y, p, a, b));
    let what = format!("liquidity from ({}, {}) at {} in [{}, {}]", show(x), show(y), show(p), show(a), show(b));
    tryb!(near(&what, &got, &e.0, e.1, Dir::Down));
    // what was offered covers it, and one side is used up
    let l = got.unwrap();
    let (bx, by) = (sut(|| DP::x_from_l_rp_rng(l, p, a, b)), sut(|| DP::y_from_l_rp_rng(l, p, a, b)));
    if let (Ok(bx), Ok(by)) = (bx, by) {
        let li = l.value as i128;
        tryb!(near(&format!("x of {}", what), &Ok(bx), &x_of(li, v.p, v.a, v.b).0, x_of(li, v.p, v.a, v.b).1, Dir::Down));
        tryb!(near(&format!("y of {}", what), &Ok(by), &y_of(li, v.p, v.a, v.b).0, 1.0, Dir::Down));
        ensure!(bx.value <= x.value && by.value <= y.value, "{}: needs ({}, {}), more than was offered", what, show(bx), show(by));
        let r = f12(v.p.min(v.b).max(v.a));
        let ux = f12(v.b) - r;
        let gapx = (e.1 * ux / (r * f12(v.b)) + x_of(li, v.p, v.a, v.b).1 + 1.0) * Q;
        let gapy = (e.1 * (r - f12(v.a)) + 2.0) * Q;
        let used_x = v.p < v.b && f12(v.x) - rat(bx).to_f64() <= gapx + f12(v.x) * 1e-15;
        let used_y = v.p > v.a && f12(v.y) - rat(by).to_f64() <= gapy + f12(v.y) * 1e-15;
        ensure!(used_x || used_y, "{}: needs only ({}, {}), neither side is used up", what, show(bx), show(by));
    } else {
        return bad(format!("{}: its amounts were refused", what));
    }
    Out::Ok(l.value > 0, vec![side(&v)])
}
fn c10_amounts(i: &M) -> Out {
    let v = i.v();
    let (a, b, p, l) = (d12(v.a), d12(v.b), d12(v.p), d12(v.l));
    let what = format!("of liquidity {} at {} in [{}, {}]", show(l), show(p), show(a), show(b));
    let (ex, ey) = (x_of(v.l, v.p, v.a, v.b), y_of(v.l, v.p, v.a, v.b));
    let gx = sut(|| DP::x_from_l_rp_rng(l, p, a, b));
    let gy = sut(|| DP::y_from_l_rp_rng(l, p, a, b));
    tryb!(near(&format!("x {}", what), &gx, &ex.0, ex.1, Dir::Down));
    tryb!(near(&format!("y {}", what), &gy, &ey.0, ey.1, Dir::Down));
    let (gx, gy) = (gx.unwrap(), gy.unwrap());
    ensure!(v.p > v.a || gy.value == 0, "y {} = {} below the range", what, show(gy));
    ensure!(v.p < v.b || gx.value == 0, "x {} = {} above the range", what, show(gx));
    // a higher price holds less x and more y
    let (plo, phi) = (v.p.min(v.p2), v.p.max(v.p2));
    let at = |p: i128| (sut(|| DP::x_from_l_rp_rng(l, d12(p), a, b)), sut(|| DP::y_from_l_rp_rng(l, d12(p), a, b)));
    if let ((Ok(x1), Ok(y1)), (Ok(x2), Ok(y2))) = (at(plo), at(phi)) {
        ensure!(x2.value <= x1.value && y2.value >= y1.value, "amounts {} move the wrong way with the price: ({}, {}) at {}, ({}, {}) at {}", what, show(x1), show(y1), show(d12(plo)), show(x2), show(y2), show(d12(phi)));
    }
    Out::Ok(v.l > 0, vec![side(&v)])
}
fn c10_ticks(i: &(u32, u32, u32, U, U, U)) -> Out {
    let (t, ta) = (i.0 as u128, i.1 as u128);
    let tb = ta + 1 + i.2 as u128;
    let (x, y, l) = (Decimal::new((i.3).0, 12, false), Decimal::new((i.4).0, 12, false), Decimal::new((i.5).0, 12, false));
    let rp = |t: u128| DP::tick_to_rp(t);
    let (p, a, b) = (rp(t), rp(ta), rp(tb));
    let same = |w: &str, u: Result<Decimal, String>, v: Result<Decimal, String>| -> Result<(), String> {
        match (u, v) {
            (Ok(u), Ok(v)) if u.value == v.value && u.negative == v.negative && u.scale == v.scale => Ok(()),
            (Err(_), Err(_)) => Ok(()),
            (u, v) => Err(format!("{} over ticks {} in [{}, {}]: {:?} but from root prices {:?}", w, t, ta, tb, u.map(show), v.map(show))),
        }
    };
    tryb!(same("liquidity", sut(|| DP::liq_from_x_y_tick_rng(x, y, t, ta, tb)), sut(|| DP::liq_from_x_y_rp_rng(x, y, p, a, b))));
    tryb!(same("x", sut(|| DP::x_from_l_tick_rng(l, t, ta, tb)), sut(|| DP::x_from_l_rp_rng(l, p, a, b))));
    tryb!(same("y", sut(|| DP::y_from_l_tick_rng(l, t, ta, tb)), sut(|| DP::y_from_l_rp_rng(l, p, a, b))));
    let (fx, fy, fl) = ((i.3).0 as f64 * Q, (i.4).0 as f64 * Q, (i.5).0 as f64 * Q);
    let (ft, fa, fb) = (t as u32, ta as u32, tb as u32);
    let (p, a, b) = (FP::tick_to_rp(ft), FP::tick_to_rp(fa), FP::tick_to_rp(fb));
    ensure!(FP::liq_from_x_y_tick_rng(fx, fy, ft, fa, fb) == FP::liq_from_x_y_rp_rng(fx, fy, p, a, b), "float: liquidity over ticks {} in [{}, {}] differs from the one over root prices", t, ta, tb);
    ensure!(FP::x_from_l_tick_rng(fl, ft, fa, fb) == FP::x_from_l_rp_rng(fl, p, a, b), "float: x over ticks {} in [{}, {}] differs from the one over root prices", t, ta, tb);
    ensure!(FP::y_from_l_tick_rng(fl, ft, fa, fb) == FP::y_from_l_rp_rng(fl, p, a, b), "float: y over ticks {} in [{}, {}] differs from the one over root prices", t, ta, tb);
    Out::Ok(t > ta && t < tb, vec![])
}
fn c10_float<F: Forms>(i: &M) -> Out {
    let v = i.v();
    let (a, b, p, l, x, y) = (f12(v.a), f12(v.b), f12(v.p), f12(v.l), f12(v.x), f12(v.y));
    let w = 1.0 + b / (b - a); // cancellation in the width
    let e = lx(v.x, v.a, v.b).0.to_f64();
    tryb!(nearf(&format!("{} liquidity from x alone", F::NAME), F::liq_x_only(x, a, b), e, e * 1.2e-15 * w + 1e-30));
    let e = ly(v.y, v.a, v.b).0.to_f64();
    tryb!(nearf(&format!("{} liquidity from y alone", F::NAME), F::liq_y_only(y, a, b), e, e * 1.2e-15 * w + 1e-30));
    let e = if v.p <= v.a {
        (lx(v.x, v.a, v.b).0.to_f64(), w)
    } else if v.p >= v.b {
        (ly(v.y, v.a, v.b).0.to_f64(), w)
    } else {
        let (q, r) = (lx(v.x, v.p, v.b).0.to_f64(), ly(v.y, v.a, v.p).0.to_f64());
        (q.min(r), 2.0 + b / (b - p) + p / (p - a))
    };
    // a bound a rounding away from the price may or may not be passed
    if v.p == v.a || v.p == v.b || ((p - a).abs() > 1e-13 * p && (b - p).abs() > 1e-13 * p) {
        tryb!(nearf(&format!("{} liquidity from ({}, {}) at {} in [{}, {}]", F::NAME, x, y, p, a, b), F::liq_from_x_y_rp_rng(x, y, p, a, b), e.0, e.0 * 6e-16 * e.1 + 1e-30));
    }
    let r = p.min(b).max(a);
    let (ex, ey) = (x_of(v.l, v.p, v.a, v.b).0.to_f64(), y_of(v.l, v.p, v.a, v.b).0.to_f64());
    tryb!(nearf(&format!("{} x of {} at {} in [{}, {}]", F::NAME, l, p, a, b), F::x_from_l_rp_rng(l, p, a, b), ex, ex * 1e-14 + l / r * 1e-15));
    tryb!(nearf(&format!("{} y of {} at {} in [{}, {}]", F::NAME, l, p, a, b), F::y_from_l_rp_rng(l, p, a, b), ey, ey * 1e-14 + l * r * 1e-15));
    Out::Ok(v.l > 0, vec![side(&v)])
}

// ---------------------------------------------------------------- C11 range bounds
/// |N'/D' - N/D| in quanta when N is off by en quanta and D by ed quanta
fn quot(n: &Rat, d: &Rat, en: f64, ed: f64) -> Option<(Rat, f64)> {
    if d.cmp(&Rat::zero()) == Ordering::Equal {
        return None;
    }
    let e = n.div(d);
    let fd = d.to_f64().abs();
    if fd < 4.0 * (ed + 1.0) * Q {
        return None;
    }
    let t = (en + e.to_f64().abs() * ed) / (fd - ed * Q) + 2.0;
    Some((e, t * 1.1))
}
fn c11_lp(i: &M) -> Out {
    let v = i.v();
    let (l, p, x, y) = (d12(v.l), d12(v.p), d12(v.x), d12(v.y));
    if v.l == 0 {
        ensure!(sut(|| DP::rpa_from_l_rp_y(l, p, y)).is_err(), "a lower bound for no liquidity");
        return Out::Ok(true, vec!["no-liquidity"]);
    }
    let mut lab = vec![];
    // lower bound: rp - y / l
    let q = r12(v.y).div(&r12(v.l));
    if q.to_f64() < 1e13 {
        let e = r12(v.p).sub(&q);
        let what = format!("lower bound from L {} rp {} y {}", show(l), show(p), show(y));
        let g = sut(|| DP::rpa_from_l_rp_y(l, p, y));
        if e.to_f64() < -2.0 * Q {
            ensure!(g.is_err(), "{}: would be negative but {:?} was returned", what, g.map(show));
            lab.push("negative-refused");
        } else if e.to_f64() > 2.0 * Q {
            tryb!(near(&what, &g, &e, 1.01, Dir::Any));
            lab.push("lower");
        }
    }
    // upper bound: l rp / (l - rp x)
    if f12(v.x) * f12(v.p) < 1e13 {
        let d = r12(v.l).sub(&r12(v.p).mul(&r12(v.x)));
        let what = format!("upper bound from L {} rp {} x {}", show(l), show(p), show(x));
        let g = sut(|| DP::rpb_from_l_rp_x(l, p, x));
        if d.to_f64() < -2.0 * Q && f12(v.l) * f12(v.p) / d.to_f64().abs() > 2.0 * Q {
            ensure!(g.is_err(), "{}: no such bound but {:?} was returned", what, g.map(show));
            lab.push("impossible-refused");
        } else if let Some((e, t)) = quot(&r12(v.l).mul(&r12(v.p)), &d, 1.0, 1.0) {
            if e.to_f64() < 1e13 && e.to_f64() > 0.0 {
                tryb!(near(&what, &g, &e, t, Dir::Any));
                lab.push("upper");
            }
        }
    }
    Out::Ok(lab.contains(&"lower") || lab.contains(&"upper"), lab)
}
fn c11_xy(i: &M) -> Out {
    let v = i.v();
    if v.p <= v.a || v.p >= v.b || v.x == 0 {
        return ok(false);
    }
    let (a, b, p, x, y) = (d12(v.a), d12(v.b), d12(v.p), d12(v.x), d12(v.y));
    let mut lab = vec![];
    // lower bound: y / (rpb x) + rp - y / (rp x)
    let t1 = quot(&r12(v.y), &r12(v.b).mul(&r12(v.x)), 0.0, 1.0);
    let t2 = quot(&r12(v.y), &r12(v.p).mul(&r12(v.x)), 0.0, 1.0);
    if let (Some((e1, q1)), Some((e2, q2))) = (t1, t2) {
        if e2.to_f64() < 1e13 {
            let e = e1.add(&r12(v.p)).sub(&e2);
            let t = q1 + q2 + 1.0;
            let what = format!("lower bound from ({}, {}) rp {} upper {}", show(x), show(y), show(p), show(b));
            let g = sut(|| DP::rpa_from_x_y_rp_rpb(x, y, p, b));
            if e.to_f64() < -t * Q {
                ensure!(g.is_err(), "{}: would be negative but {:?} was returned", what, g.map(show));
                lab.push("negative-refused");
            } else if e.to_f64() > t * Q {
                tryb!(near(&what, &g, &e, t, Dir::Any));
                lab.push("lower");
            }
        }
    }
    // upper bound: rp y / (y - (rp - rpa) rp x)
    let d1 = r12(v.p - v.a).mul(&r12(v.p)).mul(&r12(v.x));
    if d1.to_f64() < 1e13 && f12(v.p) * f12(v.y) < 1e13 {
        let d = r12(v.y).sub(&d1);
        let ed = f12(v.x) + 1.0;
        let what = format!("upper bound from ({}, {}) rp {} lower {}", show(x), show(y), show(p), show(a));
        let g = sut(|| DP::rpb_from_x_y_rp_rpa(x, y, p, a));
        if d.to_f64() < -(ed + 1.0) * Q {
            ensure!(g.is_err(), "{}: no such bound but {:?} was returned", what, g.map(show));
            lab.push("impossible-refused");
        } else if let Some((e, t)) = quot(&r12(v.p).mul(&r12(v.y)), &d, 1.0, ed) {
            if e.to_f64() < 1e13 && d.to_f64() > 0.0 {
                tryb!(near(&what, &g, &e, t, Dir::Any));
                lab.push("upper");
            }
        }
    }
    ensure!(sut(|| DP::rpb_from_x_y_rp_rpa(x, y, a, p)).is_err(), "upper bound with the lower bound {} above the price {} was accepted", show(p), show(a));
    Out::Ok(!lab.is_empty(), lab)
}
/// the bounds found for the amounts of a position are its bounds
fn c11_roundtrip(i: &M) -> Out {
    let v = i.v();
    if v.p - v.a < 1_000_000_000 || v.b - v.p < 1_000_000_000 || v.l < 1_000_000_000_000 {
        return ok(false);
    }
    let (a, b, p, l) = (f12(v.a), f12(v.b), f12(v.p), f12(v.l));
    let (x, y) = match (sut(|| DP::x_from_l_rp_rng(d12(v.l), d12(v.p), d12(v.a), d12(v.b))), sut(|| DP::y_from_l_rp_rng(d12(v.l), d12(v.p), d12(v.a), d12(v.b)))) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return bad("amounts refused"),
    };
    if x.value < 1_000_000_000 || y.value < 1_000_000_000 {
        return ok(false);
    }
    let close = |w: &str, g: Result<Decimal, String>, e: f64, t: f64| -> Result<(), String> {
        match g {
            Ok(d) => nearf(w, rat(d).to_f64(), e, t),
            Err(m) => Err(format!("{} refused: {}", w, m)),
        }
    };
    // sensitivities of the closed forms to the last digits of x and y
    let ta = Q * (4.0 / l + 4.0) + a * 1e-14;
    let tb = Q * 8.0 * (b * b / l * (p + 1.0) + b + 1.0) + b * 1e-14;
    tryb!(close(&format!("lower bound of L {} rp {} range [{}, {}]", l, p, a, b), sut(|| DP::rpa_from_l_rp_y(d12(v.l), d12(v.p), y)), a, ta));
    tryb!(close(&format!("upper bound of L {} rp {} range [{}, {}]", l, p, a, b), sut(|| DP::rpb_from_l_rp_x(d12(v.l), d12(v.p), x)), b, tb));
    Out::Ok(true, vec![])
}
fn c11_float<F: Forms>(i: &M) -> Out {
    let v = i.v();
    if v.p - v.a < 1_000_000_000 || v.b - v.p < 1_000_000_000 || v.l < 1_000_000_000_000 {
        return ok(false);
    }
    let (a, b, p, l) = (f12(v.a), f12(v.b), f12(v.p), f12(v.l));
    let (x, y) = (l * (b - p) / (p * b), l * (p - a));
    let e = 1e-14;
    let ca = p / (p - a); // cancellation on either side
    let cb = b / (b - p);
    tryb!(nearf(&format!("{} lower bound from L", F::NAME), F::rpa_from_l_rp_y(l, p, y), a, e * p * 4.0));
    tryb!(nearf(&format!("{} upper bound from L", F::NAME), F::rpb_from_l_rp_x(l, p, x), b, e * b * 4.0 * (b / p)));
    // same from the two amounts
    let big = y / (p * x);
    tryb!(nearf(&format!("{} lower bound from amounts", F::NAME), F::rpa_from_x_y_rp_rpb(x, y, p, b), a, e * (p + 2.0 * big * (ca + cb)) * 2.0));
    let den = y - (p - a) * p * x;
    let amp = (y + (p - a) * p * x) / den.abs();
    tryb!(nearf(&format!("{} upper bound from amounts", F::NAME), F::rpb_from_x_y_rp_rpa(x, y, p, a), b, e * b * (ca + cb + amp * (ca + cb)) * 4.0));
    Out::Ok(true, vec![])
}

// ---------------------------------------------------------------- C12 swap steps
fn c12_deltas(i: &M) -> Out {
    let v = i.v();
    let l = d12(v.l);
    let (p, q, r) = (v.p, v.p2, v.b);
    let tol = |p: i128, q: i128| 1.5 * (1.0 / (f12(p) * f12(q)) + 1.0 / f12(p) + 1.0 / f12(q) + 1.0);
    let dx = |p: i128, q: i128| sut(|| DP::dx_from_l_drp(l, d12(p), d12(q)));
    let dy = |p: i128, q: i128| sut(|| DP::dy_from_l_drp(l, d12(p), d12(q)));
    let ex = |p: i128, q: i128| r12(v.l).mul(&r12(p - q)).div(&r12(p)).div(&r12(q));
    let ey = |p: i128, q: i128| r12(v.l).mul(&r12(q - p));
    let dir = |p: i128, q: i128| if p >= q { Dir::Down } else { Dir::Up };
    let what = format!("L {} from {} to {}", show(l), show(d12(p)), show(d12(q)));
    let (gx, gy) = (dx(p, q), dy(p, q));
    // magnitudes are cut, whichever way the price goes
    tryb!(near(&format!("dx for {}", what), &gx, &ex(p, q), tol(p, q), dir(p, q)));
    tryb!(near(&format!("dy for {}", what), &gy, &ey(p, q), 1.0, dir(q, p)));
    let (gx, gy) = (rat(gx.unwrap()), rat(gy.unwrap()));
    let z = Rat::zero();
    ensure!(p != q || (gx.cmp(&z) == Ordering::Equal && gy.cmp(&z) == Ordering::Equal), "{}: no move but dx {} dy {}", what, gx.to_f64(), gy.to_f64());
    // there and back, and in two steps
    if let (Ok(bx), Ok(by), Ok(x2), Ok(y2), Ok(x3), Ok(y3)) = (dx(q, p), dy(q, p), dx(q, r), dy(q, r), dx(p, r), dy(p, r)) {
        ensure!((gx.add(&rat(bx)).to_f64() / Q).abs() <= 2.0 * tol(p, q) && gy.add(&rat(by)).cmp(&z) == Ordering::Equal, "{}: moving there and back leaves x {} y {}", what, gx.add(&rat(bx)).to_f64(), gy.add(&rat(by)).to_f64());
        let (sx, sy) = (gx.add(&rat(x2)).sub(&rat(x3)).to_f64() / Q, gy.add(&rat(y2)).sub(&rat(y3)).to_f64() / Q);
        ensure!(sx.abs() <= tol(p, q) + tol(q, r) + tol(p, r) && sy.abs() <= 3.0, "{}: two steps to {} differ from one by {} and {} units of 1e-12", what, show(d12(r)), sx, sy);
    }
    ensure!(sut(|| DP::dx_from_l_drp(l, d12(p), d12(0))).is_err() && sut(|| DP::dx_from_l_drp(l, d12(0), d12(p))).is_err(), "a root price of zero was accepted");
    Out::Ok(v.l > 0 && p != q, vec![if p > q { "down" } else { "up" }])
}
fn c12_newprice(i: &M) -> Out {
    let v = i.v();
    if v.l == 0 {
        return ok(false);
    }
    let (l, p) = (d12(v.l), d12(v.p));
    let fl = f12(v.l);
    // price after paying in dx
    if f12(v.x) * f12(v.p) < 1e13 {
        let den = r12(v.x).mul(&r12(v.p)).add(&r12(v.l));
        let (e, t) = quot(&r12(v.l).mul(&r12(v.p)), &den, 1.0, 1.0).unwrap_or((r12(v.p), 4.0));
        let what = format!("root price after {} x at {} with L {}", f12(v.x), f12(v.p), fl);
        let g = sut(|| DP::rp_new_from_l_dx(l, p, d12(v.x)));
        tryb!(near(&what, &g, &e, t + 2.0, Dir::Up));
        let n = g.unwrap();
        ensure!(n.value <= p.value || (n.value - p.value) as f64 <= t + 2.0, "{}: the price rose to {}", what, show(n));
        // never further than what was paid for
        if let Ok(back) = sut(|| DP::dx_from_l_drp(l, p, n)) {
            let b = rat(back);
            let slack = r12(v.x).sub(&b).to_f64();
            ensure!(slack >= -2.0 * Q, "{}: moving to {} costs {}", what, show(n), b.to_f64());
            let fn_ = rat(n).to_f64().max(1e-9);
            let own = 2.0 * (1.0 / (f12(v.p) * fn_) + 1.0 / f12(v.p) + 1.0 / fn_ + 1.0) * Q;
            let lost = fl * (t + 3.0) * Q / fn_.powi(2) + own + 6.0 * Q;
            ensure!(slack <= lost * 1.5, "{}: moving to {} costs only {}", what, show(n), b.to_f64());
        }
    }
    // and dy (of either sign)
    for s in [1, -1] {
        let y = v.y * s;
        let q = r12(y).div(&r12(v.l));
        if q.to_f64().abs() > 1e13 {
            continue;
        }
        let e = q.add(&r12(v.p));
        let what = format!("root price after {} y at {} with L {}", f12(y), f12(v.p), fl);
        let g = sut(|| DP::rp_new_from_l_dy(l, p, d12(y)));
        if e.to_f64() < -2.0 * Q {
            ensure!(g.is_err(), "{}: would be negative but {:?} was returned", what, g.map(show));
        } else if e.to_f64() > 2.0 * Q {
            tryb!(near(&what, &g, &e, 1.01, if s > 0 { Dir::Down } else { Dir::Up }));
            if s > 0 {
                let back = rat(sut(|| DP::dy_from_l_drp(l, p, g.clone().unwrap())).unwrap_or(d12(0)));
                let slack = r12(y).sub(&back).to_f64();
                ensure!(slack >= 0.0 && slack <= (fl + 2.0) * 1.01 * Q || f12(y) > 1e13, "{}: moving to {} costs {}", what, show(g.unwrap()), back.to_f64());
            }
        }
    }
    ensure!(sut(|| DP::rp_new_from_l_dy(d12(0), p, d12(v.y))).is_err(), "a price for no liquidity");
    Out::Ok(v.x > 0 || v.y > 0, vec![])
}
fn c12_float<F: Forms>(i: &M) -> Out {
    let v = i.v();
    let (l, p, q, x, y) = (f12(v.l), f12(v.p), f12(v.p2), f12(v.x), f12(v.y));
    if v.l == 0 {
        return ok(false);
    }
    let ex = r12(v.l).mul(&r12(v.p - v.p2)).div(&r12(v.p)).div(&r12(v.p2)).to_f64();
    let ey = r12(v.l).mul(&r12(v.p2 - v.p)).to_f64();
    tryb!(nearf(&format!("{} dx L {} from {} to {}", F::NAME, l, p, q), F::dx_from_l_drp(l, p, q), ex, l * (1.0 / p + 1.0 / q) * 1e-15 + ex.abs() * 1e-14));
    tryb!(nearf(&format!("{} dy L {} from {} to {}", F::NAME, l, p, q), F::dy_from_l_drp(l, p, q), ey, l * (p + q) * 1e-15 + ey.abs() * 1e-14));
    let e = l * p / (x * p + l);
    tryb!(nearf(&format!("{} root price after {} x at {} with L {}", F::NAME, x, p, l), F::rp_new_from_l_dx(l, p, x), e, e * 1e-14));
    let e = p + y / l;
    tryb!(nearf(&format!("{} root price after {} y at {} with L {}", F::NAME, y, p, l), F::rp_new_from_l_dy(l, p, y), e, e * 1e-14));
    // the amount that takes the price to p2, whichever way, takes it there
    tryb!(nearf(&format!("{} root price after {} x at {} with L {}", F::NAME, ex, p, l), F::rp_new_from_l_dx(l, p, ex), q, q * (1.0 + q / p) * 1e-14));
    tryb!(nearf(&format!("{} root price after {} y at {} with L {}", F::NAME, ey, p, l), F::rp_new_from_l_dy(l, p, ey), q, (p + q) * 1e-14));
    Out::Ok(v.p != v.p2, vec![if v.p > v.p2 { "down" } else { "up" }])
}

// ---------------------------------------------------------------- C13 hybrid curve
#[derive(Clone, Debug, Serialize, Deserialize)]
struct H {
    l: U,
    p: U,
    q: U,
    o: U,
    /// hundredths
    c: u16,
    /// added to it where any curvature will do (floats), in 1e-6
    dc: i32,
}
fn h_in() -> BoxedStrategy<H> {
    let gap = || prop_oneof![3 => -0.7f64..0.7, 4 => -0.01f64..0.01, 1 => -1e-7f64..1e-7, 1 => Just(0.0)];
    let c = prop_oneof![2 => Just(100u16), 2 => Just(125), 3 => Just(150), 2 => Just(200), 1 => Just(300), 1 => 0u16..100];
    // (never nearer to one than 1e-4: the sums cancel)
    let dc = prop_oneof![2 => Just(0i32), 2 => 100i32..60_000, 1 => 100i32..2_000, 1 => 0i32..900_000];
    (-2.0f64..7.0, 0.0f64..3.0, gap(), gap(), c, any::<u32>(), dc)
        .prop_map(|(ll, lp, dq, d_o, c, low, dc)| {
            let at = |d: f64| ((10f64.powf(lp) * (1.0 + d).max(0.01) * 1e12) as u128).max(1_000_000_000_000);
            let (p, q, o) = (at(0.0) + (low % 100) as u128, at(dq), at(d_o));
            let m = p.max(q).max(o) as f64 * Q;
            let cap = 1e12 / m.powf(c.max(100) as f64 / 100.0).max(m);
            let l = (10f64.powf(ll).min(cap) * 1e12) as u128;
            H { l: U(l), p: U(p), q: U(if dq == 0.0 { p } else { q }), o: U(o), c, dc }
        })
        .boxed()
}
/// signed change of the reserve: dx > 0 when the price falls, dy > 0 when it rises
fn hyb(is_x: bool, l: f64, p: f64, q: f64, c: f64, o: f64) -> f64 {
    // hmm_out gives what leaves the pool moving p -> q
    -hmm_out(!is_x, l, p, q, c, o)
}
fn c13_step<F: Forms>(fc: f64, is_x: bool, fl: f64, fp: f64, fq: f64, fo: f64) -> Result<(), String> {
    let e = hyb(is_x, fl, fp, fq, fc, fo);
    let f = if is_x { F::dx_from_l_drp_hmm(fl, fp, fq, fc, fo) } else { F::dy_from_l_drp_hmm(fl, fp, fq, fc, fo) };
    let k = if is_x { fc - 1.0 } else { 1.0 - fc };
    let (amp, size) = if fc == 1.0 { (1.0, 1.0) } else { (1.0 / (fc - 1.0).abs(), fp.powf(k).max(fq.powf(k))) };
    let size = size * fl * if is_x { 1.0 / fo.powf(fc) } else { fo.powf(fc) };
    let tf = e.abs() * 1e-13 + size * amp * 2e-15;
    if (f - e).abs() > tf {
        return Err(format!("{} hybrid d{} of L {} from {} to {} with c {} oracle {}: {} expected {} (tolerance {})", F::NAME, if is_x { "x" } else { "y" }, fl, fp, fq, fc, fo, f, e, tf));
    }
    Ok(())
}
fn c13_float<F: Forms>(i: &H) -> Out {
    let (fl, fp, fq, fo) = (f12((i.l).0 as i128), f12((i.p).0 as i128), f12((i.q).0 as i128), f12((i.o).0 as i128));
    let fc = i.c as f64 / 100.0 + i.dc as f64 * 1e-6;
    for is_x in [true, false] {
        tryb!(c13_step::<F>(fc, is_x, fl, fp, fq, fo));
    }
    Out::Ok(i.p.0 != i.q.0 && i.l.0 > 0, vec![if fc < 1.0 { "c<1" } else if fc == 1.0 { "c=1" } else if fc < 1.1 { "c-near-one" } else { "c>1.1" }])
}
fn c13_dec(i: &H) -> Out {
    let (l, p, q, o) = ((i.l).0 as i128, (i.p).0 as i128, (i.q).0 as i128, (i.o).0 as i128);
    let c = Decimal::new(i.c as u128 * 10_000_000_000, 12, false);
    let gx = sut(|| DP::dx_from_l_drp_hmm(d12(l), d12(p), d12(q), c, d12(o)));
    let gy = sut(|| DP::dy_from_l_drp_hmm(d12(l), d12(p), d12(q), c, d12(o)));
    if i.c < 100 {
        ensure!(gx.is_err() && gy.is_err(), "c = {} was accepted", i.c as f64 / 100.0);
        return Out::Ok(true, vec!["c-below-one"]);
    }
    let (fl, fp, fq, fo, fc) = (f12(l), f12(p), f12(q), f12(o), i.c as f64 / 100.0);
    for (is_x, g) in [(true, gx), (false, gy)] {
        let what = format!("hybrid d{} of L {} from {} to {} with c {} oracle {}", if is_x { "x" } else { "y" }, fl, fp, fq, fc, fo);
        let g = match g {
            Ok(g) => g,
            Err(m) => return bad(format!("{}: refused: {}", what, m)),
        };
        let e = hyb(is_x, fl, fp, fq, fc, fo);
        let v = rat(g).to_f64();
        let tol = if i.c == 100 {
            let k = if is_x { fl / fo } else { fl * fo };
            k * 5e-10 + Q * ((fp / fq).ln().abs() + 2.0) * (1.0 + fl * 0.0)
        } else {
            let oc = fo.powf(fc);
            let k = if is_x { fl / oc } else { fl * oc };
            let rel = 6.0 * Q * (1.0 + fo) / oc;
            let pw = fp.max(fq).powf(fc - 1.0);
            (k * Q * (6.0 + if is_x { 2.0 * pw * 1e-3 } else { 0.0 }) + Q * (pw + 3.0) + 6.0 * Q) / (fc - 1.0) * 1.5 + e.abs() * (rel + 1e-13)
        } + e.abs() * 1e-13;
        ensure!((v - e).abs() <= tol, "{}: {} expected {} (tolerance {})", what, v, e, tol);
        ensure!(p != q || g.value == 0, "{}: no move but {}", what, v);
        tryb!(c13_step::<RF>(fc, is_x, fl, fp, fq, fo));
    }
    Out::Ok(p != q && l > 0, vec![match i.c { 100 => "c=1", 125 => "c=1.25", 150 => "c=1.5", 200 => "c=2", _ => "c=3" }, if p > q { "down" } else { "up" }])
}

type PP = crate::py::PyPool;
fn py_ticks(i: &(u32, u32, u32, U, U, U)) -> Out {
    let (t, ta, tb) = (i.0, i.1.min(60_000), i.1.min(60_000) + 1 + i.2);
    let (l, x, y) = ((i.3).0 as f64 * Q, (i.4).0 as f64 * Q, (i.5).0 as f64 * Q);
    let (p, a, b) = (PP::tick_to_rp(t), PP::tick_to_rp(ta), PP::tick_to_rp(tb));
    let e = [PP::liq_from_x_y_rp_rng(x, y, p, a, b), PP::x_from_l_rp_rng(l, p, a, b), PP::y_from_l_rp_rng(l, p, a, b)];
    let g = PP::over_ticks(x, y, l, t, ta, tb);
    ensure!(g == e, "python: liquidity, x and y over ticks {} in [{}, {}] are {:?}, over root prices {:?}", t, ta, tb, g, e);
    let f = 1.0001f64.powf(t as f64 / 2.0);
    ensure!((p / f - 1.0).abs() < 1e-9, "python: root price of tick {} is {} expected {}", t, p, f);
    ok(ta < t && t < tb)
}
pub fn subs(id: &str) -> Option<Vec<Box<dyn SubCheck>>> {
    let ticks = || {
        (prop_oneof![3 => 0u32..5000, 1 => 0u32..80_000], prop_oneof![3 => 0u32..5000, 1 => 0u32..80_000], prop_oneof![3 => 0u32..200, 1 => 0u32..5000], any_u128(70).prop_map(U), any_u128(70).prop_map(U), any_u128(70).prop_map(U)).boxed()
    };
    Some(match id {
        "C08" => vec![
            prop!("ln", "positive decimals of all sizes, powers of two and one and their neighbours, zero, negatives; non-trivial = more than one unit, or refused", 600_000, 20_000_000, ln_in, c08_ln),
            prop!("laws", "pairs at scale 12; order and products; non-trivial = different", 200_000, 6_000_000, || {
                let v = || (1_000_000u128..500_000_000_000_000, 0u32..8).prop_map(|(v, p)| U(v / 10u128.pow(p) + 1_000_000));
                (v(), v()).boxed()
            }, c08_laws),
            prop!("bit_length", "decimals of all sizes; non-trivial = more than one unit, or refused", 600_000, 20_000_000, || prop_oneof![3 => pos_d(120, 15), 1 => ln_in()].boxed(), c08_bits),
        ],
        "C09" => vec![
            prop!("price", "pairs of ticks; non-trivial = different", 300_000, 10_000_000, || {
                let t = || prop_oneof![3 => 0u32..5000, 3 => 0u32..250_000, 1 => 250_000u32..650_000];
                prop_oneof![2 => (t(), t()), 1 => t().prop_map(|t| (t, t + 1))].boxed()
            }, c09_price),
            prop!("find_decimal", "root prices on, next to and between ticks with spacings and search starts; all non-trivial", 60_000, 2_000_000, tick_in, c09_find),
            prop!("find_float", "root prices on, next to and between ticks with spacings; all non-trivial", 600_000, 20_000_000, tick_in, c09_find_float::<RF>),
            prop!("spacing", "ticks and spacings; non-trivial = tick off the grid", 600_000, 20_000_000, || (prop_oneof![0u32..100_000, any::<u32>().prop_map(|x| x >> 1)], prop_oneof![1u32..300, 1u32..100_000]).boxed(), c09_spacing),
        ],
        "C10" => vec![
            prop!("liquidity", "ranges, prices inside, at and outside their ends, amounts; non-trivial = some liquidity", 300_000, 10_000_000, m_in, c10_liq),
            prop!("amounts", "ranges, prices, liquidity; non-trivial = some liquidity", 300_000, 10_000_000, m_in, c10_amounts),
            prop!("ticks", "tick forms against root price forms; non-trivial = price strictly inside", 150_000, 4_000_000, ticks, c10_ticks),
            prop!("float", "float forms of the same; non-trivial = some liquidity", 300_000, 10_000_000, m_in, c10_float::<RF>),
        ],
        "C11" => vec![
            prop!("from_liquidity", "L, price, amounts; non-trivial = a bound exists", 300_000, 10_000_000, m_in, c11_lp),
            prop!("from_amounts", "amounts, price, one bound; non-trivial = decided", 300_000, 10_000_000, m_in, c11_xy),
            prop!("roundtrip", "positions to amounts and back; non-trivial = amounts not dust", 300_000, 10_000_000, m_in, c11_roundtrip),
            prop!("float", "positions to amounts and back in floats; non-trivial = range not degenerate", 300_000, 10_000_000, m_in, c11_float::<RF>),
        ],
        "C12" => vec![
            prop!("deltas", "L and two prices; non-trivial = a move with liquidity", 300_000, 10_000_000, m_in, c12_deltas),
            prop!("new_price", "L, price and input; non-trivial = some input", 300_000, 10_000_000, m_in, c12_newprice),
            prop!("float", "float forms of the same; non-trivial = a move", 300_000, 10_000_000, m_in, c12_float::<RF>),
        ],
        "C42" => vec![
            prop!("ticks", "tick forms against root price forms; non-trivial = price strictly inside", 10_000, 500_000, ticks, py_ticks),
            prop!("find", "root prices on, next to and between ticks with spacings; all non-trivial", 20_000, 500_000, tick_in, c09_find_float::<PP>),
            prop!("amounts", "liquidity and amounts; non-trivial = some liquidity", 20_000, 1_000_000, m_in, c10_float::<PP>),
            prop!("bounds", "positions to amounts and back; non-trivial = range not degenerate", 20_000, 1_000_000, m_in, c11_float::<PP>),
            prop!("steps", "swap steps; non-trivial = a move", 20_000, 1_000_000, m_in, c12_float::<PP>),
            prop!("curve", "hybrid curve; non-trivial = a move with liquidity", 20_000, 1_000_000, h_in, c13_float::<PP>),
        ],
        "C13" => vec![prop!("curve", "L, two prices, oracle and curvature, decimal and float; non-trivial = a move with liquidity, or refused curvature", 300_000, 10_000_000, h_in, c13_dec),
            prop!("float", "the float forms, at any curvature; non-trivial = a move with liquidity", 300_000, 10_000_000, h_in, c13_float::<RF>)],
        _ => return None,
    })
}
