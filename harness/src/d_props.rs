//! Decimal arithmetic against exact big-integer oracles.
use crate::core::*;
use crate::dec::*;
use crate::num::{Big, Rat};
use hmmcl_sandbox::decimal::*;
use proptest::prelude::*;
use std::cmp::Ordering;
use std::str::FromStr;

macro_rules! prop {
    ($name:expr, $rule:expr, $q:expr, $t:expr, $strat:expr, $check:expr) => {
        Box::new(Prop { name: $name, rule: $rule, quick: $q, thorough: $t, strat: $strat, check: $check }) as Box<dyn SubCheck>
    };
}
pub(crate) use prop;

fn max() -> Big {
    Big::from(u128::MAX)
}
/// A result that must equal `exact` (signed, unscaled), or a refusal which is only allowed when `may_refuse`.
fn expect_exact(what: &str, got: Result<Decimal, String>, exact: &Big, scale: u8, may_refuse: bool) -> Result<(), String> {
    match got {
        Ok(r) => {
            if r.scale != scale {
                return Err(format!("{}: result scale {} expected {}", what, r.scale, scale));
            }
            if big(r) != *exact {
                return Err(format!("{}: got {} expected {} at scale {}", what, show(r), exact, scale));
            }
            if !exact.is_zero() && r.negative != exact.is_neg() {
                return Err(format!("{}: wrong sign {}", what, show(r)));
            }
            Ok(())
        }
        Err(e) => {
            if may_refuse {
                Ok(())
            } else {
                Err(format!("{}: refused although representable (exact {}): {}", what, exact, e))
            }
        }
    }
}
macro_rules! chk {
    ($e:expr) => {
        if let Err(m) = $e {
            return Out::Bad(m);
        }
    };
}
pub(crate) use chk;
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Out::Bad(format!($($a)*)); } };
}
pub(crate) use ensure;

fn flat<T>(r: Result<Result<T, ErrorCode>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("Err({:?})", e)),
        Err(p) => Err(p),
    }
}

// ---------------------------------------------------------------- C01
fn pair_same() -> BoxedStrategy<(D, D)> {
    let near = (any_d(128, 38), 0u128..4, any::<bool>(), any::<bool>()).prop_map(|(a, k, up, n)| {
        let v = if up { a.v.0.saturating_add(k) } else { a.v.0.saturating_sub(k) };
        (a, D { v: U(v), s: a.s, n })
    });
    let free = (any_d(128, 38), any_u128(128), any::<bool>()).prop_map(|(a, v, n)| (a, D { v: U(v), s: a.s, n }));
    prop_oneof![1 => near, 3 => free].boxed()
}
fn c01_same(i: &(D, D)) -> Out {
    let (a, b) = *i;
    let sum = a.big().add(&b.big());
    let dif = a.big().sub(&b.big());
    chk!(expect_exact("add", flat(sut(|| a.d().add(b.d()))), &sum, a.s, sum.abs() > max()));
    chk!(expect_exact("sub", flat(sut(|| a.d().sub(b.d()))), &dif, a.s, dif.abs() > max()));
    chk!(expect_exact("add swapped", flat(sut(|| b.d().add(a.d()))), &sum, a.s, sum.abs() > max()));
    // taking back what was added
    if let Ok(s) = flat(sut(|| a.d().add(b.d()))) {
        chk!(expect_exact("(a+b)-b", flat(sut(|| s.sub(b.d()))), &a.big(), a.s, false));
    }
    let mut l = vec![];
    if sum.abs() > max() || dif.abs() > max() {
        l.push("overflow")
    }
    if a.n != b.n {
        l.push("mixed-sign")
    }
    Out::Ok(!a.big().is_zero() && !b.big().is_zero(), l)
}
fn c01_scale(i: &(D, D)) -> Out {
    let (a, b) = *i;
    for (w, r) in [("add", sut(|| a.d().add(b.d()))), ("sub", sut(|| a.d().sub(b.d())))] {
        let differ = a.s != b.s;
        match r {
            Ok(Ok(_)) => ensure!(!differ, "{}: accepted operands of scale {} and {}", w, a.s, b.s),
            Ok(Err(_)) => ensure!(differ, "{}: scale error for equal scales", w),
            Err(p) => ensure!(!differ, "{}: aborted instead of reporting a scale mismatch: {}", w, p),
        }
    }
    ok(a.s != b.s)
}

// ---------------------------------------------------------------- C02
fn muldiv_pair() -> BoxedStrategy<(D, D)> {
    prop_oneof![
        3 => (any_d(128, 30), any_d(128, 30)),
        4 => (any_d(70, 18), any_d(57, 18)),
        2 => (any_d(60, 12), (1u128..5000, 0u8..=12, any::<bool>()).prop_map(|(v, s, n)| D { v: U(v), s, n })),
    ]
    .boxed()
}
fn c02_mul(i: &(D, D)) -> Out {
    let (a, b) = *i;
    let p = a.big().mul(&b.big());
    let den = Big::pow10(b.s as u32);
    let fits = p.abs() <= max();
    chk!(expect_exact("mul", sut(|| a.d().mul(b.d())), &p.div(&den), a.s, !fits));
    let fits_up = p.abs().add(&den) <= max();
    chk!(expect_exact("mul_up", sut(|| a.d().mul_up(b.d())), &p.div_away(&den), a.s, !fits_up));
    let pi = a.big().mul(&Big::from(b.v.0));
    chk!(expect_exact("mul by integer", sut(|| Mul::<u128>::mul(a.d(), b.v.0)), &pi, a.s, pi.abs() > max()));
    Out::Ok(fits && !p.divrem(&den).1.is_zero(), vec![if fits { "fits" } else { "overflow" }])
}
fn c02_div(i: &(D, D)) -> Out {
    let (a, b) = *i;
    if b.v.0 == 0 {
        for (w, r) in [
            ("div", sut(|| a.d().div(b.d()))),
            ("div_up", sut(|| a.d().div_up(b.d()))),
            ("div_to_scale", sut(|| a.d().div_to_scale(b.d(), a.s))),
        ] {
            ensure!(r.is_err(), "{} by zero gave {:?}", w, r);
        }
        return Out::Ok(true, vec!["zero-divisor"]);
    }
    let num = a.big().mul(&Big::pow10(b.s as u32));
    let fits = num.abs() <= max();
    chk!(expect_exact("div", sut(|| a.d().div(b.d())), &num.div(&b.big()), a.s, !fits));
    let fits_up = num.abs().add(&b.big().abs()) <= max();
    chk!(expect_exact("div_up", sut(|| a.d().div_up(b.d())), &num.div_away(&b.big()), a.s, !fits_up));
    Out::Ok(fits && !num.divrem(&b.big()).1.is_zero(), vec![if fits { "fits" } else { "overflow" }])
}
fn c02_div_scale(i: &(D, D, u8)) -> Out {
    let (a, b, to) = *i;
    if b.v.0 == 0 {
        return ok(false);
    }
    // a/10^sa / (b/10^sb) * 10^to
    let e = b.s as i32 + to as i32 - a.s as i32;
    let (exact, fits) = if e >= 0 {
        let n = a.big().mul(&Big::pow10(e as u32));
        let f = n.abs() <= max() && e <= 38;
        (n.div(&b.big()), f)
    } else {
        (a.big().div(&b.big().mul(&Big::pow10((-e) as u32))), -e <= 38)
    };
    chk!(expect_exact("div_to_scale", sut(|| a.d().div_to_scale(b.d(), to)), &exact, to, !fits));
    Out::Ok(fits && !exact.is_zero(), vec![if e >= 0 { "upscale" } else { "downscale" }])
}

// ---------------------------------------------------------------- C03
fn c03_rescale(i: &(D, u8)) -> Out {
    let (a, to) = *i;
    let (exact, up) = if to >= a.s {
        let e = a.big().mul(&Big::pow10((to - a.s) as u32));
        (e.clone(), e)
    } else {
        let den = Big::pow10((a.s - to) as u32);
        (a.big().div(&den), a.big().div_away(&den))
    };
    let den = Big::pow10((a.s.max(to) - a.s.min(to)) as u32);
    let fits = exact.abs() <= max();
    let fits_up = if to >= a.s { fits } else { a.big().abs().add(&den) <= max() };
    chk!(expect_exact("to_scale", sut(|| a.d().to_scale(to)), &exact, to, !fits));
    chk!(expect_exact("to_scale_up", sut(|| a.d().to_scale_up(to)), &up, to, !fits_up));
    if to >= a.s && fits {
        let back = sut(|| a.d().to_scale(to).to_scale(a.s));
        chk!(expect_exact("scale up and back", back, &a.big(), a.s, false));
    }
    let c = if a.s <= 12 { a.big().mul(&Big::pow10(12 - a.s as u32)) } else { a.big().div(&Big::pow10(a.s as u32 - 12)) };
    chk!(expect_exact("to_compute_scale", sut(|| a.d().to_compute_scale()), &c, 12, c.abs() > max()));
    ensure!(sut(|| a.d().denominator()) == Ok(10u128.pow(a.s as u32)), "denominator of scale {}", a.s);
    Out::Ok(a.v.0 != 0 && to != a.s, vec![if to < a.s { "down" } else { "up" }, if exact != up { "inexact" } else { "exact" }])
}
fn int_out<T: Into<u128> + std::fmt::Debug>(what: &str, got: Result<T, String>, exact: &Big, limit: &Big, may: bool) -> Result<(), String> {
    match got {
        Ok(v) => {
            let s = format!("{:?}", v);
            if Big::from(v.into()) != *exact {
                return Err(format!("{}: got {} expected {}", what, s, exact));
            }
            Ok(())
        }
        Err(e) => {
            if exact > limit || may {
                Ok(())
            } else {
                Err(format!("{}: refused although {} fits: {}", what, exact, e))
            }
        }
    }
}
fn c03_amounts(i: &(D, u8)) -> Out {
    let (a, to) = *i;
    let m = a.big().abs();
    let den = Big::pow10(a.s as u32);
    let l64 = Big::from(u64::MAX as u128);
    let up_ovf = m.add(&den) > max();
    chk!(int_out("abs", sut(|| a.d().abs()), &m.div(&den), &l64, false));
    chk!(int_out("abs_up", sut(|| a.d().abs_up()), &m.div_away(&den), &l64, up_ovf));
    let (fl, ce, may, may_up) = if to >= a.s {
        let e = m.mul(&Big::pow10((to - a.s) as u32));
        let o = e > max();
        (e.clone(), e, o, o)
    } else {
        let d2 = Big::pow10((a.s - to) as u32);
        (m.div(&d2), m.div_away(&d2), false, m.add(&d2) > max())
    };
    chk!(int_out("to_scaled_amount", sut(|| a.d().to_scaled_amount(to)), &fl, &l64, may));
    chk!(int_out("to_scaled_amount_up", sut(|| a.d().to_scaled_amount_up(to)), &ce, &l64, may_up));
    // raw (unscaled) conversions
    chk!(int_out("to_u64", sut(|| a.d().to_u64()), &m, &l64, false));
    chk!(int_out("into u64", sut(|| -> u64 { a.d().into() }), &m, &l64, false));
    chk!(int_out("into u128", sut(|| -> u128 { a.d().into() }), &m, &max(), false));
    chk!(int_out("into usize", sut(|| -> usize { a.d().into() }).map(|x| x as u64), &m, &l64, false));
    match sut(|| -> i32 { a.d().into() }) {
        Ok(v) => {
            let e = a.big();
            let g = Big::signed(v < 0, (v as i64).unsigned_abs() as u128);
            ensure!(g == e, "into i32: got {} for unscaled value {}", v, e);
        }
        Err(e) => ensure!(m > Big::from(i32::MAX as u128), "into i32 refused {}: {}", a.big(), e),
    }
    let f: f64 = a.d().into();
    let e = Rat::new(m.clone(), den).to_f64();
    ensure!((f - e).abs() <= e.abs() * 1e-14, "into f64: got {} expected {}", f, e);
    Out::Ok(a.v.0 != 0, vec![if m.div(&Big::pow10(a.s as u32)) > l64 { "too-big" } else { "fits" }])
}
fn c03_build(i: &(u64, U, u8)) -> Out {
    let (n, m, s) = *i;
    let n = &n;
    let d = Decimal::from_u64(*n);
    ensure!(big(d) == Big::from(*n as u128) && d.scale == 0, "from_u64({}) = {:?}", n, d);
    ensure!(d.to_u64() == *n, "from_u64/to_u64 round trip of {}", n);
    let d = Decimal::from_u128(m.0);
    ensure!(big(d) == Big::from(m.0) && d.scale == 0, "from_u128({}) = {:?}", m.0, d);
    let d = Decimal::from_scaled_amount(*n, s);
    ensure!(big(d) == Big::from(*n as u128) && d.scale == s, "from_scaled_amount({},{}) = {:?}", n, s, d);
    ensure!(sut(|| d.to_scaled_amount(s)) == Ok(*n), "scaled amount round trip {} {}", n, s);
    ensure!(sut(|| d.to_scaled_amount_up(s)) == Ok(*n), "scaled amount up round trip {} {}", n, s);
    for (k, d) in [(1u128, Decimal::one()), (2, Decimal::two())] {
        ensure!(big(d) == Big::from(k * 10u128.pow(12)) && d.scale == 12, "constant {} is {:?}", k, d);
    }
    ok(*n != 0)
}

// ---------------------------------------------------------------- C04
fn cmp_pair() -> BoxedStrategy<(D, D)> {
    let zero = |s: u8| (any::<bool>(), any::<bool>()).prop_map(move |(p, q)| (D { v: U(0), s, n: p }, D { v: U(0), s, n: q }));
    prop_oneof![
        5 => pair_same(),
        1 => zero(6),
        1 => (any_d(128, 38), any::<bool>()).prop_map(|(a, n)| (a, D { n, ..a })),
        1 => (any_d(128, 38), any::<bool>()).prop_map(|(a, n)| (a, D { v: U(0), s: a.s, n })),
    ]
    .boxed()
}
fn c04_order(i: &(D, D)) -> Out {
    let (a, b) = *i;
    let o = a.big().cmp(&b.big());
    let (x, y) = (a.d(), b.d());
    let t = |w: &str, r: Result<Result<bool, ErrorCode>, String>, e: bool| -> Result<(), String> {
        match r {
            Ok(Ok(v)) if v == e => Ok(()),
            o => Err(format!("{} {:?} {:?}: {:?}, expected {}", w, a, b, o, e)),
        }
    };
    chk!(t("eq", sut(|| Compare::eq(x, y)), o == Ordering::Equal));
    chk!(t("lt", sut(|| x.lt(y)), o == Ordering::Less));
    chk!(t("gt", sut(|| x.gt(y)), o == Ordering::Greater));
    chk!(t("lte", sut(|| x.lte(y)), o != Ordering::Greater));
    chk!(t("gte", sut(|| x.gte(y)), o != Ordering::Less));
    let mn = sut(|| Compare::min(x, y));
    let mx = sut(|| Compare::max(x, y));
    let (emn, emx) = if o == Ordering::Greater { (b.big(), a.big()) } else { (a.big(), b.big()) };
    ensure!(matches!(&mn, Ok(d) if big(*d) == emn && d.scale == a.s), "min {:?} {:?} = {:?}", a, b, mn);
    ensure!(matches!(&mx, Ok(d) if big(*d) == emx && d.scale == a.s), "max {:?} {:?} = {:?}", a, b, mx);
    ensure!(x.is_zero() == a.big().is_zero(), "is_zero {:?}", a);
    ensure!(x.is_positive() == (a.big() > Big::zero()), "is_positive {:?}", a);
    ensure!(x.is_negative() == (a.big() < Big::zero()), "is_negative {:?}", a);
    let ng = -x;
    ensure!(big(ng) == a.big().neg() && ng.scale == a.s, "negation of {:?} is {}", a, show(ng));
    let is_int = a.big().divrem(&Big::pow10(a.s as u32)).1.is_zero();
    ensure!(sut(|| x.is_integer()) == Ok(is_int), "is_integer {:?} expected {}", a, is_int);
    Out::Ok(true, vec![if a.v.0 == 0 || b.v.0 == 0 { "zero" } else { "nonzero" }, if o == Ordering::Equal { "equal" } else { "differ" }])
}
/// order of results of arithmetic (these can be signed zeros)
fn c04_results(i: &(D, D, D)) -> Out {
    let (a, b, c) = *i;
    let c = D { s: a.s, ..c };
    let mut any = false;
    for r in [sut(|| a.d().mul(b.d())), sut(|| a.d().div(b.d())), sut(|| -a.d())] {
        if let Ok(r) = r {
            let o = big(r).cmp(&c.big());
            let cd = c.d();
            let got = sut(|| (Compare::eq(r, cd).unwrap(), r.lt(cd).unwrap(), r.gte(cd).unwrap(), r.lte(cd).unwrap(), r.gt(cd).unwrap()));
            let e = (o == Ordering::Equal, o == Ordering::Less, o != Ordering::Less, o != Ordering::Greater, o == Ordering::Greater);
            ensure!(got == Ok(e), "(eq,lt,gte,lte,gt) of computed {} against {:?}: {:?}, expected {:?}", show(r), c, got, e);
            any |= r.value == 0;
        }
    }
    Out::Ok(true, vec![if any { "zero-result" } else { "nonzero" }])
}
fn c04_scale(i: &(D, D)) -> Out {
    let (a, b) = *i;
    let (x, y) = (a.d(), b.d());
    for (w, r) in [
        ("eq", sut(|| Compare::eq(x, y))),
        ("lt", sut(|| x.lt(y))),
        ("gt", sut(|| x.gt(y))),
        ("lte", sut(|| x.lte(y))),
        ("gte", sut(|| x.gte(y))),
    ] {
        if a.s != b.s {
            ensure!(matches!(r, Ok(Err(_))), "{} of different scales gave {:?}", w, r);
        } else {
            ensure!(matches!(r, Ok(Ok(_))), "{} of equal scales gave {:?}", w, r);
        }
    }
    ok(a.s != b.s)
}

// ---------------------------------------------------------------- C05
fn c05_print(a: &D) -> Out {
    let s = match sut(|| a.d().to_string()) {
        Ok(s) => s,
        Err(e) => return bad(format!("printing {:?} aborted: {}", a, e)),
    };
    // exact textual form
    let digits = a.v.0.to_string();
    let body = if a.s == 0 {
        digits.clone()
    } else {
        let w = a.s as usize;
        let padded = if digits.len() <= w { format!("{}{}", "0".repeat(w + 1 - digits.len()), digits) } else { digits.clone() };
        format!("{}.{}", &padded[..padded.len() - w], &padded[padded.len() - w..])
    };
    let (sign, rest) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s.as_str()),
    };
    ensure!(rest == body && (a.v.0 == 0 || sign == a.n), "{:?} prints as {:?}, expected {}{:?}", a, s, if a.n { "-" } else { "" }, body);
    let r = flat(sut(|| Decimal::from_str(&s)));
    match r {
        Ok(d) => ensure!(big(d) == a.big() && d.scale == a.s, "{:?} -> {:?} -> {}", a, s, show(d)),
        Err(e) => return bad(format!("printed form {:?} of {:?} does not parse: {}", s, a, e)),
    }
    Out::Ok(a.v.0 != 0, vec![if digits.len() < a.s as usize { "leading-zeros" } else { "plain" }])
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Lit {
    neg: bool,
    int: String,
    frac: Option<String>,
    exp: Option<(bool, String, u16)>,
}
fn lits() -> BoxedStrategy<Lit> {
    (
        any::<bool>(),
        prop_oneof![12 => "[0-9]{1,20}", 1 => "0{1,60}[0-9]{0,20}", 1 => "[0-9]{20,45}"],
        prop_oneof![1 => Just(None), 12 => proptest::option::of("[0-9]{0,15}"), 1 => "[0-9]{15,45}".prop_map(Some), 1 => "0{20,60}[0-9]{0,5}".prop_map(Some)],
        proptest::option::of((any::<bool>(), prop_oneof![Just("".to_string()), Just("+".to_string()), Just("-".to_string())], prop_oneof![8 => 0u16..20, 1 => 0u16..400])),
    )
        .prop_map(|(neg, int, frac, exp)| Lit { neg, int, frac, exp })
        .boxed()
}
fn lit_text(l: &Lit) -> String {
    let mut s = String::new();
    if l.neg {
        s.push('-')
    }
    s += &l.int;
    if let Some(f) = &l.frac {
        s.push('.');
        s += f;
    }
    if let Some((up, sg, n)) = &l.exp {
        s.push(if *up { 'E' } else { 'e' });
        s += sg;
        s += &n.to_string();
    }
    s
}
fn c05_literal(l: &Lit) -> Out {
    let s = lit_text(l);
    let frac = l.frac.clone().unwrap_or_default();
    let m = Big::parse(&format!("{}{}", l.int, frac)).unwrap();
    let m = if l.neg { m.neg() } else { m };
    let e = match &l.exp {
        None => 0i64,
        Some((_, sg, n)) => {
            if sg == "-" {
                -(*n as i64)
            } else {
                *n as i64
            }
        }
    };
    let p = e - frac.len() as i64; // value = m * 10^p
    // room to spare: the value written with every digit and max(exp, decimals) places fits 128 bits
    let places = if e > 0 { e.max(frac.len() as i64) } else { frac.len() as i64 - e };
    let must = places <= 38 && m.abs().mul(&Big::pow10((p + places).max(0) as u32)) <= max();
    match sut(|| Decimal::from_str(&s)) {
        Err(pn) => bad(format!("parsing {:?} aborted: {}", s, pn)),
        Ok(Err(er)) => {
            ensure!(!must, "parsing {:?} failed with {:?}", s, er);
            Out::Ok(true, vec!["out-of-range"])
        }
        Ok(Ok(d)) => {
            // d.value / 10^scale == m * 10^p
            let lhs = big(d);
            let k = p + d.scale as i64;
            let (l2, r2) = if k >= 0 { (lhs, m.mul(&Big::pow10(k as u32))) } else { (lhs.mul(&Big::pow10((-k) as u32)), m.clone()) };
            ensure!(l2 == r2, "parsing {:?} gave {}", s, show(d));
            Out::Ok(!m.is_zero(), vec![if l.exp.is_some() { "exponent" } else { "plain" }, if l.frac.is_some() { "fraction" } else { "integer" }])
        }
    }
}
fn grammar_ok(s: &str) -> Option<bool> {
    // Some(true): the documented form; Some(false): malformed; None: not judged ('+' signs, bare points)
    let t = s.strip_prefix('-').unwrap_or(s);
    let (base, exp) = match t.find(|c| c == 'e' || c == 'E') {
        None => (t, None),
        Some(k) => (&t[..k], Some(&t[k + 1..])),
    };
    if base.contains('+') {
        return if base.starts_with('+') { None } else { Some(false) };
    }
    let good_exp = match exp {
        None => true,
        Some(x) => {
            let y = x.strip_prefix(|c| c == '+' || c == '-').unwrap_or(x);
            !y.is_empty() && y.bytes().all(|b| b.is_ascii_digit())
        }
    };
    if !good_exp {
        return Some(false);
    }
    let dots = base.matches('.').count();
    let digs = base.bytes().filter(|b| b.is_ascii_digit()).count();
    if dots > 1 || digs + dots != base.len() || digs == 0 {
        return Some(false);
    }
    if base.starts_with('.') {
        return None;
    }
    Some(true)
}
fn junk() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[-+0-9eE. ]{0,12}".prop_map(|s| s),
        2 => (lits(), any::<prop::sample::Index>(), prop_oneof![Just('x'), Just('-'), Just('.'), Just('e'), Just(' '), Just('_'), Just('é'), Just('+'), Just('E')]).prop_map(|(l, ix, c)| {
            let mut t: Vec<char> = lit_text(&l).chars().collect();
            let k = ix.index(t.len() + 1);
            t.insert(k, c);
            t.into_iter().collect()
        }),
        2 => (lits(), any::<prop::sample::Index>()).prop_map(|(l, ix)| {
            let mut t: Vec<char> = lit_text(&l).chars().collect();
            let k = ix.index(t.len());
            t.remove(k);
            t.into_iter().collect()
        }),
        1 => "\\PC{0,8}".prop_map(|s| s),
    ]
    .boxed()
}
fn c05_malformed(s: &String) -> Out {
    let g = grammar_ok(s);
    match sut(|| Decimal::from_str(s)) {
        Err(p) => bad(format!("parsing {:?} aborted instead of reporting an error: {}", s, p)),
        Ok(Ok(d)) => {
            ensure!(g != Some(false), "malformed {:?} parsed as {}", s, show(d));
            Out::Ok(false, vec!["accepted"])
        }
        Ok(Err(_)) => Out::Ok(g == Some(false), vec!["rejected"]),
    }
}

// ---------------------------------------------------------------- C06
fn c06_sqrt(a: &D) -> Out {
    let r = sut(|| a.d().sqrt());
    if a.n && a.v.0 != 0 {
        ensure!(matches!(r, Ok(Err(_))), "square root of negative {:?} gave {:?}", a, r);
        return Out::Ok(true, vec!["negative"]);
    }
    let n = a.big().abs().mul(&Big::pow10(a.s as u32));
    match r {
        Err(p) => bad(format!("sqrt {:?} aborted: {}", a, p)),
        Ok(Err(e)) => {
            ensure!(n > max(), "sqrt {:?} refused: {:?}", a, e);
            Out::Ok(true, vec!["out-of-range"])
        }
        Ok(Ok(d)) => {
            ensure!(d.scale == a.s && !d.is_negative(), "sqrt {:?} = {}", a, show(d));
            let f = n.isqrt();
            let perfect = f.mul(&f) == n;
            ensure!(big(d).dist(&f) <= Big::one(), "sqrt {:?} = {} but the exact root rounds down to {}", a, show(d), f);
            if a.v.0 == 0 || a.v.0 == 10u128.pow(a.s as u32) {
                ensure!(big(d) == a.big().abs(), "sqrt of 0 or 1 moved: {:?} -> {}", a, show(d));
            }
            Out::Ok(a.v.0 > 1, vec![if perfect { "perfect-square" } else { "irrational" }])
        }
    }
}
fn squares() -> BoxedStrategy<D> {
    prop_oneof![
        4 => any_d(128, 38),
        2 => any_d(88, 12),
        2 => (any_u128(44), 0u8..=9, 0u128..3, any::<bool>()).prop_map(|(r, half, k, up)| {
            let v = r * r;
            D { v: U(if up { v + k } else { v.saturating_sub(k) }), s: half * 2, n: false }
        }),
    ]
    .boxed()
}
fn c06_monotone(i: &(D, U)) -> Out {
    let (a, k) = *i;
    let b = D { v: U(a.v.0.saturating_add(k.0)), ..a };
    let (a, b) = (D { n: false, ..a }, D { n: false, ..b });
    if let (Ok(Ok(x)), Ok(Ok(y))) = (sut(|| a.d().sqrt()), sut(|| b.d().sqrt())) {
        ensure!(big(x) <= big(y).add(&Big::one()), "sqrt not monotone within one unit: {:?} -> {}, {:?} -> {}", a, show(x), b, show(y));
        return ok(true);
    }
    ok(false)
}

// ---------------------------------------------------------------- C07
fn pow_int_in() -> BoxedStrategy<(D, U)> {
    prop_oneof![
        3 => (any_d(64, 12), 0u128..12).prop_map(|(d, e)| (d, U(e))),
        3 => ((1_000_000_000_000u128..1_002_000_000_000), any::<bool>(), 0u128..60_000).prop_map(|(v, n, e)| (D { v: U(v), s: 12, n }, U(e))),
        2 => ((1u128..3_000_000), any::<bool>(), 0u128..200).prop_map(|(v, n, e)| (D { v: U(v), s: 6, n }, U(e))),
        1 => (any_d(20, 0), 0u128..40).prop_map(|(d, e)| (d, U(e))),
    ]
    .boxed()
}
/// integer power by exact arithmetic, in unscaled units of the result's scale, as (num, 10^k)
fn pow_exact_bits(a: &D, e: u128) -> f64 {
    if a.v.0 == 0 {
        return -1e9;
    }
    // log2 |a|^e
    e as f64 * ((a.v.0 as f64).log2() - a.s as f64 * 10f64.log2())
}
fn c07_int(i: &(D, U)) -> Out {
    let (a, e) = (i.0, (i.1).0);
    let r = sut(|| Pow::<u128>::pow(a.d(), e));
    let lg = pow_exact_bits(&a, e);
    let sbits = a.s as f64 * 10f64.log2();
    // enough headroom that no intermediate of a square-and-multiply can overflow
    let must = lg.max(0.0) + 2.0 * sbits < 127.0 || a.v.0 == 0;
    let d = match r {
        Err(p) => {
            ensure!(!must, "{:?}^{} refused: {}", a, e, p);
            return Out::Ok(false, vec!["refused"]);
        }
        Ok(d) => d,
    };
    ensure!(d.scale == a.s, "{:?}^{}: scale {}", a, e, d.scale);
    ensure!(lg + sbits < 128.01, "{:?}^{} = {} although it cannot fit", a, e, show(d));
    let neg = a.n && a.v.0 != 0 && e % 2 == 1;
    ensure!(d.value == 0 || d.negative == neg, "{:?}^{} has the wrong sign: {}", a, e, show(d));
    if e == 0 {
        ensure!(big(d) == Big::pow10(a.s as u32), "{:?}^0 = {}", a, show(d));
        return Out::Ok(true, vec!["zero-exponent"]);
    }
    if e == 1 {
        ensure!(big(d) == a.big(), "{:?}^1 = {}", a, show(d));
        return Out::Ok(true, vec!["exponent-one"]);
    }
    let mag = Big::from(d.value);
    // error budget of truncating square-and-multiply: 2e units relative to max(1, exact)
    if e <= 4000 && lg.abs() < 400.0 || a.s == 0 || e < 64 {
        let n = Big::from(a.v.0).pow(e);
        let den = Big::pow10(a.s as u32).pow(e - 1);
        let fl = n.div(&den);
        let one = Big::pow10(a.s as u32);
        let m = if fl > one { fl.clone() } else { one.clone() };
        let tol = if a.s == 0 { Big::zero() } else { m.mul(&Big::from(2 * e)).div(&one).add(&Big::one()) };
        ensure!(mag <= fl, "{:?}^{} = {} exceeds the exact value {}", a, e, show(d), fl);
        ensure!(fl.sub(&mag) <= tol, "{:?}^{} = {} exact {} (tolerance {})", a, e, show(d), fl, tol);
    } else if lg + sbits < 0.5 {
        ensure!(mag <= Big::from(2 * e + 2), "{:?}^{} = {} although it is below one unit", a, e, show(d));
    } else {
        // 1 + small: compare in logarithms
        let x = mag.to_f64().log2() - sbits;
        let tol = 2.0 * e as f64 * 10f64.powi(-(a.s as i32)) * 1.4427 + lg.abs() * 1e-13 + 1e-11;
        ensure!((x - lg).abs() <= tol, "{:?}^{} = {} : log2 {} expected {} (tolerance {})", a, e, show(d), x, lg, tol);
    }
    Out::Ok(a.v.0 > 1, vec![if a.n { "negative-base" } else { "positive-base" }])
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct PowHuge {
    base: D,
    e: U,
    decimal_exp: bool,
    neg_exp: bool,
}
fn pow_huge_in() -> BoxedStrategy<PowHuge> {
    let e = prop_oneof![
        3 => (31u32..63, 0u128..300).prop_map(|(b, k)| (1u128 << b) + k),
        2 => (31u32..63, 1u128..300).prop_map(|(b, k)| (1u128 << b) - k),
        2 => 4_000u128..(1 << 36),
        1 => 1u128..(1 << 63),
    ];
    (2u8..=12, prop_oneof![2 => Just(0i64), 3 => -3i64..=3, 1 => -1000i64..1000, 1 => Just(i64::MIN)], any::<bool>(), e, any::<bool>(), any::<bool>())
        .prop_map(|(s, k, n, e, decimal_exp, neg_exp)| {
            let one = 10i128.pow(s as u32);
            let v = if k == i64::MIN { 0 } else { (one + k as i128).max(0) as u128 };
            PowHuge { base: D { v: U(v), s, n }, e: U(e), decimal_exp, neg_exp: neg_exp && decimal_exp }
        })
        .boxed()
}
/// exponents no loop over the factors would reach
fn c07_huge(i: &PowHuge) -> Out {
    let (a, e) = (i.base, i.e.0);
    let one = 10u128.pow(a.s as u32);
    let r = sut(|| {
        if i.decimal_exp {
            Pow::<Decimal>::pow(a.d(), Decimal::new(e * one, a.s, i.neg_exp))
        } else {
            Pow::<u128>::pow(a.d(), e)
        }
    });
    // ln |a|^e, and what truncating every product can take away from it
    let h = (a.v.0 as f64 - one as f64) / one as f64;
    let ln = e as f64 * h.ln_1p();
    let slack = 2.0 * e as f64 / one as f64 * if h < 0.0 { 1.0 + 2.0 * h.abs() } else { 1.0 };
    if a.v.0 == 0 && i.neg_exp {
        return match r {
            Err(_) => Out::Ok(true, vec!["reciprocal-of-zero"]),
            Ok(d) => bad(format!("0^-{} gave {}", e, show(d))),
        };
    }
    // every square on the way has to fit
    let fits = ln.max(0.0) * 2.0 + 2.0 * (one as f64).ln() < 87.0;
    let d = match r {
        Ok(d) => d,
        Err(p) => {
            let vanishes = i.neg_exp && ln - slack < -(one as f64).ln() + 1.0;
            ensure!(!fits || vanishes, "{:?}^{:?} refused: {}", a, i, p);
            return Out::Ok(false, vec!["refused"]);
        }
    };
    ensure!(d.scale == a.s, "{:?}: scale {}", i, d.scale);
    let neg = a.n && a.v.0 != 0 && e % 2 == 1;
    ensure!(d.value == 0 || d.negative == neg, "{:?} has the wrong sign: {}", i, show(d));
    if a.v.0 == 0 || a.v.0 == one {
        ensure!(d.value == a.v.0, "{:?} = {}", i, show(d));
        return Out::Ok(true, vec![if a.v.0 == 0 { "zero" } else { "one" }]);
    }
    // exact to within the slack, as long as the power is neither truncated away nor blown up
    if slack > 3.0 || ln.abs() > 40.0 {
        return Out::Ok(false, vec!["beyond-reach"]);
    }
    let unit = 1.0 / one as f64;
    let (lo, hi) = ((ln - slack).exp() * (1.0 - 1e-6), ln.exp() * (1.0 + 1e-6));
    // a small power is truncated by whole units
    let lo = if h < 0.0 { (lo - 2.0 * e as f64 * unit).max(0.0) } else { lo };
    let got = d.value as f64 * unit;
    if i.neg_exp {
        ensure!(got >= 1.0 / hi - 2.0 * unit, "{:?} = {} expected at least {}", i, got, 1.0 / hi);
        ensure!(lo <= 0.0 || got <= 1.0 / lo + 2.0 * unit, "{:?} = {} expected at most {}", i, got, 1.0 / lo);
    } else {
        ensure!(got <= hi + unit && got >= lo - unit, "{:?} = {} expected {}..{}", i, got, lo, hi);
    }
    Out::Ok(true, vec!["near-one"])
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct PowDec {
    base: D,
    num: u16, // exponent in hundredths
    neg: bool,
    zero_exp_sign: bool,
}
fn pow_dec_in() -> BoxedStrategy<PowDec> {
    let base = prop_oneof![
        4 => (any_u128(76), 2u8..=12),
        4 => (any_u128(60), Just(12u8)),
        2 => ((1_000_000_000_000u128..500_000_000_000_000), Just(12u8)),
    ];
    let num = prop_oneof![
        6 => prop_oneof![Just(25u16), Just(50), Just(100), Just(125), Just(150)],
        2 => (0u16..8).prop_map(|k| k * 100),
        1 => 0u16..700,
    ];
    (base, prop::bool::weighted(0.1), num, any::<bool>())
        .prop_map(|((v, s), n, num, neg)| PowDec { base: D { v: U(v), s, n }, num, neg, zero_exp_sign: false })
        .boxed()
}
/// inclusive bounds for a square root at scale s whose operand lies in [lo, hi]
fn sqrt_iv(lo: &Big, hi: &Big, s: u8) -> (Big, Big) {
    let d = Big::pow10(s as u32);
    let l = lo.mul(&d).isqrt().sub(&Big::one());
    let h = hi.mul(&d).isqrt().add(&Big::one());
    (if l.is_neg() { Big::zero() } else { l }, h)
}
fn c07_frac(i: &PowDec) -> Out {
    let a = i.base;
    let e = D { v: U(i.num as u128 * 10u128.pow(a.s as u32 - 2)), s: a.s, n: i.neg };
    let r = sut(|| Pow::<Decimal>::pow(a.d(), e.d()));
    let one = Big::pow10(a.s as u32);
    if i.num == 0 {
        return match r {
            Ok(d) => {
                ensure!(big(d) == one && d.scale == a.s, "{:?}^0 = {}", a, show(d));
                Out::Ok(true, vec!["zero"])
            }
            Err(p) => bad(format!("{:?}^0 refused {}", a, p)),
        };
    }
    let integer = i.num % 100 == 0;
    let supported = integer || matches!(i.num, 25 | 50 | 125 | 150);
    if !supported {
        return match r {
            Err(_) => Out::Ok(true, vec!["unsupported"]),
            Ok(d) => bad(format!("{:?}^{:?} is not supported but gave {}", a, e, show(d))),
        };
    }
    if a.n && a.v.0 != 0 && !integer {
        return match r {
            Err(_) => Out::Ok(true, vec!["root-of-negative"]),
            Ok(d) => bad(format!("fractional power {:?}^{:?} of a negative number gave {}", a, e, show(d))),
        };
    }
    let x = a.big();
    // bounds of the positive power
    let (lo, hi) = if integer {
        let k = (i.num / 100) as u128;
        let n = x.abs().pow(k);
        let fl = n.div(&one.pow(k - 1));
        let m = if fl > one { fl.clone() } else { one.clone() };
        let tol = m.mul(&Big::from(2 * k)).div(&one).add(&Big::one());
        let tol = if k == 1 { Big::zero() } else { tol };
        let l = fl.sub(&tol);
        (if l.is_neg() { Big::zero() } else { l }, fl)
    } else {
        let (l1, h1) = sqrt_iv(&x, &x, a.s);
        let (l, h) = match i.num {
            50 | 150 => (l1, h1),
            _ => sqrt_iv(&l1, &h1, a.s),
        };
        if i.num > 100 {
            (x.mul(&l).div(&one), x.mul(&h).div(&one))
        } else {
            (l, h)
        }
    };
    let neg = a.n && integer && (i.num / 100) % 2 == 1;
    // overflow headroom
    let head = hi.mul(&one).mul(&Big::from(2));
    let must = head <= max() && x.abs().mul(&one) <= max() && one.mul(&one) <= max();
    let (lo, hi, must) = if i.neg {
        if lo.is_zero() {
            // 1/0 possible: only the upper side is informative
            return match r {
                Err(_) => Out::Ok(false, vec!["tiny-inverse"]),
                Ok(d) => {
                    ensure!(hi.is_zero() || Big::from(d.value).add(&Big::one()) >= one.mul(&one).div(&hi), "{:?}^{:?} = {}", a, e, show(d));
                    Out::Ok(false, vec!["tiny-inverse"])
                }
            };
        }
        let oo = one.mul(&one);
        (oo.div(&hi), oo.div(&lo), must)
    } else {
        (lo, hi, must)
    };
    match r {
        Err(p) => {
            ensure!(!must, "{:?}^{:?} refused: {}", a, e, p);
            Out::Ok(false, vec!["refused"])
        }
        Ok(d) => {
            let m = Big::from(d.value);
            ensure!(d.scale == a.s && m >= lo && m <= hi, "{:?}^{:?} = {} outside [{}, {}]", a, e, show(d), lo, hi);
            ensure!(d.value == 0 || d.negative == neg, "{:?}^{:?} has the wrong sign: {}", a, e, show(d));
            Out::Ok(a.v.0 > 1, vec![if i.neg { "inverse" } else { "direct" }, if integer { "integer" } else { "fractional" }])
        }
    }
}

pub fn subs(id: &str) -> Option<Vec<Box<dyn SubCheck>>> {
    Some(match id {
        "C01" => vec![
            prop!("same_scale", "pairs of signed decimals of one scale over all magnitudes; non-trivial = both non-zero", 1_500_000, 40_000_000, pair_same, c01_same),
            prop!("scale_mismatch", "pairs with independent scales; non-trivial = scales differ", 300_000, 5_000_000, || (any_d(100, 38), any_d(100, 38)).boxed(), c01_scale),
        ],
        "C02" => vec![
            prop!("mul", "signed pairs over all magnitudes and scales; non-trivial = product fits and has a remainder to round", 900_000, 25_000_000, muldiv_pair, c02_mul),
            prop!("div", "signed pairs; non-trivial = dividend fits and has a remainder, or divisor is zero", 900_000, 25_000_000, muldiv_pair, c02_div),
            prop!("div_to_scale", "signed pairs with a target scale; non-trivial = non-zero representable result", 600_000, 15_000_000,
                || (muldiv_pair(), 0u8..=24).prop_map(|((a, b), t)| (a, b, t)).boxed(), c02_div_scale),
        ],
        "C03" => vec![
            prop!("rescale", "signed decimals and target scales; non-trivial = non-zero and scale changes", 800_000, 25_000_000, || (any_d(128, 38), 0u8..=38).boxed(), c03_rescale),
            prop!("amounts", "signed decimals to integers and floats; non-trivial = non-zero", 800_000, 25_000_000,
                || (prop_oneof![any_d(128, 38), any_d(64, 12), any_d(33, 0)], 0u8..=20).boxed(), c03_amounts),
            prop!("construct", "integers into decimals and back; non-trivial = non-zero", 200_000, 3_000_000, || (any_u128(64).prop_map(|x| x as u64), any_u128(128).prop_map(U), 0u8..=38).boxed(), c03_build),
        ],
        "C04" => vec![
            prop!("order", "pairs of one scale incl. equal magnitudes and both signs of zero; every case is non-trivial", 900_000, 25_000_000, cmp_pair, c04_order),
            prop!("computed", "comparison of values produced by mul, div and neg (signed zeros) with a third value", 400_000, 10_000_000,
                || (any_d(60, 12), any_d(60, 12), prop_oneof![any_d(60, 12), Just(D { v: U(0), s: 0, n: false })]).boxed(), c04_results),
            prop!("scale_mismatch", "pairs with independent scales; non-trivial = scales differ", 200_000, 4_000_000, || (any_d(100, 38), any_d(100, 38)).boxed(), c04_scale),
        ],
        "C05" => vec![
            prop!("print_parse", "signed decimals printed and parsed back; non-trivial = non-zero", 500_000, 15_000_000, || any_d(128, 38), c05_print),
            prop!("literal", "literals from the grammar [-]digits[.digits][(e|E)[sign]digits] against their exact value; non-trivial = non-zero or out of range", 500_000, 15_000_000, lits, c05_literal),
            prop!("malformed", "random and mutated text; non-trivial = malformed and rejected", 500_000, 15_000_000, junk, c05_malformed),
        ],
        "C06" => vec![
            prop!("accuracy", "decimals over all magnitudes and scales, perfect squares and their neighbours, negatives; non-trivial = value above one unit, negative or out of range", 400_000, 12_000_000, squares, c06_sqrt),
            prop!("monotone", "ordered pairs", 200_000, 5_000_000, || (any_d(100, 12), any_u128(80).prop_map(U)).boxed(), c06_monotone),
        ],
        "C07" => vec![
            prop!("integer", "signed bases and integer exponents incl. tick-like 1.0000x^n; non-trivial = base above one unit", 150_000, 4_000_000, pow_int_in, c07_int),
            prop!("huge", "bases 0, +-1 and within a few units of one, exponents up to 2^63 through either form of pow; non-trivial = the result is pinned down", 40_000, 1_000_000, pow_huge_in, c07_huge),
            prop!("fractional", "bases with exponents 0, .25, .5, 1, 1.25, 1.5, integers, their negatives, and unsupported ones; non-trivial = base above one unit", 300_000, 8_000_000, pow_dec_in, c07_frac),
        ],
        _ => return None,
    })
}
