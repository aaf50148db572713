//! Receipts: what deposits, withdrawals and swaps print is the only thing that tells the caller what
//! to hand over and what he gets; it has to agree with what the pool booked.
use crate::core::*;
use crate::d_props::prop;
use crate::pool::*;
use std::sync::{Arc, Mutex};

/// What the current thread prints while `f` runs.
fn printed(f: impl FnOnce()) -> String {
    struct Restore(Option<Arc<Mutex<Vec<u8>>>>);
    impl Drop for Restore {
        fn drop(&mut self) {
            std::io::set_output_capture(self.0.take());
        }
    }
    let buf = Arc::new(Mutex::new(Vec::new()));
    let old = Restore(std::io::set_output_capture(Some(buf.clone())));
    f();
    drop(old);
    let b = buf.lock().unwrap_or_else(|e| e.into_inner());
    String::from_utf8_lossy(&b).into_owned()
}

pub trait Prints: PoolApi {
    fn printed(&mut self, f: impl FnOnce(&mut Self)) -> String {
        printed(|| f(self))
    }
}
impl Prints for DPool {}
impl Prints for FPool {}
impl Prints for crate::py::PyPool {
    fn printed(&mut self, f: impl FnOnce(&mut Self)) -> String {
        f(self);
        crate::py::text()
    }
}

/// The number printed after the last mention of `key`: `Decimal { value, scale, negative }` or plain.
/// Plain ones come with the error of their last printed digit.
fn after(s: &str, key: &str) -> Option<(N, f64)> {
    let t = &s[s.rfind(key)? + key.len()..];
    let t = t.trim_start_matches(|c| c == '=' || c == ':' || c == ' ');
    if let Some(t) = t.strip_prefix("decimal {") {
        let t = &t[..t.find('}')?];
        let field = |n: &str| t.split(',').find_map(|p| p.trim().strip_prefix(n).map(|v| v.trim_start_matches(':').trim().to_string()));
        let v: i128 = field("value")?.parse().ok()?;
        if field("scale")? != "12" {
            return None;
        }
        return Some((nq(if field("negative")? == "true" { -v } else { v }), 0.0));
    }
    let end = t.char_indices().find(|(_, c)| !(c.is_ascii_alphanumeric() || matches!(c, '.' | '-' | '+'))).map(|p| p.0).unwrap_or(t.len());
    let t = t[..end].trim_end_matches('.');
    if t == "none" {
        return Some((nf(0.0), 0.0));
    }
    let v: f64 = t.parse().ok()?;
    let digits = t.split('.').nth(1).map(|d| if d.contains('e') { 20 } else { d.len() as i32 }).unwrap_or(0);
    Some((nf(v), if digits == 4 { 0.6e-4 } else { 0.0 }))
}

/// A pool whose receipts are compared with what it booked.
struct Cap<P> {
    p: P,
    bad: Option<String>,
    seen: u32,
}
fn minus<P: PoolApi>(a: &N, b: &N) -> N {
    if P::EXACT {
        nq(a.i - b.i)
    } else {
        nf(a.f - b.f)
    }
}
fn plus<P: PoolApi>(a: &N, b: &N) -> N {
    if P::EXACT {
        nq(a.i + b.i)
    } else {
        nf(a.f + b.f)
    }
}
impl<P: Prints> Cap<P> {
    /// `mag`: the size of the figures the expected value is a difference of
    fn judge(&mut self, what: &str, text: &str, key: &str, want: &N, mag: f64) {
        let (got, slack) = match after(text, key) {
            Some(g) => g,
            None => return, // not printed, or in another form: the wording is not what is judged
        };
        self.seen += 1;
        let okay = if P::EXACT && slack == 0.0 { got.i == want.i } else { (got.f - want.f).abs() <= slack + 1e-12 * (mag + want.f.abs()) + 1e-15 };
        if !okay && self.bad.is_none() {
            self.bad = Some(format!("the receipt of a {} says {} {}, booked was {}", what, key, got.f, want.f));
        }
    }
    fn totals(&mut self, a: &St, b: &St) -> [(N, N, f64); 2] {
        let f = |r0: &N, f0: &N, a0: &N, r1: &N, f1: &N, a1: &N| {
            let pots = plus::<P>(&minus::<P>(f0, f1), &minus::<P>(a0, a1));
            (minus::<P>(&minus::<P>(r1, r0), &pots), pots, r0.f.abs() + r1.f.abs() + f0.f.abs() + a0.f.abs())
        };
        [f(&a.x, &a.xf, &a.xa, &b.x, &b.xf, &b.xa), f(&a.y, &a.yf, &a.ya, &b.y, &b.yf, &b.ya)]
    }
}
impl<P: Prints> PoolApi for Cap<P> {
    const EXACT: bool = P::EXACT;
    const LOWEST: i64 = P::LOWEST;
    fn create(c: &Cfg) -> Self {
        Cap { p: P::create(c), bad: None, seen: 0 }
    }
    fn deposit(&mut self, u: &'static str, x: &N, y: &N, a: &N, b: &N) {
        let s0 = self.p.state();
        let t = self.p.printed(|p| p.deposit(u, x, y, a, b)).to_lowercase();
        let s1 = self.p.state();
        let [(dx, px, mx), (dy, py, my)] = self.totals(&s0, &s1);
        self.judge("deposit", &t, "x_debited", &dx, mx);
        self.judge("deposit", &t, "y_debited", &dy, my);
        self.judge("deposit", &t, "fees_x+adj_x", &px, mx);
        self.judge("deposit", &t, "fees_y+adj_y", &py, my);
        self.judge("deposit", &t, "x returned", &minus::<P>(x, &dx), mx + x.f);
        self.judge("deposit", &t, "y returned", &minus::<P>(y, &dy), my + y.f);
    }
    fn withdraw(&mut self, u: &'static str, l: &N, a: &N, b: &N) {
        let s0 = self.p.state();
        let t = self.p.printed(|p| p.withdraw(u, l, a, b)).to_lowercase();
        let s1 = self.p.state();
        let [(dx, px, mx), (dy, py, my)] = self.totals(&s0, &s1);
        let zero = nq(0);
        self.judge("withdrawal", &t, "x_sent", &minus::<P>(&zero, &dx), mx);
        self.judge("withdrawal", &t, "y_sent", &minus::<P>(&zero, &dy), my);
        self.judge("withdrawal", &t, "fees_x+adj_x", &px, mx);
        self.judge("withdrawal", &t, "fees_y+adj_y", &py, my);
    }
    fn swap(&mut self, from_x: bool, amt: &N, o: &N) -> Swp {
        let mut out = None;
        let t = self.p.printed(|p| out = Some(p.swap(from_x, amt, o))).to_lowercase();
        let q = out.unwrap();
        let s = self.p.state();
        let gave = minus::<P>(&nq(0), &q.send);
        let (x, y) = if from_x { (q.recv, gave) } else { (gave, q.recv) };
        let w = "swap";
        self.judge(w, &t, "swpd_dx", &x, 0.0);
        self.judge(w, &t, "swpd_dy", &y, 0.0);
        self.judge(w, &t, "pool_x", &s.x, 0.0);
        self.judge(w, &t, "pool_y", &s.y, 0.0);
        self.judge(w, &t, "avg_p", &q.avg, 0.0);
        self.judge(w, &t, "end_p", &q.end, 0.0);
        let (i, o, ia, of) = if from_x { ("x", "y", &s.ya, &s.xf) } else { ("y", "x", &s.xa, &s.yf) };
        self.judge(w, &t, &format!("adjusted_d{}", o), &q.adj, 0.0);
        self.judge(w, &t, &format!("pool_cumul_{}_adj", o), ia, 0.0);
        self.judge(w, &t, &format!("total_fee_{}", i), &q.fee, 0.0);
        self.judge(w, &t, &format!("pool_cumul_{}_fee", i), of, 0.0);
        q
    }
    fn state(&self) -> St {
        self.p.state()
    }
    fn rp_of(t: u64) -> N {
        P::rp_of(t)
    }
    fn liq_for(x: &N, y: &N, rp: &N, a: &N, b: &N) -> N {
        P::liq_for(x, y, rp, a, b)
    }
}

fn receipts<P: Prints>(h: &Hist) -> Out {
    let mut r = match Run::<Cap<P>>::new(&h.cfg, &[]) {
        Ok(r) => r,
        Err(_) => return Out::Ok(false, vec![]),
    };
    for (k, op) in h.ops.iter().enumerate() {
        let s = r.step(op);
        if let Some(b) = r.pool.bad.take() {
            return Out::Bad(format!("operation {}: {}", k, b));
        }
        match s {
            Step::Cont => {}
            _ => break,
        }
    }
    let mut l = r.labels.clone();
    l.sort();
    l.dedup();
    Out::Ok(r.pool.seen > 12, l)
}

const G_D: Gen = Gen { exact: true, hmm: false, nohmm: false, max_ops: 14, fee_zero: false };
const G_F: Gen = Gen { exact: false, ..G_D };
const R: &str = "more than a dozen printed figures were compared";
pub fn subs(id: &str) -> Option<Vec<Box<dyn SubCheck>>> {
    Some(match id {
        "C43" => vec![
            prop!("decimal", R, 60_000, 3_000_000, || hist_strat(G_D), receipts::<DPool>),
            prop!("float", R, 60_000, 3_000_000, || hist_strat(G_F), receipts::<FPool>),
            prop!("python", R, 30_000, 1_500_000, || hist_strat(G_F), receipts::<crate::py::PyPool>),
        ],
        "C44" => vec![
            prop!("decimal", RR, 200_000, 10_000_000, rec_strat, records_d),
            prop!("float", RR, 200_000, 10_000_000, rec_strat, records_f),
        ],
        _ => return None,
    })
}
const RR: &str = "the initial figures have the right signs";

// ------------------------------------------------------------------ records
/// Operations on one record: (kind, which, value)
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Rec {
    pub rec: u8,
    pub init: Vec<i64>,
    pub ops: Vec<(u8, u8, i64)>,
}
fn rec_strat() -> proptest::strategy::BoxedStrategy<Rec> {
    use proptest::prelude::*;
    let v = || prop_oneof![2 => Just(0i64), 3 => -5i64..6, 3 => -2_000_000_000_000i64..2_000_000_000_000, 1 => any::<i64>().prop_map(|v| v / 65536)];
    (any::<u8>(), proptest::collection::vec(v(), 6), proptest::collection::vec((any::<u8>(), any::<u8>(), v()), 0..12))
        .prop_map(|(rec, mut init, ops)| {
            if rec >= 64 {
                // of the right signs
                init.iter_mut().for_each(|v| *v = v.abs());
                if rec % 5 >= 3 {
                    init[1] = -init[1];
                }
            }
            Rec { rec, init, ops }
        })
        .boxed()
}
const KINDS: [(char, char); 4] = [('x', 'f'), ('y', 'f'), ('x', 'h'), ('y', 'h')];
macro_rules! records {
    ($name:ident, $m:ident, $T:ty, $tick:ty, $num:expr, $back:expr) => {
        fn $name(c: &Rec) -> Out {
            use hmmcl_sandbox::$m as m;
            let n = |v: i64| -> $T { $num(v) };
            let b = |v: $T| -> i64 { $back(v) };
            let i = &c.init;
            let neg = i.iter().any(|v| *v < 0);
            let fees = |f: ($T, $T, $T, $T)| [b(f.0), b(f.1), b(f.2), b(f.3)];
            let cmp = |what: &str, got: i64, want: i64| if got == want { Ok(()) } else { Err(format!("{} reads {} after {} was written", what, got, want)) };
            let run = || -> Result<bool, String> {
                match c.rec % 5 {
                    // pool-wide record
                    0 => {
                        let made = sut(|| m::GlobalState::new(n(i[0]), n(i[1]), i[0].unsigned_abs() as u32 as $tick, n(i[2]), n(i[3]), n(i[4]), n(i[5])));
                        let mut g = match made {
                            Err(_) if neg => return Ok(true),
                            Err(e) => return Err(format!("a pool record was refused: {}", e)),
                            Ok(_) if i[0] < 0 => return Err("a pool record of negative liquidity was accepted".into()),
                            Ok(g) => g,
                        };
                        let (mut l, mut rp, mut t, mut f) = (i[0], i[1], i[0].unsigned_abs() as u32 as $tick, [i[2], i[3], i[4], i[5]]);
                        for (k, w, v) in &c.ops {
                            match k % 4 {
                                0 => match sut(|| g.add_liq(n(*v))) {
                                    Ok(()) if l + v < 0 => return Err(format!("liquidity {} + {} was accepted", l, v)),
                                    Ok(()) => l += v,
                                    Err(e) if l + v >= 0 => return Err(format!("liquidity {} + {} was refused: {}", l, v, e)),
                                    Err(_) => {}
                                },
                                1 => {
                                    rp = v.abs();
                                    g.set_rp(n(rp))
                                }
                                2 => {
                                    t = v.unsigned_abs() as u32 as $tick;
                                    g.set_tick(t)
                                }
                                _ => {
                                    let (a, q) = KINDS[*w as usize % 4];
                                    g.set_fee(a, q, n(*v));
                                    f[*w as usize % 4] = *v;
                                }
                            }
                            cmp("liquidity", b(g.liq()), l)?;
                            cmp("root price", b(g.rp()), rp)?;
                            cmp("tick", g.tick() as i64, t as i64)?;
                            for (j, (a, q)) in KINDS.iter().enumerate() {
                                cmp("fee growth", b(g.fee(*a, *q)), f[j])?;
                                cmp("fee growth (all)", fees(g.all_fees())[j], f[j])?;
                            }
                        }
                    }
                    1 => {
                        let made = sut(|| m::TickState::new(n(i[0]), n(i[1]), n(i[2]), n(i[3]), n(i[4]), n(i[5])));
                        let mut g = match made {
                            Err(_) if i[1..].iter().any(|v| *v < 0) => return Ok(true),
                            Err(e) => return Err(format!("a tick record was refused: {}", e)),
                            Ok(_) if i[1] < 0 => return Err("a tick record of negative gross liquidity was accepted".into()),
                            Ok(g) => g,
                        };
                        let (mut net, mut l, mut f) = (i[0], i[1], [i[2], i[3], i[4], i[5]]);
                        for (k, w, v) in &c.ops {
                            match k % 3 {
                                0 => match sut(|| g.add_liq_gross(n(*v))) {
                                    Ok(()) if l + v < 0 => return Err(format!("gross liquidity {} + {} was accepted", l, v)),
                                    Ok(()) => l += v,
                                    Err(e) if l + v >= 0 => return Err(format!("gross liquidity {} + {} was refused: {}", l, v, e)),
                                    Err(_) => {}
                                },
                                1 => {
                                    net += v;
                                    g.add_liq_net(n(*v))
                                }
                                _ => {
                                    let (a, q) = KINDS[*w as usize % 4];
                                    g.set_fee(a, q, n(*v));
                                    f[*w as usize % 4] = *v;
                                }
                            }
                            cmp("gross liquidity", b(g.liq_gross()), l)?;
                            cmp("net liquidity", b(g.liq_net()), net)?;
                            for (j, (a, q)) in KINDS.iter().enumerate() {
                                cmp("fee growth outside", b(g.fee(*a, *q)), f[j])?;
                                cmp("fee growth outside (all)", fees(g.all_fees())[j], f[j])?;
                            }
                        }
                    }
                    2 => {
                        let made = sut(|| m::PositionState::new(n(i[0]), n(i[2]), n(i[3]), n(i[4]), n(i[5])));
                        let mut g = match made {
                            Err(_) if i[0] < 0 => return Ok(true),
                            Err(e) => return Err(format!("a position record was refused: {}", e)),
                            Ok(_) if i[0] < 0 => return Err("a position of negative liquidity was accepted".into()),
                            Ok(g) => g,
                        };
                        let (mut l, mut f) = (i[0], [i[2], i[3], i[4], i[5]]);
                        for (k, w, v) in &c.ops {
                            match k % 2 {
                                0 => match sut(|| g.add_liq(n(*v))) {
                                    Ok(()) if l + v < 0 => return Err(format!("position liquidity {} + {} was accepted", l, v)),
                                    Ok(()) => l += v,
                                    Err(e) if l + v >= 0 => return Err(format!("position liquidity {} + {} was refused: {}", l, v, e)),
                                    Err(_) => {}
                                },
                                _ => {
                                    let (a, q) = KINDS[*w as usize % 4];
                                    g.set_fee(a, q, n(*v));
                                    f[*w as usize % 4] = *v;
                                }
                            }
                            cmp("position liquidity", b(g.liq()), l)?;
                            for (j, (a, q)) in KINDS.iter().enumerate() {
                                cmp("fee growth inside", b(g.fee(*a, *q)), f[j])?;
                                cmp("fee growth inside (all)", fees(g.all_fees())[j], f[j])?;
                            }
                        }
                    }
                    // a step of a swap: received, sent (never positive), adjustment, fee, price
                    3 => {
                        let wrong = i[0] < 0 || i[1] > 0 || i[2] < 0 || i[3] < 0 || i[4] < 0;
                        let cross = i[5] > 0;
                        let t = i[5].unsigned_abs() as u32 as $tick;
                        match sut(|| m::SwapWithinResult::new(n(i[0]), n(i[1]), t, n(i[4]), cross, n(i[2]), n(i[3]))) {
                            Err(_) if wrong => {}
                            Err(e) => return Err(format!("a swap step was refused: {}", e)),
                            Ok(_) if wrong => return Err("a swap step with a figure of the wrong sign was accepted".into()),
                            Ok(g) => {
                                for (w, a, q) in [("received", g.recv_amount(), i[0]), ("sent", g.send_amount(), i[1]), ("adjustment", g.send_hmm_adj(), i[2]), ("fee", g.recv_fee(), i[3]), ("price", g.end_rp(), i[4])] {
                                    cmp(w, b(a), q)?;
                                }
                                cmp("tick", g.end_tick() as i64, t as i64)?;
                                cmp("crossing", g.cross() as i64, cross as i64)?;
                            }
                        }
                    }
                    _ => {
                        let wrong = i[0] < 0 || i[1] > 0 || i[2] < 0 || i[3] < 0 || i[4] < 0 || i[5] < 0;
                        // (one side without the other is refused by the decimal pool only)
                        let odd = (i[0] == 0) != (i[1] == 0);
                        match sut(|| m::SwapOutput::new(n(i[0]), n(i[1]), n(i[2]), n(i[3]), n(i[4]), n(i[5]))) {
                            Err(_) if wrong || odd => {}
                            Err(e) => return Err(format!("a swap result was refused: {}", e)),
                            Ok(_) if wrong => return Err("a swap result with a figure of the wrong sign was accepted".into()),
                            Ok(g) => {
                                for (w, a, q) in [("received", g.recv_amount(), i[0]), ("sent", g.send_amount(), i[1]), ("adjustment", g.send_hmm_adj(), i[2]), ("fee", g.recv_fee(), i[3]), ("average price", g.avg_price(), i[4]), ("end price", g.end_price(), i[5])] {
                                    cmp(w, b(a), q)?;
                                }
                            }
                        }
                    }
                }
                Ok(c.rec >= 64)
            };
            match run() {
                Ok(n) => Out::Ok(n, vec![]),
                Err(e) => Out::Bad(e),
            }
        }
    };
}
records!(records_d, cl_pool, hmmcl_sandbox::decimal::Decimal, u128, |v: i64| hmmcl_sandbox::decimal::Decimal::new(v.unsigned_abs() as u128, 12, v < 0), |d: hmmcl_sandbox::decimal::Decimal| (d.value as i64) * if d.negative { -1 } else { 1 });
// quarter units: sums of them are exact
records!(records_f, cl_pool_float, f64, u32, |v: i64| v as f64 / 4.0, |d: f64| (d * 4.0) as i64);
