//! Pool histories: random operation sequences on the decimal and the float pool, run next to a
//! reference model (list of positions + piecewise constant-product / hybrid curve in f64) that is
//! re-synchronised with the observed price after every operation.
use crate::core::*;
use crate::dec::U;
use hmmcl_sandbox::cl_pool as dp;
use hmmcl_sandbox::cl_pool_float as fp;
use hmmcl_sandbox::decimal::Decimal;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const Q: f64 = 1e-12;

/// A number of the pool under test: exact 1e-12 quanta for the decimal pool, f64 for the float pool.
#[derive(Clone, Copy, Debug)]
pub struct N {
    pub i: i128,
    pub f: f64,
}
pub fn nq(i: i128) -> N {
    N { i, f: i as f64 * Q }
}
pub fn nf(f: f64) -> N {
    N { i: (f * 1e12).round() as i128, f }
}
pub fn dec(n: &N) -> Decimal {
    Decimal::new(n.i.unsigned_abs(), 12, n.i < 0)
}
pub fn und(d: Decimal) -> N {
    assert!(d.scale == 12, "pool value at scale {}", d.scale);
    let v = d.value as i128;
    nq(if d.negative { -v } else { v })
}

#[derive(Clone, Debug)]
pub struct St {
    pub x: N,
    pub xa: N,
    pub xf: N,
    pub y: N,
    pub ya: N,
    pub yf: N,
    pub liq: N,
    pub rp: N,
    pub tick: u64,
    pub ticks: Vec<u64>,
    pub npos: usize,
    pub nticks: usize,
}
#[derive(Clone, Copy, Debug)]
pub struct Swp {
    pub recv: N,
    /// magnitude paid out
    pub send: N,
    pub adj: N,
    pub fee: N,
    pub avg: N,
    pub end: N,
}

/// names that share initials, prefixes and letters up to case
pub const USERS: [&str; 5] = ["ann", "anna", "Ann", "ann1", "stranger"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub tick: u32,
    pub spacing: u32,
    /// hundredths
    pub c: u16,
    /// ppm
    pub fee: u32,
}

pub trait PoolApi: Sized {
    const EXACT: bool;
    /// lowest tick a position may start at, in spacings
    const LOWEST: i64 = 0;
    /// the range `lo` spacings from `base`, `w` spacings wide, within some 200_000 ticks
    fn range(base: i64, lo: i32, w: u16, sp: u64) -> (u64, u64) {
        let m = (60_000 / sp as i64).max(1);
        let lo = (base + lo as i64 % (m + 1)).max(Self::LOWEST) as u64 * sp;
        let w = (w as u64).max(1);
        let w = if w * sp > 90_000 { w % (60_000 / sp + 1) } else { w };
        (lo, lo + w.max(1) * sp)
    }
    fn create(c: &Cfg) -> Self;
    fn deposit(&mut self, u: &'static str, x: &N, y: &N, a: &N, b: &N);
    fn withdraw(&mut self, u: &'static str, l: &N, a: &N, b: &N);
    fn swap(&mut self, from_x: bool, amt: &N, oracle: &N) -> Swp;
    fn state(&self) -> St;
    fn rp_of(t: u64) -> N;
    fn liq_for(x: &N, y: &N, rp: &N, a: &N, b: &N) -> N;
}

pub struct DPool(pub dp::Pool<'static>);
pub struct FPool(pub fp::Pool<'static>);

/// a root price strictly inside tick t
pub fn mid<P: PoolApi>(t: u64) -> N {
    num::<P>(P::rp_of(t).f * 1.00002)
}
/// a value both representations agree on
pub fn num<P: PoolApi>(f: f64) -> N {
    if P::EXACT {
        nq((f * 1e12).round() as i128)
    } else {
        nf(f)
    }
}

impl PoolApi for DPool {
    const EXACT: bool = true;
    fn create(c: &Cfg) -> DPool {
        let rp = if c.tick % 2 == 0 { mid::<DPool>(c.tick as u64) } else { DPool::rp_of(c.tick as u64) };
        DPool(dp::Pool::new(
            "X",
            9,
            "Y",
            6,
            dec(&rp),
            c.spacing as u128,
            Decimal::new(c.c as u128 * 10_000_000_000, 12, false),
            Decimal::new(c.fee as u128 * 1_000_000, 12, false),
        ))
    }
    fn deposit(&mut self, u: &'static str, x: &N, y: &N, a: &N, b: &N) {
        self.0.deposit(u, dec(x), dec(y), dec(a), dec(b))
    }
    fn withdraw(&mut self, u: &'static str, l: &N, a: &N, b: &N) {
        self.0.withdraw(u, dec(l), dec(a), dec(b))
    }
    fn swap(&mut self, from_x: bool, amt: &N, o: &N) -> Swp {
        let r = if from_x { self.0.execute_swap_from_x(dec(amt), dec(o)) } else { self.0.execute_swap_from_y(dec(amt), dec(o)) };
        let s = und(r.send_amount());
        Swp {
            recv: und(r.recv_amount()),
            send: nq(-s.i),
            adj: und(r.send_hmm_adj()),
            fee: und(r.recv_fee()),
            avg: und(r.avg_price()),
            end: und(r.end_price()),
        }
    }
    fn state(&self) -> St {
        let p = &self.0;
        let (x, xa, xf) = p.x_info();
        let (y, ya, yf) = p.y_info();
        St {
            x: und(x),
            xa: und(xa),
            xf: und(xf),
            y: und(y),
            ya: und(ya),
            yf: und(yf),
            liq: und(p.glbl_liq()),
            rp: und(p.glbl_rp()),
            tick: p.glbl_tick() as u64,
            ticks: p.tick_keys_cloned(false).into_iter().map(|t| t as u64).collect(),
            npos: p.position_count(),
            nticks: p.tick_count(),
        }
    }
    fn rp_of(t: u64) -> N {
        use dp::PoolMath;
        und(dp::Pool::tick_to_rp(t as u128))
    }
    fn liq_for(x: &N, y: &N, rp: &N, a: &N, b: &N) -> N {
        use dp::PoolMath;
        und(dp::Pool::liq_from_x_y_rp_rng(dec(x), dec(y), dec(rp), dec(a), dec(b)))
    }
}
impl PoolApi for FPool {
    const EXACT: bool = false;
    fn create(c: &Cfg) -> FPool {
        let rp = mid::<FPool>(c.tick as u64);
        FPool(fp::Pool::new("X", 9, "Y", 6, rp.f, c.spacing, c.c as f64 / 100.0, c.fee as f64 / 1e6))
    }
    fn deposit(&mut self, u: &'static str, x: &N, y: &N, a: &N, b: &N) {
        self.0.deposit(u, x.f, y.f, a.f, b.f)
    }
    fn withdraw(&mut self, u: &'static str, l: &N, a: &N, b: &N) {
        self.0.withdraw(u, l.f, a.f, b.f)
    }
    fn swap(&mut self, from_x: bool, amt: &N, o: &N) -> Swp {
        let r = if from_x { self.0.execute_swap_from_x(amt.f, o.f) } else { self.0.execute_swap_from_y(amt.f, o.f) };
        Swp {
            recv: nf(r.recv_amount()),
            send: nf(-r.send_amount()),
            adj: nf(r.send_hmm_adj()),
            fee: nf(r.recv_fee()),
            avg: nf(r.avg_price()),
            end: nf(r.end_price()),
        }
    }
    fn state(&self) -> St {
        let p = &self.0;
        let (x, xa, xf) = p.x_info();
        let (y, ya, yf) = p.y_info();
        St {
            x: nf(x),
            xa: nf(xa),
            xf: nf(xf),
            y: nf(y),
            ya: nf(ya),
            yf: nf(yf),
            liq: nf(p.glbl_liq()),
            rp: nf(p.glbl_rp()),
            tick: p.glbl_tick() as u64,
            ticks: p.tick_keys_cloned(false).into_iter().map(|t| t as u64).collect(),
            npos: p.position_count(),
            nticks: p.tick_count(),
        }
    }
    fn rp_of(t: u64) -> N {
        use fp::PoolMath;
        nf(fp::Pool::tick_to_rp(t as u32))
    }
    fn liq_for(x: &N, y: &N, rp: &N, a: &N, b: &N) -> N {
        use fp::PoolMath;
        nf(fp::Pool::liq_from_x_y_rp_rng(x.f, y.f, rp.f, a.f, b.f).floor())
    }
}

// ------------------------------------------------------------------ operations
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Amt {
    /// ppm of the input that would move the price across `k` active ticks
    Rel(u8, u32),
    /// exactly to the k-th next active tick, plus or minus a few quanta
    To(u8, i8),
    /// absolute, in quanta
    Abs(U),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ora {
    None,
    /// root price moved by so many 1/100 ticks
    Off(i32),
    /// the current root price exactly
    Here,
    /// the root price of the k-th active tick on the side (up?), plus so many quanta
    At(bool, u8, i8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// user, lower bound (spacings from the pool's start), width (spacings), sub-tick remainder,
    /// log-liquidity in 1/100 decades, imbalance (ppm more of x / of y)
    Dep { u: u8, lo: i32, w: u16, r: u8, l: u16, ex: u32, ey: u32 },
    /// position index, ppm of its liquidity (1_000_000 = all)
    Wd { p: u8, f: u32 },
    /// fee claim: zero deposit (true) or zero withdrawal
    Claim { p: u8, dep: bool },
    /// add to an existing position
    More { p: u8, l: u16 },
    Swap { x: bool, a: Amt, o: Ora },
    /// a deposit or withdrawal of nothing over any range, held or not
    Nothing { u: u8, lo: i32, w: u16, dep: bool },
    /// a position of exactly the liquidity of an existing one, over a range adjoining it
    /// (above or below), so that the net liquidity of the shared tick is zero
    Adjoin { p: u8, up: bool, w: u16, u: u8 },
    /// withdraw from the larger of two positions down to the liquidity of the smaller
    Trim { p: u8, q: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
    /// order of the closing withdrawals
    pub order: u8,
}

#[derive(Clone, Copy)]
pub struct Gen {
    pub exact: bool,
    pub hmm: bool,
    pub nohmm: bool,
    pub max_ops: usize,
    pub fee_zero: bool,
}
pub fn cfg_strat(g: Gen) -> BoxedStrategy<Cfg> {
    // the code searches ticks one by one from zero, so high ones cost time
    let tick = prop_oneof![8 => 1u32..300, 40 => 300u32..2000, 80 => 2000u32..5000, 16 => 5000u32..12_000, 1 => 50_000u32..92_000, 1 => 12_000u32..50_000, 2 => 0u32..20];
    let spacing = prop_oneof![5 => Just(1u32), 1 => Just(2), 2 => Just(5), 2 => Just(10), 2 => 3u32..61, 1 => prop_oneof![Just(60u32), Just(64), Just(100), Just(128), Just(200), 61u32..1001]];
    // the decimal power knows a few exponents only
    let odd = || if g.exact { Just(150u16).boxed() } else { (1u16..201).boxed() };
    let c = if g.hmm {
        prop_oneof![2 => Just(100u16), 2 => Just(125), 4 => Just(150), 2 => Just(200), 1 => odd()].boxed()
    } else if g.nohmm {
        Just(0u16).boxed()
    } else {
        prop_oneof![16 => Just(0u16), 4 => Just(100), 4 => Just(125), 4 => Just(150), 4 => Just(200), 1 => odd()].boxed()
    };
    let fee = if g.fee_zero {
        Just(0u32).boxed()
    } else {
        prop_oneof![4 => Just(0u32), 4 => Just(500), 6 => Just(3000), 4 => 1u32..30_000, 2 => 30_000u32..300_000, 1 => 300_000u32..500_001].boxed()
    };
    (tick, spacing, c, fee).prop_map(|(tick, spacing, c, fee)| Cfg { tick, spacing, c, fee }).boxed()
}
pub fn dep_strat(g: Gen) -> BoxedStrategy<Op> {
    // log-liquidity: 10^(l/100)
    let l = if g.exact { prop_oneof![1 => 0u16..300, 5 => 200u16..700, 1 => 700u16..900].boxed() } else { (300u16..900).boxed() };
    let ex = || prop_oneof![3 => Just(0u32), 2 => 0u32..10_000, 2 => 0u32..3_000_000];
    let lo = prop_oneof![4 => -6i32..7, 3 => -60i32..60, 1 => -400i32..400];
    let w = prop_oneof![40 => 1u16..8, 40 => 1u16..80, 10 => 1u16..1500, 1 => 1500u16..65_000];
    (0u8..4, lo, w, any::<u8>(), l, ex(), ex()).prop_map(|(u, lo, w, r, l, ex, ey)| Op::Dep { u, lo, w, r, l, ex, ey }).boxed()
}
pub fn amt_strat() -> BoxedStrategy<Amt> {
    prop_oneof![
        5 => (0u8..3, prop_oneof![4 => 1u32..1_000_000, 2 => 1u32..20_000, 1 => 1_000_000u32..3_000_000]).prop_map(|(k, p)| Amt::Rel(k, p)),
        3 => (0u8..3, prop_oneof![3 => Just(0i8), 3 => -3i8..4, 1 => any::<i8>()]).prop_map(|(k, d)| Amt::To(k, d)),
        1 => (0u32..16, 1u128..100).prop_map(|(p, m)| Amt::Abs(U(m * 10u128.pow(p)))),
    ]
    .boxed()
}
pub fn swap_strat(g: Gen) -> BoxedStrategy<Op> {
    let o = if g.nohmm {
        Just(Ora::None).boxed()
    } else {
        let n: u32 = if g.exact { 1 } else { 0 };
        let _ = n;
        prop_oneof![1 => Just(Ora::None), 1 => Just(Ora::Here), 2 => (any::<bool>(), 0u8..3, prop_oneof![3 => Just(0i8), 1 => -1i8..2]).prop_map(|(u, k, d)| Ora::At(u, k, d)), 5 => (-3000i32..3000).prop_map(Ora::Off), 2 => (-300_000i32..300_000).prop_map(Ora::Off)].boxed()
    };
    (any::<bool>(), amt_strat(), o).prop_map(|(x, a, o)| Op::Swap { x, a, o }).boxed()
}
/// many positions, long histories, swaps through many ticks
pub fn crowd_strat(g: Gen) -> BoxedStrategy<Hist> {
    let far = || (any::<bool>(), prop_oneof![2 => (3u8..60, 1u32..1_000_000).prop_map(|(k, p)| Amt::Rel(k, p)), 1 => (3u8..60, -2i8..3).prop_map(|(k, d)| Amt::To(k, d))], swap_strat(g)).prop_map(|(x, a, s)| match s {
        Op::Swap { o, .. } => Op::Swap { x, a, o },
        s => s,
    });
    let deps = prop_oneof![1 => 8usize..20, 1 => 20usize..50].prop_flat_map(move |n| proptest::collection::vec(dep_strat(g), n));
    let op = prop_oneof![4 => far(), 5 => hist_strat(Gen { max_ops: 2, ..g }).prop_map(|h| h.ops[1].clone())];
    (cfg_strat(g), deps, proptest::collection::vec(op, 1..40), any::<u8>())
        .prop_map(|(cfg, mut ops, mut rest, order)| {
            ops.append(&mut rest);
            Hist { cfg, ops, order }
        })
        .boxed()
}
pub fn hist_strat(g: Gen) -> BoxedStrategy<Hist> {
    let op = prop_oneof![
        3 => dep_strat(g),
        2 => (any::<u8>(), prop_oneof![3 => Just(1_000_000u32), 1 => Just(999_999), 3 => 1u32..1_000_000]).prop_map(|(p, f)| Op::Wd { p, f }),
        1 => (any::<u8>(), any::<bool>()).prop_map(|(p, dep)| Op::Claim { p, dep }),
        1 => (any::<u8>(), 200u16..700).prop_map(|(p, l)| Op::More { p, l }),
        1 => (0u8..4, prop_oneof![-6i32..7, -60i32..60], 1u16..8, any::<bool>()).prop_map(|(u, lo, w, dep)| Op::Nothing { u, lo, w, dep }),
        1 => (any::<u8>(), any::<bool>(), 1u16..60, 0u8..4).prop_map(|(p, up, w, u)| Op::Adjoin { p, up, w, u }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(p, q)| Op::Trim { p, q }),
        9 => swap_strat(g),
    ];
    (cfg_strat(g), dep_strat(g), proptest::collection::vec(op, 1..g.max_ops), any::<u8>())
        .prop_map(|(cfg, d, mut ops, order)| {
            ops.insert(0, d);
            Hist { cfg, ops, order }
        })
        .boxed()
}

// ------------------------------------------------------------------ model
#[derive(Clone, Debug)]
pub struct Pos {
    pub u: usize,
    pub lo: u64,
    pub up: u64,
    pub rl: f64, // root price of lower tick
    pub ru: f64,
    /// liquidity: exact quanta for the decimal pool
    pub l: N,
    /// accrued, unclaimed: fee x, fee y, adj x, adj y
    pub acc: [f64; 4],
    /// slack of accrued values (per-token)
    pub slack: f64,
}
/// tags of the judgements a history makes
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T {
    Liq,
    Tick,
    Cons,
    Solv,
    Lim,
    Ref,
    Fee,
    Dist,
    Hmm,
    Dep,
    LiveSwap,
    LiveDep,
    LiveWd,
}

/// what the reference curve gives for one swap
#[derive(Clone, Debug, Default)]
pub struct RefSwap {
    pub recv: f64,
    pub send: f64,
    /// what the plain constant-product curve would send
    pub send_cpmm: f64,
    pub fee: f64,
    pub end_rp: f64,
    pub full: bool,
    pub hops: u32,
    pub gaps: u32,
    pub lmax: f64,
    pub tol_send: f64,
    pub tol_recv: f64,
    pub tol_rp: f64,
    /// per position shares: (index, fee on input, adj on output)
    pub share: Vec<(usize, f64, f64)>,
    pub hmm_used: bool,
    pub orc: f64,
}

pub struct Run<P: PoolApi> {
    pub pool: P,
    pub cfg: Cfg,
    pub st: St,
    pub pos: Vec<Pos>,
    pub want: &'static [T],
    pub labels: Vec<&'static str>,
    /// tolerance growth: number of pool-touching steps so far
    pub steps: f64,
    pub lsum: f64,
    /// operations so far (hops for swaps), liquidity and highest bound now, surplus rounding may leave
    pub steps_n: f64,
    pub lnow: f64,
    pub rmax: f64,
    pub over: f64,
    pub swaps: u32,
    pub crossings: u32,
    pub opened: u32,
    pub touched_claims: u32,
    pub last: Option<(Swp, RefSwap, bool)>,
}

pub enum Step {
    Cont,
    Stop,
    Bad(String),
}

/// integral of the hybrid curve: output paid for moving the root price from a to b (either direction)
pub fn hmm_out(from_x: bool, l: f64, a: f64, b: f64, c: f64, o: f64) -> f64 {
    // input x: y = L o^c (a^(1-c) - b^(1-c)) / (1-c); input y: x = L o^-c (b^(c-1) - a^(c-1)) / (c-1)
    let lnr = (b - a) / a;
    let lnr = lnr.ln_1p(); // ln(b/a)
    if from_x {
        // y out = L o^c * integral_b^a p^-c dp
        let base = l * o.powf(c);
        if c == 1.0 {
            -base * lnr
        } else {
            let k = 1.0 - c;
            -base * a.powf(k) * (k * lnr).exp_m1() / k
        }
    } else {
        // x out = L o^-c * integral_a^b p^(c-2) dp
        let base = l / o.powf(c);
        if c == 1.0 {
            base * lnr
        } else {
            let k = c - 1.0;
            base * a.powf(k) * (k * lnr).exp_m1() / k
        }
    }
}

macro_rules! judge {
    ($s:expr, $tag:expr, $c:expr, $($a:tt)*) => {
        if !($c) && $s.want.contains(&$tag) {
            return Step::Bad(format!($($a)*));
        }
    };
}

impl<P: PoolApi> Run<P> {
    pub fn new(h: &Cfg, want: &'static [T]) -> Result<Run<P>, String> {
        let pool = sut(|| P::create(h))?;
        let st = pool.state();
        Ok(Run {
            pool,
            cfg: h.clone(),
            st,
            pos: vec![],
            want,
            labels: vec![],
            steps: 0.0,
            lsum: 0.0,
            steps_n: 0.0,
            lnow: 0.0,
            rmax: 0.0,
            over: 0.0,
            swaps: 0,
            crossings: 0,
            opened: 0,
            touched_claims: 0,
            last: None,
        })
    }
    fn spacing(&self) -> u64 {
        self.cfg.spacing as u64
    }
    pub fn liq_at(&self, tick: u64) -> N {
        let mut i = 0i128;
        let mut f = 0f64;
        for p in &self.pos {
            if p.lo <= tick && tick < p.up {
                i += p.l.i;
                f += p.l.f;
            }
        }
        if P::EXACT {
            nq(i)
        } else {
            N { i, f }
        }
    }
    /// active ticks according to the model
    pub fn bounds(&self) -> Vec<u64> {
        let mut b: Vec<u64> = vec![];
        for p in &self.pos {
            b.push(p.lo);
            b.push(p.up);
        }
        b.sort();
        b.dedup();
        b
    }
    fn rel(&self) -> f64 {
        if P::EXACT {
            1e-11
        } else {
            1e-9
        }
    }
    /// absolute error one computation with liquidity l may carry on a token amount
    fn quantum(&self, l: f64) -> f64 {
        if P::EXACT {
            (l + 1.0) * 6.0 * Q
        } else {
            (l + 1.0) * 1e-13
        }
    }

    /// Reference outcome of a swap from the observed price.
    pub fn reference(&self, from_x: bool, amt: f64, oracle: f64, limit_k: Option<u8>) -> RefSwap {
        let mut r = RefSwap { orc: oracle, ..RefSwap::default() };
        let fee = self.cfg.fee as f64 / 1e6;
        let c = self.cfg.c as f64 / 100.0;
        let b = self.bounds();
        let mut rp = self.st.rp.f;
        let mut tick = self.st.tick as i64;
        let mut rem = amt;
        let mut crossed = 0u32;
        let q = if P::EXACT { Q } else { 1e-15 };
        loop {
            if let Some(k) = limit_k {
                if crossed > k as u32 {
                    break;
                }
            }
            if rem <= 0.0 {
                r.full = true;
                break;
            }
            let l = if tick < 0 { 0.0 } else { self.liq_at(tick as u64).f };
            let next = if from_x { b.iter().rev().find(|t| (**t as i64) <= tick) } else { b.iter().find(|t| (**t as i64) > tick) };
            let goal = match next {
                None => break,
                Some(t) => *t,
            };
            let rg = P::rp_of(goal).f;
            if l <= 0.0 {
                // gap: jump to the next active tick and enter it
                rp = rg;
                tick = if from_x { goal as i64 - 1 } else { goal as i64 };
                r.gaps += 1;
                continue;
            }
            r.lmax = r.lmax.max(l);
            let rg = if from_x { rg.min(rp) } else { rg.max(rp) };
            let doable = if from_x { l * (rp - rg) / (rp * rg) } else { l * (rg - rp) };
            let net = rem * (1.0 - fee);
            let (done, f, end, crossing) = if doable < net {
                (doable, doable / (1.0 - fee) * fee, rg, true)
            } else if from_x {
                (net, rem - net, l * rp / (net * rp + l), false)
            } else {
                (net, rem - net, rp + net / l, false)
            };
            // (in terms of the amount: no cancellation)
            let cp = if from_x { done * rp * end } else { done / (rp * end) };
            let mut out = cp;
            if c > 0.0 && oracle > 0.0 && ((from_x && oracle < rp) || (!from_x && oracle > rp)) && rp != end {
                r.hmm_used = true;
                let inside = (from_x && oracle >= end) || (!from_x && oracle <= end);
                out = if inside {
                    let rest = if from_x { l * (oracle - end) } else { l * (end - oracle) / (oracle * end) };
                    hmm_out(from_x, l, rp, oracle, c, oracle) + rest
                } else {
                    hmm_out(from_x, l, rp, end, c, oracle)
                };
            }
            r.recv += done + f;
            r.fee += f;
            r.send += out;
            r.send_cpmm += cp;
            r.hops += 1;
            r.tol_send += if from_x { l * q * 4.0 } else { l * q * 4.0 / (rp * rp).max(1.0) + l * q } + 10.0 * q;
            r.tol_recv += l * q * 4.0 + 10.0 * q;
            for (ix, p) in self.pos.iter().enumerate() {
                if (p.lo as i64) <= tick && tick < p.up as i64 {
                    r.share.push((ix, f * p.l.f / l, (cp - out) * p.l.f / l));
                }
            }
            rem -= done + f;
            rp = end;
            if crossing {
                crossed += 1;
                tick = if from_x { goal as i64 - 1 } else { goal as i64 };
            } else {
                rem = 0.0;
            }
        }
        if rem <= amt * 1e-12 {
            r.full = true;
        }
        r.end_rp = rp;
        let rel = self.rel();
        r.tol_send += r.send_cpmm.abs() * rel * 4.0;
        r.tol_recv += r.recv * rel;
        r.tol_rp = rp * 1e-11 + 4.0 * q * (r.hops as f64 + 1.0);
        r
    }
    pub fn amount(&self, from_x: bool, a: &Amt) -> Option<N> {
        let v = match a {
            Amt::Abs(u) => nq(u.0 as i128),
            Amt::Rel(k, ppm) => {
                let r = self.reference(from_x, f64::INFINITY, 0.0, Some(*k));
                num::<P>(r.recv * *ppm as f64 / 1e6)
            }
            Amt::To(k, d) => {
                let r = self.reference(from_x, f64::INFINITY, 0.0, Some(*k));
                let n = nf(r.recv);
                nq(n.i + *d as i128)
            }
        };
        if v.i <= 0 || !v.f.is_finite() || v.f > 1e12 {
            return None;
        }
        Some(v)
    }
    pub fn oracle(&self, o: &Ora) -> N {
        match o {
            Ora::None => nq(0),
            Ora::Here => self.st.rp,
            Ora::Off(k) => num::<P>(self.st.rp.f * (1.0001f64).powf(*k as f64 / 200.0)),
            Ora::At(up, k, d) => {
                let b = self.bounds();
                let t = if *up {
                    b.iter().filter(|t| **t > self.st.tick).nth(*k as usize)
                } else {
                    b.iter().rev().filter(|t| **t <= self.st.tick).nth(*k as usize)
                };
                match t {
                    None => self.st.rp,
                    Some(t) => {
                        let n = P::rp_of(*t);
                        if P::EXACT { nq(n.i + *d as i128) } else { nf(n.f * (1.0 + *d as f64 * 1e-12)) }
                    }
                }
            }
        }
    }

    /// invariants of the observed state, judged after every operation
    fn after(&mut self, what: &str) -> Step {
        let st = self.pool.state();
        let s = &st;
        // liquidity bookkeeping
        let l = self.liq_at(s.tick);
        let same = if P::EXACT { s.liq.i == l.i } else { (s.liq.f - l.f).abs() <= 1e-6 };
        judge!(self, T::Liq, same, "after {}: liquidity in range is {:?} but the positions covering tick {} sum to {:?}", what, s.liq.f, s.tick, l.f);
        let b = self.bounds();
        judge!(self, T::Liq, s.ticks == b, "after {}: active ticks {:?}, position bounds {:?}", what, s.ticks, b);
        judge!(self, T::Liq, s.nticks == b.len(), "after {}: {} active ticks counted, {} bounds", what, s.nticks, b.len());
        judge!(self, T::Liq, s.npos == self.pos.len(), "after {}: {} positions recorded, expected {}", what, s.npos, self.pos.len());
        // price and tick
        let lo = P::rp_of(s.tick);
        let sp = self.spacing();
        judge!(self, T::Tick, s.tick % sp == 0, "after {}: tick {} is not on the grid of spacing {}", what, s.tick, sp);
        let hi = P::rp_of(s.tick + sp);
        let eps = if P::EXACT { 0.0 } else { s.rp.f * 1e-12 };
        judge!(
            self,
            T::Tick,
            s.rp.f >= lo.f - eps && s.rp.f <= hi.f + eps,
            "after {}: root price {} outside [{}, {}] of its tick {}",
            what,
            s.rp.f,
            lo.f,
            hi.f,
            s.tick
        );
        // nothing negative
        let floor = if P::EXACT { 0.0 } else { -1e-6 - 1e-9 * self.lsum };
        for (n, v) in [("x", s.x), ("x adj", s.xa), ("x fee", s.xf), ("y", s.y), ("y adj", s.ya), ("y fee", s.yf), ("liquidity", s.liq)] {
            judge!(self, T::Cons, v.f >= floor, "after {}: {} is negative: {}", what, n, v.f);
        }
        // coverage of what the positions are worth
        self.lnow = self.pos.iter().map(|p| p.l.f).sum();
        self.rmax = self.pos.iter().map(|p| p.ru).fold(0.0, f64::max);
        let (mut wx, mut wy) = (0.0, 0.0);
        let mut acc = [0.0; 4];
        let mut slack = 0.0;
        for p in &self.pos {
            let r = s.rp.f.min(p.ru).max(p.rl);
            wx += p.l.f * (p.ru - r) / (r * p.ru);
            wy += p.l.f * (r - p.rl);
            for k in 0..4 {
                acc[k] += p.acc[k];
            }
            slack += p.slack;
        }
        let tol = self.tol_total(wx + wy);
        let (under, over) = if P::EXACT {
            // rounding goes the pool's way, except for single quanta per operation
            let noise = self.steps_n * 5.0 * Q + self.lnow * s.rp.f.max(self.rmax) * 2e-15 + (wx + wy) * 1e-14;
            (noise, noise + self.over)
        } else {
            (tol, tol + self.over)
        };
        judge!(self, T::Solv, s.x.f >= wx - under, "after {}: x reserve {} does not cover the positions' {} (tolerance {})", what, s.x.f, wx, under);
        judge!(self, T::Solv, s.y.f >= wy - under, "after {}: y reserve {} does not cover the positions' {} (tolerance {})", what, s.y.f, wy, under);
        judge!(self, T::Solv, s.x.f <= wx + over, "after {}: x reserve {} exceeds the positions' {} (tolerance {}): value nobody can withdraw", what, s.x.f, wx, over);
        judge!(self, T::Solv, s.y.f <= wy + over, "after {}: y reserve {} exceeds the positions' {} (tolerance {}): value nobody can withdraw", what, s.y.f, wy, over);
        let tf = tol + slack;
        for (k, v, n) in [(0, s.xf, "x fee"), (1, s.yf, "y fee"), (2, s.xa, "x adj"), (3, s.ya, "y adj")] {
            judge!(
                self,
                T::Dist,
                (v.f - acc[k]).abs() <= tf,
                "after {}: {} pot holds {} but providers have earned {} (tolerance {})",
                what,
                n,
                v.f,
                acc[k],
                tf
            );
        }
        self.st = st;
        Step::Cont
    }
    fn tol_total(&self, worth: f64) -> f64 {
        if P::EXACT {
            (self.lsum + 10.0) * 8.0 * Q + self.steps * 1e-10 + worth * 1e-10
        } else {
            (self.lsum + 10.0) * 2e-13 + self.steps * 1e-9 + worth * 1e-9 + 1e-6
        }
    }

    fn bounds_arg(&self, p: &Pos) -> (N, N) {
        if P::EXACT && (p.lo + p.up + p.u as u64) % 4 >= 2 {
            return (P::rp_of(p.lo), P::rp_of(p.up));
        }
        (mid::<P>(p.lo), mid::<P>(p.up))
    }
    /// judge what a touch of position `ix` paid out, and reset its accrual
    fn payout(&mut self, what: &str, ix: Option<usize>, before: &St) -> Step {
        let now = self.pool.state();
        let d = |a: &N, b: &N| if P::EXACT { (a.i - b.i) as f64 * Q } else { a.f - b.f };
        let paid = [d(&before.xf, &now.xf), d(&before.yf, &now.yf), d(&before.xa, &now.xa), d(&before.ya, &now.ya)];
        let (acc, tol) = match ix {
            Some(i) => {
                let p = &self.pos[i];
                (p.acc, p.slack + self.quantum(p.l.f) + p.acc.iter().sum::<f64>() * self.rel() + if P::EXACT { 0.0 } else { 1e-9 + 1e-12 * (before.xf.f + before.yf.f + before.xa.f + before.ya.f) })
            }
            None => ([0.0; 4], if P::EXACT { 0.0 } else { 1e-9 + 1e-12 * (before.xf.f + before.yf.f + before.xa.f + before.ya.f) }),
        };
        for (k, n) in ["x fee", "y fee", "x adj", "y adj"].iter().enumerate() {
            judge!(
                self,
                if self.want.contains(&T::Cons) { T::Cons } else { T::Dist },
                (paid[k] - acc[k]).abs() <= tol,
                "{}: paid out {} of the {} pot, the position has earned {} (tolerance {})",
                what,
                paid[k],
                n,
                acc[k],
                tol
            );
        }
        if acc.iter().any(|a| *a > 1e-6) {
            self.touched_claims += 1;
        }
        if let Some(i) = ix {
            let s = self.pos[i].slack;
            self.pos[i].acc = [0.0; 4];
            self.pos[i].slack = 0.0;
            self.lsum += s / Q.max(1e-13) * 0.0;
            self.steps += s * 1e10; // what was not paid out stays in the pots
        }
        Step::Cont
    }

    /// token amounts of one unit of liquidity over [rl, ru] at root price rp
    fn unit(rp: &N, rl: &N, ru: &N) -> (f64, f64) {
        if P::EXACT {
            let r = rp.i.min(ru.i).max(rl.i);
            ((ru.i - r) as f64 * Q / (r as f64 * Q * ru.f), (r - rl.i) as f64 * Q)
        } else {
            let r = rp.f.min(ru.f).max(rl.f);
            ((ru.f - r) / (r * ru.f), r - rl.f)
        }
    }
    pub fn deposit(&mut self, u: usize, lo: u64, up: u64, a: N, b: N, x: N, y: N, expect_zero: bool) -> Step {
        let before = self.st.clone();
        let (ra, rb) = (P::rp_of(lo), P::rp_of(up));
        let l = match sut(|| P::liq_for(&x, &y, &before.rp, &ra, &rb)) {
            Ok(l) => l,
            Err(_) => return Step::Stop, // outside the representable range
        };
        let ix = self.pos.iter().position(|p| p.u == u && p.lo == lo && p.up == up);
        let r = sut(|| self.pool.deposit(USERS[u], &x, &y, &a, &b));
        let what = format!("deposit by {} of ({}, {}) over ticks [{}, {})", USERS[u], x.f, y.f, lo, up);
        if let Err(e) = r {
            judge!(self, T::LiveDep, false, "{} aborted: {}", what, e);
            return Step::Stop;
        }
        self.opened += 1;
        self.steps += 1.0;
        self.steps_n += 1.0;
        self.lsum += l.f;
        let now = self.pool.state();
        match self.payout(&what, ix, &before) {
            Step::Cont => {}
            o => return o,
        }
        let (dx, dy) = if P::EXACT {
            ((now.x.i - before.x.i) as f64 * Q, (now.y.i - before.y.i) as f64 * Q)
        } else {
            (now.x.f - before.x.f, now.y.f - before.y.f)
        };
        // exact amounts for this liquidity
        let (rl, ru) = (ra.f, rb.f);
        let r = before.rp.f.min(ru).max(rl);
        let (ux, uy) = Self::unit(&before.rp, &ra, &rb);
        let (ex, ey) = (l.f * ux, l.f * uy);
        let tol = if P::EXACT { 4.0 * Q + (ex + ey) * 1e-14 } else { (l.f + 1.0) * 1e-13 + (ex + ey) * 1e-9 + 1e-12 * (before.x.f + before.y.f) };
        judge!(self, T::Dep, (dx - ex).abs() <= tol && (dy - ey).abs() <= tol, "{}: took ({}, {}), the position needs ({}, {}) (tolerance {})", what, dx, dy, ex, ey, tol);
        let eps = if P::EXACT { 1e-15 } else { 1e-12 * (before.x.f + before.y.f + x.f + y.f) };
        judge!(self, T::Dep, dx >= -eps && dx <= x.f + eps + x.f * 1e-15, "{}: took {} x of {}", what, dx, x.f);
        judge!(self, T::Dep, dy >= -eps && dy <= y.f + eps + y.f * 1e-15, "{}: took {} y of {}", what, dy, y.f);
        // the scarcer token is used up
        if !expect_zero {
            let mut want = f64::INFINITY;
            if ux > 0.0 {
                let e = if P::EXACT { 2.0 * Q * (ru + 2.0) / (ux * r * ru) + 2.0 * Q } else { 1.0 };
                want = want.min(x.f / ux - e);
            }
            if uy > 0.0 {
                let e = if P::EXACT { 2.0 * Q } else { 1.0 };
                want = want.min(y.f / uy - e);
            }
            want *= 1.0 - if P::EXACT { 1e-14 } else { 2e-10 };
            judge!(self, T::Dep, dx >= want * ux - tol && dy >= want * uy - tol, "{}: took ({}, {}), the amounts given are worth ({}, {}) (tolerance {})", what, dx, dy, want * ux, want * uy, tol);
        }
        judge!(self, T::Tick, now.tick == before.tick && same(&now.rp, &before.rp), "{}: moved the price", what);
        if l.i > 0 || (!P::EXACT && l.f > 0.0) {
            match ix {
                Some(i) => {
                    let p = &mut self.pos[i];
                    p.l = if P::EXACT { nq(p.l.i + l.i) } else { N { i: 0, f: p.l.f + l.f } };
                }
                None => self.pos.push(Pos { u, lo, up, rl, ru, l, acc: [0.0; 4], slack: 0.0 }),
            }
        }
        self.after(&what)
    }
    pub fn withdraw(&mut self, ix: usize, l: N, tag: T) -> Step {
        let before = self.st.clone();
        let p = self.pos[ix].clone();
        let (a, b) = self.bounds_arg(&p);
        let what = format!("withdrawal by {} of {} of {} over [{}, {})", USERS[p.u], l.f, p.l.f, p.lo, p.up);
        let asked = l;
        // the float pools keep liquidity in whole units
        let l = if P::EXACT { l } else { nf(l.f.ceil()) };
        if let Err(e) = sut(|| self.pool.withdraw(USERS[p.u], &asked, &a, &b)) {
            if self.beyond_floats(&e) {
                return Step::Stop;
            }
            judge!(self, tag, false, "{} aborted: {}", what, e);
            return Step::Stop;
        }
        self.steps += 1.0;
        self.steps_n += 1.0;
        self.lsum += l.f;
        let now = self.pool.state();
        match self.payout(&what, Some(ix), &before) {
            Step::Cont => {}
            o => return o,
        }
        let (ux, uy) = Self::unit(&before.rp, &P::rp_of(p.lo), &P::rp_of(p.up));
        let (ex, ey) = (l.f * ux, l.f * uy);
        let (dx, dy) = if P::EXACT {
            ((before.x.i - now.x.i) as f64 * Q, (before.y.i - now.y.i) as f64 * Q)
        } else {
            (before.x.f - now.x.f, before.y.f - now.y.f)
        };
        let tol = if P::EXACT { 4.0 * Q + (ex + ey) * 1.01e-12 } else { (l.f + 1.0) * 1e-13 + (ex + ey) * 1e-9 + 1e-12 * (before.x.f + before.y.f) + 1e-9 };
        // rounding may leave the reserve short of the last payouts
        let tol = if P::EXACT && (now.x.i == 0 || now.y.i == 0) { tol + self.steps_n * 5.0 * Q } else { tol };
        let tol = if !P::EXACT && (now.x.f <= 1e-9 || now.y.f <= 1e-9) { tol + 1e-6 + (ex + ey) * 1e-9 } else { tol };
        self.over += (ex + ey) * 1.01e-12;
        judge!(self, tag_of(tag), (dx - ex).abs() <= tol && (dy - ey).abs() <= tol, "{}: paid ({}, {}), the share is ({}, {}) (tolerance {})", what, dx, dy, ex, ey, tol);
        judge!(self, T::Tick, now.tick == before.tick && same(&now.rp, &before.rp), "{}: moved the price", what);
        let full = if P::EXACT { l.i == p.l.i } else { l.f == p.l.f };
        if full {
            self.pos.remove(ix);
        } else {
            let q = &mut self.pos[ix];
            q.l = if P::EXACT { nq(q.l.i - l.i) } else { N { i: 0, f: q.l.f - l.f } };
        }
        self.after(&what)
    }

    pub fn swap(&mut self, from_x: bool, amt: N, orc: N) -> Step {
        let before = self.st.clone();
        let rf = self.reference(from_x, amt.f, orc.f, None);
        // what a rounding error more or less on the input would have given
        let rl = self.reference(from_x, amt.f - rf.tol_recv, orc.f, None);
        let rh = self.reference(from_x, amt.f + rf.tol_recv, orc.f, None);
        let tol_send = rf.tol_send.max(rl.tol_send).max(rh.tol_send);
        let what = format!("swap of {} {} (oracle {}) at root price {} tick {}", amt.f, if from_x { "x" } else { "y" }, orc.f, before.rp.f, before.tick);
        let out = match sut(|| self.pool.swap(from_x, &amt, &orc)) {
            Ok(o) => o,
            Err(e) => {
                // a swap whose output is below the smallest amounts may be refused
                let dust = rf.send <= rf.tol_send * 2.0 + hmm_tol::<P>(&rf, self.cfg.c) + 1e-11 || rf.recv <= rf.tol_recv * 2.0 + 1e-11;
                if dust {
                    self.labels.push("dust-refused");
                    return Step::Stop;
                }
                if self.beyond_floats(&e) {
                    return Step::Stop;
                }
                judge!(self, T::LiveSwap, false, "{} aborted: {}", what, e);
                return Step::Stop;
            }
        };
        self.steps_n += rh.hops as f64 + 1.0;
        self.over += rh.lmax * rh.hops as f64 * Q * 1.1;
        if !P::EXACT {
            self.over += out.send.f.max(rh.send_cpmm) * 1.01e-12;
        }
        self.steps += rh.hops as f64 + 1.0;
        self.lsum += rh.lmax * (rh.hops as f64 + 1.0);
        self.swaps += 1;
        self.crossings += rf.hops.saturating_sub(1);
        let now = self.pool.state();
        let s = self;
        // a payout may be capped at a reserve that is short by rounding dust
        let empty = if from_x { now.y.f } else { now.x.f } <= if P::EXACT { 0.0 } else { 1e-9 };
        let dust = if !empty {
            0.0
        } else if P::EXACT {
            1000.0 * Q
        } else {
            1e-6 + 1e-9 * out.send.f
        };
        // --- limits
        let zero = if P::EXACT { 0.0 } else { 1e-12 * amt.f };
        judge!(s, T::Lim, out.recv.f <= amt.f + zero && out.recv.f >= 0.0, "{}: consumed {}", what, out.recv.f);
        judge!(s, T::Lim, out.send.f >= 0.0 && out.fee.f >= 0.0 && out.adj.f >= 0.0, "{}: negative output, fee or adjustment {:?}", what, out);
        if from_x {
            judge!(s, T::Lim, now.rp.f <= before.rp.f, "{}: raised the price to {}", what, now.rp.f);
        } else {
            judge!(s, T::Lim, now.rp.f >= before.rp.f, "{}: lowered the price to {}", what, now.rp.f);
        }
        let left = amt.f - out.recv.f;
        if left > rf.tol_recv + zero {
            // only allowed when nothing is left in that direction
            let any = if from_x { s.bounds().iter().any(|t| *t <= now.tick) } else { s.bounds().iter().any(|t| *t > now.tick) };
            let bottom = from_x && now.tick == 0 && same(&now.rp, &P::rp_of(0));
            judge!(s, T::Lim, bottom || (!any && s.liq_at(now.tick).f == 0.0), "{}: filled only {} although liquidity is left", what, out.recv.f);
            s.labels.push("partial-fill");
        }
        if out.recv.f > 0.0 && out.send.f > 0.0 {
            let p = if from_x { out.send.f / out.recv.f } else { out.recv.f / out.send.f };
            let e = 2e-12 * (1.0 + p) * (1.0 + 1.0 / out.recv.f.min(out.send.f)) + p * 1e-9;
            judge!(s, T::Lim, (out.avg.f - p).abs() <= e, "{}: reported average price {}, amounts give {}", what, out.avg.f, p);
            let (b2, n2) = (before.rp.f * before.rp.f, now.rp.f * now.rp.f);
            let tolp = p * ((tol_send + dust) / out.send.f + rf.tol_recv / out.recv.f) + p * 1e-9;
            if from_x {
                judge!(s, T::Lim, p <= b2 + tolp, "{}: average price {} above the starting price {}", what, p, b2);
            } else {
                judge!(s, T::Lim, p >= b2 - tolp, "{}: average price {} below the starting price {}", what, p, b2);
            }
            if s.cfg.fee == 0 && !rf.hmm_used {
                if from_x {
                    judge!(s, T::Lim, p >= n2 - tolp, "{}: average price {} below the final price {}", what, p, n2);
                } else {
                    judge!(s, T::Lim, p <= n2 + tolp, "{}: average price {} above the final price {}", what, p, n2);
                }
            }
        }
        let e = und_sq::<P>(&now.rp);
        judge!(s, T::Lim, (out.end.f - e).abs() <= 1e-9 * e, "{}: reported final price {}, the pool is at {}", what, out.end.f, e);
        // --- conservation, to the last unit
        let d = |a: &N, b: &N| -> N {
            if P::EXACT {
                nq(a.i - b.i)
            } else {
                N { i: 0, f: a.f - b.f }
            }
        };
        let eq = |a: N, b: N, size: f64| -> bool {
            if P::EXACT {
                a.i == b.i
            } else {
                (a.f - b.f).abs() <= 1e-9 + 1e-12 * (size + amt.f)
            }
        };
        let (di, df, da_in, do_, dfo, dao) = if from_x {
            (d(&now.x, &before.x), d(&now.xf, &before.xf), d(&now.xa, &before.xa), d(&now.y, &before.y), d(&now.yf, &before.yf), d(&now.ya, &before.ya))
        } else {
            (d(&now.y, &before.y), d(&now.yf, &before.yf), d(&now.ya, &before.ya), d(&now.x, &before.x), d(&now.xf, &before.xf), d(&now.xa, &before.xa))
        };
        let size = before.x.f + before.y.f + before.xf.f + before.yf.f;
        let sum = |a: N, b: N| N { i: a.i + b.i, f: a.f + b.f };
        let neg = |a: N| N { i: -a.i, f: -a.f };
        let cl = if s.want.contains(&T::Cons) { T::Cons } else { T::Lim };
        judge!(s, cl, eq(sum(di, df), out.recv, size), "{}: {} came in but reserves and fees grew by {} + {}", what, out.recv.f, di.f, df.f);
        judge!(s, cl, eq(df, out.fee, size), "{}: fee {} reported, the fee pot grew by {}", what, out.fee.f, df.f);
        judge!(s, cl, eq(sum(do_, dao), neg(out.send), size), "{}: {} paid out but reserves and adjustments changed by {} and {}", what, out.send.f, do_.f, dao.f);
        judge!(s, cl, eq(dao, out.adj, size), "{}: adjustment {} reported, the pot grew by {}", what, out.adj.f, dao.f);
        judge!(s, T::Cons, da_in.f == 0.0 && dfo.f == 0.0, "{}: touched the other token's pots ({}, {})", what, da_in.f, dfo.f);
        // --- reference curve
        let out_cpmm = out.send.f + out.adj.f;
        judge!(s, T::Ref, (out.recv.f - rf.recv).abs() <= rf.tol_recv + zero, "{}: consumed {}, the curve says {} (tolerance {})", what, out.recv.f, rf.recv, rf.tol_recv);
        judge!(
            s,
            T::Ref,
            out_cpmm >= rl.send_cpmm - tol_send - dust && out_cpmm <= rh.send_cpmm + tol_send,
            "{}: released {} from the reserve, the curve says {} (between {} and {}, tolerance {})",
            what,
            out_cpmm,
            rf.send_cpmm,
            rl.send_cpmm,
            rh.send_cpmm,
            tol_send
        );
        let (p0, p1) = (rl.end_rp.min(rh.end_rp), rl.end_rp.max(rh.end_rp));
        judge!(s, T::Ref, now.rp.f >= p0 - rf.tol_rp && now.rp.f <= p1 + rf.tol_rp, "{}: ended at root price {}, the curve says {} (between {} and {}, tolerance {})", what, now.rp.f, rf.end_rp, p0, p1, rf.tol_rp);
        // --- fee rate
        let ef = out.recv.f * s.cfg.fee as f64 / 1e6;
        let tf = (rf.hops as f64 + 2.0) * (if P::EXACT { 4.0 * Q } else { 1e-12 }) + ef * 1e-9 + out.recv.f * if P::EXACT { 1e-12 } else { 1e-11 };
        judge!(s, T::Fee, (out.fee.f - ef).abs() <= tf, "{}: fee {} on {} at rate {} ppm, expected {} (tolerance {})", what, out.fee.f, out.recv.f, s.cfg.fee, ef, tf);
        // --- hybrid adjustment
        let eadj = rf.send_cpmm - rf.send;
        let spread = [&rl, &rh].iter().map(|r| (r.send_cpmm - r.send - eadj).abs()).fold(0.0, f64::max);
        let ta = hmm_tol::<P>(&rf, s.cfg.c) + spread + 8.0 * Q + dust;
        let none = if P::EXACT { 0.0 } else { hmm_tol::<P>(&rf, s.cfg.c) };
        judge!(s, T::Hmm, rf.hmm_used || out.adj.f <= none, "{}: adjusted by {} although the price moves away from the oracle or there is none", what, out.adj.f);
        judge!(s, T::Hmm, (out.adj.f - eadj).abs() <= ta, "{}: adjustment {}, the hybrid curve says {} (tolerance {})", what, out.adj.f, eadj, ta);
        // --- accrue what this swap earned
        let (ifee, iadj) = if from_x { (0, 3) } else { (1, 2) };
        let scale_f = if rf.fee > 0.0 { out.fee.f / rf.fee } else { 1.0 };
        let scale_a = if eadj > 1e-12 { out.adj.f / eadj } else { 1.0 };
        let scale_a = if scale_a.is_finite() && rf.hops == 1 { scale_a } else { 1.0 };
        let scale_f = if rf.hops == 1 { scale_f } else { 1.0 };
        let hops = rf.hops as f64 + 1.0;
        let adj_tol = (out.adj.f - eadj * if rf.hops == 1 { scale_a } else { 1.0 }).abs() + if rf.hops > 1 { ta } else { 0.0 };
        for (ix, f, a) in &rf.share {
            let p = &mut s.pos[*ix];
            p.acc[ifee] += f * scale_f;
            p.acc[iadj] += a * scale_a;
        }
        for ix in 0..s.pos.len() {
            let own = |r: &RefSwap| r.share.iter().filter(|e| e.0 == ix).fold((0.0, 0.0), |t, e| (t.0 + e.1, t.1 + e.2));
            let (a, b) = (own(&rl), own(&rh));
            s.pos[ix].slack += (b.0 - a.0).abs() + (b.1 - a.1).abs();
        }
        let mut seen = std::collections::BTreeSet::new();
        for (ix, _, _) in &rh.share {
            if seen.insert(*ix) {
                let p = &mut s.pos[*ix];
                // growth per unit of liquidity is kept in 1e-12 steps
                p.slack += if P::EXACT { (p.l.f + 1.0) * Q * 2.0 * hops } else { 1e-9 + p.l.f * 1e-13 } + (rf.tol_recv * s.cfg.fee as f64 / 1e6) + rf.fee * 1e-10 + adj_tol;
            }
        }
        if rf.hops > 1 {
            s.labels.push("crossing")
        }
        if rf.gaps > 0 {
            s.labels.push("gap")
        }
        if rf.hmm_used {
            s.labels.push("hmm-adjusted")
        }
        s.last = Some((out, rf, from_x));
        s.after(&what)
    }

    pub fn step(&mut self, op: &Op) -> Step {
        match op {
            Op::Dep { u, lo, w, r, l, ex, ey } => {
                let sp = self.spacing();
                let base = (self.cfg.tick as u64 / sp) as i64;
                let (lo, up) = P::range(base, *lo, *w, sp);
                let liq = 10f64.powf(*l as f64 / 100.0);
                self.dep_liq(*u as usize, lo, up, liq, *ex, *ey, *r as u64 % sp)
            }
            Op::Nothing { u, lo, w, dep } => {
                let sp = self.spacing();
                let base = (self.cfg.tick as u64 / sp) as i64;
                let (lo, up) = P::range(base, *lo, *w, sp);
                let u = *u as usize;
                self.labels.push("nothing");
                let (a, b) = (mid::<P>(lo), mid::<P>(up));
                if *dep {
                    return self.deposit(u, lo, up, a, b, nq(0), nq(0), true);
                }
                if let Some(ix) = self.pos.iter().position(|p| p.u == u && p.lo == lo && p.up == up) {
                    return self.withdraw(ix, nq(0), T::LiveWd);
                }
                // (whether it is refused or does nothing)
                let before = self.st.clone();
                let _ = sut(|| self.pool.withdraw(USERS[u], &nq(0), &a, &b));
                let now = self.pool.state();
                let what = format!("withdrawal of nothing by {} from [{}, {}), which they do not hold", USERS[u], lo, up);
                let pots = |s: &St| [s.x.i, s.y.i, s.xf.i, s.yf.i, s.xa.i, s.ya.i];
                judge!(self, T::Dist, pots(&before) == pots(&now), "{}: moved funds", what);
                self.after(&what)
            }
            Op::More { p, l } => {
                if self.pos.is_empty() {
                    return Step::Cont;
                }
                let p = self.pos[*p as usize % self.pos.len()].clone();
                self.labels.push("top-up");
                self.dep_liq(p.u, p.lo, p.up, 10f64.powf(*l as f64 / 100.0), 0, 0, 0)
            }
            Op::Claim { p, dep } => {
                if self.pos.is_empty() {
                    return Step::Cont;
                }
                let ix = *p as usize % self.pos.len();
                self.labels.push("claim");
                if *dep {
                    let p = self.pos[ix].clone();
                    let (a, b) = self.bounds_arg(&p);
                    self.deposit(p.u, p.lo, p.up, a, b, nq(0), nq(0), true)
                } else {
                    self.withdraw(ix, nq(0), T::LiveWd)
                }
            }
            Op::Wd { p, f } => {
                if self.pos.is_empty() {
                    return Step::Cont;
                }
                let ix = *p as usize % self.pos.len();
                let l = self.pos[ix].l;
                let part = if *f >= 1_000_000 {
                    l
                } else if *f == 999_999 && P::EXACT && l.i > 1_000_000_000_000 {
                    // leave a whole number of units
                    nq(l.i % 1_000_000_000_000)
                } else if P::EXACT {
                    nq(l.i / 1_000_000 * *f as i128)
                } else if f % 2 == 0 {
                    nf((l.f * *f as f64 / 1e6).floor())
                } else {
                    nf(l.f * *f as f64 / 1e6)
                };
                self.withdraw(ix, part, T::LiveWd)
            }
            Op::Adjoin { p, up, w, u } => {
                if self.pos.is_empty() {
                    return Step::Cont;
                }
                let p = self.pos[*p as usize % self.pos.len()].clone();
                let w = *w as u64 * self.spacing();
                let (lo, hi) = if *up {
                    (p.up, p.up + w)
                } else if p.lo as i64 >= w as i64 + P::LOWEST * self.spacing() as i64 {
                    (p.lo - w, p.lo)
                } else {
                    return Step::Cont;
                };
                let u = *u as usize;
                if self.pos.iter().any(|q| q.u == u && q.lo == lo && q.up == hi) {
                    return Step::Cont;
                }
                match self.dep_liq(u, lo, hi, p.l.f * 1.01 + 2.0, 0, 0, 0) {
                    Step::Cont => {}
                    o => return o,
                }
                match self.pos.iter().position(|q| q.u == u && q.lo == lo && q.up == hi) {
                    Some(ix) => self.trim(ix, p.l),
                    None => Step::Cont,
                }
            }
            Op::Trim { p, q } => {
                if self.pos.len() < 2 {
                    return Step::Cont;
                }
                let (a, b) = (*p as usize % self.pos.len(), *q as usize % self.pos.len());
                let (a, b) = if self.pos[a].l.f > self.pos[b].l.f { (a, b) } else { (b, a) };
                let l = self.pos[b].l;
                self.trim(a, l)
            }
            Op::Swap { x, a, o } => {
                let amt = match self.amount(*x, a) {
                    Some(v) => v,
                    None => return Step::Cont,
                };
                let mut orc = self.oracle(o);
                if !P::EXACT && self.cfg.c > 0 && orc.f == 0.0 {
                    orc = self.st.rp; // the float pool has no "no oracle" value
                }
                self.swap(*x, amt, orc)
            }
        }
    }
    /// withdraw from a position down to the liquidity given
    fn trim(&mut self, ix: usize, l: N) -> Step {
        let have = self.pos[ix].l;
        let part = if P::EXACT { nq(have.i - l.i) } else { nf(have.f - l.f) };
        if part.i <= 0 {
            return Step::Cont;
        }
        self.labels.push("equal-liquidity");
        self.withdraw(ix, part, T::LiveWd)
    }
    pub fn dep_liq(&mut self, u: usize, lo: u64, up: u64, liq: f64, ex: u32, ey: u32, r: u64) -> Step {
        let (ra, rb) = (P::rp_of(lo).f, P::rp_of(up).f);
        let rp = self.st.rp.f.min(rb).max(ra);
        let x = num::<P>(liq * (rb - rp) / (rp * rb) * (1.0 + ex as f64 / 1e6));
        let y = num::<P>(liq * (rp - ra) * (1.0 + ey as f64 / 1e6));
        // (the price of a tick belongs to that tick)
        let bound = |t: u64| if P::EXACT && (lo + up + u as u64) % 4 == 1 { P::rp_of(t) } else { mid::<P>(t) };
        self.deposit(u, lo, up, bound(lo + r), bound(up + r), x, y, false)
    }
    /// the rounding of f64 at the prices and liquidity of this history exceeds the dust (1e-6 of a
    /// token) the float pool tolerates in its reserves
    fn beyond_floats(&mut self, e: &str) -> bool {
        let r = self.rmax.max(self.st.rp.f);
        let yes = !P::EXACT && e.contains("cannot") && e.contains("more") && (self.lsum + 10.0) * r * 1e-15 > 5e-7;
        if yes {
            self.labels.push("beyond-float-precision");
        }
        yes
    }
    /// everyone leaves, in an order picked by the case
    pub fn close(&mut self, order: u8) -> Step {
        let mut k = order as usize;
        while !self.pos.is_empty() {
            let ix = k % self.pos.len();
            k = k / 2 + 3;
            let l = self.pos[ix].l;
            match self.withdraw(ix, l, T::Solv) {
                Step::Cont => {}
                o => return o,
            }
        }
        Step::Cont
    }
}
pub fn same(a: &N, b: &N) -> bool {
    a.i == b.i && a.f == b.f
}
fn tag_of(t: T) -> T {
    if t == T::Solv {
        T::Solv
    } else {
        T::Cons
    }
}
fn und_sq<P: PoolApi>(rp: &N) -> f64 {
    rp.f * rp.f
}
/// powers and logarithms are truncated at 1e-12 before they are scaled by the liquidity
pub fn hmm_tol<P: PoolApi>(r: &RefSwap, c: u16) -> f64 {
    if !P::EXACT {
        return r.lmax * (1.0 + r.orc) * 2e-14 * (r.hops as f64) + r.send_cpmm * 1e-9 + 1e-9;
    }
    if !r.hmm_used {
        return 0.0;
    }
    // amounts scale with L * rp for y and L / rp for x; logarithms are good to about 1.2e-10
    let k = if c == 100 { 4e-10 * (1.0 + r.orc) } else { 16.0 * Q * (2.0 + r.orc.powf(c as f64 / 100.0)) / (c as f64 / 100.0 - 1.0) };
    r.lmax * k * (r.hops as f64) + r.send_cpmm * 1e-10
}
/// Run a history for the judgements in `want`.
pub fn run_hist<P: PoolApi>(h: &Hist, want: &'static [T], close: bool) -> Result<Run<P>, String> {
    let mut r = Run::<P>::new(&h.cfg, want).map_err(|e| format!("pool creation aborted: {}", e))?;
    let mut stopped = false;
    for (k, op) in h.ops.iter().enumerate() {
        match r.step(op) {
            Step::Cont => {}
            Step::Stop => {
                stopped = true;
                break;
            }
            Step::Bad(m) => return Err(format!("operation {}: {}", k, m)),
        }
    }
    if close && !stopped {
        if let Step::Bad(m) = r.close(h.order) {
            return Err(format!("closing: {}", m));
        }
    }
    if stopped {
        r.labels.push("stopped-early");
    }
    Ok(r)
}
