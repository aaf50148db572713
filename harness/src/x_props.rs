//! Relations between several pool histories: splitting, round trips, who provides and in which order,
//! refused operations, decimal against float; and the tick bitmap.
use crate::core::*;
use crate::d_props::prop;
use crate::dec::U;
use crate::pool::*;
use crate::py::PyPool;
use hmmcl_sandbox::state::tick_bitmap::{byte_get_next_tick, PoolTickBitmap, TICK_BITMAP_SIZE};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

const ALL: &[T] = &[T::Liq, T::Tick, T::Cons, T::Solv, T::Lim, T::Ref, T::Fee, T::Dist, T::Hmm, T::Dep, T::LiveSwap, T::LiveDep, T::LiveWd];
const NONE: &[T] = &[];

fn replay<P: PoolApi>(cfg: &Cfg, ops: &[Op]) -> Option<Run<P>> {
    let mut r = Run::<P>::new(cfg, NONE).ok()?;
    for op in ops {
        match r.step(op) {
            Step::Cont => {}
            _ => return None,
        }
    }
    Some(r)
}
fn val<P: PoolApi>(n: &N) -> f64 {
    if P::EXACT {
        n.i as f64 * Q
    } else {
        n.f
    }
}
fn same_st(a: &St, b: &St, npos: bool) -> Result<(), String> {
    for (n, p, q) in [("x", a.x, b.x), ("y", a.y, b.y), ("x fee", a.xf, b.xf), ("y fee", a.yf, b.yf), ("x adj", a.xa, b.xa), ("y adj", a.ya, b.ya), ("liquidity", a.liq, b.liq), ("root price", a.rp, b.rp)] {
        if !same(&p, &q) {
            return Err(format!("{}: {} against {}", n, p.f, q.f));
        }
    }
    if a.tick != b.tick || a.ticks != b.ticks || (npos && a.npos != b.npos) {
        return Err(format!("tick {} against {}, active ticks {:?} against {:?}, {} against {} positions", a.tick, b.tick, a.ticks, b.ticks, a.npos, b.npos));
    }
    Ok(())
}

// ------------------------------------------------------------------ splitting and round trips
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trade {
    pub h: Hist,
    pub x: bool,
    pub a: Amt,
    pub o: i32,
    pub cut: u32,
}
fn trade(g: Gen) -> BoxedStrategy<Trade> {
    (hist_strat(Gen { max_ops: 8, ..g }), any::<bool>(), amt_strat(), -2000i32..2000, prop_oneof![3 => 1u32..1_000_000, 1 => 1u32..1000, 1 => 999_000u32..1_000_000])
        .prop_map(|(h, x, a, o, cut)| Trade { h, x, a, o, cut })
        .boxed()
}
/// how far the total of a few swaps with reference `r` may be from exact
fn slack<P: PoolApi>(r: &RefSwap, c: u16) -> f64 {
    2.0 * r.tol_send + 2.0 * hmm_tol::<P>(r, c) + if P::EXACT { 30.0 * Q } else { 1e-8 + 1e-9 * r.send_cpmm }
}
/// what the reserves may be short by, and a swap that empties them with it: floats of the size of
/// everything that ever went in
fn dust<P: PoolApi>(r: &Run<P>) -> f64 {
    if P::EXACT { 0.0 } else { r.lsum * (1.0 + r.rmax) * 1e-15 }
}
fn split<P: PoolApi>(t: &Trade) -> Out {
    let (mut a, mut b) = match (replay::<P>(&t.h.cfg, &t.h.ops), replay::<P>(&t.h.cfg, &t.h.ops)) {
        (Some(a), Some(b)) => (a, b),
        _ => return ok(false),
    };
    let amt = match a.amount(t.x, &t.a) {
        Some(v) => v,
        None => return ok(false),
    };
    let (p1, p2) = if P::EXACT {
        let k = amt.i / 1_000_000 * t.cut as i128 + amt.i % 1_000_000 * t.cut as i128 / 1_000_000;
        (nq(k), nq(amt.i - k))
    } else {
        let k = amt.f * t.cut as f64 / 1e6;
        (nf(k), nf(amt.f - k))
    };
    if val::<P>(&p1) <= 0.0 || val::<P>(&p2) <= 0.0 {
        return ok(false);
    }
    let orc = if t.h.cfg.c == 0 { a.st.rp } else { num::<P>(a.st.rp.f * 1.0001f64.powf(t.o as f64 / 200.0)) };
    let rf = a.reference(t.x, amt.f, orc.f, None);
    let tr = 2.0 * rf.tol_recv + if P::EXACT { 10.0 * Q } else { 1e-9 + amt.f * 1e-11 };
    let (rl, rh) = (a.reference(t.x, amt.f - tr, orc.f, None), a.reference(t.x, amt.f + tr, orc.f, None));
    let w = sut(|| a.pool.swap(t.x, &amt, &orc));
    let s1 = sut(|| b.pool.swap(t.x, &p1, &orc));
    let (w, s1) = match (w, s1) {
        (Ok(w), Ok(s)) => (w, s),
        _ => return ok(false),
    };
    let s2 = match sut(|| b.pool.swap(t.x, &p2, &orc)) {
        Ok(s) => s,
        Err(_) => return ok(false),
    };
    let (sa, sb) = (a.pool.state(), b.pool.state());
    let sum = |f: fn(&Swp) -> N| val::<P>(&f(&s1)) + val::<P>(&f(&s2));
    // (an input rounded differently moves the output by the price)
    let price = sa.rp.f.max(a.st.rp.f).powi(if t.x { 2 } else { -2 }).max(a.st.rp.f.powi(if t.x { 2 } else { -2 }));
    let ts = slack::<P>(&rf, t.h.cfg.c) + tr * price * 2.0 + dust(&a);
    let what = format!("{} {} at once or as {} and {}", amt.f, if t.x { "x" } else { "y" }, p1.f, p2.f);
    if (sum(|s| s.recv) - w.recv.f).abs() > tr {
        return bad(format!("{}: consumed {} or {} (tolerance {})", what, w.recv.f, sum(|s| s.recv), tr));
    }
    if (sum(|s| s.send) - w.send.f).abs() > ts {
        return bad(format!("{}: paid {} or {} (tolerance {})", what, w.send.f, sum(|s| s.send), ts));
    }
    if (sum(|s| s.fee) - w.fee.f).abs() > tr {
        return bad(format!("{}: fees {} or {} (tolerance {})", what, w.fee.f, sum(|s| s.fee), tr));
    }
    // where the price may be for an input differing by the tolerance
    let spread = (rl.end_rp - rh.end_rp).abs() + rf.tol_rp * 4.0;
    if (sa.rp.f - sb.rp.f).abs() > spread {
        return bad(format!("{}: ended at root price {} or {} (tolerance {})", what, sa.rp.f, sb.rp.f, spread));
    }
    let mut l = vec![];
    if rf.hops > 1 {
        l.push("crossing");
    }
    if rf.hmm_used {
        l.push("hybrid");
    }
    Out::Ok(true, l)
}
fn round_trip<P: PoolApi>(t: &Trade) -> Out {
    let mut a = match replay::<P>(&t.h.cfg, &t.h.ops) {
        Some(a) => a,
        None => return ok(false),
    };
    let amt = match a.amount(t.x, &t.a) {
        Some(v) => v,
        None => return ok(false),
    };
    let orc = if t.h.cfg.c == 0 { a.st.rp } else { num::<P>(a.st.rp.f * 1.0001f64.powf(t.o as f64 / 200.0)) };
    let rf = a.reference(t.x, amt.f, orc.f, None);
    let before = a.st.clone();
    let w = match sut(|| a.pool.swap(t.x, &amt, &orc)) {
        Ok(w) => w,
        Err(_) => return ok(false),
    };
    if val::<P>(&w.send) <= 0.0 {
        return ok(false);
    }
    a.st = a.pool.state();
    let back_amt = w.send;
    let rb = a.reference(!t.x, back_amt.f, orc.f, None);
    let back = match sut(|| a.pool.swap(!t.x, &back_amt, &orc)) {
        Ok(b) => b,
        Err(_) => return Out::Ok(false, vec!["way-back-refused"]),
    };
    // rounding of the amounts, in the token handed in first
    let price = before.rp.f.powi(if t.x { -2 } else { 2 });
    let tol = slack::<P>(&rb, t.h.cfg.c) + slack::<P>(&rf, t.h.cfg.c) * price + 2.0 * rf.tol_recv + dust(&a);
    let paid = val::<P>(&w.recv) - val::<P>(&w.fee);
    let got = val::<P>(&back.send);
    if got > paid + tol {
        return bad(format!(
            "{} {} went in ({} of it as fee), swapping the {} received back returned {}: a profit of {} beyond rounding ({})",
            w.recv.f,
            if t.x { "x" } else { "y" },
            w.fee.f,
            back_amt.f,
            got,
            got - paid,
            tol
        ));
    }
    let mut l = vec![];
    if rf.hops > 1 {
        l.push("crossing");
    }
    if rf.hmm_used || rb.hmm_used {
        l.push("hybrid");
    }
    Out::Ok(true, l)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Visit {
    pub h: Hist,
    pub d: Op,
    pub parts: Vec<u32>,
}
fn visit(g: Gen) -> BoxedStrategy<Visit> {
    (hist_strat(Gen { max_ops: 8, ..g }), dep_strat(g), proptest::collection::vec(1u32..1_000_000, 0..3)).prop_map(|(h, d, parts)| Visit { h, d, parts }).boxed()
}
/// a stranger deposits and leaves at once, in one or several withdrawals: nothing gained, nothing disturbed
fn in_and_out<P: PoolApi>(v: &Visit) -> Out {
    let mut r = match replay::<P>(&v.h.cfg, &v.h.ops) {
        Some(r) => r,
        None => return ok(false),
    };
    let d = match &v.d {
        Op::Dep { lo, w, r, l, ex, ey, .. } => Op::Dep { u: 4, lo: *lo, w: *w, r: *r, l: *l, ex: *ex, ey: *ey },
        _ => return ok(false),
    };
    let before = r.pool.state();
    match r.step(&d) {
        Step::Cont => {}
        _ => return ok(false),
    }
    let ix = match r.pos.iter().position(|p| p.u == 4) {
        Some(i) => i,
        None => return ok(false),
    };
    let during = r.pool.state();
    let l = r.pos[ix].l;
    for part in &v.parts {
        let have = r.pos[ix].l;
        let n = if P::EXACT { nq(have.i / 1_000_000 * *part as i128) } else { nf(have.f * *part as f64 / 1e6) };
        match r.withdraw(ix, n, T::LiveWd) {
            Step::Cont => {}
            _ => return ok(false),
        }
        if r.pos.get(ix).map(|p| p.u) != Some(4) {
            break;
        }
    }
    if let Some(i) = r.pos.iter().position(|p| p.u == 4) {
        let rest = r.pos[i].l;
        match r.withdraw(i, rest, T::LiveWd) {
            Step::Cont => {}
            _ => return ok(false),
        }
    }
    let after = r.pool.state();

    let what = format!("depositing {} liquidity and withdrawing it in {} parts", l.f, v.parts.len() + 1);
    for (n, b, d, a) in [("x", before.x, during.x, after.x), ("y", before.y, during.y, after.y)] {
        let diff = |p: &N, q: &N| if P::EXACT { (p.i - q.i) as f64 * Q } else { p.f - q.f };
        let gain = diff(&b, &a);
        let steps = v.parts.len() as f64 + 2.0;
        let size = diff(&d, &b);
        let tol = if P::EXACT { 4.0 * steps * Q } else { (l.f + 1.0) * 1e-13 + 1e-9 * size + 1e-12 * d.f + 1e-9 };
        if gain > tol {
            return bad(format!("{}: gained {} {}", what, gain, n));
        }
        let cost = tol + size * 1.1e-12 * steps + if P::EXACT { 8.0 * Q } else { 0.0 };
        if -gain > cost {
            return bad(format!("{}: lost {} of {} {} (rounding {})", what, -gain, size, n, cost));
        }
    }
    let neutral = |a: &St| St { x: nq(0), y: nq(0), liq: if P::EXACT { a.liq } else { nq(0) }, ..a.clone() };
    let pots = |a: &St| {
        let mut s = neutral(a);
        if !P::EXACT {
            for v in [&mut s.xf, &mut s.yf, &mut s.xa, &mut s.ya] {
                *v = nf((v.f * 1e6).round() / 1e6);
            }
        }
        s
    };
    if let Err(e) = same_st(&pots(&before), &pots(&after), true) {
        return bad(format!("{}: left the pool different: {}", what, e));
    }
    ok(true)
}

// ------------------------------------------------------------------ who provides, in which order
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mix {
    pub cfg: Cfg,
    pub deps: Vec<Op>,
    pub perm: Vec<u8>,
    pub swaps: Vec<Op>,
    pub far: (bool, u16, u16),
}
fn mix(g: Gen) -> BoxedStrategy<Mix> {
    (cfg_strat(g), prop_oneof![12 => 1usize..6, 1 => 6usize..40].prop_flat_map(move |n| proptest::collection::vec(dep_strat(g), n)), proptest::collection::vec(any::<u8>(), 40), proptest::collection::vec(swap_strat(g), 0..6), (any::<bool>(), 0u16..200, 200u16..800))
        .prop_map(|(cfg, deps, perm, swaps, far)| Mix { cfg, deps, perm, swaps, far })
        .boxed()
}
fn permuted<P: PoolApi>(m: &Mix) -> Out {
    let mut other: Vec<Op> = m.deps.clone();
    // Fisher-Yates by the case's bytes
    for i in (1..other.len()).rev() {
        other.swap(i, m.perm[i] as usize % (i + 1));
    }
    let (a, b) = (replay::<P>(&m.cfg, &m.deps), replay::<P>(&m.cfg, &other));
    let (mut a, mut b) = match (a, b) {
        (Some(a), Some(b)) => (a, b),
        (None, None) => return ok(false),
        _ => return Out::Ok(false, vec!["stopped"]),
    };
    compare::<P>(&mut a, &mut b, &m.swaps, true, "deposits in another order", m.deps.len() > 1)
}
/// exact for the decimal pool; the float pool adds in another order
fn alike<P: PoolApi>(a: &St, b: &St, npos: bool, k: f64) -> Result<(), String> {
    if P::EXACT {
        return same_st(a, b, npos);
    }
    let t = k * 1e-9;
    let size = a.x.f + a.y.f + a.xf.f + a.yf.f;
    for (n, p, q) in [("x", a.x, b.x), ("y", a.y, b.y), ("x fee", a.xf, b.xf), ("y fee", a.yf, b.yf), ("x adj", a.xa, b.xa), ("y adj", a.ya, b.ya), ("liquidity", a.liq, b.liq), ("root price", a.rp, b.rp)] {
        if (p.f - q.f).abs() > t * (p.f.abs() + 1.0) + 1e-12 * size {
            return Err(format!("{}: {} against {}", n, p.f, q.f));
        }
    }
    if a.ticks != b.ticks || (npos && a.npos != b.npos) {
        return Err(format!("active ticks {:?} against {:?}, {} against {} positions", a.ticks, b.ticks, a.npos, b.npos));
    }
    Ok(())
}
fn compare<P: PoolApi>(a: &mut Run<P>, b: &mut Run<P>, swaps: &[Op], npos: bool, what: &str, nt: bool) -> Out {
    if let Err(e) = alike::<P>(&a.pool.state(), &b.pool.state(), npos, 1.0) {
        return bad(format!("{}: {}", what, e));
    }
    let mut n = 0;
    for (k, s) in swaps.iter().enumerate() {
        if let Op::Swap { x, a: am, o } = s {
            // (an amount chosen to stop exactly at a tick may fall either way for floats)
            let am = match am {
                Amt::To(j, _) if !P::EXACT => Amt::Rel(*j, 543_210),
                o => o.clone(),
            };
            let amt = match a.amount(*x, &am) {
                Some(v) => v,
                None => continue,
            };
            let orc = match o {
                Ora::Off(k) => num::<P>(a.st.rp.f * 1.0001f64.powf(*k as f64 / 200.0)),
                Ora::At(..) if P::EXACT => a.oracle(o),
                Ora::None if P::EXACT || a.cfg.c == 0 => nq(0),
                _ => a.st.rp,
            };
            let (p, q) = (sut(|| a.pool.swap(*x, &amt, &orc)), sut(|| b.pool.swap(*x, &amt, &orc)));
            let (p, q) = match (p, q) {
                (Ok(p), Ok(q)) => (p, q),
                (Err(_), Err(_)) => break,
                (p, q) => {
                    if P::EXACT {
                        return bad(format!("{}: swap {} went through in one case and not in the other: {:?} {:?}", what, k, p.is_ok(), q.is_ok()));
                    }
                    break;
                }
            };
            for (f, u, v) in [("consumed", p.recv, q.recv), ("paid", p.send, q.send), ("adjusted by", p.adj, q.adj), ("charged", p.fee, q.fee), ("reported price", p.avg, q.avg), ("reported final price", p.end, q.end)] {
                let okay = if P::EXACT { u.i == v.i } else { (u.f - v.f).abs() <= 1e-8 * (k as f64 + 1.0) * (u.f.abs() + p.recv.f.abs() * 0.0 + 1.0) };
                if !okay {
                    return bad(format!("{}: swap {} of {} {} {} in one case, {} in the other", what, k, amt.f, f, u.f, v.f));
                }
            }
            a.st = a.pool.state();
            b.st = b.pool.state();
            if let Err(e) = alike::<P>(&a.st, &b.st, npos, 10.0 * (k as f64 + 1.0)) {
                return bad(format!("{}: after swap {}: {}", what, k, e));
            }
            n += 1;
        }
    }
    Out::Ok(nt, if n > 0 { vec!["swapped"] } else { vec![] })
}
fn one_owner<P: PoolApi>(m: &Mix) -> Out {
    let single: Vec<Op> = m
        .deps
        .iter()
        .map(|d| match d {
            Op::Dep { lo, w, r, l, ex, ey, .. } => Op::Dep { u: 0, lo: *lo, w: *w, r: *r, l: *l, ex: *ex, ey: *ey },
            o => o.clone(),
        })
        .collect();
    let (a, b) = (replay::<P>(&m.cfg, &m.deps), replay::<P>(&m.cfg, &single));
    let (mut a, mut b) = match (a, b) {
        (Some(a), Some(b)) => (a, b),
        _ => return ok(false),
    };
    let o = compare::<P>(&mut a, &mut b, &m.swaps, false, "the same liquidity owned by one user", m.deps.len() > 1);
    if !matches!(o, Out::Ok(..)) {
        return o;
    }
    // everybody claims: the same total is paid
    a.st = a.pool.state();
    b.st = b.pool.state();
    let mut lsum = 0.0;
    for r in [&mut a, &mut b] {
        for i in 0..r.pos.len() {
            lsum += r.pos[i].l.f;
            match r.withdraw(i, nq(0), T::LiveWd) {
                Step::Cont => {}
                _ => return ok(false),
            }
        }
    }
    let tol = |v: &N| if P::EXACT { (lsum + 10.0) * 4.0 * Q } else { 1e-7 * (1.0 + v.f) + lsum * 1e-12 };
    for (n, p, q) in [("x fee", a.st.xf, b.st.xf), ("y fee", a.st.yf, b.st.yf), ("x adj", a.st.xa, b.st.xa), ("y adj", a.st.ya, b.st.ya)] {
        if (p.f - q.f).abs() > tol(&p) {
            return bad(format!("the same liquidity owned by one user: after everybody claimed, the {} pot holds {} or {}", n, p.f, q.f));
        }
    }
    o
}
/// liquidity where the price never goes does not matter
fn bystander<P: PoolApi>(m: &Mix) -> Out {
    let (a, b) = (replay::<P>(&m.cfg, &m.deps), replay::<P>(&m.cfg, &m.deps));
    let (mut a, mut b) = match (a, b) {
        (Some(a), Some(b)) => (a, b),
        _ => return ok(false),
    };
    let sp = m.cfg.spacing as u64;
    // beyond all other bounds, or as close as touching them
    let bs = a.bounds();
    let (lo0, hi0) = (bs[0].min(a.st.tick), bs[bs.len() - 1].max(a.st.tick + sp));
    let far = m.far.1 as u64 % (20_000 / sp + 1);
    let (lo, up) = if m.far.0 {
        let lo = hi0 + far * sp;
        (lo, lo + 10 * sp)
    } else {
        let up = lo0.saturating_sub(far * sp);
        (up.saturating_sub(10 * sp), up)
    };
    if lo >= up || lo % sp != 0 || up % sp != 0 {
        return ok(false);
    }
    match b.dep_liq(3, lo, up, 10f64.powf(m.far.2 as f64 / 100.0), 0, 0, 0) {
        Step::Cont => {}
        _ => return ok(false),
    }
    if b.pos.len() == a.pos.len() {
        return ok(false);
    }
    b.st = b.pool.state();
    let mut n = 0;
    let mut lmax = 0f64;
    for (k, s) in m.swaps.iter().enumerate() {
        if let Op::Swap { x, a: am, o } = s {
            let amt = match a.amount(*x, am) {
                Some(v) => v,
                None => continue,
            };
            let orc = match o {
                Ora::Off(k) => num::<P>(a.st.rp.f * 1.0001f64.powf(*k as f64 / 200.0)),
                Ora::At(..) if P::EXACT => a.oracle(o),
                Ora::None if P::EXACT || a.cfg.c == 0 => nq(0),
                _ => a.st.rp,
            };
            lmax = lmax.max(a.reference(*x, amt.f, orc.f, None).lmax);
            let p = match sut(|| a.pool.swap(*x, &amt, &orc)) {
                Ok(p) => p,
                Err(_) => break,
            };
            a.st = a.pool.state();
            // only swaps that stay among the original positions
            if !same(&p.recv, &amt) || a.st.tick < lo0 || a.st.tick >= hi0 {
                break;
            }
            let q = match sut(|| b.pool.swap(*x, &amt, &orc)) {
                Ok(q) => q,
                Err(e) => return bad(format!("an extra position over [{}, {}) makes swap {} of {} abort: {}", lo, up, k, amt.f, e)),
            };
            b.st = b.pool.state();
            for (f, u, v) in [("consumed", p.recv, q.recv), ("paid", p.send, q.send), ("adjusted by", p.adj, q.adj), ("charged", p.fee, q.fee)] {
                let okay = if P::EXACT {
                    // a swap that empties the pool may be short of rounding dust, another position's reserve is not
                    let emptied = if *x { a.st.y.i == 0 } else { a.st.x.i == 0 };
                    u.i == v.i || (f == "paid" && emptied && (u.f - v.f).abs() <= 1.1e-9)
                } else {
                    (u.f - v.f).abs() <= 1e-9 * (1.0 + u.f.abs()) + lmax * 2e-15
                };
                if !okay {
                    return bad(format!("an extra position over [{}, {}): swap {} of {} {} {} without it, {} with it", lo, up, k, amt.f, f, u.f, v.f));
                }
            }
            let okay = if P::EXACT { a.st.rp.i == b.st.rp.i && a.st.tick == b.st.tick && a.st.liq.i == b.st.liq.i } else { (a.st.rp.f - b.st.rp.f).abs() <= 1e-9 * a.st.rp.f };
            if !okay {
                return bad(format!("an extra position over [{}, {}): swap {} of {} ends at {} (tick {}) without it, {} (tick {}) with it", lo, up, k, amt.f, a.st.rp.f, a.st.tick, b.st.rp.f, b.st.tick));
            }
            n += 1;
        }
    }
    // what they would earn is not touched by the bystander either
    ok(n > 0)
}

/// a stranger who joins (and perhaps leaves) changes nothing about what the others have earned
fn newcomer<P: PoolApi>(v: &Visit) -> Out {
    let (a, b) = (replay::<P>(&v.h.cfg, &v.h.ops), replay::<P>(&v.h.cfg, &v.h.ops));
    let (mut a, mut b) = match (a, b) {
        (Some(a), Some(b)) => (a, b),
        _ => return ok(false),
    };
    let others = a.pos.len();
    // over any range, or sharing a bound with somebody, or the very same range
    let (lo, up, liq) = match &v.d {
        Op::Dep { lo, w, l, ex, .. } => {
            let sp = v.h.cfg.spacing as i64;
            let (l0, u0) = P::range(a.st.tick as i64 / sp, *lo, *w, sp as u64);
            let (mut lo, mut up) = (l0 as i64, u0 as i64);
            let wide = up - lo;
            if others > 0 {
                let p = &a.pos[*ex as usize % others];
                match ex / 7 % 5 {
                    0 => {
                        lo = p.lo as i64;
                        up = lo + wide
                    }
                    1 => {
                        up = p.up as i64;
                        lo = (up - wide).max(P::LOWEST as i64)
                    }
                    2 => {
                        lo = p.up as i64;
                        up = lo + wide
                    }
                    3 => {
                        lo = p.lo as i64;
                        up = p.up as i64
                    }
                    _ => {}
                }
            }
            (lo as u64, up as u64, 10f64.powf(*l as f64 / 100.0))
        }
        _ => return ok(false),
    };
    if lo >= up || up > 150_000 || lo % v.h.cfg.spacing as u64 != 0 || others == 0 {
        return ok(false);
    }
    match b.dep_liq(4, lo, up, liq, 0, 0, 0) {
        Step::Cont => {}
        _ => return ok(false),
    }
    let ix = match b.pos.iter().position(|p| p.u == 4) {
        Some(i) => i,
        None => return ok(false),
    };
    if let Some(part) = v.parts.first() {
        let have = b.pos[ix].l;
        let n = match part % 3 {
            0 => have,
            _ if P::EXACT => nq(have.i / 1_000_000 * *part as i128),
            _ => nf(have.f * *part as f64 / 1e6),
        };
        match b.withdraw(ix, n, T::LiveWd) {
            Step::Cont => {}
            _ => return ok(false),
        }
    }
    if b.pos.iter().filter(|p| p.u != 4).count() != others {
        return ok(false);
    }
    let mut some = false;
    for i in 0..others {
        let p = a.pos[i].clone();
        let j = match b.pos.iter().position(|q| q.u == p.u && q.lo == p.lo && q.up == p.up) {
            Some(j) => j,
            None => return bad(format!("the position of {} over [{}, {}) is gone after somebody else joined over [{}, {})", USERS[p.u], p.lo, p.up, lo, up)),
        };
        let mut paid = vec![];
        for (r, k) in [(&mut a, i), (&mut b, j)] {
            let before = r.pool.state();
            match r.withdraw(k, nq(0), T::LiveWd) {
                Step::Cont => {}
                _ => return ok(false),
            }
            let now = r.pool.state();
            paid.push([(before.xf, now.xf), (before.yf, now.yf), (before.xa, now.xa), (before.ya, now.ya)]);
        }
        for (k, what) in ["x fees", "y fees", "x adjustments", "y adjustments"].iter().enumerate() {
            let (s, t) = (paid[0][k], paid[1][k]);
            let d = |q: (N, N)| if P::EXACT { (q.0.i - q.1.i) as f64 * Q } else { q.0.f - q.1.f };
            let (s, t) = (d(s), d(t));
            let pot = paid[0][k].0.f;
            if s > 1e-6 * (1.0 + pot) {
                some = true;
            }
            let okay = if P::EXACT { s == t } else { (s - t).abs() <= 1e-9 * (1.0 + pot) + 1e-12 * p.l.f };
            if !okay {
                return bad(format!("{} over [{}, {}) is due {} {} , but {} after somebody else joined over [{}, {})", USERS[p.u], p.lo, p.up, s, what, t, lo, up));
            }
        }
    }
    ok(some)
}

// ------------------------------------------------------------------ refused operations
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wrong {
    pub h: Hist,
    pub bad: Vec<(u8, u8, u32)>,
}
fn wrong(g: Gen) -> BoxedStrategy<Wrong> {
    (hist_strat(Gen { max_ops: 8, ..g }), proptest::collection::vec((any::<u8>(), any::<u8>(), 1u32..u32::MAX), 1..10)).prop_map(|(h, bad)| Wrong { h, bad }).boxed()
}
fn refused<P: PoolApi>(w: &Wrong) -> Out {
    let mut r = match Run::<P>::new(&w.h.cfg, ALL) {
        Ok(r) => r,
        Err(_) => return ok(false),
    };
    let mut tried = 0;
    for (k, op) in w.h.ops.iter().enumerate() {
        for (_, kind, v) in w.bad.iter().filter(|b| b.0 as usize % w.h.ops.len() == k) {
            let before = r.pool.state();
            let sp = w.h.cfg.spacing as u64;
            let t0 = before.tick;
            let (a, b) = (mid::<P>(t0.saturating_sub(sp * 3)), mid::<P>(t0 + sp * 4));
            let some = nq(*v as i128 * 1000);
            let neg = nq(-(*v as i128) * 1000);
            let pz = if r.pos.is_empty() { None } else { Some(r.pos[*v as usize % r.pos.len()].clone()) };
            let o = before.rp;
            if kind % 13 == 12 {
                // nothing, taken from a position nobody holds: refused or not, it leaves no trace
                let (u, lo, up) = match &pz {
                    Some(p) => (["eve", USERS[p.u]][*v as usize / 3 % 2], p.lo, p.up + sp * (*v as u64 % 3)),
                    None => ("eve", t0.saturating_sub(t0 % sp).saturating_sub(sp), t0 - t0 % sp + sp),
                };
                if r.pos.iter().any(|q| USERS[q.u] == u && q.lo == lo && q.up == up) {
                    continue;
                }
                let (a, b) = (mid::<P>(lo), mid::<P>(up));
                let res = sut(|| r.pool.withdraw(u, &nq(0), &a, &b));
                if let Err(e) = same_st(&before, &r.pool.state(), true) {
                    return bad(format!("before operation {}: a withdrawal of nothing over [{}, {}) by {}, who holds no such position ({}), changed the pool: {}", k, lo, up, u, if res.is_ok() { "accepted" } else { "refused" }, e));
                }
                tried += 1;
                continue;
            }
            let (what, res) = match kind % 13 {
                0 => ("deposit of negative x", sut(|| r.pool.deposit("ann", &neg, &some, &a, &b))),
                1 => ("deposit of negative y", sut(|| r.pool.deposit("ann", &some, &neg, &a, &b))),
                2 => ("deposit over an inverted range", sut(|| r.pool.deposit("ann", &some, &some, &b, &a))),
                3 => ("deposit over an empty range", sut(|| r.pool.deposit("ann", &some, &some, &a, &a))),
                4 => ("negative withdrawal", {
                    let (u, a, b) = match &pz {
                        Some(p) => (USERS[p.u], mid::<P>(p.lo), mid::<P>(p.up)),
                        None => ("ann", a, b),
                    };
                    sut(|| r.pool.withdraw(u, &neg, &a, &b))
                }),
                5 => {
                    let (l, a, b) = match &pz {
                        Some(p) => (p.l, mid::<P>(p.lo), mid::<P>(p.up)),
                        None => (some, a, b),
                    };
                    ("withdrawal by somebody without a position", sut(|| r.pool.withdraw(["eve", "an", "", "ANN", "annb"][*v as usize % 5], &l, &a, &b)))
                }
                6 => {
                    let p = match &pz {
                        Some(p) => p,
                        None => continue,
                    };
                    let more = if P::EXACT {
                        nq(p.l.i + 1 + (*v as i128 % 3) * p.l.i)
                    } else {
                        // from a relative 1e-9 to several times too much
                        let over = [1.0 + (*v / 8 % 3) as f64 * p.l.f, 1e-6 * (p.l.f + 1.0), 1e-9 * (p.l.f + 1.0), 0.5, 0.9];
                        nf(p.l.f + over[*v as usize % 8 % 5])
                    };
                    ("withdrawal of more than the position", sut(|| r.pool.withdraw(USERS[p.u], &more, &mid::<P>(p.lo), &mid::<P>(p.up))))
                }
                7 => {
                    let p = match &pz {
                        Some(p) => p,
                        None => continue,
                    };
                    // another range of the same owner that he does not hold
                    let up = p.up + sp * (1 + *v as u64 % 3);
                    if r.pos.iter().any(|q| q.u == p.u && q.lo == p.lo && q.up == up) {
                        continue;
                    }
                    ("withdrawal from a range the owner does not hold", sut(|| r.pool.withdraw(USERS[p.u], &p.l, &mid::<P>(p.lo), &mid::<P>(up))))
                }
                8 => {
                    let p = match &pz {
                        Some(p) => p,
                        None => continue,
                    };
                    let u = USERS[(p.u + 1 + *v as usize % 3) % 4];
                    if r.pos.iter().any(|q| USERS[q.u] == u && q.lo == p.lo && q.up == p.up) {
                        continue;
                    }
                    ("withdrawal from somebody else's position", sut(|| r.pool.withdraw(u, &p.l, &mid::<P>(p.lo), &mid::<P>(p.up))))
                }
                9 => ("swap of nothing", sut(|| r.pool.swap(v % 2 == 0, &nq(0), &o)).map(|_| ())),
                10 => ("swap of a negative amount", sut(|| r.pool.swap(v % 2 == 0, &neg, &o)).map(|_| ())),
                _ => {
                    let p = match &pz {
                        Some(p) => p,
                        None => continue,
                    };
                    ("withdrawal over an inverted range", sut(|| r.pool.withdraw(USERS[p.u], &p.l, &mid::<P>(p.up), &mid::<P>(p.lo))))
                }
            };
            if res.is_ok() {
                return bad(format!("before operation {}: {} was accepted", k, what));
            }
            if let Err(e) = same_st(&before, &r.pool.state(), true) {
                return bad(format!("before operation {}: a refused {} changed the pool: {}", k, what, e));
            }
            tried += 1;
        }
        match r.step(op) {
            Step::Cont => {}
            Step::Stop => return ok(tried > 0),
            Step::Bad(m) => {
                // is that the history itself or what was refused before it?
                if run_hist::<P>(&w.h, ALL, false).is_err() {
                    return ok(tried > 0);
                }
                return bad(format!("operation {} after refused ones: {}", k, m));
            }
        }
    }
    ok(tried > 0)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadCfg {
    pub kind: u8,
    pub v: U,
    pub tick: u32,
}
fn badcfg() -> BoxedStrategy<BadCfg> {
    (any::<u8>(), prop_oneof![1u128..100, 1u128..10u128.pow(13), 1u128..10u128.pow(18)], 0u32..5000).prop_map(|(kind, v, tick)| BadCfg { kind, v: U(v), tick }).boxed()
}
fn config(c: &BadCfg) -> Out {
    use hmmcl_sandbox::cl_pool as dp;
    use hmmcl_sandbox::decimal::Decimal;
    let rp = DPool::rp_of(c.tick as u64).i as u128;
    let d = |v: u128, n: bool| Decimal::new(v, 12, n);
    let (z, q) = (d(0, false), c.v.0);
    let two = 2_000_000_000_000u128;
    let (what, good, r) = match c.kind % 5 {
        0 => ("a negative root price", false, sut(|| dp::Pool::new("X", 9, "Y", 6, d(q, true), 1, z, z))),
        1 => ("a negative curvature", false, sut(|| dp::Pool::new("X", 9, "Y", 6, d(rp, false), 1, d(q, true), z))),
        2 => ("a curvature above two", false, sut(|| dp::Pool::new("X", 9, "Y", 6, d(rp, false), 1, d(two + q, false), z))),
        3 => ("a negative fee rate", false, sut(|| dp::Pool::new("X", 9, "Y", 6, d(rp, false), 1, z, d(q, true)))),
        _ => ("a curvature up to two", true, sut(|| dp::Pool::new("X", 9, "Y", 6, d(rp, false), 1, d(two - q % (two + 1), false), z))),
    };
    if r.is_ok() != good {
        return bad(format!("creating a pool with {} ({} quanta) was {}", what, q, if good { "refused" } else { "accepted" }));
    }
    ok(true)
}

// ------------------------------------------------------------------ decimal against float
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BOp {
    Claim { p: u8, dep: bool },
    Dep { u: u8, lo: i32, w: u16, l: u32 },
    Wd { p: u8, f: u32 },
    Swap { x: bool, k: u8, ppm: u32, o: i32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Both {
    pub cfg: Cfg,
    pub ops: Vec<BOp>,
}
fn both_strat() -> BoxedStrategy<Both> {
    let g = Gen { exact: true, hmm: false, nohmm: false, max_ops: 10, fee_zero: false };
    let dep = || {
        (0u8..8, prop_oneof![4 => -6i32..7, 3 => -60i32..60], prop_oneof![4 => 1u16..8, 4 => 1u16..80, 1 => 1u16..1500], prop_oneof![10_000u32..1_000_000, 10_000u32..100_000_000])
            .prop_map(|(u, lo, w, l)| BOp::Dep { u, lo, w, l })
    };
    let op = prop_oneof![
        3 => dep(),
        2 => (any::<u8>(), 0u32..1_000_001).prop_map(|(p, f)| BOp::Wd { p, f }),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(p, dep)| BOp::Claim { p, dep }),
        6 => (any::<bool>(), 0u8..3, 1u32..1_000_000, prop_oneof![3 => -3000i32..3000, 1 => -100_000i32..100_000]).prop_map(|(x, k, ppm, o)| BOp::Swap { x, k, ppm, o }),
    ];
    (cfg_strat(g), dep(), proptest::collection::vec(op, 1..10))
        .prop_map(|(cfg, d, mut ops)| {
            ops.insert(0, d);
            Both { cfg, ops }
        })
        .boxed()
}
fn both(b: &Both) -> Out {
    let (mut d, mut f) = match (Run::<DPool>::new(&b.cfg, NONE), Run::<FPool>::new(&b.cfg, NONE)) {
        (Ok(d), Ok(f)) => (d, f),
        (d, f) => return bad(format!("pool creation: decimal {} float {}", d.is_ok(), f.is_ok())),
    };
    let sp = b.cfg.spacing as u64;
    let (mut swaps, mut l) = (0, vec![]);
    // how far the two root prices may be apart: the decimal pool's price of tick t is good to about t quanta
    let tq = |t: u64| (t as f64 * 2.0 * Q + 4.0 * Q) * 1.00005f64.powf(t as f64);
    let mut le = 1e-6;
    let mut pe = tq(b.cfg.tick as u64);
    // relative error of the liquidity
    let mut e = 1e-11;
    // how far the pots of x and of y may be apart, and how often fee growth has been rounded
    let mut pot = [1e-9f64; 2];
    let mut steps = 0.0;
    for (k, op) in b.ops.iter().enumerate() {
        let what;
        let start = (d.st.clone(), f.st.clone());
        match op {
            BOp::Claim { p, dep } => {
                if d.pos.is_empty() {
                    continue;
                }
                let i = *p as usize % d.pos.len();
                let q = d.pos[i].clone();
                what = format!("claim of position {}", i);
                let r = if *dep {
                    let (a, b) = (f.pos[i].lo, f.pos[i].up);
                    (d.deposit(q.u, q.lo, q.up, mid::<DPool>(q.lo), mid::<DPool>(q.up), nq(0), nq(0), true), f.deposit(q.u, a, b, mid::<FPool>(a), mid::<FPool>(b), nf(0.0), nf(0.0), true))
                } else {
                    (d.withdraw(i, nq(0), T::LiveWd), f.withdraw(i, nf(0.0), T::LiveWd))
                };
                match r {
                    (Step::Cont, Step::Cont) => {}
                    _ => return ok(swaps > 0),
                }
                l.push("claim");
            }
            BOp::Dep { u, lo, w, l } => {
                let base = (b.cfg.tick as u64 / sp) as i64;
                // from 4 on: adds to a position there is
                let (u, lo, up) = match d.pos.get(*w as usize % d.pos.len().max(1)) {
                    Some(q) if *u >= 4 => (q.u, q.lo, q.up),
                    _ => {
                        let (lo, up) = DPool::range(base, *lo, *w, sp);
                        (*u as usize % 4, lo, up)
                    }
                };
                let (ra, rb) = (DPool::rp_of(lo).f, DPool::rp_of(up).f);
                let rp = d.st.rp.f.min(rb).max(ra);
                // the float pool rounds down to whole units: aim between two
                let at = |g: f64| (g * (rb - rp) / (rp * rb), g * (rp - ra));
                let (x, y) = at(*l as f64);
                let (fa, fb) = (FPool::rp_of(lo).f, FPool::rp_of(up).f);
                let fr = f.st.rp.f.min(fb).max(fa);
                let g = *l as f64 + 0.5;
                let (xf, yf) = (g * (fb - fr) / (fr * fb), g * (fr - fa));
                // a price close enough to a bound for the amounts to lose their digits
                let close = |t: f64| (rp - t).abs() < 1e-6 * t && (rp - t).abs() > 0.0;
                if close(ra) || close(rb) || x > 0.0 && x < 1e-3 || y > 0.0 && y < 1e-3 {
                    return ok(swaps > 0);
                }
                what = format!("deposit of {} liquidity over [{}, {})", l, lo, up);
                let sum = |p: &[Pos]| p.iter().map(|p| p.l.f).sum::<f64>();
                let (sd, sf) = (sum(&d.pos), sum(&f.pos));
                let one = d.deposit(u, lo, up, mid::<DPool>(lo), mid::<DPool>(up), num::<DPool>(x), num::<DPool>(y), false);
                let two = f.deposit(u, lo, up, mid::<FPool>(lo), mid::<FPool>(up), nf(xf), nf(yf), false);
                match (one, two) {
                    (Step::Cont, Step::Cont) => {}
                    _ => return ok(swaps > 0),
                }
                if d.pos.len() != f.pos.len() {
                    return ok(swaps > 0);
                }
                let r = (x * 1e12).min(if y > 0.0 { y * 1e12 } else { f64::INFINITY }).max(if x > 0.0 { 0.0 } else { y * 1e12 });
                let all = sd;
                let (sd, sf) = (sum(&d.pos) - sd, sum(&f.pos) - sf);
                if (sd - sf).abs() > 1e-6 + sd * 1e-9 + all * 1e-14 {
                    return bad(format!("operation {}: {}: granted {} in the decimal pool, {} in the float pool", k, what, sd, sf));
                }
                // (differences of prices lose digits)
                let near = [rp - ra, rb - rp].into_iter().filter(|d| *d > 0.0).fold(1.0, f64::min);
                e += 4.0 / r + 2e-12 + 1e-15 / near;
                le += *l as f64 * e;
            }
            BOp::Wd { p, f: part } => {
                if d.pos.is_empty() {
                    continue;
                }
                let i = *p as usize % d.pos.len();
                what = format!("withdrawal from position {}", i);
                let whole = *part >= 1_000_000;
                let n = (f.pos[i].l.f * *part as f64 / 1e6).floor();
                let (ld, lf) = if whole { (d.pos[i].l, f.pos[i].l) } else { (nq(n as i128 * 1_000_000_000_000), nf(n)) };
                if !whole && ld.i >= d.pos[i].l.i {
                    continue;
                }
                match (d.withdraw(i, ld, T::LiveWd), f.withdraw(i, lf, T::LiveWd)) {
                    (Step::Cont, Step::Cont) => {}
                    _ => return ok(swaps > 0),
                }
                if d.pos.len() != f.pos.len() {
                    return ok(swaps > 0);
                }
            }
            BOp::Swap { x, k: hops, ppm, o } => {
                let amt = match d.amount(*x, &Amt::Rel(*hops, *ppm)) {
                    Some(v) if v.f > 1e-3 => v,
                    _ => continue,
                };
                what = format!("swap of {} {}", amt.f, if *x { "x" } else { "y" });
                let orc = num::<DPool>(d.st.rp.f * 1.0001f64.powf(*o as f64 / 200.0));
                let (orc_d, orc_f) = (orc, nf(orc.f));
                // deciding on which side of the oracle or of a tick the price is takes digits
                if (orc.f / d.st.rp.f - 1.0).abs() < 1e-6 {
                    continue;
                }
                let rf = d.reference(*x, amt.f, orc.f, None);
                let (rp0, tick0) = (d.st.rp.f, d.st.tick);
                let (p, q) = match (sut(|| d.pool.swap(*x, &amt, &orc_d)), sut(|| f.pool.swap(*x, &nf(amt.f), &orc_f))) {
                    (Ok(p), Ok(q)) => (p, q),
                    _ => return ok(swaps > 0),
                };
                d.st = d.pool.state();
                f.st = f.pool.state();
                swaps += 1;
                if rf.hops > 1 {
                    l.push("crossing");
                }
                if rf.hmm_used {
                    l.push("hybrid");
                }
                if rf.send < 1e-2 {
                    return ok(swaps > 0);
                }
                // an error in liquidity or in the price of a tick moves a crossing by as much
                let hops = rf.hops as f64 + 1.0;
                let top = d.st.rp.f.max(rp0) * 1.0001;
                let err = rf.lmax * (pe + 2.0 * tq(tick0.max(d.st.tick)) * hops);
                let tr = e * 4.0 * amt.f + rf.tol_recv + err;
                let ts = e * 8.0 * rf.send_cpmm + rf.tol_send + hmm_tol::<DPool>(&rf, b.cfg.c) + tr * if *x { top * top } else { 1.0 } + err;
                for (n, u, v, t) in [("consumed", p.recv, q.recv, tr), ("paid", p.send, q.send, ts), ("adjusted by", p.adj, q.adj, ts), ("charged", p.fee, q.fee, tr)] {
                    if (u.f - v.f).abs() > t {
                        return bad(format!("operation {}: {}: the decimal pool {} {}, the float pool {} (tolerance {})", k, what, n, u.f, v.f, t));
                    }
                }
                let (i, o) = if *x { (0, 1) } else { (1, 0) };
                pot[i] += tr + 1e-15 * d.st.xf.f.max(d.st.yf.f);
                pot[o] += ts + 1e-15 * d.st.xa.f.max(d.st.ya.f);
                steps += hops;
                e *= 1.5;
                for (n, u, v, t) in [("x fee", &d.st.xf, &f.st.xf, pot[0]), ("x adjustment", &d.st.xa, &f.st.xa, pot[0]), ("y fee", &d.st.yf, &f.st.yf, pot[1]), ("y adjustment", &d.st.ya, &f.st.ya, pot[1])] {
                    if (u.f - v.f).abs() > t {
                        return bad(format!("operation {}: {}: the {} pot of the decimal pool is {}, of the float pool {} (tolerance {})", k, what, n, u.f, v.f, t));
                    }
                }
                if d.st.liq.f <= 0.0 || rf.gaps > 0 {
                    return Out::Ok(swaps > 0, l);
                }
                pe = 1.5 * (err + e * 4.0 * amt.f * if *x { top * top } else { 1.0 }) / d.st.liq.f + tq(d.st.tick) * 2.0;
                if pe > 1e-7 {
                    return Out::Ok(swaps > 0, l);
                }
            }
        }
        let (s, t) = (d.pool.state(), f.pool.state());
        d.st = s.clone();
        f.st = t.clone();
        if !matches!(op, BOp::Swap { .. }) {
            // what was paid out of the pots: fee growth is kept in quanta per unit of liquidity
            let lmax = d.pos.iter().map(|p| p.l.f).sum::<f64>().max(start.0.liq.f);
            let p = |u: &St| [u.xf.f.max(u.xa.f), u.yf.f.max(u.ya.f)];
            let before = p(&start.0);
            for (n, u, v, j) in [("x fee", &s.xf, &t.xf, 0), ("x adjustment", &s.xa, &t.xa, 0), ("y fee", &s.yf, &t.yf, 1), ("y adjustment", &s.ya, &t.ya, 1)] {
                let tol = 2.0 * pot[j] + 8.0 * e * before[j] + lmax * (steps + 1.0) * 2.0 * Q;
                if (u.f - v.f).abs() > tol {
                    return bad(format!("operation {}: {}: leaves {} in the {} pot of the decimal pool, {} in that of the float pool (tolerance {})", k, what, u.f, n, v.f, tol));
                }
            }
            for j in 0..2 {
                pot[j] = 2.0 * pot[j] + 8.0 * e * before[j] + lmax * (steps + 1.0) * 2.0 * Q;
            }
        }
        if s.ticks != t.ticks || s.npos != t.npos {
            return bad(format!("operation {}: {}: active ticks {:?} and {:?}, {} and {} positions", k, what, s.ticks, t.ticks, s.npos, t.npos));
        }
        let near = s.ticks.iter().any(|t| (DPool::rp_of(*t).f / s.rp.f - 1.0).abs() < 1e-6);
        if (s.rp.f - t.rp.f).abs() > pe || (s.liq.f - t.liq.f).abs() > le {
            // the price may be anywhere in a range without liquidity
            if s.liq.f > 0.0 && !near {
                return bad(format!("operation {}: {}: the decimal pool is at root price {} liquidity {}, the float pool at {} and {}", k, what, s.rp.f, s.liq.f, t.rp.f, t.liq.f));
            }
        }
        if near && k > 0 {
            return Out::Ok(swaps > 0, l);
        }
    }
    Out::Ok(swaps > 0, l)
}

// ------------------------------------------------------------------ tick bitmap
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bits {
    pub ops: Vec<(u8, u32)>,
    pub ask: Vec<u32>,
}
const TICKS: u32 = TICK_BITMAP_SIZE as u32 * 8;
fn bits() -> BoxedStrategy<Bits> {
    let t = || prop_oneof![4 => 0u32..200, 2 => 30_000u32..30_070, 3 => 0u32..TICKS, 1 => TICKS - 70..TICKS, 1 => Just(0u32), 1 => Just(TICKS - 1)];
    (proptest::collection::vec((any::<u8>(), t()), 0..40), proptest::collection::vec(t(), 1..12)).prop_map(|(ops, ask)| Bits { ops, ask }).boxed()
}
fn filled(b: &Bits) -> Result<(Box<PoolTickBitmap>, BTreeSet<u32>), String> {
    let mut m = Box::new(PoolTickBitmap::default());
    let mut s = BTreeSet::new();
    for (k, (kind, t)) in b.ops.iter().enumerate() {
        let r = match kind % 3 {
            0 | 1 => {
                s.insert(*t);
                sut(|| m.activate_tick(*t as i32))
            }
            _ => {
                s.remove(t);
                sut(|| m.unset_tick(*t as i32))
            }
        };
        r.map_err(|e| format!("operation {} on tick {} aborted: {}", k, t, e))?;
    }
    Ok((m, s))
}
fn bit_set(b: &Bits) -> Out {
    let (m, s) = match filled(b) {
        Ok(v) => v,
        Err(e) => return bad(e),
    };
    for k in 0..TICKS {
        let on = match sut(|| m.tick_is_active(k as i32)) {
            Ok(v) => v,
            Err(e) => return bad(format!("asking for tick {} aborted: {}", k, e)),
        };
        if on != s.contains(&k) {
            return bad(format!("tick {} is {} after the operations, expected {}", k, on, s.contains(&k)));
        }
    }
    if m.bump != 0 {
        return bad(format!("the operations changed the bump to {}", m.bump));
    }
    ok(!s.is_empty())
}
fn bit_next(b: &Bits) -> Out {
    let (m, s) = match filled(b) {
        Ok(v) => v,
        Err(e) => return bad(e),
    };
    let mut asks = b.ask.clone();
    for t in s.iter() {
        asks.extend([*t, t.saturating_sub(1), (t + 1).min(TICKS - 1)]);
    }
    for t in asks {
        for dir in [0u8, 1] {
            let want = if dir == 0 { s.range(..t).next_back() } else { s.range(t + 1..).next() };
            match sut(|| m.get_next_tick(t as i32, dir)) {
                Ok(g) if g == want.map(|v| *v as i32) => {}
                g => return bad(format!("next active tick {} {} is {:?}, expected {:?}", if dir == 0 { "below" } else { "above" }, t, g, want)),
            }
        }
    }
    ok(s.len() > 1)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Byte {
    b: u8,
    ix: u8,
}
fn byte(v: &Byte) -> Out {
    let ix = v.ix % 8;
    for dir in [0u8, 1] {
        for inside in [true, false] {
            let want = if dir == 0 {
                (0..if inside { ix } else { 8 }).rev().find(|k| v.b >> k & 1 == 1)
            } else {
                (if inside { ix + 1 } else { 0 }..8).find(|k| v.b >> k & 1 == 1)
            };
            match sut(|| byte_get_next_tick(v.b, dir, ix, inside)) {
                Ok(g) if g == want => {}
                g => return bad(format!("next bit of {:#010b} in direction {} from {} ({}): {:?}, expected {:?}", v.b, dir, ix, inside, g, want)),
            }
        }
    }
    ok(v.b.count_ones() > 1)
}

const G_F: Gen = Gen { exact: false, hmm: false, nohmm: false, max_ops: 12, fee_zero: false };
const G_D: Gen = Gen { exact: true, hmm: false, nohmm: false, max_ops: 12, fee_zero: false };

pub fn subs(id: &str) -> Option<Vec<Box<dyn SubCheck>>> {
    const TR: &str = "non-trivial = the trade went through whole and in parts";
    const RT: &str = "non-trivial = the trade and the way back went through";
    const IO: &str = "non-trivial = the deposit was granted liquidity";
    const MX: &str = "non-trivial = more than one deposit";
    const BY: &str = "non-trivial = at least one swap stayed among the original positions";
    const NC: &str = "non-trivial = somebody had earned something when the newcomer joined";
    const RF: &str = "non-trivial = at least one invalid operation was tried";
    Some(match id {
        "C26" => vec![
            prop!("split-decimal", TR, 30_000, 1_500_000, || trade(G_D), split::<DPool>),
            prop!("split-float", TR, 30_000, 1_500_000, || trade(G_F), split::<FPool>),
            prop!("round-trip-decimal", RT, 30_000, 1_500_000, || trade(G_D), round_trip::<DPool>),
            prop!("round-trip-float", RT, 30_000, 1_500_000, || trade(G_F), round_trip::<FPool>),
            prop!("in-and-out-decimal", IO, 30_000, 1_500_000, || visit(G_D), in_and_out::<DPool>),
            prop!("in-and-out-float", IO, 30_000, 1_500_000, || visit(G_F), in_and_out::<FPool>),
        ],
        "C27" => vec![
            prop!("order-decimal", MX, 20_000, 1_000_000, || mix(G_D), permuted::<DPool>),
            prop!("order-float", MX, 20_000, 1_000_000, || mix(G_F), permuted::<FPool>),
            prop!("owner-decimal", MX, 20_000, 1_000_000, || mix(G_D), one_owner::<DPool>),
            prop!("owner-float", MX, 20_000, 1_000_000, || mix(G_F), one_owner::<FPool>),
            prop!("bystander-decimal", BY, 20_000, 1_000_000, || mix(G_D), bystander::<DPool>),
            prop!("bystander-float", BY, 20_000, 1_000_000, || mix(G_F), bystander::<FPool>),
            prop!("newcomer-decimal", NC, 20_000, 1_000_000, || visit(G_D), newcomer::<DPool>),
            prop!("newcomer-float", NC, 20_000, 1_000_000, || visit(G_F), newcomer::<FPool>),
        ],
        "C28" => vec![
            prop!("decimal", RF, 40_000, 2_000_000, || wrong(G_D), refused::<DPool>),
            prop!("float", RF, 40_000, 2_000_000, || wrong(G_F), refused::<FPool>),
            prop!("config", "all", 20_000, 200_000, badcfg, config),
        ],
        "C41" => vec![
            prop!("split", TR, 12_000, 600_000, || trade(G_F), split::<PyPool>),
            prop!("round-trip", RT, 12_000, 600_000, || trade(G_F), round_trip::<PyPool>),
            prop!("in-and-out", IO, 12_000, 600_000, || visit(G_F), in_and_out::<PyPool>),
            prop!("order", MX, 10_000, 480_000, || mix(G_F), permuted::<PyPool>),
            prop!("owner", MX, 10_000, 480_000, || mix(G_F), one_owner::<PyPool>),
            prop!("bystander", BY, 10_000, 480_000, || mix(G_F), bystander::<PyPool>),
            prop!("newcomer", NC, 10_000, 480_000, || visit(G_F), newcomer::<PyPool>),
            prop!("refused", RF, 16_000, 800_000, || wrong(G_F), refused::<PyPool>),
        ],
        "C29" => vec![prop!("decimal-float", "non-trivial = at least one swap was compared", 40_000, 3_000_000, both_strat, both)],
        "C31" => vec![prop!("set", "non-trivial = some tick is active at the end", 6_000, 200_000, bits, bit_set)],
        "C32" => vec![
            prop!("next", "non-trivial = at least two active ticks", 10_000, 300_000, bits, bit_next),
            prop!("byte", "non-trivial = at least two bits set", 20_000, 100_000, || (any::<u8>(), any::<u8>()).prop_map(|(b, ix)| Byte { b, ix }).boxed(), byte),
        ],
        _ => return None,
    })
}
