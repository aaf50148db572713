//! Properties judged on pool histories.
use crate::core::*;
use crate::d_props::prop;
use crate::pool::*;

fn verdict<P: PoolApi>(h: &Hist, want: &'static [T], close: bool, nt: fn(&Run<P>) -> bool) -> Out {
    match run_hist::<P>(h, want, close) {
        Err(m) => Out::Bad(m),
        Ok(r) => {
            let n = nt(&r);
            let mut l = r.labels.clone();
            l.sort();
            l.dedup();
            Out::Ok(n, l)
        }
    }
}
const G_F: Gen = Gen { exact: false, hmm: false, nohmm: false, max_ops: 16, fee_zero: false };
const G_D: Gen = Gen { exact: true, hmm: false, nohmm: false, max_ops: 16, fee_zero: false };

const R_SWAP: &str = "the history executed at least one swap";
const R_CROSS: &str = "the history executed a swap that crossed an active tick";
const R_HMM: &str = "a swap of the history was priced by the hybrid curve";
const R_CLAIM: &str = "a position that had earned something was paid out";
const R_OPS: &str = "at least two positions were opened or changed";

fn swapped<P: PoolApi>(r: &Run<P>) -> bool {
    r.swaps > 0
}
fn crossed<P: PoolApi>(r: &Run<P>) -> bool {
    r.crossings > 0
}
fn hmm<P: PoolApi>(r: &Run<P>) -> bool {
    r.labels.contains(&"hmm-adjusted")
}
fn claimed<P: PoolApi>(r: &Run<P>) -> bool {
    r.touched_claims > 0
}
fn opened<P: PoolApi>(r: &Run<P>) -> bool {
    r.opened > 1
}

pub fn subs(id: &str) -> Option<Vec<Box<dyn SubCheck>>> {
    macro_rules! all {
        ($want:expr, $close:expr, $rule:expr, $nt:ident) => {
            all!($want, $close, $rule, $nt, G_D, G_F)
        };
        ($want:expr, $close:expr, $rule:expr, $nt:ident, $gd:expr, $gf:expr) => {
            vec![
                prop!("decimal", $rule, 60_000, 3_000_000, || hist_strat($gd), |h: &Hist| verdict::<DPool>(h, $want, $close, $nt)),
                prop!("float", $rule, 80_000, 5_000_000, || hist_strat($gf), |h: &Hist| verdict::<FPool>(h, $want, $close, $nt)),
                prop!("crowd-decimal", $rule, 3_000, 150_000, || crowd_strat($gd), |h: &Hist| verdict::<DPool>(h, $want, $close, $nt)),
                prop!("crowd-float", $rule, 5_000, 250_000, || crowd_strat($gf), |h: &Hist| verdict::<FPool>(h, $want, $close, $nt)),
            ]
        };
    }
    Some(match id {
        "C14" => all!(&[T::Liq], false, R_SWAP, swapped),
        "C15" => all!(&[T::Tick], false, R_CROSS, crossed),
        "C16" => all!(&[T::Cons], true, R_SWAP, swapped),
        "C17" => all!(&[T::Solv], true, R_SWAP, swapped),
        "C18" => all!(&[T::Lim], false, R_SWAP, swapped),
        "C19" => all!(&[T::Ref], false, R_CROSS, crossed),
        "C20" => all!(&[T::Fee], false, R_SWAP, swapped),
        "C21" => all!(&[T::Dist], true, R_CLAIM, claimed),
        "C22" => all!(&[T::Hmm], false, R_HMM, hmm, Gen { hmm: true, ..G_D }, Gen { hmm: true, ..G_F }),
        "C23" => all!(&[T::Dep], false, R_OPS, opened),
        "C24" => all!(&[T::LiveSwap], false, R_SWAP, swapped),
        "C25" => all!(&[T::LiveDep, T::LiveWd], true, R_OPS, opened),
        _ => return None,
    })
}
