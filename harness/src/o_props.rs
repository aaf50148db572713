//! The on-chain program, through its entry point, on generated instruction histories.
use crate::chain::*;
use crate::core::*;
use crate::d_props::{ensure, prop};
use crate::m_props::{lx, ly, r12, x_of, y_of};
use crate::num::Rat;
use crate::pool::Q;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::{system_program, sysvar};
use anchor_lang::{InstructionData, ToAccountMetas};
use hmmcl_sandbox::cl_pool as dp;
use hmmcl_sandbox::cl_pool::cl_math::PoolMath as _;
use hmmcl_sandbox::state::fees::Fee;
use hmmcl_sandbox::state::pool_state::PoolState;
use hmmcl_sandbox::state::position_state::PositionState;
use hmmcl_sandbox::state::tick_state::TickState;
use hmmcl_sandbox::{accounts as ac, instruction as ix};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

const FUNDS: u64 = 1 << 60;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum OOp {
    /// pool, user, lower bound and width relative to the current tick, log10 liquidity in 1/100, extra ppm
    Dep { pool: u8, u: u8, lo: i32, w: u16, l: u16, ex: u32, ey: u32 },
    /// deposit of these raw amounts
    Raw { pool: u8, u: u8, lo: i32, w: u16, x: u64, y: u64 },
    /// pool, position, ppm of what can be taken (1_000_000 = all)
    Wd { pool: u8, p: u8, f: u32 },
    /// same, an absolute number of LP tokens
    WdRaw { pool: u8, p: u8, n: u64 },
    /// LP tokens change hands: pool, from, to, ppm
    Give { pool: u8, u: u8, v: u8, f: u32 },
    /// the fractions of a unit of liquidity are dropped everywhere
    Whole { pool: u8 },
    /// a withdrawal that leaves a position as large as the smallest one sharing a tick with it
    Level { pool: u8, p: u8 },
    /// fee growth as swaps would leave it behind (for the checks that no operation disturbs it)
    Grow { pool: u8, g: [u32; 4] },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mutant {
    pub at: u8,
    /// what is tampered with
    pub kind: u8,
    pub idx: u8,
    pub with: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OHist {
    pub t: [u32; 2],
    pub ops: Vec<OOp>,
    pub order: u8,
    pub bad: Vec<Mutant>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OT {
    Init,
    Liq,
    Tok,
    Auth,
    Live,
    Frame,
    Event,
}
fn event(name: &str, v: [u64; 3]) -> Vec<u8> {
    let h = anchor_lang::solana_program::hash::hash(format!("event:{}", name).as_bytes()).to_bytes();
    let mut d = h[..8].to_vec();
    for x in v {
        d.extend(x.to_le_bytes());
    }
    d
}
struct PoolW {
    state: Pubkey,
    bump: u8,
    bitmap: Pubkey,
    lp: Pubkey,
    vx: Pubkey,
    vy: Pubkey,
    vl: Pubkey,
    tick: u64,
    rp: i128,
}
struct User {
    key: Pubkey,
    x: Pubkey,
    y: Pubkey,
    lp: [Pubkey; 2],
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct PosK {
    pool: usize,
    u: usize,
    lo: u64,
    up: u64,
}
pub struct World {
    c: Chain,
    mx: Pubkey,
    my: Pubkey,
    pools: Vec<PoolW>,
    users: Vec<User>,
    payer: Pubkey,
    authority: Pubkey,
    /// model: liquidity of every position in quanta, every tick account
    pos: BTreeMap<PosK, i128>,
    ticks: Vec<(usize, u64)>,
    want: &'static [OT],
    labels: Vec<&'static str>,
    n: u32,
    tampered: u32,
    moved: u32,
    gave: bool,
    grown: bool,
}
type R = Result<(), String>;
macro_rules! oj {
    ($s:expr, $t:expr, $c:expr, $($a:tt)*) => {
        if !($c) && $s.want.contains(&$t) {
            return Err(format!($($a)*));
        }
    };
}
fn metas(m: Vec<anchor_lang::prelude::AccountMeta>) -> Vec<Meta> {
    m.into_iter().map(|m| Meta { key: m.pubkey, signer: m.is_signer, writable: m.is_writable }).collect()
}
fn rp_at(t: u64) -> i128 {
    dp::Pool::tick_to_rp(t as u128).value as i128
}

/// one instruction with the roles of its accounts
pub struct Call {
    metas: Vec<Meta>,
    data: Vec<u8>,
}

impl World {
    pub fn new(t: &[u32; 2], want: &'static [OT]) -> Result<World, String> {
        let mut c = Chain::new();
        let auth = c.wallet();
        let payer = c.wallet();
        let (mx, my) = (c.mint(auth, 9), c.mint(auth, 6));
        let mut w = World { c, mx, my, pools: vec![], users: vec![], payer, authority: auth, pos: BTreeMap::new(), ticks: vec![], want, labels: vec![], n: 0, tampered: 0, moved: 0, gave: false, grown: false };
        for k in 0..2 {
            w.add_pool(t[k] as u64)?;
        }
        for _ in 0..3 {
            let key = w.c.wallet();
            let x = w.c.token_account(mx, key, FUNDS);
            let y = w.c.token_account(my, key, FUNDS);
            let l0 = w.c.token_account(w.pools[0].lp, key, 0);
            let l1 = w.c.token_account(w.pools[1].lp, key, 0);
            w.users.push(User { key, x, y, lp: [l0, l1] });
        }
        Ok(w)
    }
    fn add_pool(&mut self, tick: u64) -> R {
        use hmmcl_sandbox::constants::*;
        let lp0 = self.c.fresh();
        // the mint's authority must be the pool, whose address depends on the mint
        let (state, bump) = self.c.pda(&[POOL_STATE_SEED, lp0.as_ref()]);
        let lp = self.c.mint(state, 6);
        let a = self.c.acc.remove(&lp).unwrap();
        self.c.acc.insert(lp0, a);
        let lp = lp0;
        let (vx, bx) = self.c.pda(&[TOKEN_VAULT_SEED, self.mx.as_ref(), lp.as_ref()]);
        let (vy, by) = self.c.pda(&[TOKEN_VAULT_SEED, self.my.as_ref(), lp.as_ref()]);
        let (vl, bl) = self.c.pda(&[LP_TOKEN_VAULT_SEED, state.as_ref(), lp.as_ref()]);
        let (bitmap, _) = self.c.pda(&[b"bitmap", state.as_ref()]);
        let m = metas(
            ac::InitializePool {
                authority: self.authority,
                payer: self.payer,
                pool_state: state,
                token_x_mint: self.mx,
                token_y_mint: self.my,
                lp_token_mint: lp,
                token_x_vault: vx,
                token_y_vault: vy,
                lp_token_vault: vl,
                system_program: system_program::id(),
                token_program: spl_token::id(),
                rent: sysvar::rent::id(),
            }
            .to_account_metas(None),
        );
        let data = ix::InitializePool { bootstrap_rp: 1, tick: tick }.data();
        if self.want.contains(&OT::Init) {
            // an LP mint that somebody else controls, vaults in each other's place, nobody's pool
            let who = self.c.wallet();
            let lp = self.c.mint(who, 6);
            let state = self.c.pda(&[POOL_STATE_SEED, lp.as_ref()]).0;
            let mut m2 = m.clone();
            m2[2].key = state;
            m2[5].key = lp;
            m2[6].key = self.c.pda(&[TOKEN_VAULT_SEED, self.mx.as_ref(), lp.as_ref()]).0;
            m2[7].key = self.c.pda(&[TOKEN_VAULT_SEED, self.my.as_ref(), lp.as_ref()]).0;
            m2[8].key = self.c.pda(&[LP_TOKEN_VAULT_SEED, state.as_ref(), lp.as_ref()]).0;
            oj!(self, OT::Init, self.c.run(&m2, &data).is_err(), "a pool was initialised whose LP mint is controlled by somebody else");
            for (i, j) in [(6, 7), (6, 8), (7, 8)] {
                let mut m2 = m.clone();
                let k = m2[i].key;
                m2[i].key = m2[j].key;
                m2[j].key = k;
                oj!(self, OT::Init, self.c.run(&m2, &data).is_err(), "a pool was initialised with two vaults in each other's place");
            }
            let mut m2 = m.clone();
            m2[0].signer = false;
            oj!(self, OT::Init, self.c.run(&m2, &data).is_err(), "a pool was initialised without its authority's signature");
        }
        if let Err(e) = self.c.run(&m, &data) {
            return Err(format!("initialize_pool at tick {}: {}", tick, e));
        }
        let rp = rp_at(tick);
        let p = PoolW { state, bump, bitmap, lp, vx, vy, vl, tick, rp };
        let s: PoolState = self.c.state(&state).ok_or("no pool state after initialize_pool")?;
        oj!(
            self,
            OT::Init,
            s.authority == self.authority
                && s.token_x_mint == self.mx
                && s.token_y_mint == self.my
                && s.lp_token_mint == lp
                && s.token_x_vault == vx
                && s.token_y_vault == vy
                && (s.pool_state_bump, s.token_x_vault_bump, s.token_y_vault_bump, s.lp_token_vault_bump) == (bump, bx, by, bl),
            "initialize_pool recorded other accounts than it was given"
        );
        let g = &s.pool_global_state;
        oj!(
            self,
            OT::Init,
            g.liquidity == 0 && g.liq_scale == 12 && g.rp_scale == 12 && g.tick == tick && g.root_price == rp as u128 && fee0(&g.global_fee),
            "initialize_pool at tick {}: state {:?}, expected root price {}",
            tick,
            g,
            rp
        );
        for (v, mint, n) in [(vx, self.mx, "x vault"), (vy, self.my, "y vault"), (vl, lp, "lp vault")] {
            let t = self.c.token(&v);
            oj!(self, OT::Init, t.mint == mint && t.owner == state && t.amount == 0 && t.delegate.is_none() && t.close_authority.is_none(), "initialize_pool: {} is {:?}", n, t);
        }
        // only once
        let again = ix::InitializePool { bootstrap_rp: 1, tick: tick + 1 }.data();
        oj!(self, OT::Init, self.c.run(&m, &again).is_err(), "initialize_pool succeeded twice for the same LP mint");
        self.pools.push(p);
        let k = self.pools.len() - 1;
        let (m, data) = self.bitmap_call(k);
        self.c.run(&m, &data).map_err(|e| format!("initialize_bitmap: {}", e))?;
        let b = &self.c.acc[&bitmap];
        oj!(self, OT::Init, b.owner == hmmcl_sandbox::ID && b.data[8..8 + hmmcl_sandbox::state::tick_bitmap::TICK_BITMAP_SIZE].iter().all(|x| *x == 0), "initialize_bitmap: not empty");
        oj!(self, OT::Init, self.c.run(&m, &data).is_err(), "initialize_bitmap succeeded twice");
        self.ensure_tick(k, tick)
    }
    fn bitmap_call(&self, k: usize) -> (Vec<Meta>, Vec<u8>) {
        let p = &self.pools[k];
        let m = metas(ac::InitializeBitmap { pool_state: p.state, tick_bitmap: p.bitmap, payer: self.payer, system_program: system_program::id() }.to_account_metas(None));
        (m, ix::InitializeBitmap {}.data())
    }
    fn tick_key(&mut self, k: usize, t: u64) -> Pubkey {
        let s = self.pools[k].state;
        self.c.pda(&[b"tick", s.as_ref(), &t.to_le_bytes()]).0
    }
    fn pos_key(&mut self, p: &PosK) -> Pubkey {
        let (s, u) = (self.pools[p.pool].state, self.users[p.u].key);
        self.c.pda(&[b"position", s.as_ref(), u.as_ref(), &p.lo.to_le_bytes(), &p.up.to_le_bytes()]).0
    }
    fn ensure_tick(&mut self, k: usize, t: u64) -> R {
        let tk = self.tick_key(k, t);
        let m = metas(ac::InitializeTick { pool_state: self.pools[k].state, tick_state: tk, payer: self.payer, system_program: system_program::id() }.to_account_metas(None));
        if self.want.contains(&OT::Init) && !self.ticks.contains(&(k, t)) {
            oj!(self, OT::Init, self.c.run(&m, &ix::InitializeTick { tick: t + 1 }.data()).is_err(), "tick {} was initialised at the address of tick {}", t + 1, t);
            let wide = t + (1 << (8 * (1 + t % 7)));
            oj!(self, OT::Init, self.c.run(&m, &ix::InitializeTick { tick: wide }.data()).is_err(), "tick {} was initialised at the address of tick {}", wide, t);
            if let Some(i) = (0..self.pools.len()).find(|i| *i != k) {
                let mut m2 = m.clone();
                m2[0].key = self.pools[i].state;
                oj!(self, OT::Init, self.c.run(&m2, &ix::InitializeTick { tick: t }.data()).is_err(), "tick {} of pool {} was initialised at the address of that of pool {}", t, i, k);
            }
        }
        let r = self.c.run(&m, &ix::InitializeTick { tick: t }.data());
        if self.ticks.contains(&(k, t)) {
            oj!(self, OT::Init, r.is_err(), "initialize_tick succeeded twice for tick {}", t);
            return Ok(());
        }
        r.map_err(|e| format!("initialize_tick {}: {}", t, e))?;
        self.ticks.push((k, t));
        let s: TickState = self.c.state(&tk).ok_or("no tick state after initialize_tick")?;
        oj!(
            self,
            OT::Init,
            s.tick == t && s.liq_net == 0 && s.liq_gross == 0 && s.liq_net_scale == 12 && s.liq_gross_scale == 12 && fee0(&s.tick_fee),
            "initialize_tick {}: fresh tick has state ({}, {}, {})",
            t,
            s.tick,
            s.liq_net,
            s.liq_gross
        );
        Ok(())
    }
    fn ensure_pos(&mut self, p: PosK) -> R {
        let first = !self.pos.contains_key(&p);
        let pk = self.pos_key(&p);
        let (a, b) = (self.tick_key(p.pool, p.lo), self.tick_key(p.pool, p.up));
        let m = metas(
            ac::CreatePosition {
                pool_state: self.pools[p.pool].state,
                position_state: pk,
                lower_tick_state: a,
                upper_tick_state: b,
                user: self.users[p.u].key,
                payer: self.payer,
                system_program: system_program::id(),
            }
            .to_account_metas(None),
        );
        let data = ix::CreatePosition { lower_tick: p.lo, upper_tick: p.up }.data();
        if first && (!self.ticks.contains(&(p.pool, p.lo)) || !self.ticks.contains(&(p.pool, p.up))) {
            oj!(self, OT::Init, self.c.run(&m, &data).is_err(), "a position over ticks that do not exist was created");
        }
        self.ensure_tick(p.pool, p.lo)?;
        self.ensure_tick(p.pool, p.up)?;
        if first && p.lo > 0 {
            // the wrong way round, and empty
            let pk2 = self.pos_key(&PosK { lo: p.up, up: p.lo, ..p });
            let mut m2 = m.clone();
            m2[1].key = pk2;
            m2[2].key = b;
            m2[3].key = a;
            oj!(self, OT::Init, self.c.run(&m2, &ix::CreatePosition { lower_tick: p.up, upper_tick: p.lo }.data()).is_err(), "a position over [{}, {}) was created", p.up, p.lo);
            let pk3 = self.pos_key(&PosK { up: p.lo, ..p });
            m2[1].key = pk3;
            m2[2].key = a;
            m2[3].key = a;
            oj!(self, OT::Init, self.c.run(&m2, &ix::CreatePosition { lower_tick: p.lo, upper_tick: p.lo }.data()).is_err(), "a position over the empty range at {} was created", p.lo);
            // in somebody's name without their signature
            let mut m4 = m.clone();
            m4[4].signer = false;
            oj!(self, OT::Auth, self.c.run(&m4, &data).is_err(), "a position was created without its owner's signature");
        }
        if first && self.want.contains(&OT::Init) {
            // over the ticks of others, or at somebody else's address
            let mut m5 = m.clone();
            (m5[2].key, m5[3].key) = (b, a);
            oj!(self, OT::Init, self.c.run(&m5, &data).is_err(), "a position was created with its ticks in each other's place");
            let ts = self.ticks.clone();
            for (i, want) in [(2, p.lo), (3, p.up)] {
                for j in 0..3 {
                    let t = ts[(p.lo as usize + j) % ts.len()];
                    if t == (p.pool, want) {
                        continue;
                    }
                    let mut m5 = m.clone();
                    m5[i].key = self.tick_key(t.0, t.1);
                    oj!(self, OT::Init, self.c.run(&m5, &data).is_err(), "a position over [{}, {}) of pool {} was created with tick {} of pool {} as its {} bound", p.lo, p.up, p.pool, t.1, t.0, if i == 2 { "lower" } else { "upper" });
                }
            }
            for q in [PosK { u: (p.u + 1) % 3, ..p }, PosK { up: p.up + 1, ..p }, PosK { pool: 1 - p.pool, ..p }] {
                let mut m5 = m.clone();
                m5[1].key = self.pos_key(&q);
                oj!(self, OT::Init, self.c.run(&m5, &data).is_err(), "a position was created at the address of another");
            }
        }
        let r = self.c.run(&m, &data);
        if !first {
            oj!(self, OT::Init, r.is_err(), "create_position succeeded twice");
            return Ok(());
        }
        r.map_err(|e| format!("create_position [{}, {}): {}", p.lo, p.up, e))?;
        self.pos.insert(p, 0);
        let s: PositionState = self.c.state(&pk).ok_or("no position state after create_position")?;
        oj!(
            self,
            OT::Init,
            s.liquidity == 0 && s.liq_scale == 12 && s.lower_tick == p.lo && s.upper_tick == p.up && fee0(&s.last_collected_fee),
            "create_position [{}, {}): fresh position has liquidity {} range [{}, {})",
            p.lo,
            p.up,
            s.liquidity,
            s.lower_tick,
            s.upper_tick
        );
        Ok(())
    }
    fn dep_call(&mut self, p: &PosK, x: u64, y: u64) -> Call {
        let (pos, lo, up) = (self.pos_key(p), self.tick_key(p.pool, p.lo), self.tick_key(p.pool, p.up));
        let cur = self.pools[p.pool].tick;
        let ct = self.tick_key(p.pool, cur);
        let (q, u) = (&self.pools[p.pool], &self.users[p.u]);
        Call {
            metas: metas(
                ac::Deposit {
                    pool_state: q.state,
                    tick_bitmap: q.bitmap,
                    position_state: pos,
                    lower_tick_state: lo,
                    upper_tick_state: up,
                    current_tick_state: ct,
                    lp_token_mint: q.lp,
                    user_token_x: u.x,
                    user_token_y: u.y,
                    token_x_vault: q.vx,
                    token_y_vault: q.vy,
                    lp_token_vault: q.vl,
                    lp_token_to: u.lp[p.pool],
                    token_program: spl_token::id(),
                    user: u.key,
                    payer: self.payer,
                }
                .to_account_metas(None),
            ),
            data: ix::Deposit { lower_tick: p.lo, upper_tick: p.up, current_tick: cur, token_x_amount: x, token_y_amount: y }.data(),
        }
    }
    fn wd_call(&mut self, p: &PosK, n: u64) -> Call {
        let (pos, lo, up) = (self.pos_key(p), self.tick_key(p.pool, p.lo), self.tick_key(p.pool, p.up));
        let cur = self.pools[p.pool].tick;
        let ct = self.tick_key(p.pool, cur);
        let (q, u) = (&self.pools[p.pool], &self.users[p.u]);
        Call {
            metas: metas(
                ac::Withdraw {
                    pool_state: q.state,
                    tick_bitmap: q.bitmap,
                    position_state: pos,
                    lower_tick_state: lo,
                    upper_tick_state: up,
                    current_tick_state: ct,
                    lp_token_mint: q.lp,
                    user_token_x: u.x,
                    user_token_y: u.y,
                    token_x_vault: q.vx,
                    token_y_vault: q.vy,
                    lp_token_vault: q.vl,
                    lp_token_user_account: u.lp[p.pool],
                    token_program: spl_token::id(),
                    user: u.key,
                    payer: self.payer,
                }
                .to_account_metas(None),
            ),
            data: ix::Withdraw { lower_tick: p.lo, upper_tick: p.up, current_tick: cur, lp_token_amount: n }.data(),
        }
    }
    fn place(&self, pool: u8, u: u8, lo: i32, w: u16) -> PosK {
        let k = pool as usize % 2;
        let lo = (self.pools[k].tick as i64 + lo as i64).max(0) as u64;
        PosK { pool: k, u: u as usize % 3, lo, up: lo + (w as u64).max(1) }
    }
    fn amounts(&self, p: &PosK, l: f64) -> (f64, f64) {
        let (a, b, r) = (rp_at(p.lo), rp_at(p.up), self.pools[p.pool].rp);
        let li = (l * 1e12) as i128;
        (x_of(li, r, a, b).0.to_f64(), y_of(li, r, a, b).0.to_f64())
    }
    /// balances that an operation may touch
    fn snap(&self, p: &PosK) -> Snap {
        let (q, u) = (&self.pools[p.pool], &self.users[p.u]);
        Snap {
            ux: self.c.balance(&u.x),
            uy: self.c.balance(&u.y),
            vx: self.c.balance(&q.vx),
            vy: self.c.balance(&q.vy),
            lp: self.c.balance(&u.lp[p.pool]),
            sup: self.c.supply(&q.lp),
            l: self.pos.get(p).copied().unwrap_or(0),
        }
    }
    /// accounts the operation has no business with stay as they were; of the others only the
    /// figures it is about may differ
    fn everything_else(&mut self, before: &BTreeMap<Pubkey, Acct>, p: &PosK, what: &str) -> R {
        if !self.want.contains(&OT::Frame) {
            return Ok(());
        }
        let may = self.touched(p);
        let (pos, lo, up) = (self.pos_key(p), self.tick_key(p.pool, p.lo), self.tick_key(p.pool, p.up));
        let (q, u) = (&self.pools[p.pool], &self.users[p.u]);
        for (k, a) in &self.c.acc {
            let b = before.get(k);
            if b == Some(a) {
                continue;
            }
            let b = match b {
                Some(b) if may.contains(k) => b,
                _ => return Err(format!("{}: changed account {} it has no business with", what, k)),
            };
            let same = |n: &str, eq: bool| if eq { Ok(()) } else { Err(format!("{}: {} was changed", what, n)) };
            same("an account's owner, lamports or size", a.owner == b.owner && a.lamports == b.lamports && a.data.len() == b.data.len())?;
            fn de<T: anchor_lang::AccountDeserialize>(a: &Acct) -> Result<T, String> {
                let mut d: &[u8] = &a.data;
                T::try_deserialize(&mut d).map_err(|e| format!("account unreadable: {}", e))
            }
            let fee = |f: &Fee| (f.fee_scale, f.f_x, f.f_y, f.h_x, f.h_y);
            if *k == q.state {
                let (s, t): (PoolState, PoolState) = (de(a)?, de(b)?);
                let ids = |s: &PoolState| {
                    (
                        [s.authority, s.token_x_vault, s.token_y_vault, s.token_x_mint, s.token_y_mint, s.lp_token_mint],
                        [s.pool_state_bump, s.token_x_vault_bump, s.token_y_vault_bump, s.lp_token_vault_bump],
                    )
                };
                let st = |s: &PoolState| {
                    let g = &s.pool_global_state;
                    (g.liq_scale, g.root_price, g.rp_scale, g.tick, fee(&g.global_fee))
                };
                same("the pool's recorded identity", ids(&s) == ids(&t))?;
                same("the pool's price, tick, scales or fee growth", st(&s) == st(&t))?;
            } else if *k == pos {
                let (s, t): (PositionState, PositionState) = (de(a)?, de(b)?);
                let id = |s: &PositionState| (s.liq_scale, s.lower_tick, s.upper_tick, s.bump);
                same("the position's range, scale or bump", id(&s) == id(&t))?;
            } else if *k == lo || *k == up {
                let (s, t): (TickState, TickState) = (de(a)?, de(b)?);
                let id = |s: &TickState| (s.liq_net_scale, s.liq_gross_scale, s.tick, s.bump, fee(&s.tick_fee));
                same("a tick's number, scales, bump or fee growth", id(&s) == id(&t))?;
            } else if *k == q.bitmap {
                let bits: u32 = a.data.iter().zip(&b.data).map(|(x, y)| (x ^ y).count_ones()).sum();
                same("more than the bits of two ticks", bits <= 2)?;
                let n = 8 + hmmcl_sandbox::state::tick_bitmap::TICK_BITMAP_SIZE;
                same("the bitmap's bump", a.data[n..] == b.data[n..] && a.data[..8] == b.data[..8])?;
            } else if *k == q.lp {
                let f = |a: &Acct| {
                    let mut m = <spl_token::state::Mint as anchor_lang::solana_program::program_pack::Pack>::unpack(&a.data).unwrap();
                    m.supply = 0;
                    m
                };
                same("more than the LP mint's supply", f(a) == f(b))?;
            } else if [q.vx, q.vy, u.x, u.y, u.lp[p.pool]].contains(k) {
                let f = |a: &Acct| {
                    let mut m = <spl_token::state::Account as anchor_lang::solana_program::program_pack::Pack>::unpack(&a.data).unwrap();
                    m.amount = 0;
                    m
                };
                same("more than a token account's balance", f(a) == f(b))?;
            }
        }
        Ok(())
    }
    pub fn deposit(&mut self, p: PosK, x: u64, y: u64) -> R {
        self.ensure_pos(p)?;
        let call = self.dep_call(&p, x, y);
        self.tamper(&p, &call, true)?;
        let before = self.snap(&p);
        let all = self.c.acc.clone();
        let (a, b, r) = (rp_at(p.lo), rp_at(p.up), self.pools[p.pool].rp);
        let what = format!("deposit of ({}, {}) over [{}, {}) at tick {}", x, y, p.lo, p.up, self.pools[p.pool].tick);
        // liquidity by the formulas
        let (qx, qy) = (x as i128 * 1_000_000_000_000, y as i128 * 1_000_000_000_000);
        let (el, tl) = if r <= a {
            lx(qx, a, b)
        } else if r >= b {
            ly(qy, a, b)
        } else {
            let (g, h) = (lx(qx, r, b), ly(qy, a, r));
            let t = g.1.max(h.1);
            if g.0.to_f64() < h.0.to_f64() {
                (g.0, t)
            } else {
                (h.0, t)
            }
        };
        if x as f64 * (b as f64 * Q) * (b as f64 * Q) > 1e14 || el.to_f64() * (b as f64 * Q) > 2e14 {
            // outside the fixed-point range: refused, or not judged
            self.labels.push("out-of-range");
            if self.c.run(&call.metas, &call.data).is_ok() {
                return Err("@stop".into());
            }
            return Ok(());
        }
        if let Err(e) = self.c.run(&call.metas, &call.data) {
            oj!(self, OT::Live, false, "{} failed: {}", what, e);
            if self.grown {
                // (offsets above the amount to debit, fees beyond what the vault holds)
                return Ok(());
            }
            return Err("@stop".into());
        }
        let ev = events();
        self.n += 1;
        let pk = self.pos_key(&p);
        let s: PositionState = self.c.state(&pk).ok_or("position state unreadable")?;
        let after_l = s.liquidity as i128;
        self.pos.insert(p, after_l);
        let now = self.snap(&p);
        let dl = now.l - before.l;
        let d = r12(dl).sub(&el).to_f64() / Q;
        oj!(self, OT::Tok, dl >= 0 && d <= 0.0 && d >= -tl, "{}: position grew by {} liquidity, the amounts are worth {} ({} units of 1e-12 off)", what, dl as f64 * Q, el.to_f64(), d);
        let minted = (dl / 1_000_000_000_000) as u64;
        let want = event("LiquidityAdded", [before.ux.wrapping_sub(now.ux), before.uy.wrapping_sub(now.uy), now.lp.wrapping_sub(before.lp)]);
        oj!(self, OT::Event, ev == [want.clone()], "{}: events {:?}, expected {:?}", what, ev, want);
        oj!(self, OT::Tok, now.lp - before.lp == minted && now.sup - before.sup == minted, "{}: minted {} LP tokens for {} liquidity", what, now.lp as i128 - before.lp as i128, dl as f64 * Q);
        let (wx, wy) = (x_of(dl, r, a, b).0, y_of(dl, r, a, b).0);
        for (n, u0, u1, v0, v1, wr, max) in [("x", before.ux, now.ux, before.vx, now.vx, wx, x), ("y", before.uy, now.uy, before.vy, now.vy, wy, y)] {
            let paid = u0 as i128 - u1 as i128;
            oj!(self, OT::Tok, v1 as i128 - v0 as i128 == paid, "{}: user paid {} {}, the vault got {}", what, paid, n, v1 as i128 - v0 as i128);
            oj!(self, OT::Tok, paid >= 0 && paid <= max as i128, "{}: user paid {} {}", what, paid, n);
            let over = r12(paid * 1_000_000_000_000).sub(&wr).to_f64();
            oj!(self, OT::Tok, over >= -1e-9 && over < 1.0 + 1e-9, "{}: paid {} {} for liquidity worth {}", what, paid, n, wr.to_f64());
        }
        if dl > 0 {
            self.moved += 1;
        }
        self.everything_else(&all, &p, &what)?;
        self.invariant(&what)
    }
    fn touched(&mut self, p: &PosK) -> Vec<Pubkey> {
        let mut v = vec![self.pos_key(p), self.tick_key(p.pool, p.lo), self.tick_key(p.pool, p.up)];
        let (q, u) = (&self.pools[p.pool], &self.users[p.u]);
        v.extend([q.state, q.bitmap, q.lp, q.vx, q.vy, u.x, u.y, u.lp[p.pool]]);
        v
    }
    pub fn withdraw(&mut self, p: PosK, n: u64) -> R {
        let call = self.wd_call(&p, n);
        let can = self.can_take(&p);
        let before = self.snap(&p);
        let all = self.c.acc.clone();
        let (a, b, r) = (rp_at(p.lo), rp_at(p.up), self.pools[p.pool].rp);
        let what = format!("withdrawal of {} LP tokens over [{}, {}) at tick {} by a user with {} of a position of {}", n, p.lo, p.up, self.pools[p.pool].tick, before.lp, before.l as f64 * Q);
        if n > can {
            oj!(self, OT::Auth, self.c.run(&call.metas, &call.data).is_err(), "{} succeeded", what);
            self.labels.push("overdraw-refused");
            return Ok(());
        }
        self.tamper(&p, &call, false)?;
        if let Err(e) = self.c.run(&call.metas, &call.data) {
            oj!(self, OT::Live, false, "{} failed: {}", what, e);
            if self.grown {
                // (offsets above the amount to debit, fees beyond what the vault holds)
                return Ok(());
            }
            return Err("@stop".into());
        }
        let ev = events();
        self.n += 1;
        let pk = self.pos_key(&p);
        let s: PositionState = self.c.state(&pk).ok_or("position state unreadable")?;
        self.pos.insert(p, s.liquidity as i128);
        let now = self.snap(&p);
        let want = event("LiquidityRemoved", [now.ux.wrapping_sub(before.ux), now.uy.wrapping_sub(before.uy), before.lp.wrapping_sub(now.lp)]);
        oj!(self, OT::Event, ev == [want.clone()], "{}: events {:?}, expected {:?}", what, ev, want);
        let dl = n as i128 * 1_000_000_000_000;
        oj!(self, OT::Tok, before.l - now.l == dl, "{}: the position shrank by {}", what, (before.l - now.l) as f64 * Q);
        oj!(self, OT::Tok, before.lp as i128 - now.lp as i128 == n as i128 && before.sup as i128 - now.sup as i128 == n as i128, "{}: burnt {}", what, before.lp as i128 - now.lp as i128);
        let (wx, wy) = (x_of(dl, r, a, b).0, y_of(dl, r, a, b).0);
        for (nm, u0, u1, v0, v1, wr) in [("x", before.ux, now.ux, before.vx, now.vx, wx), ("y", before.uy, now.uy, before.vy, now.vy, wy)] {
            let got = u1 as i128 - u0 as i128;
            oj!(self, OT::Tok, v0 as i128 - v1 as i128 == got, "{}: user got {} {}, the vault paid {}", what, got, nm, v0 as i128 - v1 as i128);
            let under = wr.sub(&r12(got * 1_000_000_000_000)).to_f64();
            let eps = 1e-9 + wr.to_f64() * 1e-12;
            oj!(self, OT::Tok, got >= 0 && under >= -1e-9 && under < 1.0 + eps, "{}: paid {} {} for liquidity worth {}", what, got, nm, wr.to_f64());
        }
        if n > 0 {
            self.moved += 1;
        }
        self.everything_else(&all, &p, &what)?;
        self.invariant(&what)
    }
    fn can_take(&self, p: &PosK) -> u64 {
        let l = (self.pos[p] / 1_000_000_000_000) as u64;
        l.min(self.c.balance(&self.users[p.u].lp[p.pool]))
    }
    /// pool and tick states against the positions; vaults against what the positions are worth
    fn invariant(&mut self, what: &str) -> R {
        for k in 0..2 {
            let s: PoolState = match self.c.state(&self.pools[k].state) {
                Some(s) => s,
                None => return Err(format!("after {}: pool state unreadable", what)),
            };
            let g = &s.pool_global_state;
            let cur = self.pools[k].tick;
            let mine: Vec<(PosK, i128)> = self.pos.iter().filter(|(p, _)| p.pool == k).map(|(p, l)| (*p, *l)).collect();
            let inr: i128 = mine.iter().filter(|(p, _)| p.lo <= cur && cur < p.up).map(|x| x.1).sum();
            oj!(self, OT::Liq, g.liquidity as i128 == inr && g.liq_scale == 12, "after {}: the pool's liquidity is {} (scale {}), positions in range at tick {} sum to {}", what, g.liquidity, g.liq_scale, cur, inr);
            oj!(self, OT::Liq, g.tick == cur && g.root_price as i128 == self.pools[k].rp && g.rp_scale == 12, "after {}: the pool moved to tick {} root price {}", what, g.tick, g.root_price);
            oj!(self, OT::Frame, s.authority == self.authority && s.lp_token_mint == self.pools[k].lp && s.pool_state_bump == self.pools[k].bump && s.token_x_vault == self.pools[k].vx && s.token_y_vault == self.pools[k].vy, "after {}: the pool's recorded accounts changed", what);
            let ts: Vec<u64> = self.ticks.iter().filter(|t| t.0 == k).map(|t| t.1).collect();
            for t in ts {
                let tk = self.tick_key(k, t);
                let s: TickState = self.c.state(&tk).ok_or("tick state unreadable")?;
                let net: i128 = mine.iter().map(|(p, l)| if p.lo == t { *l } else { 0 } - if p.up == t { *l } else { 0 }).sum();
                let gross: i128 = mine.iter().filter(|(p, _)| p.lo == t || p.up == t).map(|x| x.1).sum();
                let got = if s.liq_net_neg != 0 { -(s.liq_net as i128) } else { s.liq_net as i128 };
                oj!(self, OT::Liq, got == net && s.liq_net_scale == 12, "after {}: tick {} has net liquidity {}, its positions give {}", what, t, got, net);
                oj!(self, OT::Liq, s.liq_gross as i128 == gross && s.liq_gross_scale == 12 && s.tick == t, "after {}: tick {} has gross liquidity {}, its positions give {}", what, t, s.liq_gross, gross);
            }
            let (sum, sup) = (mine.iter().map(|x| x.1).sum::<i128>(), self.c.supply(&self.pools[k].lp) as i128);
            oj!(self, OT::Tok, sup * 1_000_000_000_000 <= sum, "after {}: {} LP tokens are out for {} liquidity", what, sup, sum as f64 * Q);
            let (mut wx, mut wy) = (Rat::zero(), Rat::zero());
            for (p, l) in &mine {
                let (a, b) = (rp_at(p.lo), rp_at(p.up));
                wx = wx.add(&x_of(*l, self.pools[k].rp, a, b).0);
                wy = wy.add(&y_of(*l, self.pools[k].rp, a, b).0);
                let tol = 1e-9 * (self.n as f64 + 1.0);
                let q = &self.pools[k];
                for (n, v, w) in [("x", q.vx, &wx), ("y", q.vy, &wy)] {
                    let short = w.sub(&r12(self.c.balance(&v) as i128 * 1_000_000_000_000)).to_f64();
                    oj!(self, OT::Tok, short <= tol, "after {}: the {} vault holds {}, the positions are worth {}", what, n, self.c.balance(&v), w.to_f64());
                }
            }
        }
        Ok(())
    }
    fn step(&mut self, op: &OOp) -> R {
        match op {
            OOp::Dep { pool, u, lo, w, l, ex, ey } => {
                let p = self.place(*pool, *u, *lo, *w);
                let (x, y) = self.amounts(&p, 10f64.powf(*l as f64 / 100.0));
                let f = |v: f64, e: u32| (v * (1.0 + e as f64 / 1e6)).ceil().min(1e15) as u64;
                self.deposit(p, f(x, *ex), f(y, *ey))
            }
            OOp::Raw { pool, u, lo, w, x, y } => {
                let p = self.place(*pool, *u, *lo, *w);
                self.deposit(p, *x, *y)
            }
            OOp::Wd { pool, p, f } => {
                let ks: Vec<PosK> = self.pos.keys().filter(|k| k.pool == *pool as usize % 2).copied().collect();
                if ks.is_empty() {
                    return Ok(());
                }
                let k = ks[*p as usize % ks.len()];
                let c = self.can_take(&k);
                let n = if *f >= 1_000_000 { c } else { (c as u128 * *f as u128 / 1_000_000) as u64 };
                self.withdraw(k, n)
            }
            OOp::Give { pool, u, v, f } => {
                let k = *pool as usize % 2;
                let (a, b) = (self.users[*u as usize % 3].lp[k], self.users[*v as usize % 3].lp[k]);
                let n = (self.c.balance(&a) as u128 * (*f).min(1_000_000) as u128 / 1_000_000) as u64;
                if a != b && n > 0 {
                    self.c.give(&a, &b, n);
                    self.gave = true;
                    self.labels.push("lp-tokens-given");
                }
                Ok(())
            }
            OOp::WdRaw { pool, p, n } => {
                let ks: Vec<PosK> = self.pos.keys().filter(|k| k.pool == *pool as usize % 2).copied().collect();
                if ks.is_empty() {
                    return Ok(());
                }
                let k = ks[*p as usize % ks.len()];
                self.withdraw(k, *n)
            }
            OOp::Whole { pool } => {
                self.whole(*pool as usize % 2);
                Ok(())
            }
            OOp::Level { pool, p } => {
                let k = *pool as usize % 2;
                self.whole(k);
                let ks: Vec<(PosK, i128)> = self.pos.iter().filter(|x| x.0.pool == k && *x.1 > 0).map(|x| (*x.0, *x.1)).collect();
                // (largest of two that share a bound, from a position of choice on)
                for i in 0..ks.len() {
                    let (a, la) = ks[(*p as usize + i) % ks.len()];
                    let next = ks.iter().filter(|(b, _)| *b != a && (b.lo == a.up || b.up == a.lo)).map(|x| x.1).min();
                    let other = next.or(ks.iter().filter(|(b, _)| *b != a && (b.lo == a.lo || b.up == a.up)).map(|x| x.1).min());
                    let lb = match other {
                        Some(lb) if lb < la => lb,
                        _ => continue,
                    };
                    let n = ((la - lb) / 1_000_000_000_000) as u64;
                    if n <= self.can_take(&a) {
                        self.labels.push(if next.is_some() { "bounds-cancel" } else { "levelled" });
                        return self.withdraw(a, n);
                    }
                }
                Ok(())
            }
            OOp::Grow { pool, g } => {
                if self.want != [OT::Frame] {
                    return Ok(());
                }
                let k = *pool as usize % 2;
                let cur = self.pools[k].tick;
                let key = self.pools[k].state;
                let mut s: PoolState = self.c.state(&key).unwrap();
                let f = &mut s.pool_global_state.global_fee;
                for (v, g) in [&mut f.f_x, &mut f.f_y, &mut f.h_x, &mut f.h_y].into_iter().zip(g) {
                    *v = (*v + *g as u128).min(400_000_000_000);
                }
                let f = *f;
                self.c.put(&key, &s);
                let ts: Vec<u64> = self.ticks.iter().filter(|t| t.0 == k).map(|t| t.1).collect();
                for t in ts {
                    let tk = self.tick_key(k, t);
                    let mut s: TickState = self.c.state(&tk).unwrap();
                    let d = if t <= cur { 2 } else { 4 };
                    let e = &mut s.tick_fee;
                    (e.f_x, e.f_y, e.h_x, e.h_y) = (f.f_x / d, f.f_y / d, f.h_x / d, f.h_y / d);
                    self.c.put(&tk, &s);
                }
                self.labels.push("fees-grew");
                self.grown = true;
                Ok(())
            }
        }
    }
    /// drops the fraction of a unit from the liquidity of every position, wherever it is recorded
    fn whole(&mut self, k: usize) {
        const U: i128 = 1_000_000_000_000;
        let cur = self.pools[k].tick;
        let ks: Vec<(PosK, i128)> = self.pos.iter().filter(|x| x.0.pool == k && *x.1 % U != 0).map(|x| (*x.0, *x.1)).collect();
        for (p, l) in ks {
            let d = l % U;
            self.pos.insert(p, l - d);
            let key = self.pos_key(&p);
            let mut s: PositionState = self.c.state(&key).unwrap();
            s.liquidity -= d as u128;
            self.c.put(&key, &s);
            for (t, d_net) in [(p.lo, -d), (p.up, d)] {
                let key = self.tick_key(k, t);
                let mut s: TickState = self.c.state(&key).unwrap();
                let net = if s.liq_net_neg != 0 { -(s.liq_net as i128) } else { s.liq_net as i128 } + d_net;
                s.liq_net = net.unsigned_abs();
                s.liq_net_neg = (net < 0) as u8;
                s.liq_gross = s.liq_gross.saturating_sub(d as u128);
                self.c.put(&key, &s);
            }
            if p.lo <= cur && cur < p.up {
                let key = self.pools[k].state;
                let mut s: PoolState = self.c.state(&key).unwrap();
                s.pool_global_state.liquidity = s.pool_global_state.liquidity.saturating_sub(d as u128);
                self.c.put(&key, &s);
            }
        }
    }
    fn close(&mut self, order: u8) -> R {
        let mut ks: Vec<PosK> = self.pos.keys().copied().collect();
        let mut k = order as usize;
        while !ks.is_empty() {
            let p = ks.remove(k % ks.len());
            k = k / 2 + 3;
            let n = self.can_take(&p);
            self.withdraw(p, n)?;
        }
        if self.want.contains(&OT::Tok) && !self.gave {
            for k in 0..2 {
                let s = self.c.supply(&self.pools[k].lp);
                oj!(self, OT::Tok, s == 0, "after everyone left, {} LP tokens of pool {} are still out", s, k);
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ tampering
    fn tamper(&mut self, p: &PosK, call: &Call, dep: bool) -> R {
        if !self.want.contains(&OT::Auth) {
            return Ok(());
        }
        let bad: Vec<Mutant> = CUR.with(|c| c.borrow().clone());
        let n = self.n % 8;
        for m in bad.iter().filter(|m| m.at as u32 % 8 == n) {
            let mut c = Call { metas: call.metas.clone(), data: call.data.clone() };
            let what = match self.mutate(p, &mut c, m, dep) {
                Some(w) => w,
                None => continue,
            };
            let keep = self.c.acc.clone();
            if m.kind % 10 == 8 {
                // the account's owner lets the caller move the tokens: still not a deposit of theirs
                let (k, u) = (c.metas[7 + m.idx as usize % 2].key, self.users[p.u].key);
                self.c.delegate(&k, u);
            }
            let r = self.c.run(&c.metas, &c.data);
            self.c.acc = keep;
            oj!(self, OT::Auth, r.is_err(), "{} with {} succeeded", if dep { "deposit" } else { "withdrawal" }, what);
            self.tampered += 1;
        }
        Ok(())
    }
    fn mutate(&mut self, p: &PosK, c: &mut Call, m: &Mutant, dep: bool) -> Option<String> {
        const N: [&str; 16] = [
            "pool_state", "tick_bitmap", "position_state", "lower_tick_state", "upper_tick_state", "current_tick_state", "lp_token_mint", "user_token_x", "user_token_y", "token_x_vault", "token_y_vault",
            "lp_token_vault", "lp account", "token_program", "user", "payer",
        ];
        let other = 1 - p.pool;
        match m.kind % 10 {
            // an account of the same kind
            0..=3 => {
                let i = m.idx as usize % 16;
                let v = (p.u + 1 + m.with as usize % 2) % 3;
                let alt: Pubkey = match i {
                    0 => self.pools[other].state,
                    1 => self.pools[other].bitmap,
                    2 => {
                        let ks: Vec<PosK> = self.pos.keys().filter(|k| *k != p).copied().collect();
                        if ks.is_empty() {
                            return None;
                        }
                        let k = ks[m.with as usize % ks.len()];
                        self.pos_key(&k)
                    }
                    3 | 4 | 5 => {
                        let ts = self.ticks.clone();
                        let t = ts[m.with as usize % ts.len()];
                        self.tick_key(t.0, t.1)
                    }
                    6 => [self.pools[other].lp, self.mx, self.my][m.with as usize % 3],
                    7 => [self.users[v].x, self.pools[p.pool].vx, self.users[p.u].y, self.pools[other].vx][m.with as usize % 4],
                    8 => [self.users[v].y, self.pools[p.pool].vy, self.users[p.u].x, self.pools[other].vy][m.with as usize % 4],
                    9 => [self.pools[other].vx, self.pools[p.pool].vy, self.users[p.u].x, self.users[v].x][m.with as usize % 4],
                    10 => [self.pools[other].vy, self.pools[p.pool].vx, self.users[p.u].y, self.users[v].y][m.with as usize % 4],
                    11 => [self.pools[other].vl, self.users[p.u].lp[p.pool]][m.with as usize % 2],
                    12 => {
                        if dep {
                            // LP tokens may be sent to anyone's account of the right mint
                            [self.users[p.u].lp[other], self.users[p.u].x][m.with as usize % 2]
                        } else {
                            let k = [self.users[v].lp[p.pool], self.pools[p.pool].vl, self.users[p.u].lp[other]][m.with as usize % 3];
                            k
                        }
                    }
                    13 => [system_program::id(), hmmcl_sandbox::ID][m.with as usize % 2],
                    14 => self.users[v].key,
                    _ => return None,
                };
                if alt == c.metas[i].key {
                    return None;
                }
                // an empty burn proves nothing about the account it comes from
                if i == 12 && !dep && u64::from_le_bytes(c.data[32..40].try_into().unwrap()) == 0 {
                    return None;
                }
                c.metas[i].key = alt;
                Some(format!("{} replaced by another account of its kind", N[i]))
            }
            // any account at all
            4 => {
                let i = m.idx as usize % 16;
                if i == 15 || (i == 12 && dep) {
                    return None;
                }
                let ks: Vec<Pubkey> = self.c.acc.keys().copied().collect();
                let k = ks[m.with as usize % ks.len()];
                if k == c.metas[i].key {
                    return None;
                }
                if i == 12 && u64::from_le_bytes(c.data[32..40].try_into().unwrap()) == 0 {
                    return None;
                }
                c.metas[i].key = k;
                Some(format!("{} replaced by account {}", N[i], k))
            }
            // missing signature
            5 => {
                c.metas[14].signer = false;
                if c.metas[14].key == c.metas[15].key {
                    return None;
                }
                Some("no signature of the user".into())
            }
            // another tick argument
            6 => {
                let which = m.idx as usize % 3;
                let o = 8 + 8 * which;
                let old = u64::from_le_bytes(c.data[o..o + 8].try_into().unwrap());
                let new = match m.with % 4 {
                    0 => old + 1,
                    1 => old.wrapping_sub(1),
                    _ => self.ticks[m.with as usize % self.ticks.len()].1,
                };
                if new == old {
                    return None;
                }
                c.data[o..o + 8].copy_from_slice(&new.to_le_bytes());
                // bring the matching tick account along, if there is one
                let k = [3, 4, 5][which];
                if m.idx & 4 != 0 && self.ticks.contains(&(p.pool, new)) {
                    c.metas[k].key = self.tick_key(p.pool, new);
                }
                Some(format!("{} tick {} instead of {}", ["lower", "upper", "current"][which], new, old))
            }
            8 => {
                let i = 7 + m.idx as usize % 2;
                let v = &self.users[(p.u + 1 + m.with as usize % 2) % 3];
                c.metas[i].key = if i == 7 { v.x } else { v.y };
                Some(format!("{} of another user who delegated it to the caller", N[i]))
            }
            // somebody else in the owner's place, with accounts and LP tokens of his own; the owner signs
            // as the payer or not at all
            9 => {
                let v = (p.u + 1 + m.with as usize % 2) % 3;
                let owner = self.users[p.u].key;
                let w = &self.users[v];
                let (x, y, lp, key) = (w.x, w.y, w.lp[p.pool], w.key);
                c.metas[7].key = x;
                c.metas[8].key = y;
                c.metas[12].key = lp;
                c.metas[14].key = key;
                let pays = m.idx & 1 != 0;
                if pays {
                    c.metas[15].key = owner;
                }
                if !dep {
                    let n = u64::from_le_bytes(c.data[32..40].try_into().unwrap()).min(self.c.balance(&lp));
                    c.data[32..40].copy_from_slice(&n.to_le_bytes());
                }
                Some(format!("another user in the owner's place{}", if pays { ", the owner only paying the fee" } else { "" }))
            }
            // more than there is
            _ => {
                if dep {
                    return None;
                }
                let can = self.can_take(p);
                let n = match m.with % 3 {
                    0 => can + 1,
                    1 => can.saturating_mul(2).max(1).saturating_add(can),
                    _ => u64::MAX,
                };
                c.data[32..40].copy_from_slice(&n.to_le_bytes());
                Some(format!("{} LP tokens where {} are available", n, can))
            }
        }
    }
}
thread_local! {
    static CUR: std::cell::RefCell<Vec<Mutant>> = std::cell::RefCell::new(vec![]);
}
struct Snap {
    ux: u64,
    uy: u64,
    vx: u64,
    vy: u64,
    lp: u64,
    sup: u64,
    l: i128,
}
/// the fee growth a swap would leave behind is put into the accounts, then positions are touched
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GHist {
    pub t: u32,
    /// bounds relative to the current tick
    pub ranges: Vec<(u8, i32, u16)>,
    /// per step: what to do
    pub ops: Vec<GOp>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum GOp {
    /// growth per unit of liquidity, in quanta: fee x, fee y, adj x, adj y
    Grow([u32; 4]),
    /// the price moves to that bound's tick, or so many ticks off it
    Move(u8, i8),
    /// a position is touched, by a withdrawal (true) or deposit of nothing
    Touch(u8, bool),
}
fn ghist() -> BoxedStrategy<GHist> {
    let g = || prop_oneof![1 => Just(0u32), 2 => 0u32..100, 3 => 0u32..10_000_000];
    let op = prop_oneof![
        4 => (g(), g(), g(), g()).prop_map(|(a, b, c, d)| GOp::Grow([a, b, c, d])),
        4 => (any::<u8>(), prop_oneof![3 => Just(0i8), 2 => Just(-1i8), 1 => any::<i8>()]).prop_map(|(a, b)| GOp::Move(a, b)),
        3 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| GOp::Touch(a, b)),
    ];
    (1000u32..5000, proptest::collection::vec((any::<u8>(), -30i32..20, 1u16..40), 1..5), proptest::collection::vec(op, 3..20)).prop_map(|(t, ranges, ops)| GHist { t, ranges, ops }).boxed()
}
fn growth(h: &GHist) -> Out {
    let mut w = match World::new(&[h.t, h.t + 7], &[]) {
        Ok(w) => w,
        Err(_) => return ok(false),
    };
    let mut ps = vec![];
    for (u, lo, wd) in &h.ranges {
        let p = w.place(0, *u, *lo, *wd);
        if !ps.contains(&p) {
            ps.push(p);
        }
        if let Err(e) = w.ensure_pos(p).and_then(|_| {
            let (x, y) = w.amounts(&p, 1000.0);
            w.deposit(p, x.ceil() as u64 + 1, y.ceil() as u64 + 1)
        }) {
            return if e == "@stop" { ok(false) } else { bad(e) };
        }
    }
    let bounds: Vec<u64> = ps.iter().flat_map(|p| [p.lo, p.up]).collect();
    // growth inside each position's range so far, and in total
    let mut inside = vec![[0u128; 4]; ps.len()];
    let mut total = [0u128; 4];
    let (mut some, mut out) = (false, false);
    for (k, op) in h.ops.iter().enumerate() {
        let cur = w.pools[0].tick;
        match op {
            GOp::Grow(g) => {
                // (whole tokens would be paid out)
                if total.iter().zip(g).any(|(a, b)| a + *b as u128 > 400_000_000_000) {
                    continue;
                }
                let key = w.pools[0].state;
                let mut s: PoolState = w.c.state(&key).unwrap();
                let f = &mut s.pool_global_state.global_fee;
                for (i, v) in [&mut f.f_x, &mut f.f_y, &mut f.h_x, &mut f.h_y].into_iter().enumerate() {
                    *v += g[i] as u128;
                    total[i] += g[i] as u128;
                }
                w.c.put(&key, &s);
                for (p, n) in ps.iter().zip(inside.iter_mut()) {
                    if p.lo <= cur && cur < p.up {
                        for i in 0..4 {
                            n[i] += g[i] as u128;
                        }
                    }
                }
            }
            GOp::Move(b, d) => {
                let to = (bounds[*b as usize % bounds.len()] as i64 + *d as i64).max(0) as u64;
                if w.ensure_tick(0, to).is_err() {
                    continue;
                }
                // ticks passed over flip what is outside them
                let ts: Vec<u64> = w.ticks.iter().filter(|t| t.0 == 0).map(|t| t.1).collect();
                for t in ts {
                    let key = w.tick_key(0, t);
                    let mut s: TickState = w.c.state(&key).unwrap();
                    if s.liq_gross == 0 {
                        continue;
                    }
                    if (cur < t && t <= to) || (to < t && t <= cur) {
                        let f = &mut s.tick_fee;
                        for (i, v) in [&mut f.f_x, &mut f.f_y, &mut f.h_x, &mut f.h_y].into_iter().enumerate() {
                            *v = total[i] - *v;
                        }
                        w.c.put(&key, &s);
                    }
                }
                let key = w.pools[0].state;
                let mut s: PoolState = w.c.state(&key).unwrap();
                s.pool_global_state.tick = to;
                s.pool_global_state.root_price = rp_at(to) as u128;
                let l: i128 = w.pos.iter().filter(|(p, _)| p.pool == 0 && p.lo <= to && to < p.up).map(|x| x.1).sum();
                s.pool_global_state.liquidity = l as u128;
                w.c.put(&key, &s);
                w.pools[0].tick = to;
                w.pools[0].rp = rp_at(to);
            }
            GOp::Touch(i, wd) => {
                let i = *i as usize % ps.len();
                let p = ps[i];
                let call = if *wd { w.wd_call(&p, 0) } else { w.dep_call(&p, 0, 0) };
                let pk = w.pos_key(&p);
                let l0 = w.c.state::<PositionState>(&pk).unwrap().liquidity;
                if let Err(e) = w.c.run(&call.metas, &call.data) {
                    if !wd {
                        // (an offset above the amount to debit)
                        continue;
                    }
                    return bad(format!("operation {}: touching [{}, {}) at tick {} failed: {}", k, p.lo, p.up, cur, e));
                }
                let s: PositionState = w.c.state(&pk).unwrap();
                let f = s.last_collected_fee;
                if f.fee_scale != 12 || [f.f_x, f.f_y, f.h_x, f.h_y] != inside[i] || s.liquidity != l0 {
                    return bad(format!("operation {}: touching [{}, {}) at tick {} recorded {:?}, the growth inside was {:?} (total {:?})", k, p.lo, p.up, cur, f, inside[i], total));
                }
                some |= inside[i].iter().any(|v| *v > 0);
                out |= inside[i] != total;
            }
        }
    }
    ok(some && out)
}
fn fee0(f: &Fee) -> bool {
    f.fee_scale == 12 && f.f_x == 0 && f.f_y == 0 && f.h_x == 0 && f.h_y == 0
}

fn ohist() -> BoxedStrategy<OHist> {
    let t = || prop_oneof![1 => 0u32..10, 6 => 10u32..5000, 3 => 5000u32..40_000, 1 => 40_000u32..80_000];
    let lo = || prop_oneof![3 => -6i32..4, 3 => -200i32..100, 1 => -3000i32..2000, 1 => Just(0)];
    let w = || prop_oneof![4 => 1u16..8, 4 => 1u16..200, 1 => 1u16..4000];
    let e = || prop_oneof![2 => Just(0u32), 1 => 0u32..20_000, 2 => 0u32..3_000_000];
    let amt = || prop_oneof![1 => Just(0u64), 4 => 0u64..10, 3 => 0u64..1000, 2 => (0u32..13, 1u64..10).prop_map(|(p, m)| m * 10u64.pow(p))];
    let dep = move || (any::<u8>(), any::<u8>(), lo(), w(), prop_oneof![2 => 0u16..300, 4 => 100u16..900, 1 => 900u16..1300], e(), e()).prop_map(|(pool, u, lo, w, l, ex, ey)| OOp::Dep { pool, u, lo, w, l, ex, ey });
    let raw = move || (any::<u8>(), any::<u8>(), lo(), w(), amt(), amt()).prop_map(|(pool, u, lo, w, x, y)| OOp::Raw { pool, u, lo, w, x, y });
    let wd = || (any::<u8>(), any::<u8>(), prop_oneof![2 => Just(1_000_000u32), 2 => 0u32..1_000_000]).prop_map(|(pool, p, f)| OOp::Wd { pool, p, f });
    let wr = || (any::<u8>(), any::<u8>(), prop_oneof![3 => 0u64..20, 1 => any::<u64>()]).prop_map(|(pool, p, n)| OOp::WdRaw { pool, p, n });
    let give = || (any::<u8>(), any::<u8>(), any::<u8>(), prop_oneof![1 => Just(1_000_000u32), 2 => 0u32..1_000_000]).prop_map(|(pool, u, v, f)| OOp::Give { pool, u, v, f });
    let beside = || (any::<u8>(), any::<u8>(), prop_oneof![Just(0i32), -3i32..4], prop_oneof![Just(1u16), Just(3), 1u16..8], 100u16..900, e(), e()).prop_map(|(pool, u, lo, w, l, ex, ey)| OOp::Dep { pool, u, lo, w, l, ex, ey });
    let whole = || any::<u8>().prop_map(|pool| OOp::Whole { pool });
    let level = || (any::<u8>(), any::<u8>()).prop_map(|(pool, p)| OOp::Level { pool, p });
    let grow = || (any::<u8>(), any::<[u32; 4]>(), 0u32..4).prop_map(|(pool, g, k)| OOp::Grow { pool, g: g.map(|v| v >> (8 * k)) });
    let op = prop_oneof![8 => dep(), 4 => beside(), 6 => raw(), 8 => wd(), 2 => wr(), 1 => give(), 1 => whole(), 3 => level(), 2 => grow()];
    let bad = (any::<u8>(), any::<u8>(), any::<u8>(), any::<u16>()).prop_map(|(at, kind, idx, with)| Mutant { at, kind, idx, with });
    ((t(), t()), prop_oneof![20 => 1usize..10, 1 => 10usize..50].prop_flat_map(move |n| proptest::collection::vec(op.clone(), n)), any::<u8>(), proptest::collection::vec(bad, 0..12)).prop_map(|((a, b), ops, order, bad)| OHist { t: [a, b], ops, order, bad }).boxed()
}
fn run(h: &OHist, want: &'static [OT], close: bool, nt: fn(&World) -> bool) -> Out {
    CUR.with(|c| *c.borrow_mut() = if want.contains(&OT::Auth) { h.bad.clone() } else { vec![] });
    let mut w = match World::new(&h.t, want) {
        Ok(w) => w,
        Err(e) => return if want.contains(&OT::Init) || want.contains(&OT::Live) { bad(e) } else { ok(false) },
    };
    for (k, op) in h.ops.iter().enumerate() {
        match w.step(op) {
            Ok(()) => {}
            Err(e) if e == "@stop" => return Out::Ok(nt(&w), vec!["stopped-early"]),
            Err(e) => return bad(format!("operation {}: {}", k, e)),
        }
    }
    if close {
        match w.close(h.order) {
            Ok(()) => {}
            Err(e) if e == "@stop" => return Out::Ok(nt(&w), vec!["stopped-early"]),
            Err(e) => return bad(format!("closing: {}", e)),
        }
    }
    let mut l = w.labels.clone();
    l.sort();
    l.dedup();
    Out::Ok(nt(&w), l)
}

pub fn subs(id: &str) -> Option<Vec<Box<dyn SubCheck>>> {
    let changed: fn(&World) -> bool = |w| w.moved > 0;
    Some(match id {
        "C30" => vec![prop!("init", "two pools, their ticks and positions are created; non-trivial = a position was created", 10_000, 300_000, ohist, |h: &OHist| run(h, &[OT::Init], false, |w| !w.pos.is_empty()))],
        "C33" => vec![prop!("liquidity", "non-trivial = some deposit or withdrawal changed liquidity", 10_000, 300_000, ohist, |h: &OHist| run(h, &[OT::Liq], true, |w| w.moved > 0))],
        "C34" => vec![prop!("tokens", "non-trivial = some deposit or withdrawal changed liquidity", 10_000, 300_000, ohist, |h: &OHist| run(h, &[OT::Tok], true, |w| w.moved > 0))],
        "C35" => vec![prop!("tamper", "non-trivial = at least one tampered instruction was tried", 10_000, 300_000, ohist, |h: &OHist| run(h, &[OT::Auth], false, |w| w.tampered > 0))],
        "C36" => vec![prop!("live", "non-trivial = some deposit or withdrawal changed liquidity", 10_000, 300_000, ohist, |h: &OHist| run(h, &[OT::Live], true, |w| w.moved > 0))],
        "C37" => vec![prop!("frame", "non-trivial = some deposit or withdrawal changed liquidity", 10_000, 300_000, ohist, |h: &OHist| run(h, &[OT::Frame], true, |w| w.moved > 0))],
        "C38" => vec![prop!("events", "non-trivial = some deposit or withdrawal changed liquidity", 10_000, 300_000, ohist, |h: &OHist| run(h, &[OT::Event], true, |w| w.moved > 0))],
        "C39" => vec![prop!("growth", "non-trivial = fees grew while at least one touched range was in range and another was not", 10_000, 300_000, ghist, growth)],
        _ => {
            let _ = changed;
            return None;
        }
    })
}
