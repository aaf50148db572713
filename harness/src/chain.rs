//! An in-process stand-in for the chain: accounts, transactions that revert on failure, the rules the
//! runtime enforces on accounts, the system program's account creation and the real SPL token
//! processor. The program under test is entered through its own entry point.
use crate::core::sut;
use anchor_lang::prelude::*;
use anchor_lang::solana_program::instruction::Instruction;
use anchor_lang::solana_program::program_error::ProgramError;
use anchor_lang::solana_program::program_pack::Pack;
use anchor_lang::solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use anchor_lang::solana_program::{system_program, sysvar};
use std::collections::{BTreeMap, HashMap};

type PResult = std::result::Result<(), ProgramError>;
pub const GROW: usize = 10_240;

thread_local! {
    /// event data of the last transaction
    static LOG: std::cell::RefCell<Vec<Vec<u8>>> = std::cell::RefCell::new(vec![]);
}
pub fn events() -> Vec<Vec<u8>> {
    LOG.with(|l| l.borrow().clone())
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, f: &[&[u8]]) {
        LOG.with(|l| l.borrow_mut().push(f.concat()));
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> PResult {
        let mut pdas = vec![];
        for s in seeds {
            pdas.push(Pubkey::create_program_address(s, &hmmcl_sandbox::ID).map_err(|_| ProgramError::InvalidSeeds)?);
        }
        let mut list = vec![];
        for m in &ix.accounts {
            let i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            if m.is_signer && !(i.is_signer || pdas.contains(&m.pubkey)) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !i.is_writable {
                return Err(ProgramError::Custom(0xdead_0001));
            }
            let mut c = i.clone();
            c.is_signer = m.is_signer;
            c.is_writable = m.is_writable;
            list.push(c);
        }
        if ix.program_id == spl_token::id() {
            spl_token::processor::Processor::process(&spl_token::id(), &list, &ix.data)
        } else if ix.program_id == system_program::id() {
            system(&list, &ix.data)
        } else {
            Err(ProgramError::IncorrectProgramId)
        }
    }
}
#[allow(invalid_reference_casting)]
fn set_owner(i: &AccountInfo, o: &[u8]) {
    unsafe { std::ptr::write_volatile(i.owner as *const Pubkey as *mut Pubkey, Pubkey::new(o)) }
}
fn resize(i: &AccountInfo, n: usize) -> PResult {
    let mut d = i.data.borrow_mut();
    if !d.is_empty() || *i.owner != system_program::id() {
        return Err(ProgramError::AccountAlreadyInitialized);
    }
    // every account's buffer has this much room
    if n > GROW {
        return Err(ProgramError::AccountDataTooSmall);
    }
    let p = d.as_mut_ptr();
    *d = unsafe { std::slice::from_raw_parts_mut(p, n) };
    Ok(())
}
fn pay(a: &AccountInfo, b: &AccountInfo, n: u64) -> PResult {
    if !a.is_signer || *a.owner != system_program::id() {
        return Err(ProgramError::MissingRequiredSignature);
    }
    let l = a.lamports();
    **a.lamports.borrow_mut() = l.checked_sub(n).ok_or(ProgramError::InsufficientFunds)?;
    let l = b.lamports();
    **b.lamports.borrow_mut() = l + n;
    Ok(())
}
fn system(a: &[AccountInfo], d: &[u8]) -> PResult {
    let u = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
    match d[0] {
        0 => {
            if !a[1].is_signer || a[1].lamports() > 0 {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            resize(&a[1], u(12) as usize)?;
            pay(&a[0], &a[1], u(4))?;
            set_owner(&a[1], &d[20..52]);
            Ok(())
        }
        1 => {
            if !a[0].is_signer || *a[0].owner != system_program::id() {
                return Err(ProgramError::MissingRequiredSignature);
            }
            set_owner(&a[0], &d[4..36]);
            Ok(())
        }
        2 => pay(&a[0], &a[1], u(4)),
        8 => {
            if !a[0].is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            resize(&a[0], u(4) as usize)
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub exec: bool,
}
#[derive(Clone, Copy, Debug)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

pub struct Chain {
    pub acc: BTreeMap<Pubkey, Acct>,
    next: u64,
    pda: HashMap<Vec<u8>, (Pubkey, u8)>,
}
pub fn key(n: u64) -> Pubkey {
    let mut b = [0x5au8; 32];
    b[..8].copy_from_slice(&n.to_be_bytes());
    b[31] = 1;
    Pubkey::new(&b)
}
impl Chain {
    pub fn new() -> Chain {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| {
            set_syscall_stubs(Box::new(Stubs));
        });
        let mut c = Chain { acc: BTreeMap::new(), next: 1, pda: HashMap::new() };
        let native = Pubkey::new(&[7; 32]);
        for p in [system_program::id(), spl_token::id(), hmmcl_sandbox::ID] {
            c.acc.insert(p, Acct { lamports: 1, data: vec![], owner: native, exec: true });
        }
        let mut rent = vec![0u8; 17];
        let r = Rent::default();
        rent[..8].copy_from_slice(&r.lamports_per_byte_year.to_le_bytes());
        rent[8..16].copy_from_slice(&r.exemption_threshold.to_le_bytes());
        rent[16] = r.burn_percent;
        c.acc.insert(sysvar::rent::id(), Acct { lamports: 1, data: rent, owner: sysvar::id(), exec: false });
        c
    }
    pub fn fresh(&mut self) -> Pubkey {
        self.next += 1;
        key(self.next)
    }
    pub fn wallet(&mut self) -> Pubkey {
        let k = self.fresh();
        self.acc.insert(k, Acct { lamports: 1 << 50, data: vec![], owner: system_program::id(), exec: false });
        k
    }
    pub fn pda(&mut self, seeds: &[&[u8]]) -> (Pubkey, u8) {
        let k: Vec<u8> = seeds.concat();
        *self.pda.entry(k).or_insert_with(|| Pubkey::find_program_address(seeds, &hmmcl_sandbox::ID))
    }
    pub fn mint(&mut self, authority: Pubkey, decimals: u8) -> Pubkey {
        let k = self.fresh();
        let mut d = vec![0u8; spl_token::state::Mint::LEN];
        let m = spl_token::state::Mint { mint_authority: Some(authority).into(), supply: 0, decimals, is_initialized: true, freeze_authority: None.into() };
        spl_token::state::Mint::pack(m, &mut d).unwrap();
        self.acc.insert(k, Acct { lamports: 1 << 30, data: d, owner: spl_token::id(), exec: false });
        k
    }
    pub fn token_account(&mut self, mint: Pubkey, owner: Pubkey, amount: u64) -> Pubkey {
        let k = self.fresh();
        let mut d = vec![0u8; spl_token::state::Account::LEN];
        let a = spl_token::state::Account { mint, owner, amount, state: spl_token::state::AccountState::Initialized, ..Default::default() };
        spl_token::state::Account::pack(a, &mut d).unwrap();
        self.acc.insert(k, Acct { lamports: 1 << 30, data: d, owner: spl_token::id(), exec: false });
        let m = self.acc.get_mut(&mint).unwrap();
        let mut s = spl_token::state::Mint::unpack(&m.data).unwrap();
        s.supply += amount;
        spl_token::state::Mint::pack(s, &mut m.data).unwrap();
        k
    }
    /// a plain token transfer outside the program under test
    pub fn give(&mut self, from: &Pubkey, to: &Pubkey, n: u64) {
        for (k, d) in [(from, -(n as i128)), (to, n as i128)] {
            let a = self.acc.get_mut(k).unwrap();
            let mut t = spl_token::state::Account::unpack(&a.data).unwrap();
            t.amount = (t.amount as i128 + d) as u64;
            spl_token::state::Account::pack(t, &mut a.data).unwrap();
        }
    }
    /// the owner of token account `k` lets `to` move all of it
    pub fn delegate(&mut self, k: &Pubkey, to: Pubkey) {
        let a = self.acc.get_mut(k).unwrap();
        let mut t = spl_token::state::Account::unpack(&a.data).unwrap();
        t.delegate = anchor_lang::solana_program::program_option::COption::Some(to);
        t.delegated_amount = t.amount;
        spl_token::state::Account::pack(t, &mut a.data).unwrap();
    }
    pub fn put<T: AccountSerialize>(&mut self, k: &Pubkey, v: &T) {
        let a = self.acc.get_mut(k).unwrap();
        let mut d = vec![];
        v.try_serialize(&mut d).unwrap();
        a.data[..d.len()].copy_from_slice(&d);
    }
    pub fn balance(&self, k: &Pubkey) -> u64 {
        spl_token::state::Account::unpack(&self.acc[k].data).unwrap().amount
    }
    pub fn token(&self, k: &Pubkey) -> spl_token::state::Account {
        spl_token::state::Account::unpack(&self.acc[k].data).unwrap()
    }
    pub fn supply(&self, k: &Pubkey) -> u64 {
        spl_token::state::Mint::unpack(&self.acc[k].data).unwrap().supply
    }
    pub fn state<T: AccountDeserialize>(&self, k: &Pubkey) -> Option<T> {
        let a = self.acc.get(k)?;
        if a.owner != hmmcl_sandbox::ID {
            return None;
        }
        let mut d: &[u8] = &a.data;
        T::try_deserialize(&mut d).ok()
    }
    /// Execute one transaction with one instruction of the program; on failure nothing changes.
    pub fn run(&mut self, metas: &[Meta], data: &[u8]) -> std::result::Result<(), String> {
        LOG.with(|l| l.borrow_mut().clear());
        let mut keys: Vec<Pubkey> = metas.iter().map(|m| m.key).collect();
        keys.sort();
        keys.dedup();
        struct Slot {
            key: Pubkey,
            lamports: u64,
            owner: Pubkey,
            buf: Vec<u8>,
            len: usize,
        }
        let mut slots: Vec<Box<Slot>> = keys
            .iter()
            .map(|k| {
                let a = self.acc.get(k).cloned().unwrap_or(Acct { lamports: 0, data: vec![], owner: system_program::id(), exec: false });
                let mut buf = a.data.clone();
                buf.resize(a.data.len() + GROW, 0);
                Box::new(Slot { key: *k, lamports: a.lamports, owner: a.owner, buf, len: a.data.len() })
            })
            .collect();
        let merged = |k: &Pubkey| metas.iter().filter(|m| m.key == *k).fold((false, false), |t, m| (t.0 | m.signer, t.1 | m.writable));
        let after: Vec<(Pubkey, Acct, bool)>;
        let res;
        {
            let infos: Vec<AccountInfo> = slots
                .iter_mut()
                .map(|s| {
                    let (signer, writable) = merged(&s.key);
                    let s: &mut Slot = unsafe { &mut *(s.as_mut() as *mut Slot) };
                    let exec = self.acc.get(&s.key).map(|a| a.exec).unwrap_or(false);
                    AccountInfo::new(&s.key, signer, writable, &mut s.lamports, &mut s.buf[..s.len], &s.owner, exec, 0)
                })
                .collect();
            let list: Vec<AccountInfo> = metas.iter().map(|m| infos.iter().find(|i| *i.key == m.key).unwrap().clone()).collect();
            res = match sut(|| hmmcl_sandbox::entry(&hmmcl_sandbox::ID, &list, data)) {
                Ok(Ok(())) => Ok(()),
                Ok(Err(e)) => Err(format!("{:?}", e)),
                Err(e) => Err(format!("panic: {}", e)),
            };
            if res.is_err() {
                return res;
            }
            after = infos
                .iter()
                .map(|i| {
                    let owner = unsafe { std::ptr::read_volatile(i.owner) };
                    (*i.key, Acct { lamports: i.lamports(), data: i.data.borrow().to_vec(), owner, exec: i.executable }, i.is_writable)
                })
                .collect();
        }
        // what the runtime checks afterwards
        let total = |v: &dyn Fn(&Pubkey) -> u64| keys.iter().map(|k| v(k) as u128).sum::<u128>();
        let before_sum = total(&|k| self.acc.get(k).map(|a| a.lamports).unwrap_or(0));
        let after_sum = total(&|k| after.iter().find(|a| a.0 == *k).unwrap().1.lamports);
        if before_sum != after_sum {
            return Err("runtime: lamports created or destroyed".into());
        }
        for (k, a, w) in &after {
            let b = self.acc.get(k);
            if !w && b.map(|b| b != a).unwrap_or(a.lamports > 0 || !a.data.is_empty()) {
                return Err(format!("runtime: read-only account {} changed", k));
            }
        }
        for (k, a, _) in after {
            if a.lamports > 0 || !a.data.is_empty() {
                self.acc.insert(k, a);
            }
        }
        Ok(())
    }
}
