//! Generated-input search: proptest generators and shrinking, fixed work per tier, deterministic
//! from VERIF_SEED, evidence and replay files.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one generated case showed.
pub enum Out {
    /// held; `true` = non-trivial by the stated rule; labels are counted into the evidence
    Ok(bool, Vec<&'static str>),
    /// the property is broken
    Bad(String),
    /// broken exactly in the way a listed known finding describes
    Known(&'static str),
}
pub fn ok(nontrivial: bool) -> Out {
    Out::Ok(nontrivial, vec![])
}
pub fn bad<S: Into<String>>(s: S) -> Out {
    Out::Bad(s.into())
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} @ {}", msg, loc));
    }));
}
/// Run code under test; a panic (the code's way of refusing) becomes Err(message).
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn cpu_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}
/// CPU seconds of another thread of this process.
fn cpu_of(clock: libc::clockid_t) -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(clock, &mut ts) } != 0 {
        return 0.0;
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

pub struct Real {
    fd: i32,
}
impl Real {
    /// Keep the real stdout, point fd 1 at /dev/null: the code under test prints a lot.
    pub fn take() -> Real {
        unsafe {
            let fd = libc::dup(1);
            let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(n, 1);
            libc::close(n);
            Real { fd }
        }
    }
    pub fn say(&self, s: &str) {
        let line = format!("{}\n", s);
        unsafe {
            libc::write(self.fd, line.as_ptr() as *const _, line.len());
        }
    }
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub real: Real,
    pub verif: String,
    pub threads: usize,
    pub scale: f64,
    pub only: Option<String>,
    pub known: Vec<KnownFinding>,
    pub t0: Instant,
}

#[derive(serde::Deserialize, Clone, Debug)]
pub struct KnownFinding {
    pub property: String,
    pub sub: String,
    pub key: String,
    pub what: String,
    pub input: Value,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
}

pub struct Failure {
    pub sub: String,
    pub reason: String,
    pub input: Value,
}

pub trait SubCheck: Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn search(&self, ctx: &Ctx, st: &mut Stats) -> Option<Failure>;
    fn replay(&self, input: &Value) -> Out;
}

pub struct Prop<I> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strat: fn() -> BoxedStrategy<I>,
    pub check: fn(&I) -> Out,
}

fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn seed_bytes(parts: &[&str], n: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for k in 0..4u64 {
        let h = hash64(&(parts, n, k));
        out[(k * 8) as usize..(k * 8 + 8) as usize].copy_from_slice(&h.to_le_bytes());
    }
    out
}

/// CPU seconds one case may burn before it is called non-terminating. Cases take milliseconds.
pub const CASE_CPU_LIMIT: f64 = 60.0;

fn guarded<I>(check: fn(&I) -> Out, i: &I) -> Out {
    match catch_unwind(AssertUnwindSafe(|| check(i))) {
        Ok(o) => o,
        Err(_) => bad(format!("unexpected panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

impl<I> SubCheck for Prop<I>
where
    I: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn replay(&self, input: &Value) -> Out {
        match serde_json::from_value::<I>(input.clone()) {
            Ok(i) => guarded(self.check, &i),
            Err(e) => panic!("replay file does not fit this check: {}", e),
        }
    }
    fn search(&self, ctx: &Ctx, st: &mut Stats) -> Option<Failure> {
        let base = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = ((base as f64 * ctx.scale) as u64).max(1);
        let nchunks = 64u64.min(total);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done_workers = AtomicUsize::new(0);
        let fails: Mutex<Vec<(u64, String, Value)>> = Mutex::new(vec![]);
        let merged: Mutex<Stats> = Mutex::new(Stats::default());
        let check = self.check;
        let name = self.name;
        struct Slot<I> {
            clock: libc::clockid_t,
            start: f64,
            input: Option<I>,
        }
        let slots: Vec<Arc<Mutex<Slot<I>>>> = (0..ctx.threads)
            .map(|_| Arc::new(Mutex::new(Slot { clock: 0, start: 0.0, input: None })))
            .collect();
        std::thread::scope(|sc| {
            for w in 0..ctx.threads {
                let slot = slots[w].clone();
                let (next, stop, fails, merged, done) = (&next, &stop, &fails, &merged, &done_workers);
                let builder = std::thread::Builder::new().stack_size(64 << 20);
                builder
                    .spawn_scoped(sc, move || {
                        {
                            let mut s = slot.lock().unwrap();
                            let mut clk: libc::clockid_t = 0;
                            unsafe {
                                libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk);
                            }
                            s.clock = clk;
                        }
                        let strat = (self.strat)();
                        let mut local = Stats::default();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let c = next.fetch_add(1, Ordering::Relaxed);
                            if c >= nchunks {
                                break;
                            }
                            let n = total / nchunks + if c < total % nchunks { 1 } else { 0 };
                            let rng = TestRng::from_seed(
                                RngAlgorithm::ChaCha,
                                &seed_bytes(&[&ctx.id, name], ctx.seed.wrapping_mul(1_000_003).wrapping_add(c)),
                            );
                            let cfg = Config { failure_persistence: None, ..Config::default() };
                            let mut runner = TestRunner::new_with_rng(cfg, rng);
                            for k in 0..n {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                let mut tree = match strat.new_tree(&mut runner) {
                                    Ok(t) => t,
                                    Err(_) => continue,
                                };
                                let input = tree.current();
                                {
                                    let mut s = slot.lock().unwrap();
                                    s.start = cpu_now();
                                    s.input = Some(input.clone());
                                }
                                let out = guarded(check, &input);
                                local.evals += 1;
                                match out {
                                    Out::Ok(nt, labels) => {
                                        for l in labels {
                                            *local.labels.entry(format!("{}:{}", name, l)).or_insert(0) += 1;
                                        }
                                        if nt {
                                            let js = serde_json::to_string(&input).unwrap();
                                            local.nontrivial.insert(hash64(&(name, &js)));
                                            if k == n - 1 && local.samples.is_empty() && js.len() < 6000 {
                                                local.samples.push(json!({"check": name, "case": serde_json::from_str::<Value>(&js).unwrap()}));
                                            }
                                        }
                                    }
                                    Out::Known(k) => {
                                        *local.known.entry(k.to_string()).or_insert(0) += 1;
                                    }
                                    Out::Bad(first) => {
                                        // shrink
                                        let mut best = (input.clone(), first);
                                        let deadline = Instant::now() + Duration::from_secs(40);
                                        let mut iters = 0;
                                        let mut alive = tree.simplify();
                                        while alive && iters < 4000 && Instant::now() < deadline {
                                            iters += 1;
                                            let cand = tree.current();
                                            {
                                                let mut s = slot.lock().unwrap();
                                                s.start = cpu_now();
                                                s.input = Some(cand.clone());
                                            }
                                            match guarded(check, &cand) {
                                                Out::Bad(r) => {
                                                    best = (cand, r);
                                                    alive = tree.simplify();
                                                }
                                                _ => alive = tree.complicate(),
                                            }
                                        }
                                        fails.lock().unwrap().push((
                                            c,
                                            best.1,
                                            serde_json::to_value(&best.0).unwrap(),
                                        ));
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                                slot.lock().unwrap().input = None;
                            }
                        }
                        {
                            let mut m = merged.lock().unwrap();
                            m.evals += local.evals;
                            m.nontrivial.extend(local.nontrivial);
                            for (k, v) in local.labels {
                                *m.labels.entry(k).or_insert(0) += v;
                            }
                            for (k, v) in local.known {
                                *m.known.entry(k).or_insert(0) += v;
                            }
                            if m.samples.len() < 2 {
                                m.samples.extend(local.samples);
                            }
                        }
                        slot.lock().unwrap().input = None;
                        done.fetch_add(1, Ordering::Relaxed);
                    })
                    .unwrap();
            }
            // watchdog
            while done_workers.load(Ordering::Relaxed) < ctx.threads {
                std::thread::sleep(Duration::from_millis(5));
                for s in &slots {
                    let g = s.lock().unwrap();
                    if let Some(i) = &g.input {
                        if cpu_of(g.clock) - g.start > CASE_CPU_LIMIT {
                            let f = Failure {
                                sub: name.to_string(),
                                reason: format!(
                                    "does not terminate: one operation sequence used more than {} s of CPU time",
                                    CASE_CPU_LIMIT
                                ),
                                input: serde_json::to_value(i).unwrap(),
                            };
                            st.evals += 1;
                            finish(ctx, st, &[], Some(f));
                        }
                    }
                }
            }
        });
        let m = merged.into_inner().unwrap();
        st.evals += m.evals;
        st.nontrivial.extend(m.nontrivial);
        for (k, v) in m.labels {
            *st.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in m.known {
            *st.known.entry(k).or_insert(0) += v;
        }
        st.samples.extend(m.samples.into_iter().take(2));
        let mut fv = fails.into_inner().unwrap();
        fv.sort_by_key(|f| f.0);
        fv.into_iter().next().map(|(_, reason, input)| Failure { sub: name.to_string(), reason, input })
    }
}

/// Write evidence, print the verdict, exit.
pub fn finish(ctx: &Ctx, st: &Stats, rules: &[String], fail: Option<Failure>) -> ! {
    let tier = if ctx.tier == Tier::Quick { "quick" } else { "thorough" };
    let mut code = 0;
    let mut nviol = 0;
    if let Some(f) = &fail {
        let dir = format!("{}/evidence/replays", ctx.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.json", dir, ctx.id, f.sub);
        let body = json!({
            "property": ctx.id, "sub": f.sub, "reason": f.reason, "seed": ctx.seed, "tier": tier, "input": f.input,
            "how": "bash run.sh replay <this file>"
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        ctx.real.say(&format!("{}/{}: {}", ctx.id, f.sub, f.reason));
        let inp = f.input.to_string();
        ctx.real.say(&format!("  input: {}", inp.chars().take(1500).collect::<String>()));
        ctx.real.say(&format!("VIOLATION property={} replay={}", ctx.id, path));
        code = 1;
        nviol = 1;
    }
    let ev = json!({
        "property": ctx.id, "tier": tier, "seed": ctx.seed, "level": "exploration",
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": rules.join(" | "),
            "samples": st.samples,
            "classes": st.labels,
            "known_finding_hits": st.known,
        },
        "assumptions": ["generated-input search: no claim beyond the cases explored",
                        "oracles in /verif/harness (own big-integer arithmetic and reference models) are trusted"],
        "wall_s": ctx.t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    let p = format!("{}/evidence/{}.json", ctx.verif, ctx.id);
    let _ = std::fs::create_dir_all(format!("{}/evidence", ctx.verif));
    if let Ok(mut f) = std::fs::File::create(&p) {
        let _ = f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes());
    }
    if code == 0 {
        ctx.real.say(&format!(
            "OK property={} tier={} seed={} cases={} nontrivial={} wall={:.1}s",
            ctx.id,
            tier,
            ctx.seed,
            st.evals,
            st.nontrivial.len(),
            ctx.t0.elapsed().as_secs_f64()
        ));
    }
    std::process::exit(code)
}
