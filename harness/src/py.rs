//! The Python model of the pool (cl_python/v3_pool.py) behind the same interface: one interpreter
//! per worker thread, spoken to over a pipe.
use crate::core::*;
use crate::d_props::prop;
use crate::pool::*;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Py {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Py {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static PY: std::cell::RefCell<Option<Py>> = std::cell::RefCell::new(None);
    static RP: std::cell::RefCell<std::collections::HashMap<u64, f64>> = Default::default();
}
fn start() -> Py {
    let here = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let repo = std::env::var("VP_REPO").unwrap_or_else(|_| "/repo".into());
    let mut child = Command::new("python3")
        .args(["-B", "-S", "-E", &format!("{}/harness/py/driver.py", here), &format!("{}/programs/hmmcl-sandbox/src/cl_python/v3_pool.py", repo)])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("python3");
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Py { child, to, from }
}
/// A refusal of the Python code (an exception) is a panic here, as it is in the Rust pools.
pub fn ask(q: Value) -> Vec<f64> {
    match try_ask(q) {
        Ok(v) => v,
        Err(e) => panic!("{}", e),
    }
}
fn try_ask(q: Value) -> Result<Vec<f64>, String> {
    PY.with(|p| {
        let mut p = p.borrow_mut();
        let py = p.get_or_insert_with(start);
        let mut s = String::new();
        if writeln!(py.to, "{}", q).is_err() || py.from.read_line(&mut s).unwrap_or(0) == 0 {
            *p = None;
            return Err("the Python interpreter ended (does v3_pool.py still load?)".into());
        }
        let v: Value = serde_json::from_str(&s).map_err(|e| format!("{}: {}", e, s))?;
        if let Some(e) = v.get("err") {
            return Err(e.as_str().unwrap_or("?").to_string());
        }
        let mut r = vec![];
        fn flat(v: &Value, r: &mut Vec<f64>) {
            match v {
                Value::Array(a) => a.iter().for_each(|v| flat(v, r)),
                Value::Null => r.push(f64::NAN),
                v => r.push(v.as_f64().unwrap_or(f64::NAN)),
            }
        }
        flat(&v, &mut r);
        Ok(r)
    })
}

/// What the last call printed.
pub fn text() -> String {
    PY.with(|p| {
        let mut p = p.borrow_mut();
        let py = p.get_or_insert_with(start);
        let mut s = String::new();
        if writeln!(py.to, "[\"text\", 0]").is_err() || py.from.read_line(&mut s).unwrap_or(0) == 0 {
            *p = None;
        }
        serde_json::from_str::<Vec<String>>(&s).map(|v| v.concat()).unwrap_or_default()
    })
}

/// A pool held by the interpreter of this thread.
pub struct PyPool(f64);
impl Drop for PyPool {
    fn drop(&mut self) {
        let _ = try_ask(json!(["drop", self.0]));
    }
}
fn st(v: &[f64]) -> St {
    let n = v.len();
    St {
        x: nf(v[0]),
        xa: nf(v[1]),
        xf: nf(v[2]),
        y: nf(v[3]),
        ya: nf(v[4]),
        yf: nf(v[5]),
        liq: nf(v[6]),
        rp: nf(v[7]),
        tick: v[8] as i64 as u64,
        ticks: v[9..n - 1].iter().map(|t| *t as i64 as u64).collect(),
        npos: v[n - 1] as usize,
        nticks: n - 10,
    }
}
impl PoolApi for PyPool {
    const EXACT: bool = false;
    const LOWEST: i64 = 1; // (a swap that leaves the lowest range goes one tick below it)
    fn create(c: &Cfg) -> PyPool {
        let rp = mid::<PyPool>(c.tick as u64);
        let h = ask(json!(["new", 0, rp.f, c.spacing, c.c as f64 / 100.0, c.fee as f64 / 1e6]));
        PyPool(h[0])
    }
    fn deposit(&mut self, u: &'static str, x: &N, y: &N, a: &N, b: &N) {
        ask(json!(["dep", self.0, u, x.f, y.f, a.f, b.f]));
    }
    fn withdraw(&mut self, u: &'static str, l: &N, a: &N, b: &N) {
        ask(json!(["wd", self.0, u, l.f, a.f, b.f]));
    }
    fn swap(&mut self, from_x: bool, amt: &N, o: &N) -> Swp {
        let r = ask(json!(["swap", self.0, from_x, amt.f, o.f]));
        let (recv, send) = if from_x { (r[0], r[1]) } else { (r[1], r[0]) };
        Swp { recv: nf(recv), send: nf(-send), adj: nf(r[2]), fee: nf(r[3]), avg: nf(if r[4].is_nan() { 0.0 } else { r[4] }), end: nf(r[5]) }
    }
    fn state(&self) -> St {
        st(&ask(json!(["state", self.0])))
    }
    fn rp_of(t: u64) -> N {
        RP.with(|m| nf(*m.borrow_mut().entry(t).or_insert_with(|| ask(json!(["tick_to_rP", 0, t]))[0])))
    }
    fn liq_for(x: &N, y: &N, rp: &N, a: &N, b: &N) -> N {
        nf(ask(json!(["liq_from_x_y_rP_rng", 0, x.f, y.f, rp.f, a.f, b.f]))[0].floor())
    }
}

const G_P: Gen = Gen { exact: false, hmm: false, nohmm: false, max_ops: 14, fee_zero: false };
fn history(h: &Hist, want: &'static [T]) -> Out {
    match run_hist::<PyPool>(h, want, true) {
        Err(m) => Out::Bad(m),
        Ok(r) => {
            let mut l = r.labels.clone();
            l.sort();
            l.dedup();
            Out::Ok(r.swaps > 0, l)
        }
    }
}

const ALL: &[T] = &[T::Liq, T::Tick, T::Cons, T::Solv, T::Lim, T::Ref, T::Fee, T::Dist, T::Hmm, T::Dep, T::LiveSwap, T::LiveDep, T::LiveWd];
pub fn subs(id: &str) -> Option<Vec<Box<dyn SubCheck>>> {
    Some(match id {
        "C40" => vec![prop!("history", "the history executed at least one swap", 60_000, 3_000_000, || hist_strat(G_P), |h: &Hist| history(h, ALL))],
        _ => return None,
    })
}
