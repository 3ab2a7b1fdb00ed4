//! Shared plumbing: event log, guarded calls, deterministic randomness, tokens.
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use rand::rngs::StdRng;
use rand::{Rng, RngCore, SeedableRng};
use serde::de::DeserializeOwned;
use serde::Serialize;

thread_local! {
    static RNG: RefCell<StdRng> = RefCell::new(StdRng::seed_from_u64(0));
}
/// Seeds the random source behind the toy suites and the generators of this process.
pub fn seed_rng(s: u64) {
    RNG.with(|r| *r.borrow_mut() = StdRng::seed_from_u64(s));
}
pub fn fill(b: &mut [u8]) {
    RNG.with(|r| r.borrow_mut().fill_bytes(b));
}

/// Generator used by drivers (independent of the library's draws).
pub struct Gen(pub StdRng);
impl Gen {
    pub fn new(seed: u64) -> Self {
        Gen(StdRng::seed_from_u64(seed))
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            self.0.gen_range(0..n)
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        self.0.gen_range(a..=b)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn u64(&mut self) -> u64 {
        self.0.next_u64()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.0.fill_bytes(&mut v);
        v
    }
    /// One of the usual lengths, or now and then one that fits in no small buffer.
    pub fn length(&mut self, usual: &[usize]) -> usize {
        if self.chance(1, 25) {
            *self.pick(&[256usize, 300, 511, 513, 1025, 2049, 4096, 4100, 5000, 9000])
        } else {
            *self.pick(usual)
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ------------------------------------------------------------------ guarded calls
static STARTED: AtomicU64 = AtomicU64::new(0);
static BUSY: AtomicBool = AtomicBool::new(false);
static CURRENT: Mutex<String> = Mutex::new(String::new());
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// What a call into the library came to.
#[derive(Clone, Debug)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Out<T> {
    pub fn tag(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic(_) => "panic",
        }
    }
    pub fn why(&self) -> String {
        match self {
            Out::Ok(_) => String::new(),
            Out::Err(e) | Out::Panic(e) => e.clone(),
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
}

pub fn call<T, E: std::fmt::Debug>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    STARTED.store(now_ms(), Ordering::SeqCst);
    BUSY.store(true, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    BUSY.store(false, Ordering::SeqCst);
    match r {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(format!("{e:?}")),
        Err(_) => Out::Panic(LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default()),
    }
}
/// For calls that cannot return an error.
pub fn call_v<T>(f: impl FnOnce() -> T) -> Out<T> {
    call(|| Ok::<T, String>(f()))
}

pub fn set_current(s: impl Into<String>) {
    if let Ok(mut c) = CURRENT.lock() {
        *c = s.into();
    }
}

pub fn install_hooks(out_path: String, limit_s: u64) {
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut p) = LAST_PANIC.lock() {
            *p = format!("{info}").chars().take(300).collect();
        }
    }));
    now_ms();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        if BUSY.load(Ordering::SeqCst)
            && now_ms().saturating_sub(STARTED.load(Ordering::SeqCst)) > limit_s * 1000
        {
            let cur = CURRENT.lock().map(|s| s.clone()).unwrap_or_default();
            let _ = std::fs::write(
                format!("{out_path}.hang"),
                json!({"hang": cur, "limit_s": limit_s}).to_string(),
            );
            std::process::exit(3);
        }
    });
}

// ------------------------------------------------------------------ traces
#[derive(Default)]
pub struct Log {
    pub traces: Vec<Vec<Value>>,
    pub cur: Vec<Value>,
}
impl Log {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn begin(&mut self, header: Value) {
        self.end();
        self.cur.push(header);
    }
    pub fn ev(&mut self, e: Value) {
        self.cur.push(e);
    }
    pub fn end(&mut self) {
        if !self.cur.is_empty() {
            self.traces.push(std::mem::take(&mut self.cur));
        }
    }
    pub fn write(mut self, path: &str) {
        self.end();
        let n: usize = self.traces.iter().map(|t| t.len()).sum();
        let v = json!({"traces": self.traces, "events": n});
        std::fs::write(path, v.to_string()).expect("write traces");
    }
}
pub fn merge(a: Value, b: Value) -> Value {
    let mut m: Map<String, Value> = a.as_object().cloned().unwrap_or_default();
    if let Some(o) = b.as_object() {
        for (k, v) in o {
            m.insert(k.clone(), v.clone());
        }
    }
    Value::Object(m)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
/// Little-endian bytes to decimal.
pub fn dec_le(b: &[u8]) -> String {
    num_bigint_dig::BigUint::from_bytes_le(b).to_string()
}

pub fn as_usize(v: &Value) -> usize {
    v.as_u64().expect("natural number") as usize
}

// ------------------------------------------------------------------ storage
thread_local! {
    static STORE: RefCell<Gen> = RefCell::new(Gen::new(0));
}
pub fn seed_store(s: u64) {
    STORE.with(|r| *r.borrow_mut() = Gen::new(s));
}
fn roll(n: usize) -> usize {
    STORE.with(|r| r.borrow_mut().below(n))
}
/// Now and then (one time in `den`) the value is written out and read back, as a restart or a
/// transport would do it, and what was read takes its place; what was written is also cut short
/// or spoilt before it is read.
pub fn stored<T: Serialize + DeserializeOwned>(log: &mut Log, what: &str, den: usize, x: &mut T, eq: impl Fn(&T, &T) -> bool) {
    if roll(den) != 0 {
        return;
    }
    let json_ = roll(2) == 0;
    let how = if json_ { "json" } else { "bincode" };
    let write = |x: &T| -> Result<Vec<u8>, String> {
        if json_ {
            serde_json::to_vec(x).map_err(|e| e.to_string())
        } else {
            bincode::serialize(x).map_err(|e| e.to_string())
        }
    };
    let read = |b: &[u8]| -> Result<T, String> {
        if json_ {
            serde_json::from_slice(b).map_err(|e| e.to_string())
        } else {
            bincode::deserialize(b).map_err(|e| e.to_string())
        }
    };
    let ev = |op: &str, out: &Out<T>, same: bool| json!({"op": op, "what": what, "how": how, "out": out.tag(), "why": out.why(), "same": same});
    let bytes = match call(|| write(x)) {
        Out::Ok(b) => b,
        o => {
            log.ev(json!({"op": "stored", "what": what, "how": how, "out": o.tag(), "why": o.why(), "same": false}));
            return;
        }
    };
    if roll(3) == 0 {
        let k = if roll(2) == 0 { bytes.len() - 1 } else { roll(bytes.len()) };
        let o = call(|| read(&bytes[..k]));
        log.ev(ev("cut", &o, false));
    }
    if roll(3) == 0 {
        let mut b = bytes.clone();
        for _ in 0..1 + roll(3) {
            let k = roll(b.len());
            b[k] = match roll(3) {
                0 => b[k] ^ 1 << roll(8),
                1 => 0xff,
                _ => roll(256) as u8,
            };
        }
        let o = call(|| read(&b));
        log.ev(ev("garbled", &o, false));
    }
    let o = call(|| read(&bytes));
    let same = match &o {
        Out::Ok(y) => eq(x, y) && serde_json::to_value(&*x).ok() == serde_json::to_value(y).ok(),
        _ => false,
    };
    log.ev(ev("stored", &o, same));
    if let Out::Ok(y) = o {
        *x = y;
    }
}

// ------------------------------------------------------------------ printing
/// Does one of the texts show one of the secrets: in hexadecimal of either byte order, as bytes,
/// or as a number?
pub fn leaks(texts: &[String], secrets: &[Vec<u8>]) -> bool {
    let flat: Vec<String> = texts.iter().map(|t| t.split_whitespace().collect::<Vec<_>>().join(" ").replace(", ]", "]")).collect();
    secrets.iter().any(|x| {
        let z: Vec<u8> = x.iter().rev().cloned().collect();
        let bytes = format!("{x:?}");
        let forms = [hex(x), hex(&z), hex(x).to_uppercase(), hex(&z).to_uppercase(), bytes.trim_matches(['[', ']']).to_string(), dec_le(x), dec_le(&z)];
        forms.iter().any(|f| f.len() > 8 && flat.iter().any(|t| t.contains(f)))
    })
}
/// Now and then (one time in `den`) the value is printed.
pub fn shown(log: &mut Log, what: &str, den: usize, print: impl FnOnce() -> Vec<String>, secrets: &[Vec<u8>]) {
    if secrets.is_empty() || roll(den) != 0 {
        return;
    }
    let out = call_v(print);
    // what errors said so far is printed, too
    let said: Vec<String> = log.cur.iter().filter_map(|e| e.get("why").and_then(|w| w.as_str()).map(String::from)).collect();
    let leak = leaks(&said, secrets) || matches!(&out, Out::Ok(t) if leaks(t, secrets));
    log.ev(json!({"op": "show", "what": what, "out": out.tag(), "why": out.why(), "leaks": leak}));
}
macro_rules! prints {
    ($x:expr) => {{
        let x = &$x;
        vec![format!("{x}"), format!("{x:?}"), format!("{x:#?}")]
    }};
}

/// Runs one scenario; if the driver itself breaks down in it, that is on record.
pub fn guard(log: &mut Log, f: impl FnOnce(&mut Log)) {
    let r = catch_unwind(AssertUnwindSafe(|| f(log)));
    if r.is_err() {
        let why = LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default();
        log.ev(json!({"op": "driver", "out": "panic", "why": why}));
    }
    log.end();
}
