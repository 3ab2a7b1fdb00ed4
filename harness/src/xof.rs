//! The extendable output function (spec/Xof.tla).
use crate::core::*;
use crate::vss::put;
use kyber_rs::cipher::Stream;
use kyber_rs::group::edwards25519::SuiteEd25519;
use kyber_rs::{XOFFactory, XOF};
use serde_json::{json, Value};
use std::io::{Read, Write};

struct World<'a> {
    log: &'a mut Log,
    x: Vec<Box<dyn XOF>>,
}
fn fresh(seed: Option<&[u8]>) -> Box<dyn XOF> {
    SuiteEd25519::new_blake3_sha256_ed25519().xof(seed)
}
impl<'a> World<'a> {
    fn new(log: &'a mut Log) -> Self {
        log.begin(json!({"op": "init"}));
        World { log, x: vec![fresh(None), fresh(None), fresh(None)] }
    }
    fn ev(&mut self, e: Value) {
        set_current(e.to_string());
        self.log.ev(e);
    }
    fn make(&mut self, x: usize, seed: Option<&[u8]>) {
        let out = call_v(|| fresh(seed));
        let ev = put(&out, json!({"op": "new", "x": x, "seed": hex(seed.unwrap_or(&[]))}), |_| json!({}));
        self.ev(ev);
        if let Some(y) = out.ok() {
            self.x[x - 1] = y;
        }
    }
    fn read(&mut self, x: usize, n: usize, how: usize) {
        let n = n.max(1); // whether reading nothing ends the absorbing phase is left open
        let y = &mut self.x[x - 1];
        let mut b = vec![0xabu8; n];
        let out = call(|| match how {
            0 => y.read_exact(&mut b).map(|_| n),
            1 => {
                // whatever the buffer holds
                let mut got = 0;
                while got < n {
                    let k = y.read(&mut b[got..])?;
                    if k == 0 {
                        break;
                    }
                    got += k;
                }
                Ok(got)
            }
            _ => {
                let mut v = vec![];
                let k = (&mut **y).take(n as u64).read_to_end(&mut v)?;
                b = v;
                Ok(k)
            }
        });
        let b = b.clone();
        let ev = put(&out, json!({"op": "read", "x": x, "n": n}), |k| json!({"v": hex(&b[..(*k).min(b.len())])}));
        self.ev(ev);
    }
    fn xor(&mut self, x: usize, src: &[u8], dst: &[u8]) {
        if src.is_empty() {
            return;
        }
        let y = &mut self.x[x - 1];
        let mut d = dst.to_vec();
        let out = call(|| y.xor_key_stream(&mut d, src));
        let ev = put(&out, json!({"op": "xor", "x": x, "src": hex(src), "before": hex(dst), "v": hex(&d)}), |_| json!({}));
        self.ev(ev);
    }
    fn write(&mut self, x: usize, data: &[u8], how: usize) {
        let y = &mut self.x[x - 1];
        let out = call(|| if how == 0 && !data.is_empty() { y.write_all(data).map(|_| data.len()) } else { y.write(data) });
        let ev = put(&out, json!({"op": "write", "x": x, "data": hex(data)}), |n| json!({"n": n}));
        self.ev(ev);
    }
    fn flush(&mut self, x: usize) {
        let y = &mut self.x[x - 1];
        let out = call(|| y.flush());
        let ev = put(&out, json!({"op": "flush", "x": x}), |_| json!({}));
        self.ev(ev);
    }
    fn reseed(&mut self, x: usize) {
        let y = &mut self.x[x - 1];
        let out = call_v(|| y.reseed());
        let ev = put(&out, json!({"op": "reseed", "x": x}), |_| json!({}));
        self.ev(ev);
    }
    fn copy(&mut self, x: usize, from: usize) {
        let y = &self.x[from - 1];
        let out = call_v(|| XOF::clone(&**y));
        let ev = put(&out, json!({"op": "clone", "x": x, "from": from}), |_| json!({}));
        self.ev(ev);
        if let Some(z) = out.ok() {
            self.x[x - 1] = z;
        }
    }
}

pub fn run(seed: u64, thorough: bool, rows: &[Value], log: &mut Log) {
    let mut g = Gen::new(seed);
    // the behaviours generated from the specification
    for r in rows {
        guard(log, |log| {
            let mut w = World::new(log);
            for s in r.as_array().unwrap() {
                let (x, n) = (as_usize(&s["x"]), as_usize(&s["n"]));
                let b = g.bytes(n);
                match s["op"].as_str().unwrap() {
                    "write" => w.write(x, &b, n % 2),
                    "read" => w.read(x, n, n % 2),
                    "xor" => w.xor(x, &b, &vec![7; n]),
                    "reseed" => w.reseed(x),
                    "flush" => w.flush(x),
                    "clone" => w.copy(x, n),
                    _ => w.make(x, Some(&b)),
                }
            }
            w.read(1, 3, 0);
            w.read(2, 3, 0);
        });
    }
    let sizes = [0usize, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 1023, 1024, 1025, 2048, 2500];
    // longer than any buffer that comes to mind
    let long = [4095usize, 4096, 4097, 8200, 16400, 33000, 66000];
    for n in long {
        guard(log, |log| {
            let mut w = World::new(log);
            let b = g.bytes(n);
            w.make(1, Some(&b));
            w.copy(2, 1);
            w.xor(1, &b, &vec![0; n]);
            w.read(2, n, 0);
            w.reseed(1);
            w.write(1, &b, 0);
            w.read(1, 40, 0);
            w.read(2, 40, 0);
        });
    }
    for _ in 0..if thorough { 600 } else { 60 } {
        guard(log, |log| {
            let mut w = World::new(log);
            for _ in 0..30 {
                let x = g.range(1, 3);
                let n = if g.chance(1, 2) { *g.pick(&sizes) } else { g.below(70) };
                let n = if g.chance(1, 80) { *g.pick(&long[..4]) } else { n };
                let b = g.bytes(n);
                match g.below(14) {
                    0 => w.make(x, if g.chance(1, 5) { None } else { Some(&b) }),
                    1..=4 => w.write(x, &b, g.below(2)),
                    5 | 6 => w.read(x, n, g.below(3)),
                    7..=9 => {
                        let m = match g.below(5) {
                            0 => n + g.range(1, 9),
                            1 => n.saturating_sub(g.range(1, 9)),
                            _ => n,
                        };
                        let d = if g.chance(1, 2) { vec![0; m] } else { g.bytes(m) };
                        w.xor(x, &b, &d)
                    }
                    10 | 11 => w.reseed(x),
                    12 => w.flush(x),
                    _ => w.copy(x, g.range(1, 3)),
                }
            }
        });
    }
}
