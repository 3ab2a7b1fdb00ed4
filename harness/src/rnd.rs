//! Randomness (spec/Rand.tla).
use crate::core::*;
use crate::field::Keyed;
use crate::vss::put;
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::util::random::{self, RandStream};
use num_bigint_dig::{BigInt, Sign};
use serde_json::{json, Value};
use std::io::{Error, ErrorKind, Read};

/// Gives these bytes, then fails.
pub struct Finite(pub Vec<u8>, pub usize);
impl Stream for Finite {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        if dst.len() < src.len() {
            return Err(StreamError::WrongBufferLengths);
        }
        if self.1 + src.len() > self.0.len() {
            return Err(StreamError::ReadersFailure);
        }
        for i in 0..src.len() {
            dst[i] = src[i] ^ self.0[self.1];
            self.1 += 1;
        }
        Ok(())
    }
}
/// A source: 32-byte blocks; an empty one is a failure. It may give them in pieces.
struct Source {
    blocks: Vec<Vec<u8>>,
    at: usize,
    pos: usize,
    piece: usize,
    hiccup: bool,
    partial: usize,
    eof: bool,
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.at >= self.blocks.len() {
            return if self.eof { Ok(0) } else { Err(Error::new(ErrorKind::Other, "broken")) };
        }
        if self.blocks[self.at].is_empty() {
            if self.pos < self.partial {
                self.pos += 1;
                b[0] = 0x99; // something came, but not enough
                return Ok(1);
            }
            self.at += 1;
            self.pos = 0;
            return if self.eof { Ok(0) } else { Err(Error::new(ErrorKind::Other, "broken")) };
        }
        if self.hiccup {
            self.hiccup = false;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let blk = &self.blocks[self.at];
        let n = b.len().min(self.piece).min(32 - self.pos);
        b[..n].copy_from_slice(&blk[self.pos..self.pos + n]);
        self.pos += n;
        if self.pos == 32 {
            self.at += 1;
            self.pos = 0;
        }
        Ok(n)
    }
}

fn ev(log: &mut Log, e: Value) {
    set_current(e.to_string());
    log.ev(e);
}

fn mixing(g: &mut Gen, log: &mut Log) {
    let n = if g.chance(1, 6) { g.range(5, 24) } else { g.range(1, 4) };
    let calls = g.range(1, 6);
    let script: Vec<Vec<Vec<u8>>> = (0..n)
        .map(|_| {
            let bad = *g.pick(&[0usize, 0, 1, 2, 10]);
            (0..calls).map(|_| if g.chance(bad, 10) { vec![] } else if g.chance(1, 8) { vec![0; 32] } else { g.bytes(32) }).collect()
        })
        .collect();
    log.begin(json!({"src": script.iter().map(|s| s.iter().map(|b| hex(b)).collect::<Vec<_>>()).collect::<Vec<_>>()}));
    let readers: Vec<Box<dyn Read>> = script
        .iter()
        .map(|s| {
            Box::new(Source {
                blocks: s.clone(),
                at: 0,
                pos: 0,
                piece: *g.pick(&[1usize, 5, 31, 32, 64]),
                hiccup: g.chance(1, 4),
                partial: *g.pick(&[0usize, 0, 1, 31]),
                eof: g.chance(1, 2),
            }) as Box<dyn Read>
        })
        .collect();
    let mut s = RandStream::new(readers);
    for _ in 0..calls + 1 {
        let k = g.length(&[0usize, 1, 16, 31, 32, 33, 64, 65, 100, 200]);
        let src = if g.chance(1, 2) { vec![0; k] } else { g.bytes(k) };
        let m = match g.below(8) {
            0 => k + 1,
            1 => k.saturating_sub(1),
            _ => k,
        };
        let before = g.bytes(m);
        let mut d = before.clone();
        let out = call(|| s.xor_key_stream(&mut d, &src));
        let e = put(&out, json!({"op": "mix", "src": hex(&src), "before": hex(&before), "v": hex(&d)}), |_| json!({}));
        ev(log, e);
    }
}

pub fn run(seed: u64, thorough: bool, log: &mut Log) {
    let mut g = Gen::new(seed);
    let k = if thorough { 10 } else { 1 };
    for _ in 0..200 * k {
        guard(log, |log| mixing(&mut g, log));
    }
    // the default sources
    guard(log, |log| {
        log.begin(json!({"src": []}));
        for how in 0..2 {
            let out = call(|| {
                let mut v = vec![];
                for _ in 0..5 {
                    let mut s = if how == 0 { RandStream::default() } else { RandStream::new(vec![]) };
                    for _ in 0..5 {
                        let mut b = [0u8; 32];
                        s.xor_key_stream(&mut b, &[0; 32]).map_err(|e| e.to_string())?;
                        v.push(hex(&b[..16]));
                        v.push(hex(&b[16..]));
                    }
                }
                Ok::<_, String>(v)
            });
            let e = put(&out, json!({"op": "fresh"}), |v| json!({"v": v}));
            ev(log, e);
        }
    });
    // numbers of a length
    guard(log, |log| {
        log.begin(json!({"src": []}));
        for bits in (0..=70).chain([127, 128, 129, 250, 255, 256, 257, 512]) {
            for exact in [false, true] {
                if exact && bits == 0 {
                    continue; // no number has exactly no bits
                }
                for _ in 0..3 * k {
                    let s = g.u64();
                    let out = call_v(|| (random::bits(bits, exact, &mut Keyed(s)), random::bits(bits, exact, &mut Keyed(s))));
                    let e = put(&out, json!({"op": "bits", "bits": bits, "exact": exact}), |(v, w)| json!({"v": hex(v), "again": hex(w)}));
                    ev(log, e);
                }
                // the extreme streams
                for b in [0u8, 0xff] {
                    let out = call_v(|| {
                        let go = || random::bits(bits, exact, &mut Finite(vec![b; 4096], 0));
                        (go(), go())
                    });
                    let e = put(&out, json!({"op": "bits", "bits": bits, "exact": exact}), |(v, w)| json!({"v": hex(v), "again": hex(w)}));
                    ev(log, e);
                }
            }
            if bits > 0 {
                let out = call_v(|| random::bits(bits, g.chance(1, 2), &mut Finite(vec![], 0)));
                let e = put(&out, json!({"op": "failing"}), |_| json!({}));
                ev(log, e);
                let m = (BigInt::from(1) << bits as usize) + BigInt::from(1);
                let out = call_v(|| random::random_int(&m, &mut Finite(vec![], 0)));
                let e = put(&out, json!({"op": "failing"}), |_| json!({}));
                ev(log, e);
            }
        }
    });
    // uniformity, over all streams of one or two bytes
    guard(log, |log| {
        log.begin(json!({"src": []}));
        let mut count = |op: &str, lo: usize, hi: usize, bytes: usize, f: &dyn Fn(&mut Finite) -> Option<usize>| {
            let total = 1usize << (8 * bytes);
            let mut c = vec![0usize; hi + 1];
            let mut outside = 0;
            for v in 0..total {
                let b: Vec<u8> = (0..bytes).map(|i| (v >> (8 * i)) as u8).collect();
                let r = call_v(|| f(&mut Finite(b, 0)));
                if let Out::Ok(Some(k)) = r {
                    if k >= lo && k <= hi {
                        c[k] += 1
                    } else {
                        outside += 1
                    }
                }
            }
            ev(log, json!({"op": "uniform", "what": op, "out": "ok", "lo": lo, "hi": hi, "counts": c, "outside": outside, "total": total}));
        };
        let val = |b: &[u8]| b.iter().fold(0usize, |a, x| a * 256 + *x as usize);
        for bits in 1..=10u64 {
            let bytes = (bits as usize + 7) / 8;
            count("bits", 0, (1 << bits) - 1, bytes, &|s| Some(val(&random::bits(bits, false, s))));
            count("exact", 1 << (bits - 1), (1 << bits) - 1, bytes, &|s| Some(val(&random::bits(bits, true, s))));
        }
        let one: Vec<usize> = if thorough { (2..=255).collect() } else { (2..=40).chain([63, 64, 65, 127, 128, 129, 200, 254, 255]).collect() };
        let two: Vec<usize> = if thorough { vec![256, 257, 300, 511, 512, 513, 700, 1000] } else { vec![256, 257, 300] };
        for m in one.into_iter().chain(two) {
            let bytes = if m < 256 { 1 } else { 2 };
            let big = BigInt::from(m);
            count("int", 1, m - 1, bytes, &|s| {
                let v = random::random_int(&big, s);
                let (sg, b) = v.to_bytes_be();
                if sg == Sign::Minus {
                    Some(usize::MAX)
                } else {
                    Some(val(&b))
                }
            });
        }
    });
    guard(log, |log| {
        log.begin(json!({"src": []}));
        for _ in 0..60 * k {
            let n = g.range(1, 40);
            let mut b = g.bytes(n);
            if g.chance(1, 3) {
                b = vec![0; n];
                b[0] = 1;
                if g.chance(1, 2) {
                    b[n - 1] |= 1;
                }
            }
            let m = BigInt::from_bytes_be(Sign::Plus, &b) + BigInt::from(2);
            let (s, s2) = (g.u64(), g.u64());
            let out = call_v(|| {
                (random::random_int(&m, &mut Keyed(s)), random::random_int(&m, &mut Keyed(s)), random::random_int(&m, &mut Keyed(s2)))
            });
            let e = put(&out, json!({"op": "int", "m": m.to_string()}), |(v, w, o)| {
                json!({"v": v.magnitude_string(), "neg": v.sign() == Sign::Minus, "again": w.magnitude_string(), "other": o.magnitude_string()})
            });
            ev(log, e);
            let n = g.length(&[0usize, 1, 31, 32, 64, 333]);
            let have = if g.chance(1, 4) { n.saturating_sub(1) } else { n + g.below(3) };
            let stream = g.bytes(have);
            let mut b = g.bytes(n);
            let out = call(|| random::bytes(&mut b, &mut Finite(stream.clone(), 0)));
            let e = put(&out, json!({"op": "fill", "fails": have < n, "stream": hex(&stream[..n.min(have)]), "v": hex(&b)}), |_| json!({}));
            ev(log, e);
        }
    });
}
trait Mag {
    fn magnitude_string(&self) -> String;
}
impl Mag for BigInt {
    fn magnitude_string(&self) -> String {
        self.to_string().trim_start_matches('-').to_string()
    }
}
