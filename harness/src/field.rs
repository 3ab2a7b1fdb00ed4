//! Scalars of every implementation (spec/Field.tla).
use crate::core::*;
use crate::sig::{le32, order};
use crate::vss::put;
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::encoding;
use kyber_rs::group::edwards25519::{FactoredScalar, Scalar as EdScalar, SimpleCTScalar};
use kyber_rs::group::integer_field::integer::{ByteOrder, Int};
use kyber_rs::group::ScalarCanCheckCanonical;
use kyber_rs::Scalar;
use num_bigint_dig::{BigInt, BigUint, Sign};
use serde_json::{json, Value};
use std::fmt::{LowerHex, UpperHex};
use std::io::Read;

/// A stream with its own state, which is a reader as well.
#[derive(Clone)]
pub struct Keyed(pub u64);
impl Keyed {
    fn next(&mut self) -> u8 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        ((z ^ (z >> 31)) >> 24) as u8
    }
}
impl Stream for Keyed {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        for i in 0..src.len() {
            dst[i] = src[i] ^ self.next();
        }
        Ok(())
    }
}
impl Read for Keyed {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        for x in b.iter_mut() {
            *x = self.next();
        }
        Ok(b.len())
    }
}

/// What differs between the implementations.
pub trait Field: Scalar + LowerHex + UpperHex {
    const KIND: &'static str;
    const STRICT: bool;
    fn raw(&self) -> Value;
    fn add_ref(a: &Self, b: &Self, how: usize) -> Self;
    fn mul_ref(a: &Self, b: &Self, how: usize) -> Self;
}
fn raw_ed(v: &[u8; 32]) -> Value {
    json!({"v": dec_le(v), "neg": false, "m": order().to_string()})
}
macro_rules! ops {
    () => {
        fn add_ref(a: &Self, b: &Self, how: usize) -> Self {
            match how {
                0 => a.clone() + b.clone(),
                1 => a + b,
                2 => a.clone() + b,
                _ => a + b.clone(),
            }
        }
        fn mul_ref(a: &Self, b: &Self, how: usize) -> Self {
            match how {
                0 => a.clone() * b.clone(),
                1 => a * b,
                2 => a.clone() * b,
                _ => a * b.clone(),
            }
        }
    };
}
impl Field for EdScalar {
    const KIND: &'static str = "ed";
    const STRICT: bool = false;
    fn raw(&self) -> Value {
        raw_ed(&self.v)
    }
    ops!();
}
impl Field for SimpleCTScalar {
    const KIND: &'static str = "ed";
    const STRICT: bool = true;
    fn raw(&self) -> Value {
        raw_ed(&self.v)
    }
    ops!();
}
impl Field for FactoredScalar {
    const KIND: &'static str = "ed";
    const STRICT: bool = true;
    fn raw(&self) -> Value {
        raw_ed(&self.v)
    }
    ops!();
}
fn big(v: &Value) -> (bool, BigUint) {
    let neg = v[0].as_i64() == Some(-1);
    let limbs: Vec<u32> = v[1].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default();
    (neg, BigUint::from_slice(&limbs))
}
impl Field for Int {
    const KIND: &'static str = "int";
    const STRICT: bool = true;
    fn raw(&self) -> Value {
        let j = serde_json::to_value(self).unwrap();
        let (neg, v) = big(&j["v"]);
        let (_, m) = big(&j["m"]);
        json!({"v": v.to_string(), "neg": neg, "m": m.to_string()})
    }
    ops!();
}

struct World<'a, F: Field> {
    log: &'a mut Log,
    q: BigUint,
    fresh: F,
    foreign: F, // a receiver with another modulus
    r: Vec<F>,
    un: Vec<bool>, // not reduced
    size: usize,
}

impl<'a, F: Field> World<'a, F> {
    fn new(log: &'a mut Log, q: BigUint, fresh: F, size: usize, bo: &str) -> Self {
        log.begin(json!({"op": "init", "kind": F::KIND, "strict": F::STRICT, "q": q.to_string(), "size": size, "bo": bo}));
        World { log, q, r: vec![fresh.clone(); 8], un: vec![false; 8], foreign: fresh.clone(), fresh, size }
    }
    fn recv(&self, r: usize) -> F {
        if r == 0 {
            self.fresh.clone()
        } else if r == 9 {
            self.foreign.clone()
        } else {
            self.r[r - 1].clone()
        }
    }
    fn at(&self, k: usize) -> F {
        self.r[k - 1].clone()
    }
    fn ev(&mut self, e: Value) {
        set_current(e.to_string());
        self.log.ev(e);
    }
    fn take(&mut self, d: usize, out: Out<F>, ev: Value) -> bool {
        self.take_un(d, out, ev, false)
    }
    fn take_un(&mut self, d: usize, out: Out<F>, mut ev: Value, un: bool) -> bool {
        ev["d"] = d.into();
        let ev = put(&out, ev, |x| json!({"s": x.raw()}));
        self.ev(ev);
        match out.ok() {
            Some(x) => {
                self.r[d - 1] = x;
                self.un[d - 1] = un;
                true
            }
            None => false,
        }
    }
    fn int64(&mut self, d: usize, r: usize, v: i64) {
        let x = self.recv(r);
        let out = call_v(|| x.set_int64(v));
        self.take(d, out, json!({"op": "int64", "neg": v < 0, "abs": v.unsigned_abs().to_string()}));
    }
    fn konst(&mut self, d: usize, r: usize, one: bool) {
        let x = self.recv(r);
        let out = call_v(|| if one { x.one() } else { x.zero() });
        self.take(d, out, json!({"op": if one { "one" } else { "zero" }}));
    }
    fn set(&mut self, d: usize, r: usize, a: usize) {
        let (x, y) = (self.recv(r), self.at(a));
        let un = self.un[a - 1];
        let out = call_v(|| x.set(&y));
        self.take_un(d, out, json!({"op": "set", "a": a}), un);
    }
    fn bin(&mut self, op: &str, d: usize, r: usize, a: usize, b: usize, how: usize) {
        let (x, y, z) = (self.recv(r), self.at(a), self.at(b));
        let out = call_v(|| match op {
            "add" => F::add_ref(&y, &z, how),
            "mul" => F::mul_ref(&y, &z, how),
            "sub" => x.sub(&y, &z),
            _ => x.div(&y, &z),
        });
        self.take(d, out, json!({"op": op, "a": a, "b": b}));
    }
    fn un(&mut self, op: &str, d: usize, r: usize, a: usize) {
        let (x, y) = (self.recv(r), self.at(a));
        let out = call_v(|| if op == "neg" { x.neg(&y) } else { x.inv(&y) });
        self.take(d, out, json!({"op": op, "a": a}));
    }
    fn pick(&mut self, d: usize, r: usize, seed: u64, random_reader: bool) {
        let x = self.recv(r);
        let y = self.fresh.clone();
        let mut again = false;
        let out = call_v(|| {
            let a = if random_reader {
                let mut t = x;
                t.unmarshal_from_random(&mut Keyed(seed));
                t
            } else {
                x.pick(&mut Keyed(seed))
            };
            again = a.raw() == y.pick(&mut Keyed(seed)).raw();
            a
        });
        self.take(d, out, json!({"op": "pick", "again": again}));
    }
    fn setbytes(&mut self, d: usize, r: usize, data: &[u8]) {
        let x = self.recv(r);
        let out = call_v(|| x.set_bytes(data));
        self.take(d, out, json!({"op": "setbytes", "data": hex(data)}));
    }
    fn unmarshal(&mut self, d: usize, data: &[u8]) {
        let mut x = self.at(d);
        let out = call(|| x.unmarshal_binary(data));
        let good = out.is_ok();
        let mut ev = put(&out, json!({"op": "unmarshal", "d": d, "data": hex(data)}), |_| json!({}));
        ev["s"] = x.raw();
        self.ev(ev);
        self.r[d - 1] = x;
        if good {
            self.un[d - 1] = BigUint::from_bytes_le(data) >= self.q && F::KIND == "ed";
        }
    }
    fn read(&mut self, d: usize, r: usize, data: &[u8]) {
        let mut x = self.recv(r);
        let mut rd = data;
        let out = call(|| x.unmarshal_from(&mut rd).map(|_| x));
        let un = data.len() >= self.size && BigUint::from_bytes_le(&data[..self.size]) >= self.q && F::KIND == "ed";
        let left = rd.len();
        self.take_un(d, out, json!({"op": "read", "data": hex(data), "left": left}), un);
    }
    fn marshal(&mut self, a: usize) {
        if self.un[a - 1] && F::STRICT {
            return;
        }
        let x = self.at(a);
        let mut w = vec![];
        let mut ok = true;
        let out = call(|| {
            ok = x.marshal_to(&mut w).is_ok();
            x.marshal_binary()
        });
        let ev = put(&out, json!({"op": "marshal", "a": a, "written": hex(&w), "size": x.marshal_size(), "id": hex(&x.marshal_id())}), |v| {
            json!({"data": hex(v)})
        });
        let _ = ok;
        self.ev(ev);
    }
    fn wire(&mut self, d: usize, a: usize, how: usize) {
        let x = self.at(a);
        let mut y = self.at(d);
        let un = self.un[a - 1];
        let out = call(|| match how {
            0 => bincode::serialize(&x).map_err(|e| e.to_string()).and_then(|b| bincode::deserialize(&b).map_err(|e| e.to_string())),
            1 => serde_json::to_string(&x).map_err(|e| e.to_string()).and_then(|b| serde_json::from_str(&b).map_err(|e| e.to_string())),
            2 => encoding::marshal_binary(&x)
                .map_err(|e| e.to_string())
                .and_then(|b| encoding::unmarshal_binary(&mut y, &b).map_err(|e| e.to_string()))
                .map(|_| y),
            _ => Ok(x.clone()),
        });
        self.take_un(d, out, json!({"op": "wire", "a": a}), un);
    }
    fn hexes(&mut self, a: usize) {
        let x = self.at(a);
        let out = call_v(|| (format!("{x:x}"), format!("{x:X}"), format!("{x:#x}"), format!("{x:#X}"), format!("{x}")));
        let ev = put(&out, json!({"op": "hex", "a": a}), |(l, u, al, au, d)| {
            let case = l == &l.to_lowercase() && u == &u.to_uppercase() && al == &format!("0x{l}") && au == &format!("0X{u}");
            let d = d.rsplit("0x").next().unwrap_or("").trim_end_matches(')');
            json!({"lo": l, "up": u.to_lowercase(), "case": case, "disp": d})
        });
        self.ev(ev);
    }
    fn order(&mut self, idx: &[usize]) {
        let idx: Vec<usize> = idx.iter().copied().filter(|k| !self.un[k - 1]).collect();
        if idx.is_empty() {
            return;
        }
        let out = call_v(|| {
            let c: Vec<Vec<i32>> = idx.iter().map(|a| idx.iter().map(|b| self.r[a - 1].cmp(&self.r[b - 1]) as i32).collect()).collect();
            let e: Vec<Vec<bool>> = idx
                .iter()
                .map(|a| idx.iter().map(|b| self.r[a - 1] == self.r[b - 1] && !(self.r[a - 1] != self.r[b - 1])).collect())
                .collect();
            let same = idx
                .iter()
                .all(|a| idx.iter().all(|b| self.r[a - 1].partial_cmp(&self.r[b - 1]) == Some(self.r[a - 1].cmp(&self.r[b - 1]))));
            (c, e, same)
        });
        let ev = put(&out, json!({"op": "order", "i": idx}), |(c, e, _)| json!({"c": c, "e": e}));
        self.ev(ev);
    }
}
impl<'a> World<'a, EdScalar> {
    fn canonical(&mut self, data: &[u8]) {
        let out = call_v(|| EdScalar::default().is_canonical(data));
        let ev = put(&out, json!({"op": "canonical", "data": hex(data)}), |v| json!({"v": v}));
        self.ev(ev);
    }
    fn muladd(&mut self, d: usize, a: usize, b: usize, c: usize) {
        let (x, y, z) = (self.at(a), self.at(b), self.at(c));
        let out = call_v(|| {
            let mut v = [0xa5u8; 32];
            kyber_rs::group::edwards25519::scalar::sc_mul_add(&mut v, &x.v, &y.v, &z.v);
            EdScalar { v }
        });
        self.take(d, out, json!({"op": "muladd", "a": a, "b": b, "c": c}));
    }
}
impl<'a> World<'a, Int> {
    fn m(&self) -> BigInt {
        BigInt::from_biguint(Sign::Plus, self.q.clone())
    }
    fn newint(&mut self, d: usize, v: &BigUint, neg: bool, how: usize) {
        let s = if neg { Sign::Minus } else { Sign::Plus };
        let x = BigInt::from_biguint(s, v.clone());
        let m = self.m();
        let bo = self.fresh.bo;
        let mut done = true;
        let out = call_v(|| {
            let mut i = match how {
                0 => Int::new_int(x.clone(), m.clone()),
                _ => match i64::try_from(x.to_string().parse::<i128>().unwrap_or(i128::MAX)) {
                    Ok(k) => Int::new_int64(k, m.clone()),
                    _ => {
                        done = false;
                        Int::new_int64(0, m.clone())
                    }
                },
            };
            i.bo = bo;
            i
        });
        if done {
            self.take(d, out, json!({"op": "new", "neg": neg, "abs": v.to_string()}));
        }
    }
    fn newbytes(&mut self, d: usize, data: &[u8]) {
        let (m, bo) = (self.m(), self.fresh.bo);
        let out = call_v(|| Int::new_int_bytes(data, &m, bo));
        self.take(d, out, json!({"op": "setbytes", "data": hex(data)}));
    }
    fn uint64(&mut self, d: usize, r: usize, v: u64) {
        let x = self.recv(r);
        let out = call_v(|| x.set_uint64(v));
        self.take(d, out, json!({"op": "uint64", "abs": v.to_string()}));
    }
    fn exp(&mut self, d: usize, r: usize, a: usize, e: &BigUint, neg: bool) {
        let (x, y) = (self.recv(r), self.at(a));
        let e2 = BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, e.clone());
        let out = call_v(|| x.exp(&y, &e2));
        self.take(d, out, json!({"op": "exp", "a": a, "neg": neg && e2.sign() == Sign::Minus, "abs": e.to_string()}));
    }
    fn jacobi(&mut self, r: usize, a: usize) {
        let (x, y) = (self.recv(r), self.at(a));
        let out = call_v(|| x.jacobi(&y).raw());
        let ev = put(&out, json!({"op": "jacobi", "a": a}), |v| {
            let n: i64 = v["v"].as_str().unwrap().parse().unwrap_or(9);
            json!({"v": if v["neg"] == true { -n } else { n }})
        });
        self.ev(ev);
    }
    fn sqrt(&mut self, d: usize, r: usize, a: usize) {
        let (mut x, y) = (self.recv(r), self.at(a));
        let bo = self.fresh.bo;
        let out = call(|| {
            x.sqrt(&y).map(|_| {
                x.bo = bo;
                x
            })
        });
        self.take(d, out, json!({"op": "sqrt", "a": a}));
    }
    fn string(&mut self, d: usize, r: usize, n: &BigUint, neg: bool, den: Option<&BigUint>, base: u32, spoil: bool, how: usize) {
        let x = self.recv(r);
        let mut t = n.to_str_radix(base);
        if neg {
            t.insert(0, '-');
        }
        if spoil {
            t.push('~');
        }
        let dt = den.map(|v| v.to_str_radix(base)).unwrap_or_default();
        let (m, bo) = (self.m(), self.fresh.bo);
        let out = if how == 1 && !spoil {
            call_v(|| {
                let mut i = Int::new_int_string(t, dt, base as i32, &m);
                i.bo = bo;
                i
            })
        } else {
            match call(|| x.set_string(t, dt, base as i32)) {
                Out::Ok(v) => Out::Ok(v),
                Out::Err(e) => Out::Err(e),
                Out::Panic(e) => Out::Panic(e),
            }
        };
        self.take(
            d,
            out,
            json!({"op": "string", "valid": !spoil, "neg": neg, "abs": n.to_string(), "den": den.map(|v| v.to_string()).unwrap_or("1".into())}),
        );
    }
    fn sized(&mut self, op: &str, a: usize, min: usize, max: usize) {
        let x = self.at(a);
        let out = call(|| if op == "le" { x.little_endian(min, max) } else { x.big_endian(min, max) });
        let ev = put(&out, json!({"op": op, "a": a, "min": min, "max": max}), |v| json!({"data": hex(v)}));
        self.ev(ev);
    }
    fn native(&mut self, a: usize) {
        let x = self.at(a);
        let big = x.raw()["v"].as_str().unwrap().parse::<u128>().unwrap_or(u128::MAX);
        if big > u64::MAX as u128 {
            return;
        }
        let out = call_v(|| (x.uint64(), x.int64(), x.nonzero()));
        let ev = put(&out, json!({"op": "native", "a": a}), |(u, i, nz)| {
            json!({"u": if *i as u64 == *u { u.to_string() } else { "differs".into() }, "nz": nz})
        });
        self.ev(ev);
    }
}

/// Bytes at the edges of the representations.
pub fn edge_bytes(g: &mut Gen) -> Vec<u8> {
    let l = order();
    let one = BigUint::from(1u32);
    let v = match g.below(14) {
        0 => BigUint::from(g.below(4) as u32),
        1 => &l - BigUint::from(g.range(1, 3) as u32),
        2 => &l + BigUint::from(g.below(3) as u32),
        3 => (&l * BigUint::from(g.range(1, 15) as u32)) + BigUint::from(g.below(2) as u32),
        4 => (&one << g.below(256)) - BigUint::from(g.below(2) as u32),
        5 => (&one << 256usize) - BigUint::from(g.range(1, 3) as u32),
        6 => (&one << 255usize) - BigUint::from(g.range(1, 30) as u32),
        7 => (&l + &one) >> 1usize,
        8 => {
            // limbs of 21 bits, full or empty
            let mut v = BigUint::from(0u32);
            for k in 0..12 {
                if g.chance(1, 2) {
                    v += ((&one << 21usize) - &one) << (21 * k);
                }
            }
            v
        }
        9 => {
            let mut v = BigUint::from(0u32);
            for k in 0..12 {
                v += BigUint::from(if g.chance(1, 2) { 1u32 << 20 } else { (1u32 << 20) - 1 }) << (21 * k);
            }
            v
        }
        10 => BigUint::from_bytes_le(&vec![*g.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0x55, 0xaa]); 32]),
        11 => BigUint::from_bytes_le(&g.bytes(16)),
        12 => {
            // clamped
            let mut b = g.bytes(32);
            b[0] &= 248;
            b[31] = (b[31] & 63) | 64;
            BigUint::from_bytes_le(&b)
        }
        _ => BigUint::from_bytes_le(&g.bytes(32)),
    };
    le32(&v)
}
fn edge_i64(g: &mut Gen) -> i64 {
    match g.below(8) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 => i64::MAX,
        4 => i64::MIN,
        5 => g.below(70000) as i64,
        6 => -(g.below(70000) as i64),
        _ => g.u64() as i64,
    }
}

fn ring_step<F: Field>(w: &mut World<F>, g: &mut Gen, edge: &dyn Fn(&mut Gen) -> Vec<u8>, invertible: &dyn Fn(&F) -> bool) {
    let n = |g: &mut Gen| g.range(1, 8);
    let (d, r, a, b) = (n(g), if g.chance(1, 2) { 0 } else { n(g) }, n(g), n(g));
    // where the target takes over the modulus of the operand, it may have had another one
    let r9 = if g.chance(1, 4) { 9 } else { r };
    match g.below(22) {
        0 | 1 => w.bin("add", d, r, a, b, g.below(4)),
        2 | 3 => w.bin("sub", d, r9, a, b, 0),
        4..=6 => w.bin("mul", d, r, a, b, g.below(4)),
        7 => w.un("neg", d, r9, a),
        8 => {
            if invertible(&w.at(a)) {
                w.un("inv", d, r9, a)
            }
        }
        9 => {
            if invertible(&w.at(b)) {
                w.bin("div", d, r9, a, b, 0)
            }
        }
        10 => {
            let v = edge_i64(g);
            w.int64(d, r, v)
        }
        11 => w.konst(d, r, g.chance(1, 2)),
        12 => w.set(d, r9, a),
        13 => {
            let s = g.u64();
            w.pick(d, r, s, g.chance(1, 3))
        }
        14 => {
            let mut x = edge(g);
            if g.chance(1, 3) {
                let k = g.below(100);
                x = g.bytes(k);
            }
            w.setbytes(d, r, &x)
        }
        15 | 16 => {
            let mut x = edge(g);
            if g.chance(1, 8) {
                x.pop();
            } else if g.chance(1, 8) && !F::STRICT {
                x.push(0);
            }
            w.unmarshal(d, &x)
        }
        17 => {
            let mut x = edge(g);
            match g.below(5) {
                0 => x.extend_from_slice(&[1, 2, 3]),
                1 => {
                    x.pop();
                }
                _ => {}
            }
            if F::KIND == "int" || !F::STRICT {
                w.read(d, r, &x)
            }
        }
        18 => w.marshal(a),
        19 => w.wire(d, a, g.below(4)),
        20 => w.hexes(a),
        _ => {
            let k: Vec<usize> = (0..g.range(2, 5)).map(|_| g.range(1, 8)).collect();
            w.order(&k)
        }
    }
}
fn seed_regs<F: Field>(w: &mut World<F>, g: &mut Gen, edge: &dyn Fn(&mut Gen) -> Vec<u8>) {
    for d in 1..=8 {
        let x = edge(g);
        if g.chance(1, 2) {
            w.unmarshal(d, &x)
        } else {
            w.setbytes(d, 0, &x)
        }
    }
}

fn ed_world<F: Field>(fresh: F, g: &mut Gen, log: &mut Log, steps: usize, more: &mut dyn FnMut(&mut World<F>, &mut Gen)) {
    let mut w = World::new(log, order(), fresh, 32, "le");
    let l = order();
    let inv = |x: &F| x.raw()["v"].as_str().unwrap().parse::<BigUint>().unwrap() % &l != BigUint::from(0u32);
    seed_regs(&mut w, g, &edge_bytes);
    for _ in 0..steps {
        ring_step(&mut w, g, &edge_bytes, &inv);
        if g.chance(1, 6) {
            more(&mut w, g);
        }
    }
}

fn gcd(mut a: BigUint, mut b: BigUint) -> BigUint {
    while b != BigUint::from(0u32) {
        let t = a % &b;
        a = b;
        b = t;
    }
    a
}
fn primes() -> Vec<BigUint> {
    let mut v: Vec<BigUint> = [3u32, 5, 7, 11, 13, 17, 97, 193, 241, 257, 65521, 65537, 12289, 7340033].iter().map(|x| BigUint::from(*x)).collect();
    v.push(order());
    let one = BigUint::from(1u32);
    v.push((&one << 255usize) - BigUint::from(19u32));
    v.push((&one << 61usize) - &one);
    v.push((&one << 127usize) - &one);
    v.push("18446744069414584321".parse().unwrap()); // 2^64 - 2^32 + 1
    v.push("115792089210356248762697446949407573530086143415290314195533631308867097853951".parse().unwrap()); // P-256
    v
}
fn int_world(q: &BigUint, prime: bool, bo: ByteOrder, g: &mut Gen, log: &mut Log, steps: usize) {
    let mut fresh = Int::new_int64(0, BigInt::from_biguint(Sign::Plus, q.clone()));
    fresh.bo = bo;
    let size = (q.bits() + 7) / 8;
    let mut w = World::new(log, q.clone(), fresh, size, if bo == ByteOrder::LittleEndian { "le" } else { "be" });
    let other = q + BigUint::from(g.range(1, 1 << 20) as u32);
    w.foreign = Int::new_int64(5, BigInt::from_biguint(Sign::Plus, other));
    w.foreign.bo = bo;
    let inv = |x: &Int| gcd(x.raw()["v"].as_str().unwrap().parse::<BigUint>().unwrap(), q.clone()) == BigUint::from(1u32);
    let val = |g: &mut Gen| -> BigUint {
        match g.below(6) {
            0 => BigUint::from(g.below(3) as u32),
            1 => q - BigUint::from(1u32),
            2 => q.clone(),
            3 => q + BigUint::from(g.below(3) as u32),
            4 => (q * BigUint::from(g.below(5) as u32)) + BigUint::from(g.below(2) as u32),
            _ => BigUint::from_bytes_le(&g.bytes(size + 2)),
        }
    };
    let edge = |g: &mut Gen| -> Vec<u8> {
        let v = if g.chance(1, 2) { val(g) % q } else { val(g) };
        let mut b = v.to_bytes_le();
        b.resize(size, 0);
        if bo == ByteOrder::BigEndian {
            b.reverse();
        }
        b
    };
    let odd = q.to_bytes_le()[0] & 1 == 1;
    seed_regs(&mut w, g, &edge);
    for _ in 0..steps {
        ring_step(&mut w, g, &edge, &inv);
        let (d, r, a) = (g.range(1, 8), if g.chance(1, 2) { 0 } else { g.range(1, 8) }, g.range(1, 8));
        match g.below(24) {
            0 => {
                let v = val(g);
                w.newint(d, &v, g.chance(1, 2) && v != BigUint::from(0u32), g.below(2));
            }
            1 => {
                let k = g.below(2 * size + 2);
                let x = g.bytes(k);
                w.newbytes(d, &x)
            }
            2 => {
                let v = g.u64() >> g.below(64);
                w.uint64(d, r, v)
            }
            3 | 4 => {
                let e = match g.below(5) {
                    0 => BigUint::from(g.below(4) as u32),
                    1 => q.clone(),
                    2 => q - BigUint::from(1u32),
                    _ => BigUint::from_bytes_le(&g.bytes(size + 1)),
                };
                let neg = g.chance(1, 3) && inv(&w.at(a));
                w.exp(d, if g.chance(1, 4) { 9 } else { r }, a, &e, neg)
            }
            5 if odd => w.jacobi(r, a),
            6 | 7 if prime => w.sqrt(d, if g.chance(1, 4) { 9 } else { r }, a),
            8 | 9 => {
                let n = val(g);
                let den = if g.chance(1, 2) {
                    Some(val(g)).filter(|v| gcd(v % q, q.clone()) == BigUint::from(1u32))
                } else {
                    None
                };
                let base = *g.pick(&[2u32, 8, 10, 16, 36]);
                w.string(d, r, &n, g.chance(1, 4) && n != BigUint::from(0u32), den.as_ref(), base, g.chance(1, 6), g.below(2))
            }
            10 | 11 => {
                let op = *g.pick(&["le", "be"]);
                let min = g.below(size + 3);
                let max = if g.chance(1, 2) { 0 } else { g.below(size + 4) };
                w.sized(op, a, min, max)
            }
            12 => w.native(a),
            _ => {}
        }
    }
}
/// Every operation on every pair of a small ring.
fn int_all(q: u32, prime: bool, log: &mut Log) {
    let m = BigUint::from(q);
    let fresh = Int::new_int64(0, BigInt::from(q));
    let mut w = World::new(log, m.clone(), fresh, 1, "be");
    for x in 0..q {
        w.int64(1, 0, x as i64);
        for y in 0..q {
            w.int64(2, 0, y as i64 - q as i64);
            for op in ["add", "sub", "mul"] {
                w.bin(op, 3, 0, 1, 2, 1);
            }
            w.exp(3, 2, 1, &BigUint::from(y), false);
            if gcd(BigUint::from(y), m.clone()) == BigUint::from(1u32) {
                w.bin("div", 3, 1, 1, 2, 0);
            }
        }
        w.un("neg", 3, 0, 1);
        if gcd(BigUint::from(x), m.clone()) == BigUint::from(1u32) {
            w.un("inv", 3, 0, 1);
        }
        if q % 2 == 1 {
            w.jacobi(0, 1);
        }
        if prime {
            w.sqrt(3, 0, 1);
        }
    }
}

pub fn run_ed(seed: u64, thorough: bool, log: &mut Log) {
    let mut g = Gen::new(seed);
    let k = if thorough { 12 } else { 1 };
    let mut turn = 0;
    for _ in 0..24 * k {
        guard(log, |log| {
            ed_world(EdScalar::new(), &mut g, log, 120, &mut |w, g| {
                if g.chance(1, 6) {
                    // one byte away from the group order
                    let mut b = order().to_bytes_le();
                    let d = *g.pick(&[1u8, 255, 128]);
                    b[turn % 32] = b[turn % 32].wrapping_add(d);
                    turn += 1;
                    w.canonical(&b)
                } else if g.chance(1, 2) {
                    let mut b = edge_bytes(g);
                    if g.chance(1, 6) {
                        let i = g.below(b.len());
                        b[i] = b[i].wrapping_add(1);
                    }
                    if g.chance(1, 8) {
                        b.push(0);
                    }
                    w.canonical(&b)
                } else {
                    w.muladd(g.range(1, 8), g.range(1, 8), g.range(1, 8), g.range(1, 8))
                }
            })
        });
        guard(log, |log| ed_world(SimpleCTScalar::new(), &mut g, log, 60, &mut |_, _| {}));
        guard(log, |log| ed_world(FactoredScalar::new(), &mut g, log, 60, &mut |_, _| {}));
    }
}

pub fn run_int(seed: u64, thorough: bool, log: &mut Log) {
    let mut g = Gen::new(seed);
    let k = if thorough { 12 } else { 1 };
    for i in 0..2 * k {
        for p in primes() {
            let bo = if i % 2 == 0 { ByteOrder::BigEndian } else { ByteOrder::LittleEndian };
            guard(log, |log| int_world(&p, true, bo, &mut g, log, 70));
        }
        for _ in 0..6 {
            let n = g.range(1, 40);
            let mut b = g.bytes(n);
            b[n - 1] |= 1;
            let q = BigUint::from_bytes_le(&b) + BigUint::from(1u32);
            let bo = if g.chance(1, 2) { ByteOrder::BigEndian } else { ByteOrder::LittleEndian };
            guard(log, |log| int_world(&q, false, bo, &mut g, log, 60));
        }
    }
    for (q, p) in [(2, false), (3, true), (4, false), (5, true), (6, false), (7, true), (8, false), (9, false), (11, true), (13, true)] {
        guard(log, |log| int_all(q, p, log));
    }
    if thorough {
        for (q, p) in [(15, false), (16, false), (17, true), (19, true), (23, true), (29, true), (31, true)] {
            guard(log, |log| int_all(q, p, log));
        }
    }
}
