//! Points of Ed25519 (spec/Curve.tla).
use crate::core::*;
use crate::field::{edge_bytes, Keyed};
use crate::sig::{le32, order, TORSION};
use crate::vss::put;
use kyber_rs::encoding::{self, BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::edwards25519::{Curve, Point, Scalar};
use kyber_rs::group::PointCanCheckCanonicalAndSmallOrder;
use kyber_rs::{Group, Point as _};
use num_bigint_dig::{BigInt, BigUint, Sign};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn p25519() -> BigUint {
    (BigUint::from(1u32) << 255usize) - BigUint::from(19u32)
}
fn enc(p: &Point) -> String {
    hex(&p.marshal_binary().unwrap())
}
fn var_time(p: &Point) -> Option<Point> {
    let mut v = serde_json::to_value(p).ok()?;
    *v.get_mut("var_time")? = true.into();
    serde_json::from_value(v).ok()
}
fn scalar(b: &[u8]) -> Scalar {
    let mut s = Scalar::default();
    s.unmarshal_binary(b).unwrap();
    s
}

struct World<'a> {
    log: &'a mut Log,
    r: Vec<Point>,
}
impl<'a> World<'a> {
    fn new(log: &'a mut Log) -> Self {
        log.begin(json!({"op": "init"}));
        World { log, r: vec![Point::default().null(); 8] }
    }
    fn ev(&mut self, e: Value) {
        set_current(e.to_string());
        self.log.ev(e);
    }
    fn at(&self, k: usize) -> Point {
        self.r[k - 1]
    }
    /// The receiver of a call: a fresh point, a register, or one of variable time.
    fn recv(&self, r: usize) -> Point {
        match r {
            0 => Point::default(),
            9 => var_time(&self.r[0]).unwrap_or_default(),
            k => self.at(k),
        }
    }
    fn take(&mut self, d: usize, out: Out<Point>, mut ev: Value) {
        ev["d"] = d.into();
        let ev = put(&out, ev, |x| json!({"s": enc(x)}));
        self.ev(ev);
        if let Some(x) = out.ok() {
            self.r[d - 1] = x;
        }
    }
    fn op(&mut self, op: &str, d: usize, r: usize, a: usize, b: usize) {
        let (mut x, y, z) = (self.recv(r), self.at(a), self.at(b));
        let out = call_v(|| match op {
            "null" => x.null(),
            "base" => x.base(),
            "set" => {
                let q = x.set(&y);
                assert!(enc(&q) == enc(&x));
                q
            }
            "add" => x.add(&y, &z),
            "sub" => x.sub(&y, &z),
            _ => {
                let q = x.neg(&y);
                assert!(enc(&q) == enc(&x));
                q
            }
        });
        self.take(d, out, json!({"op": op, "a": a, "b": b}));
    }
    fn mul(&mut self, d: usize, r: usize, k: &[u8], a: usize) {
        let x = self.recv(r);
        let s = scalar(k);
        let p = if a == 0 { None } else { Some(self.at(a)) };
        let out = call_v(|| x.mul(&s, p.as_ref()));
        self.take(d, out, json!({"op": "mul", "k": hex(k), "a": a}));
    }
    fn dec(&mut self, d: usize, r: usize, data: &[u8], how: usize) -> bool {
        let mut x = self.recv(r);
        let before = self.log.cur.len();
        if how == 0 {
            let out = call(|| x.unmarshal_binary(data).map(|_| x));
            self.take(d, out, json!({"op": "dec", "data": hex(data)}));
        } else {
            let mut rd = data;
            let out = call(|| x.unmarshal_from(&mut rd).map(|_| x));
            let (left, rest) = (rd.len(), data.len().saturating_sub(32));
            let head = if data.len() >= 32 { &data[..32] } else { data };
            self.take(d, out, json!({"op": "read", "data": hex(head), "left": left, "rest": rest}));
        }
        self.log.cur[before]["out"] == "ok"
    }
    fn encode(&mut self, a: usize) {
        let x = self.at(a);
        let mut w = vec![];
        let out = call(|| x.marshal_to(&mut w).and_then(|_| x.marshal_binary()));
        let ev = put(&out, json!({"op": "enc", "a": a, "written": hex(&w), "size": x.marshal_size(), "id": hex(&x.marshal_id())}), |v| {
            json!({"data": hex(v)})
        });
        self.ev(ev);
    }
    fn hexes(&mut self, a: usize) {
        let x = self.at(a);
        let out = call_v(|| (format!("{x:x}"), format!("{x:X}"), format!("{x:#x}"), format!("{x:#X}"), format!("{x}")));
        let ev = put(&out, json!({"op": "hex", "a": a}), |(l, u, al, au, d)| {
            let case = l == &l.to_lowercase() && u == &u.to_uppercase() && al == &format!("0x{l}") && au == &format!("0X{u}");
            let d = d.rsplit("0x").next().unwrap_or("").trim_end_matches(')');
            json!({"lo": l, "up": u.to_lowercase(), "case": case, "disp": d})
        });
        self.ev(ev);
    }
    fn wire(&mut self, d: usize, a: usize, how: usize) {
        let x = self.at(a);
        let mut y = self.at(d);
        let out = call(|| match how {
            0 => bincode::serialize(&x).map_err(|e| e.to_string()).and_then(|b| bincode::deserialize(&b).map_err(|e| e.to_string())),
            1 => serde_json::to_string(&x).map_err(|e| e.to_string()).and_then(|b| serde_json::from_str(&b).map_err(|e| e.to_string())),
            2 => encoding::marshal_binary(&x)
                .map_err(|e| e.to_string())
                .and_then(|b| encoding::unmarshal_binary(&mut y, &b).map_err(|e| e.to_string()))
                .map(|_| y),
            _ => Ok(x.clone()),
        });
        self.take(d, out, json!({"op": "wire", "a": a}));
    }
    /// A representation off the wire: `f` changes the limbs.
    fn raw(&mut self, d: usize, a: usize, f: impl FnOnce(&mut Vec<Vec<i64>>)) {
        let Ok(mut v) = serde_json::to_value(self.at(a)) else { return };
        let mut limbs: Vec<Vec<i64>> = vec![];
        for k in ["x", "y", "z", "t"] {
            match v["ge"][k].as_array() {
                Some(l) if l.len() == 10 => limbs.push(l.iter().map(|x| x.as_i64().unwrap()).collect()),
                _ => return, // another representation
            }
        }
        f(&mut limbs);
        let p = BigInt::from_biguint(Sign::Plus, p25519());
        let mut ev = json!({"op": "raw"});
        for (k, l) in ["x", "y", "z", "t"].iter().zip(&limbs) {
            let mut s = BigInt::from(0);
            for (i, &c) in l.iter().enumerate() {
                s += BigInt::from(c) << ((51 * i + 1) / 2);
            }
            ev[*k] = (((s % &p) + &p) % &p).to_string().into();
            v["ge"][*k] = json!(l);
        }
        let out = call(|| serde_json::from_value::<Point>(v).map(|p| {
            // use it, it must not break anything
            let q = Point::default().add(&p, &p);
            let _ = Point::default().mul(&scalar(&le32(&(order() - BigUint::from(1u32)))), Some(&q));
            p
        }));
        if ["x", "y", "z", "t"].iter().all(|k| ev[*k] == "0") {
            ev["d"] = d.into();
            self.log.ev(put(&out, ev, |_| json!({})));
        } else {
            self.take(d, out, ev);
        }
    }
    fn order(&mut self, idx: &[usize]) {
        let out = call_v(|| {
            let c: Vec<Vec<i32>> = idx.iter().map(|a| idx.iter().map(|b| self.r[a - 1].cmp(&self.r[b - 1]) as i32).collect()).collect();
            let e: Vec<Vec<bool>> = idx
                .iter()
                .map(|a| idx.iter().map(|b| self.r[a - 1] == self.r[b - 1] && !(self.r[a - 1] != self.r[b - 1])).collect())
                .collect();
            let h: Vec<String> = idx
                .iter()
                .map(|a| {
                    let mut h = DefaultHasher::new();
                    self.r[a - 1].hash(&mut h);
                    h.finish().to_string()
                })
                .collect();
            (c, e, h)
        });
        let ev = put(&out, json!({"op": "order", "i": idx}), |(c, e, h)| json!({"c": c, "e": e, "h": h}));
        self.ev(ev);
    }
    fn small(&mut self, a: usize) {
        let x = self.at(a);
        let out = call_v(|| x.has_small_order());
        let ev = put(&out, json!({"op": "small", "a": a}), |v| json!({"v": v}));
        self.ev(ev);
    }
    fn canonical(&mut self, a: usize, data: &[u8]) {
        let x = self.at(a);
        let out = call_v(|| x.is_canonical(data));
        let ev = put(&out, json!({"op": "canonical", "data": hex(data)}), |v| json!({"v": v}));
        self.ev(ev);
    }
    fn pick(&mut self, d: usize, r: usize, seed: u64, reader: bool) {
        let x = self.recv(r);
        let mut more = (String::new(), String::new());
        let out = call_v(|| {
            let go = |x: Point, s: u64| {
                if reader {
                    let mut y = x;
                    y.unmarshal_from_random(&mut Keyed(s));
                    y
                } else {
                    x.pick(&mut Keyed(s))
                }
            };
            let p = go(x, seed);
            more = (enc(&go(Point::default(), seed)), enc(&go(x, seed ^ 0x5a5a)));
            p
        });
        self.take(d, out, json!({"op": "pick", "again": more.0, "other": more.1}));
    }
    fn embed(&mut self, d: usize, r: usize, data: &[u8], seed: u64) {
        let x = self.recv(r);
        let mut more = (String::new(), String::new());
        let out = call_v(|| {
            let go = |x: Point, s: u64| x.embed(Some(data), &mut Keyed(s));
            let p = go(x, seed);
            more = (enc(&go(Point::default(), seed)), enc(&go(x, seed ^ 0x5a5a)));
            p
        });
        self.take(d, out, json!({"op": "embed", "data": hex(data), "again": more.0, "other": more.1}));
    }
    fn data(&mut self, a: usize) {
        let x = self.at(a);
        let out = call(|| x.data());
        let ev = put(&out, json!({"op": "data", "a": a}), |v| json!({"v": hex(v)}));
        self.ev(ev);
    }
    fn meta(&mut self) {
        let c = Curve::default();
        self.ev(json!({"op": "meta", "pl": c.point_len(), "sl": c.scalar_len(), "el": c.point().embed_len()}));
    }
}

/// Encodings whose y is at an edge of some representation.
fn edge_point(g: &mut Gen) -> Vec<u8> {
    let p = p25519();
    let one = BigUint::from(1u32);
    let limb = |k: usize| (51 * k + 1) / 2;
    let v = match g.below(12) {
        11 => {
            // next to an element of small order
            let mut b = unhex(*g.pick(&TORSION));
            for _ in 0..g.range(1, 3) {
                b[g.below(32)] ^= *g.pick(&[1u8, 1, 0x80, 4]);
            }
            return b;
        }
        10 => {
            // one byte away from the field prime
            let mut b = le32(&(&p + BigUint::from(g.below(19) as u32)));
            b[g.below(32)] = *g.pick(&[0u8, 0x7f, 0xfe]);
            BigUint::from_bytes_le(&b)
        }
        0 => BigUint::from(g.below(40) as u32),
        1 => &p - BigUint::from(g.range(1, 40) as u32),
        2 => &p + BigUint::from(g.below(19) as u32),
        3 => (&one << g.below(255)) + BigUint::from(g.below(20) as u32),
        4 => (&one << g.range(6, 255)) - BigUint::from(g.below(20) as u32),
        5 => {
            let mut v = BigUint::from(g.below(8) as u32);
            for k in 0..10 {
                if g.chance(1, 2) {
                    v += (&one << limb(k + 1)) - (&one << limb(k));
                }
            }
            v
        }
        6 => {
            let mut v = BigUint::from(g.below(8) as u32);
            for k in 0..10 {
                v += &one << (limb(k + 1) - 1);
                if g.chance(1, 2) {
                    v -= &one << limb(k);
                }
            }
            v
        }
        7 => return unhex(*g.pick(&TORSION)),
        _ => BigUint::from_bytes_le(&g.bytes(32)),
    };
    let mut b = v.to_bytes_le();
    b.resize(32, 0);
    if g.chance(1, 3) {
        b[31] ^= 0x80;
    }
    b
}
/// Scalars at the edges of the recodings (all below 2^255).
fn edge_mul(g: &mut Gen) -> Vec<u8> {
    let mut b = match g.below(4) {
        0 => vec![*g.pick(&[0x88u8, 0x77, 0x99, 0x78, 0x87, 0xf8, 0x8f, 0x0f, 0xf0, 0x08, 0x80, 0xff, 0x7f]); 32],
        1 => (0..32).map(|_| *g.pick(&[0x88u8, 0x77, 0xff, 0, 0x80, 0x08, 0xf0, 0x0f])).collect(),
        2 => {
            let mut v = vec![0u8; 32];
            for _ in 0..g.range(1, 3) {
                let i = g.below(255);
                v[i / 8] |= 1 << (i % 8);
            }
            v
        }
        _ => edge_bytes(g),
    };
    b[31] &= 0x7f;
    b
}

fn step(w: &mut World, g: &mut Gen) {
    let (d, r, a, b) = (g.range(1, 8), *g.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9]), g.range(1, 8), g.range(1, 8));
    match g.below(24) {
        0..=2 => w.op("add", d, r, a, b),
        3..=5 => w.op("sub", d, r, a, b),
        6 => w.op("neg", d, r, a, b),
        7..=9 => {
            let k = edge_mul(g);
            let a = if g.chance(1, 3) { 0 } else { a };
            w.mul(d, r, &k, a)
        }
        10..=12 => {
            for _ in 0..4 {
                let mut e = edge_point(g);
                if g.chance(1, 30) {
                    e.pop();
                } else if g.chance(1, 30) {
                    e.push(0);
                }
                if w.dec(d, r, &e, g.below(2)) {
                    break;
                }
            }
        }
        13 => w.op(*g.pick(&["null", "base", "set"]), d, r, a, b),
        14 => w.encode(a),
        15 => w.hexes(a),
        16 => w.wire(d, a, g.below(4)),
        17 => {
            let mut idx: Vec<usize> = (1..=8).collect();
            g.shuffle(&mut idx);
            idx.truncate(5);
            w.order(&idx)
        }
        18 => w.small(a),
        19 => {
            let mut e = if g.chance(1, 4) { w.at(a).marshal_binary().unwrap() } else { edge_point(g) };
            if g.chance(1, 6) {
                let i = g.below(32);
                e[i] = e[i].wrapping_add(1);
            }
            if g.chance(1, 8) {
                e.truncate(g.below(32));
            }
            w.canonical(a, &e)
        }
        20 => match g.below(3) {
            0 => w.pick(d, r, g.u64(), g.chance(1, 2)),
            1 => {
                let n = *g.pick(&[0usize, 1, 2, 15, 28, 29, 30, 60]);
                let data = if g.chance(1, 4) { vec![*g.pick(&[0u8, 0xff]); n] } else { g.bytes(n) };
                w.embed(d, r, &data, g.u64());
                w.data(d)
            }
            _ => w.data(a),
        },
        21 => {
            // the same element by another way: a = (a + b) - b, with torsion now and then
            w.op("add", d, r, a, b);
            w.op("sub", d, 0, d, if d == b { a } else { b });
            w.order(&[d, a, b])
        }
        _ => {
            let (k, i, c) = (g.below(4), g.below(10), g.below(6));
            let big = *g.pick(&[i32::MAX as i64, i32::MIN as i64, 1 << 27, -(1 << 27), 1 << 30]);
            let o = g.below(4);
            w.raw(d, a, |l| match c {
                0 => {}
                1 => l[k][i] += 1,
                2 => l[k][i] = big,
                3 => l[k] = vec![0; 10],
                4 => l.swap(k, o),
                _ => {
                    *l = vec![vec![0; 10]; 4];
                    if k > 0 {
                        l[k][0] = 1;
                        l[o][0] = 1;
                    }
                }
            })
        }
    }
}

pub fn run(seed: u64, thorough: bool, log: &mut Log) {
    let mut g = Gen::new(seed);
    let k = if thorough { 12 } else { 1 };
    // every element of small order, every way
    guard(log, |log| {
        let mut w = World::new(log);
        w.meta();
        for t in TORSION {
            w.dec(1, 0, &unhex(t), 0);
            w.encode(1);
            w.small(1);
            w.canonical(2, &unhex(t));
            w.op("neg", 2, 0, 1, 1);
            w.op("add", 3, 1, 1, 1);
            w.small(3);
            for m in 0..9u32 {
                w.mul(4, 0, &le32(&BigUint::from(m)), 1);
                w.mul(4, 9, &le32(&BigUint::from(m)), 1);
            }
            w.op("base", 5, 0, 1, 1);
            w.op("add", 5, 0, 5, 1);
            w.small(5);
            w.mul(6, 0, &le32(&BigUint::from(8u32)), 5);
            w.mul(6, 9, &le32(&order()), 5);
            w.order(&[1, 2, 3, 4, 5, 6]);
            w.raw(7, 1, |_| ());
        }
        for k in 0..32 {
            // one byte away from the field prime, and its least non-canonical neighbours
            for low in [0xecu8, 0xed, 0xff] {
                let mut b = vec![0xffu8; 32];
                (b[0], b[31]) = (low, if k % 2 == 0 { 0x7f } else { 0xff });
                w.canonical(1, &b);
                b[k] ^= 1 << (k % 7);
                w.canonical(1, &b);
            }
            // next to the elements of small order
            for t in TORSION {
                let mut b = unhex(t);
                b[k] ^= if g.chance(2, 3) { 1 } else { 1 << g.below(8) };
                if w.dec(1, 0, &b, 0) {
                    w.small(1);
                }
            }
        }
    });
    // points whose first byte reads as a length of data too long, or just not
    guard(log, |log| {
        let mut w = World::new(log);
        for n in [0u8, 1, 15, 16, 27, 28, 29, 30, 31, 32, 33, 64, 127, 128, 255] {
            for _ in 0..12 {
                let mut b = g.bytes(32);
                b[0] = n;
                if w.dec(1, 0, &b, 0) {
                    w.data(1);
                    break;
                }
            }
        }
    });
    for _ in 0..30 * k {
        guard(log, |log| {
            let mut w = World::new(log);
            for d in 1..=8 {
                match g.below(3) {
                    0 => w.op("base", d, 0, 1, 1),
                    1 => {
                        let k = edge_mul(&mut g);
                        w.mul(d, 0, &k, 0)
                    }
                    _ => {
                        for _ in 0..8 {
                            let e = edge_point(&mut g);
                            if w.dec(d, 0, &e, 0) {
                                break;
                            }
                        }
                    }
                }
            }
            for _ in 0..70 {
                step(&mut w, &mut g);
            }
        });
    }
    // every bit of the multiplier, base and variable point, constant and variable time
    guard(log, |log| {
        let mut w = World::new(log);
        let s = g.bytes(32);
        let mut s = s;
        s[31] &= 0x0f;
        w.mul(1, 0, &s, 0);
        for i in (0..255).step_by(if thorough { 1 } else { 3 }) {
            let mut b = vec![0u8; 32];
            b[i / 8] |= 1 << (i % 8);
            w.mul(2, 0, &b, 0);
            w.mul(3, 0, &b, 1);
            w.mul(4, 9, &b, 1);
            b[i / 8] |= ((0xffu32 << (i % 8)) & 0xff) as u8;
            for x in b.iter_mut().skip(i / 8 + 1) {
                *x = 0xff;
            }
            b[31] &= 0x7f;
            w.mul(5, 0, &b, 0);
            w.mul(6, 0, &b, 1);
            w.mul(7, 9, &b, 1);
        }
    });
}
