//! EdDSA and Schnorr signatures (spec/Sig.tla).
use crate::core::*;
use crate::toy::*;
use crate::vss::put;
use crate::vsskind::*;
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::edwards25519::{Curve, Point as EdPoint, Scalar as EdScalar, SuiteEd25519};
use kyber_rs::sign::{eddsa, schnorr};
use kyber_rs::util::key::Pair;
use kyber_rs::{Group, Point, Scalar};
use num_bigint_dig::BigUint;
use serde_json::{json, Value};
use sha2::{Digest, Sha512};

pub struct Const(pub Vec<u8>);
impl Stream for Const {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        for i in 0..src.len() {
            dst[i] = src[i] ^ self.0[i % self.0.len()];
        }
        Ok(())
    }
}

type Key = eddsa::EdDSA<Curve>;
struct World<'a> {
    log: &'a mut Log,
    ks: Vec<Key>,
}
fn kj(k: &Key) -> Value {
    json!({"seed": hex(&k.seed), "prefix": hex(&k.prefix), "sec": hex(&k.secret.v), "pub": hex(&k.public.marshal_binary().unwrap())})
}
pub fn order() -> BigUint {
    SuiteEd25519::order().parse().unwrap()
}
pub fn le32(x: &BigUint) -> Vec<u8> {
    let mut v = x.to_bytes_le();
    v.resize(32, 0);
    v
}
/// The points of small order, in every encoding.
pub const TORSION: [&str; 14] = [
    "0100000000000000000000000000000000000000000000000000000000000000",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0000000000000000000000000000000000000000000000000000000000000080",
    "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
    "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
    "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
    "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
    "0100000000000000000000000000000000000000000000000000000000000080",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
];

impl<'a> World<'a> {
    fn ev(&mut self, e: Value) {
        set_current(e.to_string());
        self.log.ev(e);
    }
    fn took(&mut self, out: Out<Key>, ev: Value) {
        let ev = put(&out, ev, |k| json!({"k": kj(k)}));
        self.ev(ev);
        if let Some(k) = out.ok() {
            self.ks.push(k);
        }
    }
    fn new_key(&mut self, seed: Vec<u8>) {
        let out = call(|| eddsa::EdDSA::new(&mut Const(seed.clone())));
        self.took(out, json!({"op": "new", "seed": hex(&seed)}));
    }
    fn unmarshal(&mut self, data: Vec<u8>) {
        let out = call(|| {
            let mut k = Key::default();
            k.unmarshal_binary(&data).map(|_| k)
        });
        self.took(out, json!({"op": "unmarshal", "data": hex(&data)}));
    }
    fn from_pair(&mut self, g: &mut Gen) {
        let c = Curve::default();
        let x = if g.chance(1, 2) {
            c.scalar().pick(&mut SeededStream)
        } else {
            c.new_key_and_seed_with_input(&g.bytes(32)).0
        };
        let pair = Pair::<EdPoint> { private: x, public: c.point().mul(&x, None) };
        let out = call_v(|| Key::from(pair));
        self.took(out, json!({"op": "frompair", "x": dec_le(&x.v)}));
    }
    fn equal(&mut self) {
        for a in 0..self.ks.len() {
            for b in 0..self.ks.len() {
                let out = call_v(|| self.ks[a] == self.ks[b]);
                let ev = put(&out, json!({"op": "equal", "a": a + 1, "b": b + 1}), |e| json!({"eq": e}));
                self.ev(ev);
            }
        }
    }
    fn marshal(&mut self, m: usize) -> Option<Vec<u8>> {
        stored(self.log, "signing key", 6, &mut self.ks[m], |_, _| true);
        let out = call(|| self.ks[m].marshal_binary());
        let ev = put(&out, json!({"op": "marshal", "m": m + 1}), |d| json!({"data": hex(d)}));
        self.ev(ev);
        out.ok()
    }
    fn sign(&mut self, m: usize, msg: &[u8]) -> Option<Vec<u8>> {
        stored(self.log, "signing key", 6, &mut self.ks[m], |_, _| true);
        let k = &self.ks[m];
        let mut sec = vec![k.seed.clone(), k.prefix.clone(), k.secret.marshal_binary().unwrap(), k.secret.v.to_vec()];
        sec.retain(|x| x.iter().filter(|v| **v != 0).count() > 12);
        shown(self.log, "signing key", 4, || vec![format!("{k:?}"), format!("{k:#?}")], &sec);
        let out = call(|| self.ks[m].sign(msg));
        let ev = put(&out, json!({"op": "sign", "m": m + 1, "msg": hex(msg)}), |s| json!({"sig": hex(s)}));
        self.ev(ev);
        out.ok().map(|s| s.to_vec())
    }
    fn verify_raw(&mut self, pk: &[u8], msg: &[u8], sig: &[u8]) {
        let out = call(|| eddsa::verify_with_checks(pk, msg, sig));
        let ev = put(&out, json!({"op": "verify", "pk": hex(pk), "msg": hex(msg), "sig": hex(sig)}), |_| json!({}));
        self.ev(ev);
    }
    fn verify_pt(&mut self, pk: &EdPoint, msg: &[u8], sig: &[u8]) {
        let out = call(|| eddsa::verify(pk, msg, sig));
        let ev = put(&out, json!({"op": "verify", "pk": SuiteEd25519::ptok(pk), "msg": hex(msg), "sig": hex(sig)}), |_| json!({}));
        self.ev(ev);
    }
    fn sverify<S: KvSuite>(&mut self, s: S, pk: &Pt<S>, msg: &[u8], sig: &[u8]) {
        let out = call(|| schnorr::verify(s, pk, msg, sig));
        let ev = put(&out, json!({"op": "sverify", "pk": S::ptok(pk), "msg": hex(msg), "sig": hex(sig)}), |_| json!({}));
        self.ev(ev);
    }
    fn ssign<S: KvSuite>(&mut self, s: S, x: &Sc<S>, msg: &[u8]) -> Option<Vec<u8>> {
        let out = call(|| schnorr::sign(&s, x, msg));
        let ev = put(&out, json!({"op": "ssign", "x": S::stok(x), "msg": hex(msg)}), |s| json!({"sig": hex(s)}));
        self.ev(ev);
        out.ok()
    }
}

/// Variants of a signature: (public key bytes, message, signature).
fn variants(g: &mut Gen, pk: &[u8], msg: &[u8], sig: &[u8], others: &[Vec<u8>], q: &BigUint, plen: usize) -> Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> {
    let mut v = vec![(pk.to_vec(), msg.to_vec(), sig.to_vec())];
    let s = BigUint::from_bytes_le(&sig[plen..]);
    for k in [1u32, 2, 3, 7, 8, 15] {
        let mut x = (&s + q * BigUint::from(k)).to_bytes_le();
        if x.len() <= plen {
            x.resize(plen, 0);
            v.push((pk.to_vec(), msg.to_vec(), [&sig[..plen], &x].concat()));
        }
    }
    for _ in 0..4 {
        let mut y = sig.to_vec();
        let b = g.below(y.len() * 8);
        y[b / 8] ^= 1 << (b % 8);
        v.push((pk.to_vec(), msg.to_vec(), y));
    }
    let mut y = sig.to_vec();
    let last = y.len() - 1;
    y[last] |= 0x80 >> g.below(4);
    v.push((pk.to_vec(), msg.to_vec(), y));
    let mut y = sig.to_vec();
    y.truncate(g.below(sig.len()));
    v.push((pk.to_vec(), msg.to_vec(), y));
    let l = g.range(1, 40);
    v.push((pk.to_vec(), msg.to_vec(), [sig, &g.bytes(l)].concat()));
    v.push((pk.to_vec(), msg.to_vec(), [&sig[plen..], &sig[..plen]].concat()));
    let mut m2 = msg.to_vec();
    if m2.is_empty() || g.chance(1, 2) {
        m2.push(0);
    } else {
        let k = g.below(m2.len());
        m2[k] ^= 1 << g.below(8);
    }
    v.push((pk.to_vec(), m2, sig.to_vec()));
    if !msg.is_empty() {
        v.push((pk.to_vec(), msg[..msg.len() - 1].to_vec(), sig.to_vec()));
    }
    if let Some(o) = others.last() {
        v.push((pk.to_vec(), msg.to_vec(), [&o[..plen], &sig[plen..]].concat()));
        v.push((pk.to_vec(), msg.to_vec(), [&sig[..plen], &o[plen..]].concat()));
        v.push((pk.to_vec(), msg.to_vec(), o.clone()));
    }
    // s one below and at the order
    let one = BigUint::from(1u32);
    for x in [q - &one, q.clone(), q + &one, BigUint::from(0u32)] {
        let mut b = x.to_bytes_le();
        b.resize(plen, 0);
        v.push((pk.to_vec(), msg.to_vec(), [&sig[..plen], &b].concat()));
    }
    v
}

fn challenge(r: &[u8], a: &[u8], msg: &[u8]) -> EdScalar {
    let mut h = Sha512::new();
    h.update(r);
    h.update(a);
    h.update(msg);
    Curve::default().scalar().set_bytes(&h.finalize())
}
fn dec_pt(h: &str) -> Option<EdPoint> {
    let mut p = EdPoint::default();
    p.unmarshal_binary(&unhex(h)).ok().map(|_| p)
}

/// Equations that hold although nobody signed, with elements of small or mixed order.
fn crafted(w: &mut World, g: &mut Gen, thorough: bool) {
    let c = Curve::default();
    for (k, h) in TORSION.iter().enumerate() {
        let Some(t) = dec_pt(h) else { continue };
        let x = c.scalar().pick(&mut SeededStream);
        let a = c.point().mul(&x, None);
        // R of small order, s = h x: the equation holds iff R is the identity
        let msg = g.bytes(5);
        let ab = a.marshal_binary().unwrap();
        let hh = challenge(&unhex(h), &ab, &msg);
        let s = (hh * x).marshal_binary().unwrap();
        let sig = [unhex(h), s].concat();
        w.verify_raw(&ab, &msg, &sig);
        w.sverify(SuiteEd25519::make(), &a, &msg, &sig);
        // A of small order: s = r, any message with h A = 0
        let r = c.scalar().pick(&mut SeededStream);
        let rp = c.point().mul(&r, None).marshal_binary().unwrap();
        let sig = [rp.clone(), r.marshal_binary().unwrap()].concat();
        let tries = if thorough { 16 } else { 4 };
        for _ in 0..tries {
            let msg = g.bytes(6);
            w.verify_raw(&unhex(h), &msg, &sig);
            w.sverify(SuiteEd25519::make(), &t, &msg, &sig);
            // A of mixed order: the equation holds when h is a multiple of the order of the torsion part
            let mixed = c.point().add(&a, &t);
            let mb = mixed.marshal_binary().unwrap();
            let hh = challenge(&rp, &mb, &msg);
            let s = (r + hh * x).marshal_binary().unwrap();
            let sig = [rp.clone(), s].concat();
            w.verify_raw(&mb, &msg, &sig);
            w.verify_pt(&mixed, &msg, &sig);
            w.sverify(SuiteEd25519::make(), &mixed, &msg, &sig);
            // R of mixed order
            let rm = c.point().add(&c.point().mul(&r, None), &t).marshal_binary().unwrap();
            let hh = challenge(&rm, &ab, &msg);
            let sig = [rm, (r + hh * x).marshal_binary().unwrap()].concat();
            w.verify_raw(&ab, &msg, &sig);
        }
        if k < 2 {
            // not the encoding of a point at all
            w.verify_raw(&unhex(&format!("02{}", "00".repeat(31))), &msg, &sig);
        }
    }
}

fn eddsa_world(g: &mut Gen, log: &mut Log, thorough: bool) {
    log.begin(json!({"grp": "ed", "q": SuiteEd25519::order()}));
    let mut w = World { log, ks: vec![] };
    let s = g.bytes(32);
    w.new_key(s);
    match g.below(4) {
        0 => w.new_key(vec![0; 32]),
        1 => w.new_key(vec![255; 32]),
        _ => {
            let b = g.bytes(64);
            w.unmarshal(b);
        }
    }
    w.from_pair(g);
    w.from_pair(g);
    for l in [0, 31, 32, 63, 65, 96, 128] {
        let b = g.bytes(l);
        w.unmarshal(b);
    }
    if let Some(b) = w.marshal(0) {
        w.unmarshal(b);
    }
    w.equal();
    let n = w.ks.len();
    let mut sigs: Vec<Vec<u8>> = vec![];
    for m in 0..n {
        w.marshal(m);
        let len = g.length(&[0usize, 1, 5, 31, 32, 63, 64, 65, 127, 128, 129, 300, 1023]);
        let msg = g.bytes(len);
        let Some(sig) = w.sign(m, &msg) else { continue };
        w.sign(m, &msg);
        let pk = w.ks[m].public;
        let pkb = pk.marshal_binary().unwrap();
        w.verify_pt(&pk, &msg, &sig);
        w.sverify(SuiteEd25519::make(), &pk, &msg, &sig);
        let vs = variants(g, &pkb, &msg, &sig, &sigs, &order(), 32);
        for (a, b, c) in &vs {
            w.verify_raw(a, b, c);
            if g.chance(1, 4) {
                w.sverify(SuiteEd25519::make(), &pk, b, c);
            }
        }
        // other keys, and things that are not keys
        let o = w.ks[(m + 1) % n].public;
        w.verify_pt(&o, &msg, &sig);
        let mut b = pkb.clone();
        b[31] ^= 0x80;
        w.verify_raw(&b, &msg, &sig);
        let k = g.below(256);
        let mut b = pkb.clone();
        b[k / 8] ^= 1 << (k % 8);
        w.verify_raw(&b, &msg, &sig);
        for l in [0usize, 31, 33, 64] {
            let mut b = pkb.clone();
            b.resize(l, 0);
            w.verify_raw(&b, &msg, &sig);
        }
        // a Schnorr signature of the same key verifies as EdDSA
        let sec = w.ks[m].secret;
        if let Some(z) = w.ssign(SuiteEd25519::make(), &sec, &msg) {
            w.verify_raw(&pkb, &msg, &z);
            w.sverify(SuiteEd25519::make(), &pk, &msg, &z);
            sigs.push(z);
        }
        sigs.push(sig);
    }
    if g.chance(1, 3) || thorough {
        crafted(&mut w, g, thorough);
    }
}

/// Every single-bit change of a signature, a key and a message.
fn all_flips(g: &mut Gen, log: &mut Log, step: usize) {
    log.begin(json!({"grp": "ed", "q": SuiteEd25519::order()}));
    let mut w = World { log, ks: vec![] };
    let s = g.bytes(32);
    w.new_key(s);
    let msg = b"attack at dawn".to_vec();
    let Some(sig) = w.sign(0, &msg) else { return };
    let pkb = w.ks[0].public.marshal_binary().unwrap();
    let from = g.below(step);
    for b in (from..(64 + 32 + msg.len()) * 8).step_by(step) {
        let (mut p, mut m, mut z) = (pkb.clone(), msg.clone(), sig.clone());
        let x = 1u8 << (b % 8);
        match b / 8 {
            k if k < 64 => z[k] ^= x,
            k if k < 96 => p[k - 64] ^= x,
            k => m[k - 96] ^= x,
        }
        w.verify_raw(&p, &m, &z);
    }
}

fn schnorr_world<S: KvSuite>(s: S, g: &mut Gen, log: &mut Log) {
    log.begin(json!({"grp": S::grp(), "q": S::order()}));
    let mut w = World { log, ks: vec![] };
    let plen = s.point_len();
    let q: BigUint = S::order().parse().unwrap();
    let mut sigs: Vec<Vec<u8>> = vec![];
    for _ in 0..3 {
        let x = match g.below(12) {
            0 => s.scalar().one(),
            1 => s.scalar().set_int64(-1),
            2 => s.scalar().zero(),
            _ => s.scalar().pick(&mut SeededStream),
        };
        let a = s.point().mul(&x, None);
        let l = g.length(&[0usize, 1, 10, 63, 64, 65, 200]);
        let msg = g.bytes(l);
        if x == s.scalar().zero() {
            // the public key of zero is the identity, which verification refuses
            let y = s.scalar().pick(&mut SeededStream);
            if let Some(sig) = w.ssign(s, &y, &msg) {
                w.sverify(s, &a, &msg, &sig);
            }
            continue;
        }
        let Some(sig) = w.ssign(s, &x, &msg) else { continue };
        if let Some(sig2) = w.ssign(s, &x, &msg) {
            sigs.push(sig2);
        }
        for (_, b, c) in variants(g, &[], &msg, &sig, &sigs, &q, plen) {
            w.sverify(s, &a, &b, &c);
        }
        let neg = s.point().neg(&a);
        for o in [s.point().base(), s.point().null(), s.point().pick(&mut SeededStream), neg, s.point().add(&a, &s.point().base())] {
            w.sverify(s, &o, &msg, &sig);
        }
        // no R at all
        let mut z = sig.clone();
        z[..plen].copy_from_slice(&s.point().null().marshal_binary().unwrap());
        w.sverify(s, &a, &msg, &z);
        sigs.push(sig);
    }
}

pub fn run(seed: u64, thorough: bool, log: &mut Log) {
    seed_rng(seed);
    let mut g = Gen::new(seed);
    let k = if thorough { 10 } else { 1 };
    for _ in 0..8 * k {
        guard(log, |log| eddsa_world(&mut g, log, thorough));
    }
    guard(log, |log| all_flips(&mut g, log, if thorough { 1 } else { 9 }));
    for _ in 0..20 * k {
        guard(log, |log| schnorr_world(SuiteEd25519::make(), &mut g, log));
    }
    for _ in 0..60 * k {
        guard(log, |log| schnorr_world(Toy::<P61> {}, &mut g, log));
    }
}
