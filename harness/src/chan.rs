//! Encryption: HKDF, AES-GCM, channels, ECIES (spec/Channel.tla).
use crate::core::*;
use crate::sig::TORSION;
use crate::toy::*;
use crate::vss::put;
use crate::vsskind::{Pt, Sc};
use kyber_rs::dh::{Dh, AEAD};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::encrypt::ecies;
use kyber_rs::group::edwards25519::{Curve, SuiteEd25519};
use kyber_rs::{Group, Point, Scalar};
use serde_json::{json, Value};

pub struct Dh512;
impl Dh for Dh512 {
    type H = sha2::Sha512;
}

struct World<'a, S: KvSuite, H: Dh> {
    log: &'a mut Log,
    s: S,
    h: std::marker::PhantomData<H>,
}
fn arr(b: &[u8]) -> [u8; 12] {
    let mut n = [0u8; 12];
    n.copy_from_slice(&b[..12]);
    n
}
/// Changes a byte string somewhere: flipped bit, shorter, longer, pieces exchanged.
pub fn spoil(g: &mut Gen, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match g.below(6) {
        0 | 1 | 2 if !v.is_empty() => {
            let i = if g.chance(1, 2) { g.below(v.len()) } else { v.len() - 1 - g.below(v.len().min(16)) };
            v[i] ^= 1 << g.below(8);
        }
        3 => {
            v.truncate(g.below(v.len() + 1));
        }
        4 => v.push(g.below(256) as u8),
        _ => {
            let n = v.len();
            if n > 16 {
                v.remove(g.below(n));
            } else {
                v = g.bytes(n);
            }
        }
    }
    v
}
fn message(g: &mut Gen) -> Vec<u8> {
    let n = g.length(&[0usize, 1, 15, 16, 17, 31, 32, 64, 100, 255]);
    if g.chance(1, 5) {
        vec![0; n]
    } else {
        g.bytes(n)
    }
}

impl<'a, S: KvSuite, H: Dh> World<'a, S, H> {
    fn new(log: &'a mut Log, hash: &str) -> Self {
        log.begin(json!({"grp": S::grp(), "q": S::order(), "hash": hash}));
        World { log, s: S::make(), h: std::marker::PhantomData }
    }
    fn ev(&mut self, e: Value) {
        set_current(e.to_string());
        self.log.ev(e);
    }
    fn scalar(&self, g: &mut Gen) -> Sc<S> {
        let x = self.s.scalar();
        match g.below(8) {
            0 => x.one(),
            1 => x.neg(&self.s.scalar().one()),
            2 => x.set_int64(g.below(9) as i64),
            _ => x.pick(&mut SeededStream),
        }
    }
    /// Elements, with those of small order among them.
    fn element(&self, g: &mut Gen) -> Pt<S> {
        let mut p = self.s.point();
        if S::grp() == "ed" && g.chance(1, 6) && p.unmarshal_binary(&unhex(*g.pick(&TORSION))).is_ok() {
            return p;
        }
        self.s.point().mul(&self.scalar(g), None)
    }
    fn exchange(&mut self, g: &mut Gen) {
        let (a, b) = (self.scalar(g), self.scalar(g));
        let s = self.s;
        let out = call_v(|| {
            let (pa, pb) = (s.point().mul(&a, None), s.point().mul(&b, None));
            (S::dh_exchange(s, a, pb), S::dh_exchange(s, b, pa))
        });
        let ev = put(&out, json!({"op": "exchange", "a": S::stok(&a), "b": S::stok(&b)}), |(x, y)| json!({"one": S::ptok(x), "two": S::ptok(y)}));
        self.ev(ev);
    }
    fn hkdf(&mut self, ikm: &[u8], info: &[u8], n: Option<usize>) {
        let out = call(|| H::hkdf(ikm, info, n));
        let nn = n.map(|x| x as i64).unwrap_or(-1);
        let ev = put(&out, json!({"op": "hkdf", "ikm": hex(ikm), "info": hex(info), "n": nn}), |v| json!({"v": hex(v)}));
        self.ev(ev);
    }
    fn aes(&mut self, key: &[u8], nonce: &[u8; 12], msg: &[u8], aad: Option<&[u8]>) -> Option<Vec<u8>> {
        let out = call(|| H::aes_encrypt(key, nonce, msg, aad));
        let e = json!({"op": "aesenc", "key": hex(key), "nonce": hex(nonce), "msg": hex(msg), "aad": hex(aad.unwrap_or(&[]))});
        let ev = put(&out, e, |v| json!({"v": hex(v)}));
        self.ev(ev);
        out.ok()
    }
    fn unaes(&mut self, key: &[u8], nonce: &[u8; 12], ct: &[u8], aad: Option<&[u8]>) {
        let out = call(|| H::aes_decrypt(key, nonce, ct, aad));
        let e = json!({"op": "aesdec", "key": hex(key), "nonce": hex(nonce), "ct": hex(ct), "aad": hex(aad.unwrap_or(&[]))});
        let ev = put(&out, e, |v| json!({"msg": hex(v)}));
        self.ev(ev);
    }
    fn dhenc(&mut self, pre: &Pt<S>, info: &[u8], nonce: &[u8; 12], msg: &[u8]) -> Option<Vec<u8>> {
        let out = call(|| H::encrypt(pre, info, nonce, msg));
        let e = json!({"op": "dhenc", "pre": S::ptok(pre), "info": hex(info), "nonce": hex(nonce), "msg": hex(msg)});
        let ev = put(&out, e, |v| json!({"v": hex(v)}));
        self.ev(ev);
        out.ok()
    }
    fn dhdec(&mut self, pre: &Pt<S>, info: &[u8], nonce: &[u8; 12], ct: &[u8]) {
        let out = call(|| H::decrypt(pre, info, nonce, ct));
        let e = json!({"op": "dhdec", "pre": S::ptok(pre), "info": hex(info), "nonce": hex(nonce), "ct": hex(ct)});
        let ev = put(&out, e, |v| json!({"msg": hex(v)}));
        self.ev(ev);
    }
    fn seal(&mut self, pre: &Pt<S>, ctx: &[u8], nonce: &[u8; 12], msg: &[u8], aad: Option<&[u8]>, dst: i64) -> Option<Vec<u8>> {
        let mut d = vec![0xeeu8; dst.max(0) as usize];
        let out = call(|| AEAD::<H>::new(*pre, ctx).and_then(|a| a.seal(if dst < 0 { None } else { Some(&mut d) }, nonce, msg, aad)));
        let e = json!({"op": "seal", "pre": S::ptok(pre), "ctx": hex(ctx), "nonce": hex(nonce), "msg": hex(msg), "aad": hex(aad.unwrap_or(&[])),
            "dst": dst, "d": hex(&d)});
        let ev = put(&out, e, |v| json!({"v": hex(v)}));
        self.ev(ev);
        out.ok()
    }
    fn open(&mut self, pre: &Pt<S>, ctx: &[u8], nonce: &[u8; 12], ct: &[u8], aad: Option<&[u8]>, dst: i64) {
        let mut d = vec![0xeeu8; dst.max(0) as usize];
        let out = call(|| AEAD::<H>::new(*pre, ctx).and_then(|a| a.open(if dst < 0 { None } else { Some(&mut d) }, nonce, ct, aad)));
        let e = json!({"op": "open", "pre": S::ptok(pre), "ctx": hex(ctx), "nonce": hex(nonce), "ct": hex(ct), "aad": hex(aad.unwrap_or(&[])),
            "dst": dst, "d": hex(&d)});
        let ev = put(&out, e, |v| json!({"v": hex(v)}));
        self.ev(ev);
    }
    fn primitives(&mut self, g: &mut Gen) {
        self.exchange(g);
        let n = *g.pick(&[None, Some(0), Some(1), Some(31), Some(32), Some(33), Some(44), Some(64), Some(65), Some(200)]);
        let (a, b) = (*g.pick(&[0usize, 1, 32, 64, 65, 130]), *g.pick(&[0usize, 1, 44, 128]));
        let (ikm, info) = (g.bytes(a), g.bytes(b));
        self.hkdf(&ikm, &info, n);

        let nonce = arr(&if g.chance(1, 4) { vec![0; 12] } else { g.bytes(12) });
        let kl = if g.chance(1, 6) { *g.pick(&[0usize, 16, 24, 31, 33, 64]) } else { 32 };
        let key = g.bytes(kl);
        let msg = message(g);
        let na = if g.chance(1, 20) { g.range(100, 3000) } else { g.below(40) };
        let aad = if g.chance(1, 3) { None } else { Some(g.bytes(na)) };
        if let Some(c) = self.aes(&key, &nonce, &msg, aad.as_deref()) {
            let (mut k, mut n, mut c2, mut a2) = (key.clone(), nonce, c.clone(), aad.clone());
            match g.below(6) {
                0 => (),
                1 => k = spoil(g, &k),
                2 => n[g.below(12)] ^= 1 << g.below(8),
                3 => a2 = Some(spoil(g, a2.as_deref().unwrap_or(&[]))),
                4 => a2 = None,
                _ => c2 = spoil(g, &c2),
            }
            self.unaes(&k, &n, &c2, a2.as_deref());
            self.unaes(&key, &nonce, &c, aad.as_deref());
        }
        let pre = self.element(g);
        let msg = message(g);
        if let Some(c) = self.dhenc(&pre, &info, &nonce, &msg) {
            let (mut p, mut i, mut n, mut c2) = (pre, info.clone(), nonce, c.clone());
            match g.below(5) {
                0 => p = self.element(g),
                1 => i = spoil(g, &i),
                2 => n[g.below(12)] ^= 1 << g.below(8),
                3 => (),
                _ => c2 = spoil(g, &c2),
            }
            self.dhdec(&p, &i, &n, &c2);
            self.dhdec(&pre, &info, &nonce, &c);
        }
        let msg = message(g);
        let dst = match g.below(5) {
            0 => msg.len() as i64 + 16,
            1 => msg.len() as i64 + 15,
            2 => msg.len() as i64 + 40,
            3 => 0,
            _ => -1,
        };
        self.seal(&pre, &info, &nonce, &msg, aad.as_deref(), dst);
        if let Some(c) = self.seal(&pre, &info, &nonce, &msg, aad.as_deref(), -1) {
            let dst = match g.below(5) {
                0 => msg.len() as i64,
                1 => msg.len() as i64 - 1,
                2 => msg.len() as i64 + 9,
                _ => -1,
            };
            self.open(&pre, &info, &nonce, &c, aad.as_deref(), dst);
            let (mut p, mut i, mut n, mut c2, mut a2) = (pre, info.clone(), nonce, c, aad.clone());
            match g.below(6) {
                0 => p = self.element(g),
                1 => i = spoil(g, &i),
                2 => n[g.below(12)] ^= 1 << g.below(8),
                3 => a2 = Some(spoil(g, a2.as_deref().unwrap_or(&[]))),
                4 => a2 = None,
                _ => c2 = spoil(g, &c2),
            }
            self.open(&p, &i, &n, &c2, a2.as_deref(), dst);
        }
    }
}

/// Encryption to a key and everything a decryptor can be given.
fn integrated<S: KvSuite, G: Group<POINT = S::POINT>>(grp: &dyn Fn() -> G, g: &mut Gen, log: &mut Log, rounds: usize) {
    let mut w = World::<S, SuiteEd25519>::new(log, "sha256");
    let mut old: Vec<Vec<u8>> = vec![];
    for _ in 0..rounds {
        let (k, k2) = (w.scalar(g), w.scalar(g));
        let public = w.s.point().mul(&k, None);
        let msg = message(g);
        let out = call(|| ecies::encrypt(grp(), public, &msg));
        let ev = put(&out, json!({"op": "encrypt", "priv": S::stok(&k), "msg": hex(&msg)}), |c| json!({"ctx": hex(c)}));
        w.ev(ev);
        let dec = |w: &mut World<S, SuiteEd25519>, k: &Sc<S>, c: &[u8]| {
            let out = call(|| ecies::decrypt(grp(), *k, c));
            let ev = put(&out, json!({"op": "decrypt", "priv": S::stok(k), "ctx": hex(c)}), |m| json!({"msg": hex(m)}));
            w.ev(ev);
        };
        let Some(c) = out.ok() else { continue };
        let l = w.s.point().marshal_size_of();
        dec(&mut w, &k, &c);
        dec(&mut w, &k2, &c);
        for _ in 0..3 {
            let b = spoil(g, &c);
            dec(&mut w, &k, &b);
        }
        let mut b = c.clone();
        b[g.below(l)] ^= 1 << g.below(8);
        dec(&mut w, &k, &b);
        b = c.clone();
        if b.len() > l {
            let i = l + g.below(b.len() - l);
            b[i] ^= 1 << g.below(8);
            dec(&mut w, &k, &b);
        }
        dec(&mut w, &k, &c[..l + g.below(17)]);
        dec(&mut w, &k, &c[..g.below(l + 1)]);
        if let Some(o) = old.last() {
            // ephemeral key of one message, the rest of another
            let mut b = o[..l].to_vec();
            b.extend_from_slice(&c[l..]);
            dec(&mut w, &k, &b);
        }
        // made by somebody else, with an ephemeral element of its choice (small order, other encodings)
        let eph = if S::grp() == "ed" && g.chance(1, 2) { unhex(*g.pick(&TORSION)) } else { w.element(g).marshal_binary().unwrap() };
        let mut r = w.s.point();
        if r.unmarshal_binary(&eph).is_ok() {
            let dh = w.s.point().mul(&k, Some(&r));
            let made = SuiteEd25519::hkdf(&dh.marshal_binary().unwrap(), &[], Some(44))
                .and_then(|buf| AEAD::<SuiteEd25519>::new(r, &buf).and_then(|a| a.seal(None, &arr(&buf[32..44]), &msg, None)));
            if let Ok(ct) = made {
                let mut b = eph.clone();
                b.extend_from_slice(&ct);
                dec(&mut w, &k, &b);
            }
        }
        old.push(c);
    }
}
trait SizeOf {
    fn marshal_size_of(&self) -> usize;
}
impl<P: Point> SizeOf for P {
    fn marshal_size_of(&self) -> usize {
        self.marshal_size()
    }
}

pub fn run(seed: u64, thorough: bool, log: &mut Log) {
    let mut g = Gen::new(seed);
    seed_rng(seed);
    let k = if thorough { 10 } else { 1 };
    for _ in 0..12 * k {
        guard(log, |log| {
            let mut w = World::<SuiteEd25519, SuiteEd25519>::new(log, "sha256");
            for _ in 0..6 {
                w.primitives(&mut g);
            }
        });
        guard(log, |log| {
            let mut w = World::<SuiteEd25519, Curve>::new(log, "sha256");
            for _ in 0..3 {
                w.primitives(&mut g);
            }
        });
        guard(log, |log| {
            let mut w = World::<Toy<P61>, Dh512>::new(log, "sha512");
            for _ in 0..6 {
                w.primitives(&mut g);
            }
        });
        guard(log, |log| integrated::<SuiteEd25519, _>(&SuiteEd25519::new_blake3_sha256_ed25519, &mut g, log, 8));
        guard(log, |log| integrated::<SuiteEd25519, _>(&Curve::default, &mut g, log, 3));
        guard(log, |log| integrated::<Toy<P61>, _>(&|| Toy::<P61> {}, &mut g, log, 8));
    }
    // the longest output of HKDF, and beyond
    guard(log, |log| {
        let mut w = World::<Toy<P61>, SuiteEd25519>::new(log, "sha256");
        for n in [255 * 32 - 1, 255 * 32, 255 * 32 + 1, 255 * 64] {
            w.hkdf(&[1, 2, 3], b"info", Some(n));
        }
    });
    guard(log, |log| {
        let mut w = World::<Toy<P61>, Dh512>::new(log, "sha512");
        for n in [255 * 64, 255 * 64 + 1] {
            w.hkdf(&[], &[], Some(n));
        }
    });
}
