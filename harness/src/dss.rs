//! Executions of the distributed Schnorr signature (spec/Dss.tla).
use crate::core::*;
use crate::toy::*;
use crate::vss::put;
use crate::vsskind::*;
use kyber_rs::encoding::BinaryMarshaler;
use kyber_rs::group::edwards25519::SuiteEd25519;
use kyber_rs::share::dkg::{pedersen::structs as dp, rabin as dr};
use kyber_rs::share::poly::{self, PriShare};
use kyber_rs::sign::{dss, schnorr};
use kyber_rs::{Point, Scalar};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};

/// What a distributed key share is made of; the three kinds must behave alike.
pub trait Dks<S: KvSuite>: dss::DistKeyShare<S> + serde::Serialize + serde::de::DeserializeOwned + 'static {
    fn make(c: Vec<Pt<S>>, i: usize, v: Sc<S>) -> Self;
    fn print(d: &dss::DSS<S, Self>) -> Vec<String>;
}
#[derive(Clone, PartialEq, serde::Serialize, serde::Deserialize)]
#[serde(bound = "")]
pub struct Own<S: KvSuite>(Vec<Pt<S>>, PriShare<Sc<S>>);
impl<S: KvSuite> dss::DistKeyShare<S> for Own<S> {
    fn pri_share(&self) -> PriShare<Sc<S>> {
        self.1.clone()
    }
    fn commitments(&self) -> Vec<Pt<S>> {
        self.0.clone()
    }
}
impl<S: KvSuite> Dks<S> for Own<S> {
    fn make(c: Vec<Pt<S>>, i: usize, v: Sc<S>) -> Self {
        Own(c, PriShare { i, v })
    }
    fn print(_: &dss::DSS<S, Self>) -> Vec<String> {
        vec![]
    }
}
impl<S: KvSuite> Dks<S> for dp::DistKeyShare<S> {
    fn make(c: Vec<Pt<S>>, i: usize, v: Sc<S>) -> Self {
        dp::DistKeyShare { commits: c, share: PriShare { i, v }, private_poly: vec![] }
    }
    fn print(d: &dss::DSS<S, Self>) -> Vec<String> {
        prints!(*d)
    }
}
impl<S: KvSuite> Dks<S> for dr::DistKeyShare<S> {
    fn make(c: Vec<Pt<S>>, i: usize, v: Sc<S>) -> Self {
        dr::DistKeyShare { commits: c, share: PriShare { i, v } }
    }
    fn print(d: &dss::DSS<S, Self>) -> Vec<String> {
        prints!(*d)
    }
}

#[derive(Clone)]
struct Ps<S: KvSuite> {
    i: usize,
    v: Sc<S>,
    sid: Vec<u8>,
    sig: Vec<u8>,
}
fn ps_msg<S: KvSuite>(p: &Ps<S>) -> Vec<u8> {
    let mut a = Sha256::new();
    a.update(p.v.marshal_binary().unwrap());
    a.update((p.i as u32).to_le_bytes());
    let mut b = Sha256::new();
    b.update(a.finalize());
    b.update(&p.sid);
    b.finalize().to_vec()
}

/// A sharing of a random secret: commitments, and the shares.
#[derive(Clone)]
struct Sharing<S: KvSuite> {
    c: Vec<Pt<S>>,
    v: Vec<Sc<S>>,
}
fn sharing<S: KvSuite>(s: S, n: usize, t: usize) -> Sharing<S> {
    let p = poly::new_pri_poly(s, t, None, SeededStream);
    Sharing { c: p.commit(None).info().1, v: (0..n).map(|i| p.eval(i).v).collect() }
}

struct World<'a, S: KvSuite, K: Dks<S>> {
    s: S,
    log: &'a mut Log,
    keys: Vec<Sc<S>>,
    pubs: Vec<Pt<S>>,
    nodes: Vec<dss::DSS<S, K>>,
}

impl<'a, S: KvSuite, K: Dks<S>> World<'a, S, K> {
    fn new(s: S, n: usize, log: &'a mut Log) -> Self {
        let mut keys: Vec<Sc<S>> = Vec::new();
        while keys.len() < n + 1 {
            let x = s.scalar().pick(&mut SeededStream);
            if !keys.contains(&x) {
                keys.push(x);
            }
        }
        let pubs = keys.iter().map(|x| s.point().mul(x, None)).collect();
        log.begin(json!({"grp": S::grp(), "q": S::order()}));
        World { s, log, keys, pubs, nodes: vec![] }
    }
    fn ev(&mut self, e: Value) {
        set_current(e.to_string());
        self.log.ev(e);
    }
    fn st(d: &dss::DSS<S, K>) -> Value {
        json!({"enough": d.enough_partial_sig(),
               "ps": d.partials.iter().map(|p| match p { Some(p) => json!({"i": p.i, "v": S::stok(&p.v)}), None => json!({"i": -1, "v": ""}) }).collect::<Vec<_>>()})
    }
    #[allow(clippy::too_many_arguments)]
    fn node(&mut self, k: usize, parts: &[Pt<S>], long: &Sharing<S>, rand: &Sharing<S>, at: usize, msg: &[u8], t: usize) -> bool {
        let l = K::make(long.c.clone(), at, long.v[at]);
        let r = K::make(rand.c.clone(), at, rand.v[at]);
        let out = call(|| dss::new_dss(self.s, &self.keys[k], parts, &l, &r, msg, t));
        let ev = put(
            &out,
            json!({"op": "new", "x": S::stok(&self.keys[k]), "parts": ptoks::<S>(parts), "msg": hex(msg), "t": t,
                "long": {"c": ptoks::<S>(&long.c), "i": at, "v": S::stok(&long.v[at])},
                "rand": {"c": ptoks::<S>(&rand.c), "i": at, "v": S::stok(&rand.v[at])}}),
            |d| json!({"idx": d.index, "pub": S::ptok(&d.public), "sid": hex(&d.session_id), "st": Self::st(d)}),
        );
        self.ev(ev);
        match out {
            Out::Ok(d) => {
                self.nodes.push(d);
                true
            }
            _ => false,
        }
    }
    /// Participant `m` may be restarted here.
    fn restart(&mut self, m: usize) {
        let d = &self.nodes[m];
        let mut sec: Vec<Vec<u8>> = self.keys.iter().filter_map(|x| S::hide(x)).collect();
        if !sec.is_empty() {
            sec.extend(d.partials.iter().flatten().filter_map(|p| S::hide(&p.v)));
        }
        shown(self.log, "participant", 4, || K::print(d), &sec);
        stored(self.log, "participant", 8, &mut self.nodes[m], S::same);
    }
    fn partial(&mut self, m: usize) -> Option<Ps<S>> {
        self.restart(m);
        let out = call(|| self.nodes[m].partial_sig());
        let st = Self::st(&self.nodes[m]);
        let ev = put(&out, json!({"op": "partial", "m": m + 1, "st": st}), |p| {
            json!({"i": p.partial.i, "v": S::stok(&p.partial.v), "sid": hex(&p.session_id), "sig": hex(&p.signature)})
        });
        self.ev(ev);
        out.ok().map(|p| Ps { i: p.partial.i, v: p.partial.v, sid: p.session_id, sig: p.signature })
    }
    fn process(&mut self, m: usize, p: &Ps<S>) {
        self.restart(m);
        let mut x = dss::PartialSig::<S> {
            partial: PriShare { i: p.i, v: p.v },
            session_id: p.sid.clone(),
            signature: p.sig.clone(),
        };
        stored(self.log, "partial signature", 6, &mut x, S::same);
        let out = call(|| self.nodes[m].process_partial_sig(x));
        let st = Self::st(&self.nodes[m]);
        let ev = put(
            &out,
            json!({"op": "process", "m": m + 1, "st": st, "i": p.i.min(i32::MAX as usize), "v": S::stok(&p.v), "sid": hex(&p.sid), "sig": hex(&p.sig)}),
            |_| json!({}),
        );
        self.ev(ev);
    }
    fn sign(&self, k: usize, p: &mut Ps<S>) {
        p.sig = schnorr::sign(&self.s, &self.keys[k], &ps_msg(p)).unwrap();
    }
    fn signature(&mut self, m: usize) -> Option<Vec<u8>> {
        self.restart(m);
        let out = call(|| self.nodes[m].signature());
        let ev = put(&out, json!({"op": "signature", "m": m + 1}), |s| json!({"sig": hex(s)}));
        self.ev(ev);
        out.ok()
    }
    fn verify(&mut self, pk: &Pt<S>, msg: &[u8], sig: &[u8]) {
        if S::grp() == "toy" {
            return;
        }
        let out = call(|| dss::verify(pk, msg, sig));
        let ev = put(&out, json!({"op": "verify", "pk": S::ptok(pk), "msg": hex(msg), "sig": hex(sig)}), |_| json!({}));
        self.ev(ev);
    }
    /// A partial signature that is not what it should be, in one of the ways `w`.
    fn spoil(&self, g: &mut Gen, w: usize, p: &Ps<S>, others: &[Ps<S>]) -> Ps<S> {
        let mut q = p.clone();
        let own = p.i;
        match w {
            0 => {
                q.v = q.v + self.s.scalar().one();
                self.sign(own, &mut q);
            }
            1 => q.v = q.v + self.s.scalar().one(),
            2 => {
                let k = g.below(q.sid.len());
                q.sid[k] ^= 1 << g.below(8);
                self.sign(own, &mut q);
            }
            3 => {
                let k = g.below(self.keys.len());
                self.sign(k, &mut q);
            }
            4 => {
                // somebody else's place
                q.i = g.below(self.keys.len() + 2);
                if g.chance(1, 2) {
                    self.sign(own, &mut q);
                }
            }
            5 => {
                let k = g.below(q.sig.len());
                if let Some(b) = q.sig.get_mut(k) {
                    *b ^= 1 << g.below(8);
                }
            }
            6 => {
                let n = g.below(q.sig.len() + 1);
                q.sig.truncate(n);
            }
            7 => {
                q.sid = g.bytes(32);
                self.sign(own, &mut q);
            }
            8 => {
                // somebody else's value under one's own name
                q.v = g.pick(others).v;
                self.sign(own, &mut q);
            }
            9 => {
                q.i = *g.pick(&[self.keys.len() - 1, usize::MAX, u32::MAX as usize, (1 << 32) + own]);
                self.sign(own, &mut q);
            }
            10 => {
                q.sig.push(0);
            }
            _ => {
                q.v = self.s.scalar().zero();
                self.sign(own, &mut q);
            }
        }
        q
    }
}

/// n participants with shares of one key sign one message, with whatever goes wrong on the way.
fn random<S: KvSuite, K: Dks<S>>(s: S, g: &mut Gen, log: &mut Log) {
    let n = g.range(1, 6);
    let t = g.range(1, n);
    let mut w = World::<S, K>::new(s, n, log);
    let ll = if g.chance(1, 20) { g.length(&[64usize, 1000]) } else { g.below(40) };
    let msg = g.bytes(ll);
    let long = sharing(s, n + 1, t);
    let rand = sharing(s, n + 1, t);
    let parts = w.pubs[..n].to_vec();
    // a stranger, and wrong thresholds now and then
    if g.chance(1, 6) {
        w.node(n, &parts, &long, &rand, 0, &msg, t);
    }
    let mut seats = vec![]; // (node, key)
    for k in 0..n {
        let tt = if g.chance(1, 10) { g.range(1, n + 1) } else { t };
        let at = if g.chance(1, 12) { g.below(n) } else { k };
        let mut pl = parts.clone();
        if g.chance(1, 25) {
            g.shuffle(&mut pl);
        }
        if g.chance(1, 25) {
            let x = pl[0];
            pl.push(x);
        }
        let m2 = if g.chance(1, 20) { g.bytes(3) } else { msg.clone() };
        let r2 = if g.chance(1, 20) { sharing(s, n + 1, t) } else { rand.clone() };
        if w.node(k, &pl, &long, &r2, at, &m2, tt) {
            seats.push(k);
        }
    }
    let m = w.nodes.len();
    let late = g.below(m + 1); // this one issues its own partial signature late, if it is one of them
    let mut all: Vec<Ps<S>> = vec![];
    for x in 0..m {
        if x == late {
            // what it would say reaches the others through a twin with the same key
            let k = seats[x];
            if w.node(k, &parts, &long, &rand, k, &msg, t) {
                let y = w.nodes.len() - 1;
                if let Some(p) = w.partial(y) {
                    all.push(p);
                }
            }
        } else if let Some(p) = w.partial(x) {
            all.push(p);
        }
    }
    let m = w.nodes.len();
    if all.is_empty() {
        return;
    }
    let steps = if S::grp() == "toy" { 40 } else { 14 };
    let mut sigs: Vec<Vec<u8>> = vec![];
    for _ in 0..steps {
        let x = g.below(m);
        match g.below(12) {
            0..=6 => {
                let p = g.pick(&all).clone();
                w.process(x, &p);
            }
            7 | 8 => {
                let p = g.pick(&all).clone();
                let k = g.below(12);
                if p.i >= w.keys.len() {
                    continue;
                }
                let q = w.spoil(g, k, &p, &all);
                w.process(x, &q);
                if g.chance(1, 8) {
                    all.push(q);
                }
            }
            9 => {
                if let Some(p) = w.partial(x) {
                    all.push(p);
                }
            }
            _ => {
                if let Some(x) = w.signature(x) {
                    sigs.push(x);
                }
            }
        }
    }
    let flush = g.chance(1, 2);
    for x in 0..m {
        if flush && (S::grp() == "toy" || x == 0) {
            for p in all.clone() {
                w.process(x, &p);
            }
        }
        if let Some(x) = w.signature(x) {
            sigs.push(x);
        }
    }
    sigs.sort();
    sigs.dedup();
    let a = long.c[0];
    for (k, x) in sigs.clone().iter().enumerate() {
        if k > 3 {
            break;
        }
        w.verify(&a, &msg, x);
        let mut y = x.clone();
        let b = g.below(y.len());
        y[b] ^= 1 << g.below(8);
        w.verify(&a, &msg, &y);
        w.verify(&rand.c[0], &msg, x);
        let mut m2 = msg.clone();
        m2.push(7);
        w.verify(&a, &m2, x);
    }
}

/// Participant 0 of four, t = 3, along a path of the specification.
fn scripted<S: KvSuite, K: Dks<S>>(s: S, row: &Value, log: &mut Log) {
    let (n, t) = (4, 3);
    let mut w = World::<S, K>::new(s, n, log);
    let msg = b"generated".to_vec();
    let long = sharing(s, n, t);
    let rand = sharing(s, n, t);
    let parts = w.pubs[..n].to_vec();
    let mut have: Vec<Option<Ps<S>>> = (0..n + 1).map(|_| None).collect();
    if !w.node(0, &parts, &long, &rand, 0, &msg, t) {
        return;
    }
    for step in row.as_array().cloned().unwrap_or_default() {
        let from = as_usize(&step["from"]);
        match step["op"].as_str().unwrap() {
            "partial" => {
                w.partial(0);
            }
            "signature" => {
                w.signature(0);
            }
            _ => {
                let kind = step["w"].as_str().unwrap();
                let seat = from.min(n - 1);
                if have[seat].is_none() {
                    w.node(seat, &parts, &long, &rand, seat, &msg, t);
                    let last = w.nodes.len() - 1;
                    have[seat] = w.partial(last);
                }
                let mut p = have[seat].clone().unwrap();
                p.i = from;
                match kind {
                    "value" => p.v = p.v + s.scalar().one(),
                    "session" => p.sid[0] ^= 1,
                    _ => {}
                }
                match kind {
                    "signer" => w.sign((from + 1) % n, &mut p),
                    "unsigned" => p.sig[12] ^= 1,
                    _ => w.sign(seat, &mut p),
                }
                w.process(0, &p);
            }
        }
    }
    w.signature(0);
}

pub fn run(seed: u64, thorough: bool, rows: &[Value], log: &mut Log) {
    seed_rng(seed);
    let mut g = Gen::new(seed);
    let k = if thorough { 12 } else { 1 };
    let ed = SuiteEd25519::make();
    for r in rows {
        guard(log, |log| scripted::<_, Own<Toy<P61>>>(Toy {}, r, log));
    }
    for x in 0..60 * k {
        guard(log, |log| match x % 3 {
            0 => random::<_, Own<Toy<P61>>>(Toy {}, &mut g, log),
            1 => random::<_, dp::DistKeyShare<Toy<P61>>>(Toy {}, &mut g, log),
            _ => random::<_, dr::DistKeyShare<Toy<P61>>>(Toy {}, &mut g, log),
        });
    }
    for _ in 0..25 * k {
        guard(log, |log| random::<_, Own<Toy<1009>>>(Toy {}, &mut g, log));
    }
    for x in 0..14 * k {
        guard(log, |log| match x % 2 {
            0 => random::<_, dp::DistKeyShare<SuiteEd25519>>(ed, &mut g, log),
            _ => random::<_, dr::DistKeyShare<SuiteEd25519>>(ed, &mut g, log),
        });
    }
}
