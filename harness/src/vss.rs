//! Executions of the verifiable secret sharing modules (spec/Vss.tla).
use crate::core::*;
use crate::toy::*;
use crate::vsskind::*;
use kyber_rs::group::edwards25519::SuiteEd25519;
use kyber_rs::sign::schnorr;
use kyber_rs::{Point, Scalar};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};

pub fn put<T>(out: &Out<T>, mut ev: Value, ok: impl FnOnce(&T) -> Value) -> Value {
    ev["out"] = Value::from(out.tag());
    let why = out.why();
    if !why.is_empty() {
        ev["why"] = Value::from(why);
    }
    match out {
        Out::Ok(v) => merge(ev, ok(v)),
        _ => ev,
    }
}

pub fn resp_msg(sid: &[u8], idx: u32, ok: bool) -> Vec<u8> {
    let mut h = Sha256::new();
    h.update(b"response");
    h.update(sid);
    h.update(idx.to_le_bytes());
    h.update((ok as u32).to_le_bytes());
    h.finalize().to_vec()
}

struct Sent<S: KvSuite> {
    to: usize,
    e: NEnc<Pt<S>>,
    pt: Vec<u8>,
    deal: NDeal<S>,
}

struct World<'a, S: KvSuite, K: Kind<S>> {
    s: S,
    log: &'a mut Log,
    n: usize,
    t: usize,
    dk: Sc<S>,
    vk: Vec<Sc<S>>,
    dpub: Pt<S>,
    vpub: Vec<Pt<S>>,
    d: Option<K::D>,
    ver: Vec<K::V>,
    vi: Vec<usize>,
    sent: Vec<Sent<S>>,
    resp: Vec<NResp>,
    just: Vec<(u32, NDeal<S>, Vec<u8>, Vec<u8>)>,
    dhs: Vec<String>,
    forged: bool,
}

impl<'a, S: KvSuite, K: Kind<S>> World<'a, S, K> {
    fn new(s: S, n: usize, t: usize, log: &'a mut Log) -> Self {
        let pick = || s.scalar().pick(&mut SeededStream);
        let nz = || loop {
            let x = pick();
            if x != s.scalar().zero() {
                return x;
            }
        };
        let dk = nz();
        let mut vk: Vec<Sc<S>> = Vec::new();
        while vk.len() < n {
            let x = nz();
            if !vk.contains(&x) {
                vk.push(x);
            }
        }
        let vpub: Vec<Pt<S>> = vk.iter().map(|x| s.point().mul(x, None)).collect();
        let mut seed = vec![];
        for v in &vpub {
            seed.extend(kyber_rs::encoding::BinaryMarshaler::marshal_binary(v).unwrap());
        }
        let h = s.point().pick(&mut s.xof(Some(&seed)));
        log.begin(json!({"grp": S::grp(), "q": S::order(), "kind": K::NAME, "h": S::ptok(&h), "dk": S::stok(&dk),
            "vk": vk.iter().map(|x| S::stok(x)).collect::<Vec<_>>()}));
        let dpub = s.point().mul(&dk, None);
        World { s, log, n, t, dk, vk, dpub, vpub, d: None, ver: vec![], vi: vec![], sent: vec![], resp: vec![], just: vec![], dhs: vec![], forged: false }
    }
    fn ev(&mut self, e: Value) {
        set_current(e.to_string());
        self.log.ev(e);
    }
    /// What nobody should ever see printed.
    fn secrets(&self) -> Vec<Vec<u8>> {
        let mut v = vec![self.dk];
        v.extend(&self.vk);
        v.extend(self.sent.iter().flat_map(|x| [x.deal.v, x.deal.rv]));
        if let Some(d) = &self.d {
            v.extend(K::coefs(d));
            v.push(K::dsecret(d));
        }
        v.iter().filter_map(|x| S::hide(x)).collect()
    }
    /// Participant `m` (0: the dealer) may be restarted here.
    fn restart(&mut self, m: usize) {
        let sec = if S::grp() == "ed" { self.secrets() } else { vec![] };
        if m == 0 {
            if let Some(d) = self.d.as_ref() {
                shown(self.log, "dealer", 4, || prints!(*d), &sec);
            }
        } else {
            let v = &self.ver[m - 1];
            shown(self.log, "verifier", 4, || prints!(*v), &sec);
        }
        if m == 0 {
            if let Some(d) = self.d.as_mut() {
                stored(self.log, "dealer", 8, d, S::same);
            }
        } else {
            stored(self.log, "verifier", 8, &mut self.ver[m - 1], S::same);
        }
    }
    fn deals(&mut self) -> Vec<NDeal<S>> {
        let n = self.n;
        let d = self.d.as_mut().unwrap();
        (0..n).filter_map(|i| K::deal(d, i)).collect()
    }
    fn dealer(&mut self, g: &mut Gen) -> bool {
        let secret = match g.below(6) {
            0 => self.s.scalar().zero(),
            1 => self.s.scalar().one(),
            _ => self.s.scalar().pick(&mut SeededStream),
        };
        let out = K::new_dealer(self.s, self.dk, secret, &self.vpub, self.t);
        let (n, t) = (self.n, self.t);
        let mut ev = json!({"op": "dealer", "t": t, "secret": S::stok(&secret), "n": n, "out": out.tag()});
        match out {
            Out::Ok(d) => {
                self.d = Some(d);
                let deals = self.deals();
                let d = self.d.as_ref().unwrap();
                ev = merge(ev, json!({"sid": hex(&K::dealer_sid(d)), "pub": S::ptok(&K::dealer_pub(d)),
                    "c": deals.first().map(|x| ptoks::<S>(&x.c)).unwrap_or(json!([])),
                    "deals": deals.iter().map(|x| x.json()).collect::<Vec<_>>(),
                    "coef": K::coefs(d).iter().map(|x| S::stok(x)).collect::<Vec<_>>()}));
                self.ev(ev);
                true
            }
            o => {
                ev["why"] = Value::from(o.why());
                self.ev(ev);
                false
            }
        }
    }
    /// One way for a deal to be wrong.
    fn spoil(&mut self, g: &mut Gen, x: &mut NDeal<S>) {
        let one = self.s.scalar().one();
        if x.c.is_empty() {
            x.v = x.v + one;
            return;
        }
        match g.below(if K::NAME == "rab" { 12 } else { 10 }) {
            0 | 1 => x.v = x.v + one,
            2 => x.i = (x.i + 1) % self.n,
            3 => x.t = g.range(0, self.n + 1),
            4 => {
                let k = g.below(x.c.len());
                x.c[k] = self.s.point().add(&x.c[k], &self.s.point().base());
            }
            5 => {
                x.c.pop();
            }
            6 => x.c.push(self.s.point().base()),
            7 => x.sid[g.clone_below(32)] ^= 1,
            8 => {
                // a shorter sharing, consistent in itself but for the session
                x.t = x.t.saturating_sub(1);
                x.c.pop();
            }
            9 => {
                x.i += self.n;
            }
            10 => x.rv = x.rv + one,
            _ => x.ri = (x.ri + 1) % self.n,
        }
    }
    /// A consistent sharing of something else, by the same dealer.
    fn other(&mut self, t: usize) -> Option<Vec<NDeal<S>>> {
        let sec = self.s.scalar().pick(&mut SeededStream);
        if t < 2 || t > self.n {
            return Some(sharing::<S, K>(self.s, &self.dpub, &self.vpub, sec, t));
        }
        let mut d = K::new_dealer(self.s, self.dk, sec, &self.vpub, t).ok()?;
        (0..self.n).map(|i| K::deal(&mut d, i)).collect()
    }
    fn mutate(&mut self, i: usize, x: &NDeal<S>) {
        K::set_deal(self.d.as_mut().unwrap(), i, x);
        self.ev(json!({"op": "mutate", "i": i, "deal": x.json()}));
    }
    fn encrypt(&mut self, i: usize) {
        self.restart(0);
        let out = K::encrypt(self.d.as_ref().unwrap(), i);
        self.encrypted(i, out);
    }
    /// All deals at once: each has to be what it would be alone.
    fn encrypt_all(&mut self) {
        self.restart(0);
        match K::encrypt_all(self.d.as_ref().unwrap()) {
            Out::Ok(v) => {
                self.ev(json!({"op": "encryptall", "out": "ok", "count": v.len()}));
                for (i, e) in v.into_iter().enumerate() {
                    self.encrypted(i, Out::Ok(e));
                }
            }
            o => self.ev(json!({"op": "encryptall", "out": o.tag(), "why": o.why()})),
        }
    }
    fn encrypted(&mut self, i: usize, out: Out<K::E>) {
        let deal = K::deal(self.d.as_mut().unwrap(), i);
        let mut ev = json!({"op": "encrypt", "i": i, "out": out.tag()});
        if let Out::Ok(e) = &out {
            let p = K::enc_parts(e);
            let deal = deal.unwrap();
            let pt = K::deal_bytes(&deal);
            let dh = S::ptok(&p.dh);
            let fresh = !self.dhs.contains(&dh) || S::order().len() < 6;
            self.dhs.push(dh.clone());
            ev = merge(ev, json!({"dh": dh, "sig": hex(&p.sig), "nonce": hex(&p.nonce), "ct": hex(&p.ct),
                "pt": hex(&pt), "vk": S::stok(&self.vk[i]), "fresh": fresh, "deal": deal.json()}));
            self.sent.push(Sent { to: i, e: p, pt, deal });
        } else {
            ev["why"] = Value::from(out.why());
        }
        self.ev(ev);
    }
    fn verifier(&mut self, x: Sc<S>) {
        let out = K::verifier(self.s, &x, &self.dpub, &self.vpub);
        let ev = put(&out, json!({"op": "verifier", "x": S::stok(&x)}), |v| json!({"idx": K::vindex(v)}));
        self.ev(ev);
        if let Out::Ok(v) = out {
            self.vi.push(self.vk.iter().position(|k| *k == x).unwrap_or(0));
            self.ver.push(v);
        }
    }
    fn recv(&mut self, m: usize, e: &NEnc<Pt<S>>, pt: &[u8], deal: Option<&NDeal<S>>) {
        self.restart(m + 1);
        let mut raw = K::enc_make(e);
        stored(self.log, "encrypted deal", 12, &mut raw, S::same);
        let out = K::recv(&mut self.ver[m], &raw);
        let mut ev = json!({"op": "recv", "m": m + 1, "dh": S::ptok(&e.dh), "sig": hex(&e.sig), "nonce": hex(&e.nonce),
            "ct": hex(&e.ct), "pt": hex(pt), "decodes": deal.is_some()});
        if let Some(d) = deal {
            ev["deal"] = d.json();
        }
        let mut got = None;
        ev = put(&out, ev, |r| {
            let p = K::resp_parts(r);
            got = Some(p.clone());
            json!({"resp": {"sid": hex(&p.sid), "idx": p.idx, "ok": p.ok, "sig": hex(&p.sig)}})
        });
        self.ev(ev);
        if let Some(r) = got {
            self.resp.push(r);
        }
    }
    fn tamper(&mut self, g: &mut Gen, e: &mut NEnc<Pt<S>>) {
        match g.below(9) {
            0 => {
                let k = g.below(e.ct.len());
                e.ct[k] ^= 1 << g.below(8)
            }
            1 => {
                let k = g.below(e.ct.len());
                e.ct.truncate(k)
            }
            2 => {
                let k = g.below(e.sig.len());
                e.sig[k] ^= 1 << g.below(8)
            }
            3 => e.nonce[g.below(12)] ^= 1,
            4 => {
                // someone else's key exchange
                let x = self.s.scalar().pick(&mut SeededStream);
                e.dh = self.s.point().mul(&x, None);
            }
            5 => {
                // a new key exchange signed by somebody who is not the dealer
                let x = self.s.scalar().pick(&mut SeededStream);
                e.sig = self.sign(&x, &kyber_rs::encoding::BinaryMarshaler::marshal_binary(&e.dh).unwrap());
            }
            6 => e.ct.extend(g.bytes(1)),
            7 => e.sig.clear(),
            _ => e.nonce.push(0),
        }
    }
    fn sign(&self, x: &Sc<S>, msg: &[u8]) -> Vec<u8> {
        schnorr::sign(&self.s, x, msg).unwrap()
    }
    /// A well-formed encryption under the dealer's signature of arbitrary bytes.
    fn seal(&self, to: usize, pt: &[u8]) -> NEnc<Pt<S>> {
        let x = self.s.scalar().pick(&mut SeededStream);
        let dh = self.s.point().mul(&x, None);
        let sig = self.sign(&self.dk, &kyber_rs::encoding::BinaryMarshaler::marshal_binary(&dh).unwrap());
        let ctx = K::context(self.s, &self.dpub, &self.vpub);
        let pre = S::dh_exchange(self.s, x, self.vpub[to]);
        let gcm = kyber_rs::dh::AEAD::<S>::new(pre, &ctx).unwrap();
        let nonce = [0u8; 12];
        let ct = gcm.seal(None, &nonce, pt, Some(&ctx)).unwrap();
        NEnc { dh, sig, nonce: nonce.to_vec(), ct }
    }
    fn response(&mut self, m: usize, r: &NResp) {
        let ev = json!({"op": "response", "m": m, "sid": hex(&r.sid), "idx": r.idx, "ok": r.ok, "sig": hex(&r.sig)});
        let mut raw = K::resp_make(r);
        self.restart(m);
        stored(self.log, "response", 12, &mut raw, S::same);
        if m == 0 {
            let out = K::dresp(self.d.as_mut().unwrap(), &raw);
            let mut got = None;
            let ev = put(&out, ev, |j| match j {
                None => json!({"hasj": false}),
                Some(j) => {
                    let (sid, idx, d, db, sig) = K::just_parts(j);
                    got = Some((idx, d.clone(), sig.clone(), sid.clone()));
                    json!({"hasj": true, "j": {"sid": hex(&sid), "idx": idx, "deal": d.json(), "db": hex(&db), "sig": hex(&sig)}})
                }
            });
            self.ev(ev);
            self.just.extend(got);
        } else {
            let out = K::vresp(&mut self.ver[m - 1], &raw);
            let ev = put(&out, ev, |_| json!({}));
            self.ev(ev);
        }
    }
    fn justify(&mut self, m: usize, idx: u32, d: &NDeal<S>, sid: &[u8], sig: &[u8]) {
        self.restart(m);
        let mut raw = K::just_make(sid, idx, d, sig);
        let sec = self.secrets();
        shown(self.log, "justification", 2, || prints!(raw), &sec);
        stored(self.log, "justification", 6, &mut raw, S::same);
        let out = K::vjust(&mut self.ver[m - 1], &raw);
        let ev = put(&out, json!({"op": "justify", "m": m, "idx": idx, "deal": d.json()}), |_| json!({}));
        self.ev(ev);
    }
    /// A justification as the dealer would have to sign it.
    fn just_signed(&self, idx: u32, d: &NDeal<S>, sid: &[u8]) -> Vec<u8> {
        let mut h = Sha256::new();
        h.update(b"justification");
        h.update(sid);
        h.update(idx.to_le_bytes());
        h.update(K::deal_bytes(d));
        self.sign(&self.dk, &h.finalize())
    }
    fn timeout(&mut self, m: usize) {
        self.restart(m);
        let out = if m == 0 { K::dtimeout(self.d.as_mut().unwrap()) } else { K::vtimeout(&mut self.ver[m - 1]) };
        let ev = put(&out, json!({"op": "timeout", "m": m}), |_| json!({}));
        self.ev(ev);
    }
    /// The layer above has its own reasons to take a verdict for given.
    fn vouch(&mut self, m: usize, idx: u32, ok: bool) {
        self.restart(m);
        let out = K::vouch(&mut self.ver[m - 1], idx, ok);
        let ev = put(&out, json!({"op": "vouch", "m": m, "idx": idx, "ok": ok}), |_| json!({}));
        self.ev(ev);
    }
    fn observe(&mut self, m: usize) -> Option<K::P> {
        self.restart(m);
        let mut ev = json!({"op": "observe", "m": m});
        let mut deal = None;
        let obs = if m == 0 {
            let d = self.d.as_ref().unwrap();
            let rel = K::release(d);
            ev["commit"] = Value::from(match &rel {
                Out::Ok(Some(p)) => S::ptok(p),
                o => o.tag().replace("ok", "none"),
            });
            ev["secret"] = Value::from(S::stok(&dsecret::<S, K>(d)));
            ev["commits"] = told::<S>(&K::dcommits(d));
            let (x, p) = K::dkey(d);
            ev["key"] = json!([S::stok(&x), S::ptok(&p)]);
            K::dobs(d)
        } else {
            let v = &self.ver[m - 1];
            match K::handout(v) {
                Out::Ok(x) => {
                    ev["has"] = Value::from(x.is_some());
                    if let Some(p) = x {
                        ev["deal"] = K::parts(&p).json();
                        deal = Some(p);
                    }
                }
                o => ev["has"] = Value::from(o.tag()),
            }
            if let Some(c) = K::vcommits(v) {
                ev["commits"] = told::<S>(&c);
            }
            let (x, p) = K::vkey(v);
            ev["key"] = json!([S::stok(&x), S::ptok(&p)]);
            ev["index"] = Value::from(K::vindex(v));
            // a Rabin verifier without a deal has no state to ask for
            if K::NAME == "rab" && !self.known(m) {
                ev["out"] = Value::from("ok");
                self.ev(ev);
                return deal;
            }
            K::vobs(v)
        };
        let n = self.n;
        let ev = put(&obs, ev, |o| {
            json!({"cert": o.cert, "sid": hex(&o.sid), "missing": o.missing,
                "resp": (0..n as u32).map(|k| match o.resp.get(&k) { None => "none", Some(true) => "ok", Some(false) => "no" }).collect::<Vec<_>>()})
        });
        self.ev(ev);
        deal
    }
    fn known(&self, m: usize) -> bool {
        let v = vjson::<S, K>(&self.ver[m - 1]);
        !v["aggregator"].is_null()
    }
    fn recover(&mut self, mut d: Vec<K::P>, t: usize) {
        if let Some(x) = d.first_mut() {
            let sec = self.secrets();
            shown(self.log, "deal", 2, || prints!(*x), &sec);
            stored(self.log, "deal", 4, x, S::same);
        }
        let n = self.n;
        let js: Vec<Value> = d.iter().map(|p| K::parts(p).json()).collect();
        let out = K::recover(self.s, d, n, t);
        let ev = put(&out, json!({"op": "recover", "deals": js, "t": t}), |v| json!({"v": S::stok(v)}));
        self.ev(ev);
    }
    /// Recovering from many deals, one of them of another session.
    fn mixed(&mut self, g: &mut Gen, got: &[K::P], t: usize) {
        if got.is_empty() {
            return;
        }
        let mut d = got.to_vec();
        g.shuffle(&mut d);
        for _ in 0..2 {
            let mut x = K::parts(g.pick(&d));
            match g.below(4) {
                0 => x.sid.clear(),
                1 => {
                    x.sid.pop();
                }
                2 => x.sid[31] ^= 1,
                _ => x.sid = g.bytes(32),
            }
            if g.chance(1, 2) {
                x.i = g.below(self.n);
                x.v = self.s.scalar().pick(&mut SeededStream);
            }
            let at = if g.chance(1, 2) { d.len() } else { g.below(d.len() + 1) };
            let mut e = d.clone();
            e.insert(at, K::plain(&x));
            self.recover(e, t);
        }
    }
    fn any_resp(&mut self, g: &mut Gen) -> NResp {
        if !self.resp.is_empty() && g.chance(3, 4) {
            let mut r = g.pick(&self.resp).clone();
            match g.below(14) {
                0 => r.ok = !r.ok,
                1 => r.idx = g.below(self.n + 2) as u32,
                2 => r.sid[g.clone_below(32)] ^= 4,
                3 => r.sid.clear(),
                4 => {
                    let k = g.below(r.sig.len());
                    r.sig[k] ^= 1
                }
                5 => {
                    // the same verdict, signed with the key of another verifier
                    let k = g.below(self.n);
                    r.sig = self.sign(&self.vk[k], &resp_msg(&r.sid, r.idx, r.ok));
                }
                6 => {
                    // re-signed under another session
                    r.sid = g.bytes(32);
                    r.sig = self.sign(&self.vk[r.idx as usize], &resp_msg(&r.sid, r.idx, r.ok));
                }
                _ => {}
            }
            r
        } else {
            // a verifier says what it likes
            let k = g.below(self.n);
            let sid = match self.d.as_ref() {
                Some(d) if g.chance(9, 10) => K::dealer_sid(d),
                _ => g.bytes(32),
            };
            let ok = g.chance(1, 2);
            let sig = self.sign(&self.vk[k], &resp_msg(&sid, k as u32, ok));
            let r = NResp { sid, idx: k as u32, ok, sig };
            if g.chance(1, 2) {
                self.resp.push(r.clone());
            }
            r
        }
    }
}
fn told<S: KvSuite>(c: &Out<Option<Vec<Pt<S>>>>) -> Value {
    match c {
        Out::Ok(Some(c)) => ptoks::<S>(c),
        Out::Ok(None) => json!(["none"]),
        o => json!([o.tag()]),
    }
}
fn vjson<S: KvSuite, K: Kind<S>>(v: &K::V) -> Value {
    K::vjson(v)
}
fn dsecret<S: KvSuite, K: Kind<S>>(d: &K::D) -> Sc<S> {
    K::dsecret(d)
}
impl Gen {
    fn clone_below(&mut self, n: usize) -> usize {
        self.below(n)
    }
}

fn random<S: KvSuite, K: Kind<S>>(s: S, g: &mut Gen, log: &mut Log) {
    let n = if g.chance(1, 40) { g.range(8, 11) } else { *g.pick(&[2, 3, 3, 3, 4, 4, 5, 6]) };
    let t = if g.chance(1, 14) { *g.pick(&[0, 1, n + 1]) } else { g.range(2, n) };
    let mut w = World::<S, K>::new(s, n, t, log);
    if !w.dealer(g) {
        return;
    }
    // how the dealer cheats
    match g.below(6) {
        0 | 1 => {
            for _ in 0..g.range(1, 2) {
                let i = g.below(n);
                let mut x = K::deal(w.d.as_mut().unwrap(), i).unwrap();
                w.spoil(g, &mut x);
                w.mutate(i, &x);
            }
        }
        2 => {
            let t2 = if g.chance(1, 2) { t } else { g.range(1, n + 1) };
            if let Some(alt) = w.other(t2) {
                for i in 0..n {
                    if g.chance(1, 2) {
                        let mut x = alt[i].clone();
                        if g.chance(1, 4) {
                            // under the session of the first sharing
                            x.sid = K::deal(w.d.as_mut().unwrap(), i).unwrap().sid;
                        }
                        w.mutate(i, &x);
                    }
                }
            }
        }
        _ => {}
    }
    let mut order: Vec<usize> = (0..n).collect();
    g.shuffle(&mut order);
    if g.chance(1, 4) {
        w.encrypt_all();
    } else {
        for i in &order {
            w.encrypt(*i);
        }
    }
    if g.chance(1, 8) {
        w.encrypt(n);
    }
    g.shuffle(&mut order);
    let take = if g.chance(1, 3) { g.range(1, n) } else { n };
    for i in order.iter().take(take) {
        let x = w.vk[*i];
        w.verifier(x);
    }
    if g.chance(1, 8) {
        let x = w.s.scalar().pick(&mut SeededStream);
        w.verifier(x);
    }
    let nv = w.ver.len();
    if K::NAME == "ped" {
        for m in 0..nv {
            if g.chance(1, 4) {
                let th = if g.chance(3, 4) { t } else { g.range(0, n + 1) };
                let out = K::threshold(&mut w.ver[m], th);
                let ev = put(&out, json!({"op": "threshold", "m": m + 1, "t": th}), |_| json!({}));
                w.ev(ev);
            }
        }
    }
    let own = |w: &World<S, K>, m: usize| w.sent.iter().position(|x| x.to == w.vi[m]);
    let mut pend: Vec<usize> = (0..nv).collect();
    for _ in 0..g.range(3, 8 + 3 * n) {
        match g.below(16) {
            0..=3 => {
                // a deal arrives where it belongs
                if let Some(m) = pend.pop() {
                    if let Some(k) = own(&w, m) {
                        let (e, pt, d) = (w.sent[k].e.clone(), w.sent[k].pt.clone(), w.sent[k].deal.clone());
                        w.recv(m, &e, &pt, Some(&d));
                    }
                }
            }
            4 => {
                // a deal arrives anywhere, perhaps twice, perhaps damaged
                let m = g.below(nv);
                let k = if g.chance(1, 2) { own(&w, m).unwrap_or(0) } else { g.below(w.sent.len()) };
                let (mut e, pt, d) = (w.sent[k].e.clone(), w.sent[k].pt.clone(), w.sent[k].deal.clone());
                if g.chance(2, 3) {
                    w.tamper(g, &mut e);
                }
                w.recv(m, &e, &pt, Some(&d));
            }
            5 => {
                // the dealer encrypts something else for this verifier
                let m = g.below(nv);
                let i = w.vi[m];
                let x = K::deal(w.d.as_mut().unwrap(), i).unwrap();
                match g.below(3) {
                    0 => {
                        let pt = K::deal_bytes(&x);
                        let cut = g.below(pt.len());
                        let e = w.seal(i, &pt[..cut]);
                        w.recv(m, &e, &pt[..cut].to_vec(), None);
                    }
                    1 => {
                        let mut y = x;
                        w.spoil(g, &mut y);
                        let pt = K::deal_bytes(&y);
                        let e = w.seal(i, &pt);
                        w.recv(m, &e, &pt, Some(&y));
                    }
                    _ => {
                        // somebody else's deal, readable for this verifier
                        let y = K::deal(w.d.as_mut().unwrap(), (i + 1) % n).unwrap();
                        let pt = K::deal_bytes(&y);
                        let e = w.seal(i, &pt);
                        w.recv(m, &e, &pt, Some(&y));
                    }
                }
            }
            6..=10 => {
                let r = w.any_resp(g);
                let m = g.below(nv + 1);
                w.response(m, &r);
                if g.chance(1, 4) {
                    w.response(m, &r);
                }
            }
            11 | 12 => {
                // a justification, as the dealer sent it or as it would rather have it
                let m = g.range(1, nv);
                let sid = K::dealer_sid(w.d.as_ref().unwrap());
                let (idx, d) = if !w.just.is_empty() && g.chance(2, 3) {
                    let j = g.pick(&w.just).clone();
                    (j.0, j.1)
                } else {
                    let i = g.below(n);
                    (i as u32, K::deal(w.d.as_mut().unwrap(), i).unwrap())
                };
                let (mut idx, mut d) = (idx, d);
                match g.below(8) {
                    0 => w.spoil(g, &mut d),
                    1 => idx = g.below(n + 2) as u32,
                    2 => {
                        if let Some(alt) = w.other(t) {
                            d = alt[(idx as usize).min(n - 1)].clone();
                        }
                    }
                    _ => {}
                }
                let sig = w.just_signed(idx, &d, &sid);
                w.justify(m, idx, &d, &sid, &sig);
            }
            13 => {
                if g.chance(1, 3) {
                    let m = g.below(nv + 1);
                    w.timeout(m);
                } else if g.chance(1, 2) {
                    let m = g.range(1, nv);
                    if K::NAME == "ped" || w.known(m) {
                        let idx = g.below(n + 1) as u32;
                        w.vouch(m, idx, g.chance(2, 3));
                    }
                }
            }
            _ => {
                let m = g.below(nv + 1);
                w.observe(m);
            }
        }
    }
    // let everything arrive
    if g.chance(3, 4) {
        while let Some(m) = pend.pop() {
            if let Some(k) = own(&w, m) {
                let (e, pt, d) = (w.sent[k].e.clone(), w.sent[k].pt.clone(), w.sent[k].deal.clone());
                w.recv(m, &e, &pt, Some(&d));
            }
        }
        let all = w.resp.clone();
        for m in 0..=nv {
            for r in &all {
                w.response(m, r);
            }
        }
        let js = w.just.clone();
        for m in 1..=nv {
            for (idx, d, sig, sid) in &js {
                w.justify(m, *idx, d, sid, sig);
            }
        }
        if g.chance(1, 2) {
            for m in 0..=nv {
                w.timeout(m);
            }
        }
    }
    w.observe(0);
    let mut got = vec![];
    for m in 1..=nv {
        got.extend(w.observe(m));
    }
    g.shuffle(&mut got);
    if !got.is_empty() {
        w.recover(got.clone(), t);
        if got.len() > 1 {
            got.pop();
        }
        if g.chance(1, 2) {
            let x = got[0].clone();
            got.push(x);
        }
        w.recover(got.clone(), t);
        w.mixed(g, &got, t);
    }
}

/// A sharing among honest participants, everything delivered in random order.
fn honest<S: KvSuite, K: Kind<S>>(s: S, g: &mut Gen, n: usize, t: usize, log: &mut Log) {
    let mut w = World::<S, K>::new(s, n, t, log);
    if !w.dealer(g) {
        return;
    }
    for i in 0..n {
        w.encrypt(i);
        let x = w.vk[i];
        w.verifier(x);
    }
    let mut order: Vec<usize> = (0..n).collect();
    g.shuffle(&mut order);
    for m in order {
        let (e, pt, d) = (w.sent[m].e.clone(), w.sent[m].pt.clone(), w.sent[m].deal.clone());
        w.recv(m, &e, &pt, Some(&d));
    }
    let mut mail: Vec<(usize, usize)> = (0..=n).flat_map(|m| (0..n).map(move |k| (m, k))).collect();
    g.shuffle(&mut mail);
    for (m, k) in mail {
        let r = w.resp[k].clone();
        w.response(m, &r);
    }
    w.observe(0);
    let mut got: Vec<_> = (1..=n).filter_map(|m| w.observe(m)).collect();
    g.shuffle(&mut got);
    w.recover(got[..t.min(got.len())].to_vec(), t);
    w.recover(got[..(t - 1).min(got.len())].to_vec(), t);
    w.mixed(g, &got, t);
}

/// A justification the dealer did not sign.
fn forged<S: KvSuite, K: Kind<S>>(s: S, g: &mut Gen, log: &mut Log) {
    let mut w = World::<S, K>::new(s, 3, 2, log);
    w.dealer(g);
    let good = K::deal(w.d.as_mut().unwrap(), 0).unwrap();
    let valid = g.chance(1, 2);
    if valid {
        let mut x = good.clone();
        x.v = x.v + w.s.scalar().one();
        w.mutate(0, &x);
    }
    w.encrypt(0);
    w.encrypt(1);
    let x = w.vk[1];
    w.verifier(x);
    let (e, pt, d) = (w.sent[1].e.clone(), w.sent[1].pt.clone(), w.sent[1].deal.clone());
    w.recv(0, &e, &pt, Some(&d));
    let sid = K::dealer_sid(w.d.as_ref().unwrap());
    let sig = w.sign(&w.vk[0], &resp_msg(&sid, 0, false));
    w.response(1, &NResp { sid: sid.clone(), idx: 0, ok: false, sig });
    // anybody can write this
    let mut j = good;
    if !valid {
        j.v = j.v + w.s.scalar().one();
    }
    let x = w.s.scalar().pick(&mut SeededStream);
    let sig = w.sign(&x, b"anything");
    let before = K::vobs(&w.ver[0]).ok().map(|o| (o.cert, o.resp));
    let bad0 = vjson::<S, K>(&w.ver[0])["aggregator"]["bad_dealer"].clone();
    let out = K::vjust(&mut w.ver[0], &K::just_make(&sid, 0, &j, &sig));
    let after = K::vobs(&w.ver[0]).ok().map(|o| (o.cert, o.resp));
    let bad1 = vjson::<S, K>(&w.ver[0])["aggregator"]["bad_dealer"].clone();
    let ev = put(&out, json!({"op": "forged", "m": 1, "case": "unsigned justification", "deal": j.json(),
        "unchanged": before == after && bad0 == bad1}), |_| json!({}));
    w.ev(ev);
    w.forged = true;
}

/// Behaviours of spec/VssGen.tla: what one verifier (number 0) of three sees.
fn script<S: KvSuite, K: Kind<S>>(s: S, g: &mut Gen, row: &Value, log: &mut Log) {
    let (n, t) = (3, 2);
    let mut w = World::<S, K>::new(s, n, t, log);
    w.dealer(g);
    let good = w.deals();
    let alt = w.other(t).unwrap();
    let x = w.vk[0];
    w.verifier(x);
    let make = |w: &World<S, K>, i: usize, what: &str| -> NDeal<S> {
        let mut d = if what == "alt" { alt[i].clone() } else { good[i].clone() };
        if what == "bad" {
            d.v = d.v + w.s.scalar().one();
        }
        d
    };
    let sids = [good[0].sid.clone(), alt[0].sid.clone()];
    for st in row.as_array().unwrap() {
        let f = |k: &str| st[k].as_str().unwrap_or("").to_string();
        match f("op").as_str() {
            "threshold" => {
                let th = as_usize(&st["t"]);
                let out = K::threshold(&mut w.ver[0], th);
                let ev = put(&out, json!({"op": "threshold", "m": 1, "t": th}), |_| json!({}));
                w.ev(ev);
            }
            "deal" => {
                let d = make(&w, 0, &f("d"));
                let pt = K::deal_bytes(&d);
                let e = w.seal(0, &pt);
                w.recv(0, &e, &pt, Some(&d));
            }
            "resp" => {
                let k = as_usize(&st["from"]);
                let sid = if f("d") == "alt" { sids[1].clone() } else { sids[0].clone() };
                let ok = st["ok"].as_bool().unwrap();
                let key = if st["signed"].as_bool().unwrap() { w.vk[k] } else { w.dk };
                let sig = w.sign(&key, &resp_msg(&sid, k as u32, ok));
                w.response(1, &NResp { sid, idx: k as u32, ok, sig });
            }
            "just" => {
                let k = as_usize(&st["idx"]);
                let what = f("d");
                let d = if what == "wrongidx" { make(&w, (k + 1) % n, "good") } else { make(&w, k, &what) };
                let sid = sids[0].clone();
                let sig = w.just_signed(k as u32, &d, &sid);
                w.justify(1, k as u32, &d, &sid, &sig);
            }
            "timeout" => w.timeout(1),
            x => panic!("script {x}"),
        }
    }
    w.observe(1);
}

pub fn run<K: Kind<Toy<P61>> + Kind<Toy<1009>> + Kind<SuiteEd25519>>(seed: u64, thorough: bool, rows: &[Value], log: &mut Log) {
    let mut g = Gen::new(seed ^ 0x5653);
    seed_rng(seed ^ 0x5654);
    let k = if thorough { 12 } else { 1 };
    for i in 0..220 * k {
        guard(log, |log| {
            if i % 5 == 0 {
                random::<Toy<1009>, K>(Toy {}, &mut g, log)
            } else {
                random::<Toy<P61>, K>(Toy {}, &mut g, log)
            }
        });
    }
    for n in 2..=7 {
        for t in 2..=n {
            guard(log, |log| honest::<Toy<P61>, K>(Toy {}, &mut g, n, t, log));
        }
    }
    for _ in 0..6 * k {
        guard(log, |log| random::<SuiteEd25519, K>(SuiteEd25519::make(), &mut g, log));
    }
    guard(log, |log| honest::<SuiteEd25519, K>(SuiteEd25519::make(), &mut g, 3, 2, log));
    for _ in 0..2 {
        guard(log, |log| forged::<Toy<P61>, K>(Toy {}, &mut g, log));
    }
    let step = if thorough { 1 } else { (rows.len() / 400).max(1) };
    let from = (seed as usize) % step;
    for row in rows.iter().skip(from).step_by(step) {
        guard(log, |log| script::<Toy<P61>, K>(Toy {}, &mut g, row, log));
    }
    log.begin(json!({"grp": "toy", "q": P61.to_string(), "kind": <K as Kind<Toy<P61>>>::NAME, "h": "1", "dk": "1", "vk": ["1"]}));
    for n in 0..=40 {
        let out = call_v(|| <K as Kind<Toy<P61>>>::minimum_t(n));
        let ev = put(&out, json!({"op": "mint", "n": n}), |t| json!({"t": t}));
        log.ev(ev);
    }
}
