//! Executions of Pedersen's distributed key generation and resharing (spec/DkgPed.tla).
use crate::core::*;
use crate::toy::*;
use crate::vss::{put, resp_msg};
use crate::vsskind::*;
use kyber_rs::encoding::BinaryMarshaler;
use kyber_rs::group::edwards25519::SuiteEd25519;
use kyber_rs::share::dkg::pedersen::{new_dist_key_generator, new_dist_key_handler, Config, DistKeyGenerator};
use kyber_rs::share::dkg::pedersen::structs as ps;
use kyber_rs::share::poly::{new_pri_poly, PriShare};
use kyber_rs::sign::schnorr;
use kyber_rs::{Point, Scalar};
use serde_json::{json, Value};

/// A source of entropy that can be stored with the node it belongs to.
#[derive(Clone, Default, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Rd(Vec<u8>);
thread_local! {
    /// how much was ever read from such sources
    static READ: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
impl std::io::Read for Rd {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let k = b.len().min(self.0.len());
        b[..k].copy_from_slice(&self.0[..k]);
        self.0.drain(..k);
        READ.with(|c| c.set(c.get() + k));
        Ok(k)
    }
}
type Node<S> = DistKeyGenerator<S, Rd>;

#[derive(Clone)]
struct Sent<S: KvSuite> {
    index: u32,
    to: usize,
    e: NEnc<Pt<S>>,
    dsig: Vec<u8>,
    pt: Vec<u8>,
    deal: NDeal<S>,
}
#[derive(Clone)]
struct Just<S: KvSuite> {
    index: u32,
    idx: u32,
    deal: NDeal<S>,
    sid: Vec<u8>,
    sig: Vec<u8>,
}

/// The result of a run at one node.
#[derive(Clone)]
pub struct KeyOut<S: KvSuite> {
    pub m: usize,
    pub dks: ps::DistKeyShare<S>,
}

pub struct World<'a, S: KvSuite> {
    s: S,
    log: &'a mut Log,
    /// every key anybody has
    keys: Vec<Sc<S>>,
    pubs: Vec<Pt<S>>,
    dealers: Vec<usize>,
    newn: Vec<usize>,
    nodes: Vec<Node<S>>,
    who: Vec<usize>,
    sent: Vec<Sent<S>>,
    resp: Vec<(u32, NResp)>,
    just: Vec<Just<S>>,
    re: bool,
    /// an entropy source of the user for the next node, and whether it is to be the only one
    rd: Option<(Vec<u8>, bool)>,
}
fn nz<S: KvSuite>(s: S) -> Sc<S> {
    loop {
        let x = s.scalar().pick(&mut SeededStream);
        if x != s.scalar().zero() {
            return x;
        }
    }
}
fn enc_json<S: KvSuite>(e: &NEnc<Pt<S>>) -> Value {
    json!({"dh": S::ptok(&e.dh), "sig": hex(&e.sig), "nonce": hex(&e.nonce), "ct": hex(&e.ct)})
}

impl<'a, S: KvSuite> World<'a, S> {
    pub fn new(s: S, total: usize, log: &'a mut Log) -> Self {
        let mut keys: Vec<Sc<S>> = Vec::new();
        while keys.len() < total {
            let x = nz(s);
            if !keys.contains(&x) {
                keys.push(x);
            }
        }
        let pubs = keys.iter().map(|x| s.point().mul(x, None)).collect();
        log.begin(json!({"grp": S::grp(), "q": S::order()}));
        World { s, log, keys, pubs, dealers: vec![], newn: vec![], nodes: vec![], who: vec![], sent: vec![], resp: vec![], just: vec![], re: false, rd: None }
    }
    fn ev(&mut self, e: Value) {
        set_current(e.to_string());
        self.log.ev(e);
    }
    fn list(&self, l: &[usize]) -> Vec<Pt<S>> {
        l.iter().map(|k| self.pubs[*k]).collect()
    }
    #[allow(clippy::too_many_arguments)]
    fn node(&mut self, k: usize, old: &[usize], new: &[usize], t: usize, oldt: usize, share: Option<ps::DistKeyShare<S>>, pubc: Option<Vec<Pt<S>>>, short: bool) -> bool {
        let (oldn, newn) = (self.list(old), self.list(new));
        let mut pub_known: Vec<Pt<S>> = pubc.clone().unwrap_or_default();
        if pub_known.is_empty() {
            if let Some(sh) = &share {
                pub_known = sh.commits.clone();
            }
        }
        let mut ev = json!({"op": "node", "x": S::stok(&self.keys[k]), "oldn": ptoks::<S>(&oldn), "newn": ptoks::<S>(&newn), "t": t, "oldt": oldt,
            "share": share.as_ref().map(|x| S::stok(&x.share.v)).unwrap_or("none".into()), "pub": ptoks::<S>(&pub_known)});
        let rd = if short { None } else { self.rd.clone() };
        ev["rd"] = json!(rd.as_ref().map(|r| hex(&r.0)).unwrap_or("none".into()));
        let read = READ.with(|c| c.get());
        ev["only"] = json!(rd.as_ref().map(|r| r.1).unwrap_or(false));
        let out = if short {
            call(|| new_dist_key_generator::<S, Rd>(self.s, self.keys[k], &newn, t))
        } else {
            let mut sec: Vec<Vec<u8>> = [Some(&self.keys[k]), share.as_ref().map(|x| &x.share.v)].into_iter().flatten().filter_map(|x| S::hide(x)).collect();
            if let (Some((r, _)), false) = (&rd, sec.is_empty()) {
                sec.push(r.clone());
            }
            let mut c = Config::<S, Rd> {
                suite: self.s,
                longterm: self.keys[k],
                old_nodes: oldn.clone(),
                public_coeffs: pubc.clone(),
                new_nodes: newn.clone(),
                share,
                threshold: t,
                old_threshold: oldt,
                reader: rd.as_ref().map(|r| Rd(r.0.clone())),
                user_reader_only: rd.map(|r| r.1).unwrap_or(false),
            };
            stored(self.log, "configuration", 6, &mut c, |_, _| true);
            shown(self.log, "configuration", 2, || prints!(c), &sec);
            call(|| new_dist_key_handler(c))
        };
        ev["out"] = Value::from(out.tag());
        ev["asked"] = json!(READ.with(|c| c.get()) > read);
        match out {
            Out::Ok(mut d) => {
                let mut deals: Vec<NDeal<S>> = vec![];
                let mut coef: Vec<String> = vec![];
                if d.can_issue {
                    deals = (0..newn.len()).filter_map(|i| <Ped as Kind<S>>::deal(&mut d.dealer, i)).collect();
                    coef = d.dealer.private_poly().coefficients().iter().map(|x| S::stok(x)).collect();
                }
                ev = merge(ev, json!({"issue": d.can_issue, "receive": d.can_receive, "re": d.is_resharing, "expected": d.expected_deals(),
                    "deals": deals.iter().map(|x| x.json()).collect::<Vec<_>>(),
                    "c": deals.first().map(|x| ptoks::<S>(&x.c)).unwrap_or(json!([])), "coef": coef}));
                self.nodes.push(d);
                self.who.push(k);
                self.ev(ev);
                true
            }
            o => {
                ev["why"] = Value::from(o.why());
                self.ev(ev);
                false
            }
        }
    }
    /// What nobody should ever see printed.
    fn secrets(&self) -> Vec<Vec<u8>> {
        let mut v: Vec<Sc<S>> = self.keys.clone();
        v.extend(self.sent.iter().flat_map(|x| [x.deal.v, x.deal.rv]));
        for d in self.nodes.iter().filter(|d| d.can_issue) {
            v.extend(d.dealer.private_poly().coefficients());
        }
        v.iter().filter_map(|x| S::hide(x)).collect()
    }
    /// Node `m` may be restarted here.
    fn restart(&mut self, m: usize) {
        if S::grp() == "ed" {
            let sec = self.secrets();
            let d = &self.nodes[m];
            shown(self.log, "node", 4, || prints!(*d), &sec);
        }
        stored(self.log, "node", 10, &mut self.nodes[m], S::same);
    }
    fn mutate(&mut self, m: usize, i: usize, x: &NDeal<S>) {
        <Ped as Kind<S>>::set_deal(&mut self.nodes[m].dealer, i, x);
        self.ev(json!({"op": "mutate", "m": m + 1, "i": i, "deal": x.json()}));
    }
    fn deal_of(&mut self, m: usize, i: usize) -> NDeal<S> {
        <Ped as Kind<S>>::deal(&mut self.nodes[m].dealer, i).unwrap()
    }
    /// The bytes the signature of a distributed deal covers.
    fn deal_msg(index: u32, e: &NEnc<Pt<S>>) -> Vec<u8> {
        bincode::serialize(&(index, (&e.dh, &e.sig, &e.nonce, &e.ct), Vec::<u8>::new())).unwrap()
    }
    fn deals(&mut self, m: usize) {
        self.restart(m);
        let out = call(|| self.nodes[m].deals());
        let mut fresh: Vec<Sent<S>> = vec![];
        if let Out::Ok(dd) = &out {
            let mut ks: Vec<usize> = dd.keys().copied().collect();
            ks.sort();
            for to in ks {
                let d = &dd[&to];
                let deal = self.deal_of(m, to);
                fresh.push(Sent { index: d.index, to, e: <Ped as Kind<S>>::enc_parts(&d.deal), dsig: d.signature.clone(), pt: <Ped as Kind<S>>::deal_bytes(&deal), deal });
            }
        }
        let sent: Vec<Value> = fresh
            .iter()
            .map(|x| {
                merge(enc_json::<S>(&x.e), json!({"index": x.index, "to": x.to, "dsig": hex(&x.dsig), "pt": hex(&x.pt), "deal": x.deal.json(),
                    "msg": hex(&Self::deal_msg(x.index, &x.e)), "vk": S::stok(&self.keys[self.newn[x.to]])}))
            })
            .collect();
        let ev = put(&out, json!({"op": "deals", "m": m + 1}), |_| json!({"sent": sent}));
        self.ev(ev);
        self.sent.extend(fresh);
    }
    fn pdeal(&mut self, m: usize, x: &Sent<S>) {
        let mut raw = ps::Deal { index: x.index, deal: <Ped as Kind<S>>::enc_make(&x.e), signature: x.dsig.clone() };
        self.restart(m);
        stored(self.log, "deal", 12, &mut raw, S::same);
        let out = call(|| self.nodes[m].process_deal(&raw));
        let ev = merge(enc_json::<S>(&x.e), json!({"op": "pdeal", "m": m + 1, "index": x.index, "dsig": hex(&x.dsig), "pt": hex(&x.pt),
            "deal": x.deal.json(), "msg": hex(&Self::deal_msg(x.index, &x.e))}));
        let mut got = None;
        let ev = put(&out, ev, |r| {
            let p = <Ped as Kind<S>>::resp_parts(&r.response);
            got = Some((r.index, p.clone()));
            json!({"resp": {"index": r.index, "sid": hex(&p.sid), "idx": p.idx, "ok": p.ok, "sig": hex(&p.sig)}})
        });
        self.ev(ev);
        self.resp.extend(got);
    }
    fn presp(&mut self, m: usize, index: u32, r: &NResp) {
        let mut raw = ps::Response { index, response: <Ped as Kind<S>>::resp_make(r) };
        self.restart(m);
        stored(self.log, "response", 12, &mut raw, S::same);
        let out = call(|| self.nodes[m].process_response(&raw));
        let mut got = None;
        let ev = json!({"op": "presp", "m": m + 1, "index": index, "sid": hex(&r.sid), "idx": r.idx, "ok": r.ok, "sig": hex(&r.sig)});
        let ev = put(&out, ev, |j| match j {
            None => json!({"hasj": false}),
            Some(j) => {
                let (sid, idx, d, _, sig) = <Ped as Kind<S>>::just_parts(&j.justification);
                got = Some(Just { index: j.index, idx, deal: d.clone(), sid: sid.clone(), sig });
                json!({"hasj": true, "j": {"index": j.index, "sid": hex(&sid), "idx": idx, "deal": d.json()}})
            }
        });
        self.ev(ev);
        self.just.extend(got);
    }
    fn pjust(&mut self, m: usize, j: &Just<S>) {
        let mut raw = ps::Justification { index: j.index, justification: <Ped as Kind<S>>::just_make(&j.sid, j.idx, &j.deal, &j.sig) };
        self.restart(m);
        let sec = self.secrets();
        shown(self.log, "justification", 2, || prints!(raw), &sec);
        stored(self.log, "justification", 6, &mut raw, S::same);
        let out = call(|| self.nodes[m].process_justification(&raw));
        let ev = put(&out, json!({"op": "pjust", "m": m + 1, "index": j.index, "idx": j.idx, "deal": j.deal.json()}), |_| json!({}));
        self.ev(ev);
    }
    fn timeout(&mut self, m: usize) {
        self.restart(m);
        let out = call_v(|| self.nodes[m].set_timeout());
        let ev = put(&out, json!({"op": "timeout", "m": m + 1}), |_| json!({}));
        self.ev(ev);
    }
    fn observe(&mut self, m: usize) {
        self.restart(m);
        let n = self.newn.len() as u32;
        let nd = self.dealers.len() as u32;
        let out = call_v(|| {
            let d = &self.nodes[m];
            let resp: Vec<Vec<&str>> = (0..d.verifiers.len() as u32)
                .map(|k| {
                    let r = d.verifiers()[&k].responses();
                    (0..n).map(|i| r.get(&i).map(|x| if x.status { "ok" } else { "no" }).unwrap_or("none")).collect()
                })
                .collect();
            json!({"qual": d.qual(), "cert": d.certified(), "tcert": d.threshold_certified(), "holders": d.qualified_shares(),
                "inqual": (0..nd + 2).filter(|k| d.is_in_qual(*k)).collect::<Vec<_>>(), "resp": resp})
        });
        let ev = put(&out, json!({"op": "observe", "m": m + 1}), |v| v.clone());
        self.ev(ev);
    }
    fn key(&mut self, m: usize) -> Option<KeyOut<S>> {
        self.restart(m);
        let out = call(|| self.nodes[m].dist_key_share());
        let ev = put(&out, json!({"op": "key", "m": m + 1}), |k| {
            json!({"commits": ptoks::<S>(&k.commits), "i": k.share.i, "v": S::stok(&k.share.v), "public": S::ptok(&k.public()),
                "pp": k.private_poly.iter().map(|x| S::stok(x)).collect::<Vec<_>>()})
        });
        self.ev(ev);
        let mut dks = out.ok()?;
        let mut sec = self.secrets();
        sec.extend(S::hide(&dks.share.v));
        shown(self.log, "key share", 2, || prints!(dks), &sec);
        stored(self.log, "key share", 3, &mut dks, S::same);
        Some(KeyOut { m: m + 1, dks })
    }
    fn agree(&mut self, ks: &[KeyOut<S>], honest: bool, expect: usize) {
        let keys: Vec<Value> = ks
            .iter()
            .map(|k| json!({"m": k.m, "commits": ptoks::<S>(&k.dks.commits), "i": k.dks.share.i, "v": S::stok(&k.dks.share.v)}))
            .collect();
        self.ev(json!({"op": "agree", "keys": keys, "honest": honest, "expect": expect, "out": "ok"}));
    }
    // ------------------------------------------------------------ mischief
    fn sign(&self, x: &Sc<S>, msg: &[u8]) -> Vec<u8> {
        schnorr::sign(&self.s, x, msg).unwrap()
    }
    fn spoil(&mut self, g: &mut Gen, x: &mut NDeal<S>) {
        let one = self.s.scalar().one();
        let n = self.newn.len();
        match g.below(9) {
            0..=2 => x.v = x.v + one,
            3 => x.t = g.range(1, n + 1),
            4 if !x.c.is_empty() => {
                let k = g.below(x.c.len());
                x.c[k] = self.s.point().add(&x.c[k], &self.s.point().base());
            }
            5 => {
                x.c.pop();
            }
            6 => x.c.push(self.s.point().base()),
            7 => x.sid[g.below(32)] ^= 1,
            _ => x.i = (x.i + 1) % n,
        }
    }
    /// A consistent sharing by dealer key k of the given secret.
    fn other(&mut self, k: usize, secret: Sc<S>, t: usize) -> Option<Vec<NDeal<S>>> {
        let v = self.list(&self.newn);
        if t < 2 || t > v.len() {
            return Some(sharing::<S, Ped>(self.s, &self.pubs[k], &v, secret, t));
        }
        let mut d = <Ped as Kind<S>>::new_dealer(self.s, self.keys[k], secret, &v, t).ok()?;
        (0..v.len()).map(|i| <Ped as Kind<S>>::deal(&mut d, i)).collect()
    }
    /// A deal as dealer number `index` would send it.
    fn seal(&self, index: usize, to: usize, deal: &NDeal<S>) -> Sent<S> {
        let k = self.dealers[index];
        let v = self.list(&self.newn);
        let x = nz(self.s);
        let dh = self.s.point().mul(&x, None);
        let sig = self.sign(&self.keys[k], &dh.marshal_binary().unwrap());
        let ctx = <Ped as Kind<S>>::context(self.s, &self.pubs[k], &v);
        let gcm = kyber_rs::dh::AEAD::<S>::new(S::dh_exchange(self.s, x, v[to]), &ctx).unwrap();
        let pt = <Ped as Kind<S>>::deal_bytes(deal);
        let ct = gcm.seal(None, &[0; 12], &pt, Some(&ctx)).unwrap();
        let e = NEnc { dh, sig, nonce: vec![0; 12], ct };
        let dsig = self.sign(&self.keys[k], &Self::deal_msg(index as u32, &e));
        Sent { index: index as u32, to, e, dsig, pt, deal: deal.clone() }
    }
    fn tamper(&mut self, g: &mut Gen, x: &mut Sent<S>) {
        match g.below(7) {
            0 => {
                let k = g.below(x.e.ct.len());
                x.e.ct[k] ^= 1
            }
            1 => {
                let k = g.below(x.dsig.len());
                x.dsig[k] ^= 1
            }
            2 => x.index = g.below(self.dealers.len() + 2) as u32,
            3 => {
                // passed off as one's own
                let k = g.below(self.dealers.len());
                x.index = k as u32;
                x.dsig = self.sign(&self.keys[self.dealers[k]], &Self::deal_msg(x.index, &x.e));
            }
            4 => {
                let k = g.below(self.keys.len());
                x.dsig = self.sign(&self.keys[k], &Self::deal_msg(x.index, &x.e));
            }
            5 => x.e.nonce[0] ^= 1,
            _ => x.dsig.clear(),
        }
    }
    fn any_resp(&mut self, g: &mut Gen) -> (u32, NResp) {
        let nd = self.dealers.len();
        if !self.resp.is_empty() && g.chance(3, 4) {
            let (mut index, mut r) = g.pick(&self.resp).clone();
            match g.below(12) {
                0 => r.ok = !r.ok,
                1 => index = g.below(nd) as u32,
                2 => r.idx = g.below(self.newn.len() + 2) as u32,
                3 => {
                    let k = g.below(r.sig.len());
                    r.sig[k] ^= 1
                }
                4 => {
                    r.ok = !r.ok;
                    if let Some(k) = self.newn.get(r.idx as usize) {
                        r.sig = self.sign(&self.keys[*k], &resp_msg(&r.sid, r.idx, r.ok));
                    }
                }
                _ => {}
            }
            (index, r)
        } else {
            let index = g.below(nd);
            let i = g.below(self.newn.len());
            let m = self.nodes.iter().position(|d| d.can_issue && d.oidx == index);
            let sid = match m {
                Some(m) if g.chance(7, 8) => self.nodes[m].dealer.session_id(),
                _ => g.bytes(32),
            };
            let ok = g.chance(1, 3);
            let sig = self.sign(&self.keys[self.newn[i]], &resp_msg(&sid, i as u32, ok));
            let r = (index as u32, NResp { sid, idx: i as u32, ok, sig });
            if g.chance(1, 2) {
                self.resp.push(r.clone());
            }
            r
        }
    }
    fn any_just(&mut self, g: &mut Gen) -> Option<Just<S>> {
        if !self.just.is_empty() && g.chance(2, 3) {
            let mut j = g.pick(&self.just).clone();
            match g.below(6) {
                0 => {
                    let mut d = j.deal.clone();
                    self.spoil(g, &mut d);
                    j.deal = d;
                }
                1 => j.index = g.below(self.dealers.len() + 1) as u32,
                2 => j.idx = g.below(self.newn.len()) as u32,
                _ => {}
            }
            return Some(j);
        }
        let m = (0..self.nodes.len()).filter(|m| self.nodes[*m].can_issue).collect::<Vec<_>>();
        if m.is_empty() {
            return None;
        }
        let m = *g.pick(&m);
        let i = g.below(self.newn.len());
        let mut deal = self.deal_of(m, i);
        if g.chance(1, 4) {
            let k = self.who[m];
            let (sec, t) = (self.s.scalar().pick(&mut SeededStream), self.nodes[m].new_t);
            if let Some(o) = self.other(k, sec, t) {
                deal = o[i].clone();
            }
        }
        Some(Just { index: self.nodes[m].oidx as u32, idx: i as u32, sid: deal.sid.clone(), deal, sig: vec![1, 2] })
    }
    /// How dealer m cheats.
    fn cheat(&mut self, g: &mut Gen, m: usize) {
        let n = self.newn.len();
        let t = self.nodes[m].new_t;
        match g.below(4) {
            0 | 1 => {
                for _ in 0..g.range(1, 2) {
                    let i = g.below(n);
                    let mut x = self.deal_of(m, i);
                    self.spoil(g, &mut x);
                    self.mutate(m, i, &x);
                }
            }
            2 => {
                // another sharing for some, of another or (resharing) of the same secret
                let k = self.who[m];
                let sec = if g.chance(1, 2) { self.nodes[m].dealer.secret } else { self.s.scalar().pick(&mut SeededStream) };
                if let Some(o) = self.other(k, sec, t) {
                    let all = g.chance(1, 3);
                    for i in 0..n {
                        if all || g.chance(1, 2) {
                            self.mutate(m, i, &o[i]);
                        }
                    }
                }
            }
            _ => {
                // another degree
                let k = self.who[m];
                let sec = self.nodes[m].dealer.secret;
                let t2 = if g.chance(1, 4) { n + 1 } else { t - 1 };
                if t2 > 0 {
                    if let Some(o) = self.other(k, sec, t2) {
                        for i in 0..n {
                            self.mutate(m, i, &o[i]);
                        }
                    }
                }
            }
        }
    }
    /// The node a deal belongs to.
    fn node_at(&self, to: usize) -> Option<usize> {
        self.who.iter().position(|k| *k == self.newn[to])
    }
    fn storm(&mut self, g: &mut Gen, steps: usize) {
        let all: Vec<usize> = (0..self.nodes.len()).collect();
        let mut todo: Vec<usize> = vec![];
        let mut seen = 0;
        let mut dealt: Vec<usize> = all.clone();
        g.shuffle(&mut dealt);
        for _ in 0..steps {
            while seen < self.sent.len() {
                todo.push(seen);
                seen += 1;
            }
            match g.below(14) {
                0 | 1 => {
                    if let Some(m) = dealt.pop() {
                        self.deals(m);
                    } else if g.chance(1, 6) {
                        let m = *g.pick(&all);
                        self.deals(m);
                    }
                }
                2..=5 => {
                    if !todo.is_empty() {
                        let k = todo.remove(g.below(todo.len()));
                        let x = self.sent[k].clone();
                        if let Some(m) = self.node_at(x.to) {
                            self.pdeal(m, &x);
                        }
                    }
                }
                6 => {
                    if !self.sent.is_empty() {
                        let mut x = g.pick(&self.sent).clone();
                        if g.chance(2, 3) {
                            self.tamper(g, &mut x);
                        }
                        let m = if g.chance(3, 4) { self.node_at(x.to) } else { Some(*g.pick(&all)) };
                        if let Some(m) = m {
                            self.pdeal(m, &x);
                        }
                    }
                }
                7..=9 => {
                    let (i, r) = self.any_resp(g);
                    let m = *g.pick(&all);
                    if self.newn.get(r.idx as usize) == Some(&self.who[m]) && g.chance(3, 4) {
                        continue; // hardly ever words the node itself has not said
                    }
                    self.presp(m, i, &r);
                    if g.chance(1, 5) {
                        self.presp(m, i, &r);
                    }
                }
                10 => {
                    if let Some(j) = self.any_just(g) {
                        let m = *g.pick(&all);
                        self.pjust(m, &j);
                    }
                }
                11 => {
                    if g.chance(1, 5) {
                        let m = *g.pick(&all);
                        self.timeout(m);
                    }
                }
                12 => {
                    let m = *g.pick(&all);
                    self.observe(m);
                }
                _ => {
                    // a dealer sends somebody a deal of its own making
                    if g.chance(1, 3) {
                        let d = g.below(self.dealers.len());
                        let to = g.below(self.newn.len());
                        let t = self.nodes[0].new_t;
                        let sec = self.s.scalar().pick(&mut SeededStream);
                        if let Some(o) = self.other(self.dealers[d], sec, t) {
                            let x = self.seal(d, to, &o[to]);
                            if let Some(m) = self.node_at(to) {
                                self.pdeal(m, &x);
                            }
                        }
                    }
                }
            }
        }
        // everything that is left arrives
        for m in dealt {
            self.deals(m);
        }
        while seen < self.sent.len() {
            todo.push(seen);
            seen += 1;
        }
        if g.chance(1, 8) {
            todo.truncate(g.below(todo.len() + 1));
        }
        for k in todo {
            let x = self.sent[k].clone();
            if let Some(m) = self.node_at(x.to) {
                self.pdeal(m, &x);
            }
        }
        let loss = g_chance_loss(g);
        self.broadcast(g, loss);
        if g.chance(1, 2) {
            for m in &all {
                self.timeout(*m);
            }
        }
    }
    fn broadcast(&mut self, g: &mut Gen, loss: usize) {
        let mut k = 0;
        while k < self.resp.len() {
            let (i, r) = self.resp[k].clone();
            for m in 0..self.nodes.len() {
                if loss > 0 && g.chance(1, loss) {
                    continue;
                }
                self.presp(m, i, &r);
            }
            k += 1;
        }
        let js = self.just.clone();
        for j in &js {
            for m in 0..self.nodes.len() {
                if loss > 0 && g.chance(1, loss) {
                    continue;
                }
                self.pjust(m, j);
            }
        }
    }
    pub fn finish(&mut self, honest: bool, expect: usize) -> Vec<KeyOut<S>> {
        let mut ks = vec![];
        for m in 0..self.nodes.len() {
            self.observe(m);
            ks.extend(self.key(m));
        }
        self.agree(&ks, honest, expect);
        ks
    }
    /// Everybody does what they should; messages arrive in any order.
    pub fn honest_run(&mut self, g: &mut Gen) {
        self.lossy_run(g, 0)
    }
    /// Everybody does as they should, but so many deals get lost.
    pub fn lossy_run(&mut self, g: &mut Gen, lost: usize) {
        let mut ms: Vec<usize> = (0..self.nodes.len()).collect();
        g.shuffle(&mut ms);
        for m in ms {
            self.deals(m);
        }
        let mut all: Vec<usize> = (0..self.sent.len()).collect();
        g.shuffle(&mut all);
        all.truncate(all.len().saturating_sub(lost));
        for k in all {
            let x = self.sent[k].clone();
            if let Some(m) = self.node_at(x.to) {
                self.pdeal(m, &x);
            }
        }
        let mut mail: Vec<(usize, usize)> = (0..self.nodes.len()).flat_map(|m| (0..self.resp.len()).map(move |k| (m, k))).collect();
        g.shuffle(&mut mail);
        for (m, k) in mail {
            let (i, r) = self.resp[k].clone();
            self.presp(m, i, &r);
        }
        if lost > 0 {
            for m in 0..self.nodes.len() {
                self.timeout(m);
            }
        }
    }
    pub fn fresh_nodes(&mut self, g: &mut Gen, n: usize, t: usize, short: bool) -> bool {
        let l: Vec<usize> = (0..n).collect();
        self.dealers = l.clone();
        self.newn = l.clone();
        let mut ok = true;
        let rds: Vec<Vec<u8>> = (0..2).map(|_| g.bytes(32 * 40)).collect();
        for k in 0..n {
            self.rd = g.chance(1, 2).then(|| (rds[g.below(2)].clone(), g.chance(1, 2)));
            ok &= self.node(k, &[], &l, t, 0, None, None, short);
        }
        self.rd = None;
        ok
    }
    /// Old nodes 0..no with shares of p; new nodes as listed.
    #[allow(clippy::too_many_arguments)]
    pub fn reshare_nodes(&mut self, g: &mut Gen, shares: &[ps::DistKeyShare<S>], new: &[usize], oldt: usize, t: usize, wild: bool) -> bool {
        let old: Vec<usize> = (0..shares.len()).collect();
        self.dealers = old.clone();
        self.newn = new.to_vec();
        self.re = true;
        let commits = shares[0].commits.clone();
        let mut who: Vec<usize> = old.clone();
        who.extend(new.iter().filter(|k| **k >= shares.len()));
        let mut ok = true;
        for k in who {
            let share = shares.get(k).cloned();
            if wild && share.is_some() && self.nodes.len() > 1 && g.chance(1, 10) {
                continue;
            }
            let pubc = if share.is_none() || g.chance(1, 4) { Some(commits.clone()) } else { None };
            self.rd = g.chance(1, 6).then(|| (g.bytes(40), g.chance(1, 2)));
            ok &= self.node(k, &old, new, t, oldt, share, pubc, false);
        }
        ok
    }
}
fn g_chance_loss(g: &mut Gen) -> usize {
    if g.chance(3, 4) {
        0
    } else {
        g.range(3, 12)
    }
}

/// Shares of a key nobody needs to know: degree t - 1, n holders.
pub fn shares<S: KvSuite>(s: S, n: usize, t: usize, secret: Option<Sc<S>>) -> Vec<ps::DistKeyShare<S>> {
    let p = new_pri_poly(s, t, secret, SeededStream);
    let (_, commits) = p.commit(None).info();
    (0..n)
        .map(|i| ps::DistKeyShare { commits: commits.clone(), share: PriShare { i, v: p.eval(i).v }, private_poly: vec![] })
        .collect()
}

fn fresh<S: KvSuite>(s: S, g: &mut Gen, log: &mut Log) {
    let n = *g.pick(&[2, 3, 3, 3, 4, 4, 5]);
    let mut w = World::<S>::new(s, n + 1, log);
    let t = match g.below(10) {
        0 => 0,
        1 if g.chance(1, 2) => *g.pick(&[1, n + 1]),
        _ => g.range(2, n),
    };
    if g.chance(1, 12) {
        // configurations that cannot be
        w.dealers = (0..n).collect();
        w.newn = w.dealers.clone();
        let mut l = w.newn.clone();
        match g.below(3) {
            0 => l[n - 1] = l[0],
            1 => l.clear(),
            _ => {}
        }
        let k = if g.chance(1, 2) { 0 } else { n };
        w.node(k, &[], &l, t, 0, None, None, g.chance(1, 2));
        return;
    }
    if {
        let short = g.chance(1, 2);
        !w.fresh_nodes(g, n, t, short)
    } {
        return;
    }
    if g.chance(1, 2) {
        let m = g.below(n);
        w.cheat(g, m);
    }
    let steps = g.range(0, 14 * n);
    w.storm(g, steps);
    w.finish(false, n);
}
fn new_group(g: &mut Gen, no: usize, nn: usize) -> Vec<usize> {
    // some stay, some join
    let mut l: Vec<usize> = (0..no + nn).collect();
    g.shuffle(&mut l);
    match g.below(4) {
        0 => (0..nn).map(|k| k % (no + nn)).collect(),
        1 => (no..no + nn).collect(),
        _ => l[..nn].to_vec(),
    }
}
fn reshare<S: KvSuite>(s: S, g: &mut Gen, log: &mut Log) {
    let (no, nn) = (g.range(2, 4), g.range(2, 4));
    let oldt = g.range(2, no);
    let new = new_group(g, no, nn);
    let t = match g.below(8) {
        0 => 0,
        1 if g.chance(1, 3) => *g.pick(&[1, nn + 1]),
        _ => g.range(2, nn),
    };
    let mut w = World::<S>::new(s, no + nn, log);
    let secret = match g.below(6) {
        0 => Some(s.scalar().zero()),
        1 => Some(s.scalar().one()),
        _ => None,
    };
    let mut sh = shares(s, no, oldt, secret);
    if g.chance(1, 12) {
        // configurations that cannot be
        w.dealers = (0..no).collect();
        w.newn = new.clone();
        let old: Vec<usize> = (0..no).collect();
        let c = Some(sh[0].commits.clone());
        match g.below(4) {
            0 => w.node(0, &old, &new, t, 0, Some(sh[0].clone()), None, false),
            1 => w.node(0, &[], &new, t, oldt, Some(sh[0].clone()), None, false),
            2 => w.node(no, &[], &new, t, oldt, None, c, false),
            _ => w.node(no, &old, &new, t, 0, None, c, false),
        };
        return;
    }
    if g.chance(1, 4) {
        // somebody reshares something else
        let k = g.below(no);
        let one = s.scalar().one();
        sh[k].share.v = sh[k].share.v + one;
    }
    if !w.reshare_nodes(g, &sh, &new, oldt, t, true) {
        return;
    }
    if g.chance(1, 2) {
        let issuers: Vec<usize> = (0..w.nodes.len()).filter(|m| w.nodes[*m].can_issue).collect();
        if !issuers.is_empty() {
            let m = *g.pick(&issuers);
            w.cheat(g, m);
        }
    }
    let steps = g.range(0, 12 * (no + nn));
    w.storm(g, steps);
    w.finish(false, 0);
}
fn honest_fresh<S: KvSuite>(s: S, g: &mut Gen, n: usize, t: usize, log: &mut Log) {
    let mut w = World::<S>::new(s, n, log);
    w.fresh_nodes(g, n, t, true);
    w.honest_run(g);
    w.finish(true, n);
}
fn honest_reshare<S: KvSuite>(s: S, g: &mut Gen, no: usize, oldt: usize, new: &[usize], t: usize, log: &mut Log) {
    let mut w = World::<S>::new(s, no + new.len(), log);
    let sh = shares(s, no, oldt, None);
    w.reshare_nodes(g, &sh, new, oldt, t, false);
    w.honest_run(g);
    w.finish(true, new.len());
}

/// Configurations with entropy sources of the user, failing ones included.
fn sources<S: KvSuite>(s: S, g: &mut Gen, log: &mut Log) {
    let n = g.range(2, 4);
    let mut w = World::<S>::new(s, n, log);
    let l: Vec<usize> = (0..n).collect();
    let rds: Vec<Vec<u8>> = (0..3)
        .map(|_| {
            let k = *g.pick(&[0, 1, 31, 32, 33, 64, 96, 200]);
            g.bytes(k)
        })
        .collect();
    for _ in 0..12 {
        w.rd = Some((g.pick(&rds).clone(), g.chance(1, 2)));
        let k = g.below(n);
        w.node(k, &[], &l, if g.chance(1, 12) { n + 1 } else { n }, 0, None, None, false);
    }
}
pub fn run_fresh(seed: u64, thorough: bool, log: &mut Log) {
    let mut g = Gen::new(seed ^ 0xd6);
    seed_rng(seed ^ 0xd7);
    let k = if thorough { 12 } else { 1 };
    for i in 0..70 * k {
        guard(log, |log| {
            if i % 6 == 0 {
                fresh::<Toy<1009>>(Toy {}, &mut g, log)
            } else {
                fresh::<Toy<P61>>(Toy {}, &mut g, log)
            }
        });
    }
    for _ in 0..3 * k {
        guard(log, |log| sources::<SuiteEd25519>(SuiteEd25519::make(), &mut g, log));
    }
    for n in 2..=5 {
        for t in (2..=n).chain(if n > 2 { Some(0) } else { None }) {
            guard(log, |log| honest_fresh::<Toy<P61>>(Toy {}, &mut g, n, t, log));
        }
    }
    let (n, t) = (g.range(7, 9), g.range(4, 6));
    guard(log, |log| honest_fresh::<Toy<P61>>(Toy {}, &mut g, n, t, log));
    for _ in 0..6 * k {
        guard(log, |log| {
            let (n, lost) = (g.range(3, 4), g.range(1, 3));
            let mut w = World::<Toy<P61>>::new(Toy {}, n, log);
            w.fresh_nodes(&mut g, n, 2, true);
            w.lossy_run(&mut g, lost);
            w.finish(false, 0);
        });
    }
    guard(log, |log| honest_fresh::<SuiteEd25519>(SuiteEd25519::make(), &mut g, 3, 2, log));
    for _ in 0..2 * k {
        guard(log, |log| fresh::<SuiteEd25519>(SuiteEd25519::make(), &mut g, log));
    }
}
pub fn run_reshare(seed: u64, thorough: bool, log: &mut Log) {
    let mut g = Gen::new(seed ^ 0xd8);
    seed_rng(seed ^ 0xd9);
    let k = if thorough { 12 } else { 1 };
    for i in 0..80 * k {
        guard(log, |log| {
            if i % 6 == 0 {
                reshare::<Toy<1009>>(Toy {}, &mut g, log)
            } else {
                reshare::<Toy<P61>>(Toy {}, &mut g, log)
            }
        });
    }
    for no in 2..=4usize {
        for nn in 2..=4usize {
            for new in [(0..nn).collect::<Vec<_>>(), (no..no + nn).collect(), (1..=nn).rev().collect()] {
                let (oldt, t) = (g.range(2, no), g.range(2, nn));
                guard(log, |log| honest_reshare::<Toy<P61>>(Toy {}, &mut g, no, oldt, &new, t, log));
            }
        }
    }
    let (oldt, t) = (g.range(2, 7), g.range(4, 6));
    guard(log, |log| honest_reshare::<Toy<P61>>(Toy {}, &mut g, 7, oldt, &[9, 2, 8, 0, 6, 7, 10], t, log));
    for _ in 0..8 * k {
        guard(log, |log| {
            let mut w = World::<Toy<P61>>::new(Toy {}, 8, log);
            let new = g.pick(&[vec![0, 1, 2, 3], vec![4, 5, 6], vec![2, 4, 0, 5]]).clone();
            let oldt = g.range(2, 3);
            let sh = shares(Toy {}, 4, oldt, None);
            w.reshare_nodes(&mut g, &sh, &new, oldt, 2, false);
            let lost = g.range(1, 3);
            w.lossy_run(&mut g, lost);
            w.finish(false, 0);
        });
    }
    guard(log, |log| honest_reshare::<SuiteEd25519>(SuiteEd25519::make(), &mut g, 3, 2, &[1, 3, 4], 2, log));
    for _ in 0..2 * k {
        guard(log, |log| reshare::<SuiteEd25519>(SuiteEd25519::make(), &mut g, log));
    }
    renewals::<Toy<P61>>(Toy {}, &mut g, 60 * k, log);
    renewals::<Toy<1009>>(Toy {}, &mut g, 20 * k, log);
    renewals::<SuiteEd25519>(SuiteEd25519::make(), &mut g, 8 * k, log);
}
fn renewals<S: KvSuite>(s: S, g: &mut Gen, count: usize, log: &mut Log) {
    for _ in 0..count {
        let n = g.range(2, 5);
        let t = g.range(2, n);
        log.begin(json!({"grp": S::grp(), "q": S::order()}));
        let d = shares(s, n, t, if g.chance(1, 6) { Some(s.scalar().zero()) } else { None });
        let t2 = if g.chance(3, 4) { t } else { g.range(1, n + 1) };
        let z = shares(s, n, t2, if g.chance(5, 6) { Some(s.scalar().zero()) } else { None });
        for i in 0..n {
            let j = if g.chance(5, 6) { i } else { g.below(n) };
            let (a, mut b) = (d[i].clone(), z[j].clone());
            if let Some(low) = S::low(g.below(8) as u8) {
                // a public key that is zero up to an element of small order
                if g.chance(1, 2) {
                    b.commits[0] = s.point().add(&b.commits[0], &low);
                }
            }
            let ev = json!({"op": "renew", "dc": ptoks::<S>(&a.commits), "gc": ptoks::<S>(&b.commits), "di": i, "gi": j,
                "dv": S::stok(&a.share.v), "gv": S::stok(&b.share.v)});
            let out = call(|| a.renew(s, b));
            let ev = put(&out, ev, |k| json!({"commits": ptoks::<S>(&k.commits), "i": k.share.i, "v": S::stok(&k.share.v), "public": S::ptok(&k.public())}));
            log.ev(ev);
        }
        log.end();
    }
}

/// Behaviours of spec/DkgPedGen.tla: what one node (number 0) is shown about one dealer.
fn script<S: KvSuite>(s: S, row: &Value, log: &mut Log) {
    let role = &row[0];
    let name = role["role"].as_str().unwrap();
    let d = if role["own"].as_bool().unwrap() { 0 } else { 1 };
    let l: Vec<usize> = vec![0, 1, 2];
    let mut w = World::<S>::new(s, 4, log);
    w.dealers = l.clone();
    w.newn = if name == "leaving" { vec![1, 2, 3] } else { l.clone() };
    let secret = if name == "fresh" {
        w.node(0, &[], &l, 2, 0, None, None, false);
        if d == 0 { w.nodes[0].dealer.secret } else { nz(s) }
    } else {
        w.re = true;
        let sh = shares(s, 3, 2, None);
        let new = w.newn.clone();
        w.node(0, &l, &new, 2, 2, Some(sh[0].clone()), None, false);
        sh[d].share.v
    };
    let good: Vec<NDeal<S>> = if d == 0 { (0..3).map(|i| w.deal_of(0, i)).collect() } else { w.other(1, secret, 2).unwrap() };
    let alt = w.other(d, secret, 2).unwrap();
    let contra = w.other(d, secret + s.scalar().one(), 2).unwrap();
    let make = |w: &World<S>, i: usize, what: &str| -> NDeal<S> {
        let mut x = match what {
            "alt" => alt[i].clone(),
            "contra" => contra[i].clone(),
            "wrongidx" => good[(i + 1) % 3].clone(),
            _ => good[i].clone(),
        };
        if what == "bad" {
            x.v = x.v + w.s.scalar().one();
        }
        x
    };
    for i in 0..3 {
        if role["dl"][i].as_str() == Some("bad") {
            let mut x = w.deal_of(0, i);
            x.v = x.v + s.scalar().one();
            w.mutate(0, i, &x);
        }
    }
    for st in row.as_array().unwrap().iter().skip(1) {
        let what = st["d"].as_str().unwrap_or("");
        match st["op"].as_str().unwrap() {
            "deals" => w.deals(0),
            "deal" => {
                let x = make(&w, 0, what);
                let x = w.seal(d, 0, &x);
                w.pdeal(0, &x);
            }
            "resp" => {
                let k = as_usize(&st["from"]);
                let ok = st["ok"].as_bool().unwrap();
                let sid = if what == "alt" { alt[0].sid.clone() } else { good[0].sid.clone() };
                let by = if st["signed"].as_bool().unwrap() { w.newn[k] } else { w.newn[(k + 1) % 3] };
                let sig = w.sign(&w.keys[by], &resp_msg(&sid, k as u32, ok));
                w.presp(0, d as u32, &NResp { sid, idx: k as u32, ok, sig });
            }
            "just" => {
                let k = as_usize(&st["idx"]);
                let deal = make(&w, k, what);
                w.pjust(0, &Just { index: d as u32, idx: k as u32, sid: deal.sid.clone(), deal, sig: vec![1, 2] });
            }
            "timeout" => w.timeout(0),
            x => panic!("script {x}"),
        }
    }
    w.finish(false, 0);
}
pub fn run_scripts(rows: &[Value], log: &mut Log) {
    for row in rows {
        guard(log, |log| script::<Toy<P61>>(Toy {}, row, log));
    }
}
