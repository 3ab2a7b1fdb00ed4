//! Executions of Rabin's distributed key generation (spec/DkgRab.tla).
use crate::core::*;
use crate::toy::*;
use crate::vss::{put, resp_msg};
use crate::vsskind::*;
use kyber_rs::encoding::BinaryMarshaler;
use kyber_rs::group::edwards25519::SuiteEd25519;
use kyber_rs::share::dkg::rabin as rb;
use kyber_rs::share::poly::PriShare;
use kyber_rs::sign::schnorr;
use kyber_rs::{Point, Scalar};
use serde_json::{json, Value};

type Node<S> = rb::DistKeyGenerator<S>;

#[derive(Clone)]
struct Sent<S: KvSuite> {
    index: u32,
    to: usize,
    e: NEnc<Pt<S>>,
    pt: Vec<u8>,
    deal: NDeal<S>,
}
#[derive(Clone)]
struct Just<S: KvSuite> {
    index: u32,
    idx: u32,
    deal: NDeal<S>,
    sid: Vec<u8>,
    sig: Vec<u8>,
}
#[derive(Clone)]
struct Cc<S: KvSuite> {
    index: u32,
    dealer: u32,
    deal: NDeal<S>,
    sig: Vec<u8>,
}

struct World<'a, S: KvSuite> {
    s: S,
    log: &'a mut Log,
    keys: Vec<Sc<S>>,
    pubs: Vec<Pt<S>>,
    n: usize,
    t: usize,
    nodes: Vec<Node<S>>,
    sent: Vec<Sent<S>>,
    resp: Vec<(u32, NResp)>,
    just: Vec<Just<S>>,
    sc: Vec<rb::SecretCommits<S>>,
    cc: Vec<Cc<S>>,
    rc: Vec<rb::ReconstructCommits<S>>,
}
fn nz<S: KvSuite>(s: S) -> Sc<S> {
    loop {
        let x = s.scalar().pick(&mut SeededStream);
        if x != s.scalar().zero() {
            return x;
        }
    }
}
fn enc_json<S: KvSuite>(e: &NEnc<Pt<S>>) -> Value {
    json!({"dh": S::ptok(&e.dh), "sig": hex(&e.sig), "nonce": hex(&e.nonce), "ct": hex(&e.ct)})
}

impl<'a, S: KvSuite> World<'a, S> {
    /// n participants, and one key nobody is expected to have.
    fn new(s: S, n: usize, t: usize, log: &'a mut Log) -> Self {
        let mut keys: Vec<Sc<S>> = Vec::new();
        while keys.len() < n + 1 {
            let x = nz(s);
            if !keys.contains(&x) {
                keys.push(x);
            }
        }
        let pubs: Vec<Pt<S>> = keys.iter().map(|x| s.point().mul(x, None)).collect();
        let mut seed = vec![];
        for v in &pubs[..n] {
            seed.extend(v.marshal_binary().unwrap());
        }
        let h = s.point().pick(&mut s.xof(Some(&seed)));
        log.begin(json!({"grp": S::grp(), "q": S::order(), "h": S::ptok(&h), "parts": ptoks::<S>(&pubs[..n])}));
        World { s, log, keys, pubs, n, t, nodes: vec![], sent: vec![], resp: vec![], just: vec![], sc: vec![], cc: vec![], rc: vec![] }
    }
    fn ev(&mut self, e: Value) {
        set_current(e.to_string());
        self.log.ev(e);
    }
    fn parts(&self) -> Vec<Pt<S>> {
        self.pubs[..self.n].to_vec()
    }
    fn node(&mut self, k: usize, parts: &[Pt<S>], t: usize) -> bool {
        let out = call(|| rb::new_dist_key_generator(&self.s, &self.keys[k], parts, t));
        let mut ev = json!({"op": "node", "x": S::stok(&self.keys[k]), "parts": ptoks::<S>(parts), "t": t, "out": out.tag(), "why": out.why()});
        match out {
            Out::Ok(mut d) => {
                let deals: Vec<NDeal<S>> = (0..parts.len()).filter_map(|i| <Rab as Kind<S>>::deal(&mut d.dealer, i)).collect();
                ev = merge(ev, json!({"idx": d.index, "deals": deals.iter().map(|x| x.json()).collect::<Vec<_>>(),
                    "c": deals.first().map(|x| ptoks::<S>(&x.c)).unwrap_or(json!([]))}));
                self.nodes.push(d);
                self.ev(ev);
                true
            }
            _ => {
                self.ev(ev);
                false
            }
        }
    }
    fn all_nodes(&mut self) -> bool {
        let p = self.parts();
        (0..self.n).all(|k| self.node(k, &p, self.t))
    }
    /// What nobody should ever see printed.
    fn secrets(&self) -> Vec<Vec<u8>> {
        let mut v: Vec<Sc<S>> = self.keys.clone();
        v.extend(self.sent.iter().flat_map(|x| [x.deal.v, x.deal.rv]));
        v.extend(self.nodes.iter().map(|d| d.dealer.secret));
        v.iter().filter_map(|x| S::hide(x)).collect()
    }
    /// Node `m` may be restarted here.
    fn restart(&mut self, m: usize) {
        if S::grp() == "ed" {
            let sec = self.secrets();
            let d = &self.nodes[m];
            shown(self.log, "node", 4, || prints!(*d), &sec);
        }
        stored(self.log, "node", 10, &mut self.nodes[m], S::same);
    }
    fn mutate(&mut self, m: usize, i: usize, x: &NDeal<S>) {
        <Rab as Kind<S>>::set_deal(&mut self.nodes[m].dealer, i, x);
        self.ev(json!({"op": "mutate", "m": m + 1, "i": i, "deal": x.json()}));
    }
    fn deal_of(&mut self, m: usize, i: usize) -> NDeal<S> {
        <Rab as Kind<S>>::deal(&mut self.nodes[m].dealer, i).unwrap()
    }
    fn deals(&mut self, m: usize) {
        self.restart(m);
        let out = call(|| self.nodes[m].deals());
        let mut fresh: Vec<Sent<S>> = vec![];
        if let Out::Ok(dd) = &out {
            let mut ks: Vec<usize> = dd.keys().copied().collect();
            ks.sort();
            for to in ks {
                let d = &dd[&to];
                let deal = self.deal_of(m, to);
                fresh.push(Sent { index: d.index, to, e: <Rab as Kind<S>>::enc_parts(&d.deal), pt: <Rab as Kind<S>>::deal_bytes(&deal), deal });
            }
        }
        let sent: Vec<Value> = fresh
            .iter()
            .map(|x| merge(enc_json::<S>(&x.e), json!({"index": x.index, "to": x.to, "pt": hex(&x.pt), "deal": x.deal.json(), "vk": S::stok(&self.keys[x.to])})))
            .collect();
        let ev = put(&out, json!({"op": "deals", "m": m + 1}), |_| json!({"sent": sent}));
        self.ev(ev);
        self.sent.extend(fresh);
    }
    fn pdeal(&mut self, m: usize, x: &Sent<S>) {
        let mut raw = rb::Deal { index: x.index, deal: <Rab as Kind<S>>::enc_make(&x.e) };
        self.restart(m);
        stored(self.log, "deal", 12, &mut raw, S::same);
        let out = call(|| self.nodes[m].process_deal(&raw));
        let ev = merge(enc_json::<S>(&x.e), json!({"op": "pdeal", "m": m + 1, "index": x.index, "pt": hex(&x.pt), "deal": x.deal.json()}));
        let mut got = None;
        let ev = put(&out, ev, |r| {
            let p = <Rab as Kind<S>>::resp_parts(&r.response);
            got = Some((r.index, p.clone()));
            json!({"resp": {"index": r.index, "sid": hex(&p.sid), "idx": p.idx, "ok": p.ok, "sig": hex(&p.sig)}})
        });
        self.ev(ev);
        self.resp.extend(got);
    }
    fn presp(&mut self, m: usize, index: u32, r: &NResp) {
        let mut raw = rb::Response { index, response: <Rab as Kind<S>>::resp_make(r) };
        self.restart(m);
        stored(self.log, "response", 12, &mut raw, S::same);
        let out = call(|| self.nodes[m].process_response(&raw));
        let mut got = None;
        let ev = json!({"op": "presp", "m": m + 1, "index": index, "sid": hex(&r.sid), "idx": r.idx, "ok": r.ok, "sig": hex(&r.sig)});
        let ev = put(&out, ev, |j| match j {
            None => json!({"hasj": false}),
            Some(j) => {
                let (sid, idx, d, _, sig) = <Rab as Kind<S>>::just_parts(&j.justification);
                got = Some(Just { index: j.index, idx, deal: d.clone(), sid: sid.clone(), sig });
                json!({"hasj": true, "j": {"index": j.index, "sid": hex(&sid), "idx": idx, "deal": d.json()}})
            }
        });
        self.ev(ev);
        self.just.extend(got);
    }
    fn pjust(&mut self, m: usize, j: &Just<S>) {
        let mut raw = rb::Justification { index: j.index, justification: <Rab as Kind<S>>::just_make(&j.sid, j.idx, &j.deal, &j.sig) };
        self.restart(m);
        let sec = self.secrets();
        shown(self.log, "justification", 2, || prints!(raw), &sec);
        stored(self.log, "justification", 6, &mut raw, S::same);
        let out = call(|| self.nodes[m].process_justification(&raw));
        let ev = put(&out, json!({"op": "pjust", "m": m + 1, "index": j.index, "idx": j.idx, "deal": j.deal.json()}), |_| json!({}));
        self.ev(ev);
    }
    fn timeout(&mut self, m: usize) {
        self.restart(m);
        let out = call_v(|| self.nodes[m].set_timeout());
        let ev = put(&out, json!({"op": "timeout", "m": m + 1}), |_| json!({}));
        self.ev(ev);
    }
    fn observe(&mut self, m: usize) {
        self.restart(m);
        let n = self.n as u32;
        let out = call_v(|| {
            let d = &self.nodes[m];
            let resp: Vec<Vec<&str>> = (0..n)
                .map(|k| match d.verifiers.get(&k) {
                    None => vec![],
                    Some(v) => {
                        let o = <Rab as Kind<S>>::vobs(v).ok().unwrap();
                        (0..n).map(|i| o.resp.get(&i).map(|x| if *x { "ok" } else { "no" }).unwrap_or("none")).collect()
                    }
                })
                .collect();
            json!({"qual": d.qual(), "cert": d.certified(), "fin": d.finished(), "inqual": (0..n + 2).filter(|k| d.is_in_qual(*k)).collect::<Vec<_>>(), "resp": resp})
        });
        let ev = put(&out, json!({"op": "observe", "m": m + 1}), |v| v.clone());
        self.ev(ev);
    }
    // --------------------------------------------------- second phase
    fn reveal(&mut self, m: usize) {
        self.restart(m);
        let out = call(|| self.nodes[m].secret_commits());
        let ev = put(&out, json!({"op": "reveal", "m": m + 1}), |x| {
            json!({"index": x.index, "commits": ptoks::<S>(&x.commitments), "sid": hex(&x.session_id), "sig": hex(&x.signature)})
        });
        self.ev(ev);
        self.sc.extend(out.ok());
    }
    fn preveal(&mut self, m: usize, x: &rb::SecretCommits<S>) {
        self.restart(m);
        let mut raw = x.clone();
        let sec = self.secrets();
        shown(self.log, "secret commits", 2, || prints!(raw), &sec);
        stored(self.log, "secret commits", 4, &mut raw, S::same);
        let out = call(|| self.nodes[m].process_secret_commits(&raw));
        let mut got = None;
        let ev = json!({"op": "preveal", "m": m + 1, "index": x.index, "commits": ptoks::<S>(&x.commitments), "sid": hex(&x.session_id), "sig": hex(&x.signature)});
        let ev = put(&out, ev, |c| match c {
            None => json!({"has": false}),
            Some(c) => {
                let deal = <Rab as Kind<S>>::parts(&c.deal);
                let c = Cc { index: c.index, dealer: c.dealer_index, deal, sig: c.signature.clone() };
                got = Some(c.clone());
                json!({"has": true, "cc": {"index": c.index, "dealer": c.dealer, "deal": c.deal.json(), "db": hex(&<Rab as Kind<S>>::deal_bytes(&c.deal)), "sig": hex(&c.sig)}})
            }
        });
        self.ev(ev);
        self.cc.extend(got);
    }
    fn pcomplaint(&mut self, m: usize, c: &Cc<S>) {
        let mut raw = rb::ComplaintCommits { index: c.index, dealer_index: c.dealer, deal: <Rab as Kind<S>>::plain(&c.deal), signature: c.sig.clone() };
        self.restart(m);
        let sec = self.secrets();
        shown(self.log, "complaint", 2, || prints!(raw), &sec);
        stored(self.log, "complaint", 4, &mut raw, S::same);
        let out = call(|| self.nodes[m].process_complaint_commits(&raw));
        let ev = json!({"op": "pcomplaint", "m": m + 1, "index": c.index, "dealer": c.dealer, "deal": c.deal.json(),
            "db": hex(&<Rab as Kind<S>>::deal_bytes(&c.deal)), "sig": hex(&c.sig)});
        let ev = put(&out, ev, |r| {
            json!({"rc": {"index": r.index, "dealer": r.dealer_index, "sid": hex(&r.session_id), "i": r.share.i, "v": S::stok(&r.share.v), "sig": hex(&r.signature)}})
        });
        self.ev(ev);
        self.rc.extend(out.ok());
    }
    fn pshare(&mut self, m: usize, r: &rb::ReconstructCommits<S>) {
        self.restart(m);
        let mut raw = r.clone();
        let sec = self.secrets();
        shown(self.log, "share", 2, || prints!(raw), &sec);
        stored(self.log, "share", 4, &mut raw, S::same);
        let out = call(|| self.nodes[m].process_reconstruct_commits(&raw));
        let ev = json!({"op": "pshare", "m": m + 1, "index": r.index, "dealer": r.dealer_index, "sid": hex(&r.session_id),
            "i": r.share.i as u32, "far": r.share.i >> 32 != 0, "v": S::stok(&r.share.v), "sig": hex(&r.signature)});
        let ev = put(&out, ev, |_| json!({}));
        self.ev(ev);
    }
    fn key(&mut self, m: usize) -> Option<Value> {
        self.restart(m);
        let out = call(|| self.nodes[m].dist_key_share());
        let js = |k: &rb::DistKeyShare<S>| json!({"commits": ptoks::<S>(&k.commits), "i": k.share.i, "v": S::stok(&k.share.v), "public": S::ptok(&k.public())});
        let ev = put(&out, json!({"op": "key", "m": m + 1}), js);
        self.ev(ev);
        let mut k = out.ok()?;
        let mut sec = self.secrets();
        sec.extend(S::hide(&k.share.v));
        shown(self.log, "key share", 2, || prints!(k), &sec);
        stored(self.log, "key share", 3, &mut k, S::same);
        Some(merge(js(&k), json!({"m": m + 1})))
    }
    fn finish(&mut self, honest: bool, expect: usize, case: &str) {
        let mut ks = vec![];
        for m in 0..self.nodes.len() {
            self.observe(m);
            ks.extend(self.key(m));
        }
        self.ev(json!({"op": "agree", "keys": ks, "honest": honest, "expect": expect, "case": case, "out": "ok"}));
    }
    // ------------------------------------------------------------ mischief
    fn sign(&self, k: usize, msg: &[u8]) -> Vec<u8> {
        schnorr::sign(&self.s, &self.keys[k], msg).unwrap()
    }
    fn spoil(&mut self, g: &mut Gen, x: &mut NDeal<S>) {
        let one = self.s.scalar().one();
        match g.below(11) {
            0..=2 => x.v = x.v + one,
            3 => x.rv = x.rv + one,
            4 => x.t = g.range(1, self.n + 1),
            5 if !x.c.is_empty() => {
                let k = g.below(x.c.len());
                x.c[k] = self.s.point().add(&x.c[k], &self.s.point().base());
            }
            6 => {
                x.c.pop();
            }
            7 => x.c.push(self.s.point().base()),
            8 => x.sid[g.below(32)] ^= 1,
            9 => x.ri = (x.ri + 1) % self.n,
            _ => {
                x.i = (x.i + 1) % self.n;
                if g.chance(1, 2) {
                    x.ri = x.i;
                }
            }
        }
    }
    fn other(&mut self, k: usize, secret: Sc<S>, t: usize) -> Option<Vec<NDeal<S>>> {
        let v = self.parts();
        if t < 2 || t > v.len() {
            return Some(sharing::<S, Rab>(self.s, &self.pubs[k], &v, secret, t));
        }
        let mut d = <Rab as Kind<S>>::new_dealer(self.s, self.keys[k], secret, &v, t).ok()?;
        (0..v.len()).map(|i| <Rab as Kind<S>>::deal(&mut d, i)).collect()
    }
    fn seal(&self, k: usize, to: usize, deal: &NDeal<S>) -> Sent<S> {
        let x = nz(self.s);
        let dh = self.s.point().mul(&x, None);
        let sig = self.sign(k, &dh.marshal_binary().unwrap());
        let ctx = <Rab as Kind<S>>::context(self.s, &self.pubs[k], &self.parts());
        let gcm = kyber_rs::dh::AEAD::<S>::new(S::dh_exchange(self.s, x, self.pubs[to]), &ctx).unwrap();
        let pt = <Rab as Kind<S>>::deal_bytes(deal);
        let ct = gcm.seal(None, &[0; 12], &pt, Some(&ctx)).unwrap();
        Sent { index: k as u32, to, e: NEnc { dh, sig, nonce: vec![0; 12], ct }, pt, deal: deal.clone() }
    }
    fn tamper(&mut self, g: &mut Gen, x: &mut Sent<S>) {
        match g.below(5) {
            0 => {
                let k = g.below(x.e.ct.len());
                x.e.ct[k] ^= 1
            }
            1 => {
                let k = g.below(x.e.sig.len());
                x.e.sig[k] ^= 1
            }
            2 => x.index = g.below(self.n + 2) as u32,
            3 => {
                let k = g.below(self.n + 1);
                x.e.sig = self.sign(k, &x.e.dh.marshal_binary().unwrap());
            }
            _ => x.e.nonce[0] ^= 1,
        }
    }
    fn any_resp(&mut self, g: &mut Gen) -> (u32, NResp) {
        if !self.resp.is_empty() && g.chance(4, 5) {
            let (mut index, mut r) = g.pick(&self.resp).clone();
            match g.below(12) {
                0 => r.ok = !r.ok,
                1 => index = g.below(self.n + 1) as u32,
                2 => r.idx = g.below(self.n + 2) as u32,
                3 => {
                    let k = g.below(r.sig.len());
                    r.sig[k] ^= 1
                }
                4 => {
                    r.ok = !r.ok;
                    if (r.idx as usize) < self.n {
                        r.sig = self.sign(r.idx as usize, &resp_msg(&r.sid, r.idx, r.ok));
                    }
                }
                _ => {}
            }
            (index, r)
        } else {
            let index = g.below(self.n);
            let i = g.below(self.n);
            let sid = if g.chance(7, 8) { self.nodes[index].dealer.session_id() } else { g.bytes(32) };
            let ok = g.chance(1, 3);
            let sig = self.sign(i, &resp_msg(&sid, i as u32, ok));
            let r = (index as u32, NResp { sid, idx: i as u32, ok, sig });
            if g.chance(1, 2) {
                self.resp.push(r.clone());
            }
            r
        }
    }
    fn any_just(&mut self, g: &mut Gen) -> Just<S> {
        if !self.just.is_empty() && g.chance(2, 3) {
            let mut j = g.pick(&self.just).clone();
            match g.below(7) {
                0 => {
                    let mut d = j.deal.clone();
                    self.spoil(g, &mut d);
                    j.deal = d;
                }
                1 => j.index = g.below(self.n + 1) as u32,
                2 => j.idx = g.below(self.n) as u32,
                _ => {}
            }
            return j;
        }
        let m = g.below(self.n);
        let i = g.below(self.n);
        let mut deal = self.deal_of(m, i);
        if g.chance(1, 4) {
            let sec = self.s.scalar().pick(&mut SeededStream);
            if let Some(o) = self.other(m, sec, self.t) {
                deal = o[i].clone();
            }
        }
        Just { index: m as u32, idx: i as u32, sid: deal.sid.clone(), deal, sig: vec![1, 2] }
    }
    /// How dealer m cheats; its own deal stays good.
    fn cheat(&mut self, g: &mut Gen, m: usize) {
        let (n, t) = (self.n, self.t);
        match g.below(4) {
            0 | 1 => {
                for _ in 0..g.range(1, 2) {
                    let i = g.below(n);
                    if i != m {
                        let mut x = self.deal_of(m, i);
                        self.spoil(g, &mut x);
                        self.mutate(m, i, &x);
                    }
                }
            }
            2 => {
                let sec = self.s.scalar().pick(&mut SeededStream);
                if let Some(o) = self.other(m, sec, t) {
                    for i in 0..n {
                        if i != m && g.chance(2, 3) {
                            self.mutate(m, i, &o[i]);
                        }
                    }
                }
            }
            _ => {
                // another threshold
                let sec = self.s.scalar().pick(&mut SeededStream);
                let t2 = if t > 2 && g.chance(1, 2) { t - 1 } else { t + 1 };
                if let Some(o) = self.other(m, sec, t2) {
                    for i in 0..n {
                        if i != m {
                            self.mutate(m, i, &o[i]);
                        }
                    }
                }
            }
        }
    }
    fn sc_sign(&self, x: &mut rb::SecretCommits<S>, k: usize) {
        x.signature = self.sign(k, &x.hash(&self.s).unwrap());
    }
    fn any_sc(&mut self, g: &mut Gen) -> Option<rb::SecretCommits<S>> {
        if self.sc.is_empty() {
            return None;
        }
        let mut x = g.pick(&self.sc).clone();
        let k = x.index as usize;
        match g.below(10) {
            0 => {
                let k = g.below(x.signature.len());
                x.signature[k] ^= 1
            }
            1 => x.index = g.below(self.n + 2) as u32,
            2 => {
                x.index = g.below(self.n) as u32;
                let k = x.index as usize;
                self.sc_sign(&mut x, k);
            }
            3 => {
                // the commitments of another session, signed for it or for that one
                x.session_id[3] ^= 1;
                if g.chance(1, 2) {
                    self.sc_sign(&mut x, k);
                }
            }
            4 => {
                x.commitments.pop();
                self.sc_sign(&mut x, k);
            }
            5 => {
                x.commitments.push(self.s.point().null());
                self.sc_sign(&mut x, k);
            }
            6 => {
                let j = g.below(x.commitments.len());
                x.commitments[j] = self.s.point().add(&x.commitments[j], &self.s.point().base());
                self.sc_sign(&mut x, k);
            }
            7 => {
                let k = g.below(self.n + 1);
                self.sc_sign(&mut x, k);
            }
            _ => {}
        }
        Some(x)
    }
    fn cc_sign(&self, c: &mut Cc<S>, k: usize) {
        let raw = rb::ComplaintCommits::<S> { index: c.index, dealer_index: c.dealer, deal: <Rab as Kind<S>>::plain(&c.deal), signature: vec![] };
        c.sig = self.sign(k, &raw.hash(&self.s).unwrap());
    }
    fn any_cc(&mut self, g: &mut Gen) -> Cc<S> {
        if !self.cc.is_empty() && g.chance(4, 5) {
            let mut c = g.pick(&self.cc).clone();
            let k = c.index as usize;
            match g.below(10) {
                0 => {
                    let k = g.below(c.sig.len());
                    c.sig[k] ^= 1
                }
                1 => c.index = g.below(self.n + 1) as u32,
                2 => {
                    c.dealer = g.below(self.n + 1) as u32;
                    self.cc_sign(&mut c, k);
                }
                3 => {
                    let mut d = c.deal.clone();
                    self.spoil(g, &mut d);
                    c.deal = d;
                    self.cc_sign(&mut c, k);
                }
                4 => {
                    let k = g.below(self.n + 1);
                    self.cc_sign(&mut c, k);
                }
                _ => {}
            }
            c
        } else {
            // an unfounded complaint
            let (k, d) = (g.below(self.n), g.below(self.n));
            let deal = self.deal_of(d, k);
            let mut c = Cc { index: k as u32, dealer: d as u32, deal, sig: vec![] };
            self.cc_sign(&mut c, k);
            c
        }
    }
    fn rc_sign(&self, r: &mut rb::ReconstructCommits<S>, k: usize) {
        r.signature = self.sign(k, &r.hash(&self.s).unwrap());
    }
    fn any_rc(&mut self, g: &mut Gen, lies: bool) -> Option<rb::ReconstructCommits<S>> {
        if !self.rc.is_empty() && g.chance(4, 5) {
            let mut r = g.pick(&self.rc).clone();
            let k = r.index as usize;
            match g.below(if lies { 14 } else { 8 }) {
                0 => {
                    let k = g.below(r.signature.len());
                    r.signature[k] ^= 1
                }
                1 => r.index = g.below(self.n + 1) as u32,
                2 => {
                    let k = g.below(self.n + 1);
                    self.rc_sign(&mut r, k);
                }
                3 => {
                    r.session_id[2] ^= 1;
                    if g.chance(1, 2) {
                        self.rc_sign(&mut r, k);
                    }
                }
                4 => r.share.i += 1 << 32,
                5 => {
                    // the share of another
                    r.share.i = (r.share.i + g.range(1, self.n)) % self.n;
                    self.rc_sign(&mut r, k);
                }
                8 => {
                    r.dealer_index = g.below(self.n) as u32;
                    self.rc_sign(&mut r, k);
                }
                9 => {
                    r.share.v = r.share.v + self.s.scalar().one();
                    self.rc_sign(&mut r, k);
                }
                10 => {
                    // a share under another name
                    let k = g.below(self.n);
                    r.index = k as u32;
                    self.rc_sign(&mut r, k);
                }
                _ => {}
            }
            return Some(r);
        }
        // a share volunteered
        let (k, d) = (g.below(self.n), g.below(self.n));
        let deal = self.deal_of(d, k);
        let mut r = rb::ReconstructCommits::<S> {
            session_id: deal.sid.clone(),
            index: k as u32,
            dealer_index: d as u32,
            share: PriShare { i: deal.i, v: deal.v },
            signature: vec![],
        };
        self.rc_sign(&mut r, k);
        Some(r)
    }
    fn storm(&mut self, g: &mut Gen, steps: usize) {
        let n = self.n;
        let mut todo: Vec<usize> = vec![];
        let mut seen = 0;
        let mut dealt: Vec<usize> = (0..n).collect();
        g.shuffle(&mut dealt);
        for _ in 0..steps {
            while seen < self.sent.len() {
                todo.push(seen);
                seen += 1;
            }
            match g.below(14) {
                0 | 1 => {
                    if let Some(m) = dealt.pop() {
                        self.deals(m);
                    } else if g.chance(1, 6) {
                        self.deals(g.below(n));
                    }
                }
                2..=5 => {
                    if !todo.is_empty() {
                        let x = self.sent[todo.remove(g.below(todo.len()))].clone();
                        self.pdeal(x.to, &x);
                    }
                }
                6 => {
                    if !self.sent.is_empty() {
                        let mut x = g.pick(&self.sent).clone();
                        if g.chance(2, 3) {
                            self.tamper(g, &mut x);
                        }
                        let m = if g.chance(3, 4) { x.to } else { g.below(n) };
                        self.pdeal(m, &x);
                    }
                }
                7..=9 => {
                    let (i, r) = self.any_resp(g);
                    let m = g.below(n);
                    self.presp(m, i, &r);
                    if g.chance(1, 5) {
                        self.presp(m, i, &r);
                    }
                }
                10 => {
                    let j = self.any_just(g);
                    self.pjust(g.below(n), &j);
                }
                11 => {
                    if g.chance(1, 6) {
                        self.timeout(g.below(n));
                    }
                }
                12 => self.observe(g.below(n)),
                _ => {
                    if g.chance(1, 3) {
                        let (d, to) = (g.below(n), g.below(n));
                        let sec = self.s.scalar().pick(&mut SeededStream);
                        let t2 = if g.chance(1, 2) { self.t } else { g.range(1, n + 1) };
                        if let Some(o) = self.other(d, sec, t2) {
                            let x = self.seal(d, to, &o[to]);
                            self.pdeal(to, &x);
                        }
                    }
                }
            }
        }
        for m in dealt {
            self.deals(m);
        }
        while seen < self.sent.len() {
            todo.push(seen);
            seen += 1;
        }
        if g.chance(1, 10) {
            todo.truncate(g.below(todo.len() + 1));
        }
        for k in todo {
            let x = self.sent[k].clone();
            self.pdeal(x.to, &x);
        }
        let loss = if g.chance(3, 4) { 0 } else { g.range(3, 12) };
        self.broadcast(g, loss);
        if g.chance(2, 3) {
            for m in 0..n {
                self.timeout(m);
            }
            // late justifications
            if g.chance(1, 2) {
                for _ in 0..g.below(3) {
                    let j = self.any_just(g);
                    self.pjust(g.below(n), &j);
                }
            }
        }
    }
    fn broadcast(&mut self, g: &mut Gen, loss: usize) {
        let mut k = 0;
        while k < self.resp.len() {
            let (i, r) = self.resp[k].clone();
            for m in 0..self.nodes.len() {
                if loss > 0 && g.chance(1, loss) {
                    continue;
                }
                self.presp(m, i, &r);
            }
            k += 1;
        }
        let js = self.just.clone();
        for j in &js {
            for m in 0..self.nodes.len() {
                if loss > 0 && g.chance(1, loss) {
                    continue;
                }
                self.pjust(m, j);
            }
        }
    }
    /// Some dealers reveal other commitments than they should.
    fn lie(&mut self, g: &mut Gen, k: usize) {
        let mut x = self.sc[k].clone();
        let d = x.index as usize;
        if g.chance(1, 2) && self.t > 1 {
            // right for everybody but some: f + c (x - x_1)...(x - x_(t-1))
            let mut roots: Vec<usize> = (0..self.n).collect();
            g.shuffle(&mut roots);
            let one = self.s.scalar().one();
            let mut c = vec![nz(self.s)];
            for r in &roots[..self.t - 1] {
                // times (x - (r + 1))
                let root = self.s.scalar().set_int64(*r as i64 + 1);
                let mut d = vec![self.s.scalar().zero(); c.len() + 1];
                for (i, a) in c.iter().enumerate() {
                    d[i + 1] = d[i + 1] + *a;
                    d[i] = self.s.scalar().sub(&d[i], &(*a * root));
                }
                c = d;
            }
            let _ = one;
            for (i, a) in c.iter().enumerate() {
                x.commitments[i] = self.s.point().add(&x.commitments[i], &self.s.point().mul(a, None));
            }
        } else {
            let j = g.below(x.commitments.len());
            x.commitments[j] = self.s.point().add(&x.commitments[j], &self.s.point().base());
        }
        self.sc_sign(&mut x, d);
        self.sc[k] = x;
    }
    fn second(&mut self, g: &mut Gen, steps: usize) {
        let n = self.n;
        let lies = g.chance(1, 3);
        for m in 0..n {
            if g.chance(9, 10) {
                self.reveal(m);
            }
        }
        if g.chance(1, 2) && !self.sc.is_empty() {
            let k = g.below(self.sc.len());
            self.lie(g, k);
        }
        let own: Vec<rb::SecretCommits<S>> = self.sc.clone();
        let mut mail: Vec<(usize, usize)> = (0..n).flat_map(|m| (0..own.len()).map(move |k| (m, k))).collect();
        g.shuffle(&mut mail);
        for _ in 0..steps {
            match g.below(10) {
                0..=3 => {
                    if let Some((m, k)) = mail.pop() {
                        if own[k].index as usize != m {
                            self.preveal(m, &own[k]);
                        }
                    }
                }
                4 | 5 => {
                    if let Some(x) = self.any_sc(g) {
                        self.preveal(g.below(n), &x);
                    }
                }
                6 => {
                    let c = self.any_cc(g);
                    self.pcomplaint(g.below(n), &c);
                }
                7 | 8 => {
                    if let Some(r) = self.any_rc(g, lies) {
                        self.pshare(g.below(n), &r);
                    }
                }
                _ => self.observe(g.below(n)),
            }
        }
        for (m, k) in mail {
            if own[k].index as usize != m {
                self.preveal(m, &own[k]);
            }
        }
        let mut k = 0;
        while k < self.cc.len() {
            let c = self.cc[k].clone();
            for m in 0..n {
                self.pcomplaint(m, &c);
            }
            k += 1;
        }
        for k in 0..self.rc.len() {
            let r = self.rc[k].clone();
            for m in 0..n {
                self.pshare(m, &r);
            }
        }
    }
    fn honest_first(&mut self, g: &mut Gen) {
        let mut ms: Vec<usize> = (0..self.n).collect();
        g.shuffle(&mut ms);
        for m in ms {
            self.deals(m);
        }
        let mut all: Vec<usize> = (0..self.sent.len()).collect();
        g.shuffle(&mut all);
        for k in all {
            let x = self.sent[k].clone();
            self.pdeal(x.to, &x);
        }
        let mut mail: Vec<(usize, usize)> = (0..self.n).flat_map(|m| (0..self.resp.len()).map(move |k| (m, k))).collect();
        g.shuffle(&mut mail);
        for (m, k) in mail {
            let (i, r) = self.resp[k].clone();
            self.presp(m, i, &r);
        }
        for m in 0..self.n {
            self.reveal(m);
        }
    }
    /// Everybody but perhaps one dealer does what they should; nothing is lost.
    fn honest(&mut self, g: &mut Gen, liar: Option<usize>, help: bool) {
        self.honest_first(g);
        let n = self.n;
        if let Some(d) = liar {
            if let Some(k) = self.sc.iter().position(|x| x.index as usize == d) {
                // right for all but one other, so that enough can tell
                let mut x = self.sc[k].clone();
                let mut roots: Vec<usize> = (0..n).filter(|r| *r != d).collect();
                g.shuffle(&mut roots);
                let mut c = vec![nz(self.s)];
                for r in &roots[..self.t - 1] {
                    let root = self.s.scalar().set_int64(*r as i64 + 1);
                    let mut e = vec![self.s.scalar().zero(); c.len() + 1];
                    for (i, a) in c.iter().enumerate() {
                        e[i + 1] = e[i + 1] + *a;
                        e[i] = self.s.scalar().sub(&e[i], &(*a * root));
                    }
                    c = e;
                }
                for (i, a) in c.iter().enumerate() {
                    x.commitments[i] = self.s.point().add(&x.commitments[i], &self.s.point().mul(a, None));
                }
                self.sc_sign(&mut x, d);
                self.sc[k] = x;
            }
        }
        let own = self.sc.clone();
        let mut mail: Vec<(usize, usize)> = (0..n).flat_map(|m| (0..own.len()).map(move |k| (m, k))).collect();
        g.shuffle(&mut mail);
        for (m, k) in mail {
            if own[k].index as usize != m {
                self.preveal(m, &own[k]);
            }
        }
        let mut k = 0;
        while k < self.cc.len() {
            let c = self.cc[k].clone();
            for m in 0..n {
                self.pcomplaint(m, &c);
            }
            k += 1;
        }
        if help {
            // those who complained publish their shares, too
            for c in self.cc.clone() {
                let mut r = rb::ReconstructCommits::<S> {
                    session_id: c.deal.sid.clone(),
                    index: c.index,
                    dealer_index: c.dealer,
                    share: PriShare { i: c.deal.i, v: c.deal.v },
                    signature: vec![],
                };
                self.rc_sign(&mut r, c.index as usize);
                self.rc.push(r);
            }
        }
        let mut mail: Vec<(usize, usize)> = (0..n).flat_map(|m| (0..self.rc.len()).map(move |k| (m, k))).collect();
        g.shuffle(&mut mail);
        for (m, k) in mail {
            let r = self.rc[k].clone();
            if g.chance(1, 4) {
                // what an outsider makes of it on its way comes first
                let mut x = r.clone();
                match g.below(3) {
                    0 => x.session_id[1] ^= 1,
                    1 => x.share.i += 1 << 32,
                    _ => x.share.v = x.share.v + self.s.scalar().one(),
                }
                self.pshare(m, &x);
            }
            self.pshare(m, &r);
        }
    }
}

fn wild<S: KvSuite>(s: S, g: &mut Gen, log: &mut Log) {
    let n = *g.pick(&[2, 3, 3, 3, 4, 4, 5]);
    let t = g.range(2, n);
    let mut w = World::<S>::new(s, n, t, log);
    if g.chance(1, 12) {
        let p = w.parts();
        match g.below(3) {
            0 => w.node(n, &p, t),
            1 => w.node(0, &p, *g.pick(&[0, 1, n + 1])),
            _ => w.node(0, &[], 2),
        };
        return;
    }
    if !w.all_nodes() {
        return;
    }
    if g.chance(1, 2) {
        let m = g.below(n);
        w.cheat(g, m);
    }
    let steps = g.range(0, 10 * n);
    w.storm(g, steps);
    let steps = g.range(0, 8 * n);
    w.second(g, steps);
    w.finish(false, n, "");
}
/// Nothing goes wrong before the commitments are revealed; then anything may.
fn late<S: KvSuite>(s: S, g: &mut Gen, log: &mut Log) {
    let n = *g.pick(&[3, 3, 4, 4, 5]);
    let t = g.range(2, n);
    let mut w = World::<S>::new(s, n, t, log);
    w.all_nodes();
    w.honest_first(g);
    w.sc.clear();
    let steps = g.range(4 * n, 14 * n);
    w.second(g, steps);
    w.finish(false, n, "");
}
fn honest<S: KvSuite>(s: S, g: &mut Gen, n: usize, t: usize, liar: Option<usize>, help: bool, log: &mut Log) {
    let mut w = World::<S>::new(s, n, t, log);
    w.all_nodes();
    w.honest(g, liar, help);
    w.finish(true, n, if liar.is_some() && !help { "wrong commitments" } else { "" });
}
pub fn run(seed: u64, thorough: bool, log: &mut Log) {
    let mut g = Gen::new(seed ^ 0xda);
    seed_rng(seed ^ 0xdb);
    let k = if thorough { 12 } else { 1 };
    for i in 0..45 * k {
        guard(log, |log| {
            if i % 6 == 0 {
                wild::<Toy<1009>>(Toy {}, &mut g, log)
            } else {
                wild::<Toy<P61>>(Toy {}, &mut g, log)
            }
        });
    }
    for i in 0..25 * k {
        guard(log, |log| {
            if i % 6 == 0 {
                late::<Toy<1009>>(Toy {}, &mut g, log)
            } else {
                late::<Toy<P61>>(Toy {}, &mut g, log)
            }
        });
    }
    for n in 2..=5 {
        for t in 2..=n {
            guard(log, |log| honest::<Toy<P61>>(Toy {}, &mut g, n, t, None, false, log));
            if n > 2 && t < n {
                let d = g.below(n);
                guard(log, |log| honest::<Toy<P61>>(Toy {}, &mut g, n, t, Some(d), true, log));
            }
        }
    }
    let (n, t, d) = (g.range(7, 8), g.range(3, 6), g.below(7));
    guard(log, |log| honest::<Toy<P61>>(Toy {}, &mut g, n, t, Some(d), true, log));
    guard(log, |log| honest::<SuiteEd25519>(SuiteEd25519::make(), &mut g, 3, 2, Some(1), true, log));
    guard(log, |log| honest::<Toy<P61>>(Toy {}, &mut g, 5, 3, Some(0), false, log));
    guard(log, |log| wild::<SuiteEd25519>(SuiteEd25519::make(), &mut g, log));
    for _ in 0..k {
        guard(log, |log| late::<SuiteEd25519>(SuiteEd25519::make(), &mut g, log));
    }
}

/// Everything one node is shown about one dealer (spec/DkgRabGen.tla).
fn script<S: KvSuite>(s: S, row: &Value, log: &mut Log) {
    let d = if row[0]["own"].as_bool().unwrap() { 0 } else { 1 };
    let one = s.scalar().one();
    let mut w = World::<S>::new(s, 3, 2, log);
    let p = w.parts();
    w.node(0, &p, 2);
    let good: Vec<NDeal<S>> = if d == 0 { (0..3).map(|i| w.deal_of(0, i)).collect() } else { w.other(1, nz(s), 2).unwrap() };
    let alt = w.other(d, nz(s), 2).unwrap();
    let t3 = w.other(d, nz(s), 3).unwrap();
    let make = |i: usize, what: &str| -> NDeal<S> {
        let mut x = match what {
            "alt" => alt[i].clone(),
            "t3" => t3[i].clone(),
            "wrongidx" => good[(i + 1) % 3].clone(),
            _ => good[i].clone(),
        };
        if what == "bad" {
            x.v = x.v + one;
        }
        x
    };
    for i in 0..3 {
        if row[0]["dl"][i].as_str() == Some("bad") {
            w.mutate(0, i, &make(i, "bad"));
        }
    }
    let approve = |w: &World<S>, sid: &[u8], k: usize, ok: bool, by: usize| NResp {
        sid: sid.to_vec(),
        idx: k as u32,
        ok,
        sig: w.sign(by, &resp_msg(sid, k as u32, ok)),
    };
    let coeffs = |x: &[NDeal<S>]| {
        let slope = s.scalar().sub(&x[1].v, &x[0].v);
        (s.scalar().sub(&x[0].v, &slope), slope)
    };
    // the other dealers are qualified, and reveal their commitments in the end
    let mut reveals: Vec<rb::SecretCommits<S>> = vec![];
    for j in (0..3).filter(|j| *j != d) {
        let sid = if j == 0 {
            w.deals(0);
            w.deal_of(0, 0).sid
        } else {
            let x = w.other(j, nz(s), 2).unwrap();
            let e = w.seal(j, 0, &x[0]);
            w.pdeal(0, &e);
            let (f0, f1) = coeffs(&x);
            let commitments = vec![s.point().mul(&f0, None), s.point().mul(&f1, None)];
            let mut c = rb::SecretCommits::<S> { index: j as u32, commitments, session_id: x[0].sid.clone(), signature: vec![] };
            w.sc_sign(&mut c, j);
            reveals.push(c);
            x[0].sid.clone()
        };
        for k in (1..3).filter(|k| *k != j) {
            let r = approve(&w, &sid, k, true, k);
            w.presp(0, j as u32, &r);
        }
    }
    for st in row.as_array().unwrap().iter().skip(1) {
        let what = st["d"].as_str().unwrap_or("");
        let signed = st["signed"].as_bool().unwrap_or(what != "unsigned");
        let from = st["from"].as_u64().or(st["idx"].as_u64()).unwrap_or(0) as usize;
        let by = |k: usize| if signed { k } else { (k + 1) % 3 };
        match st["op"].as_str().unwrap() {
            "deals" => w.deals(0),
            "deal" => {
                let x = w.seal(d, 0, &make(0, what));
                w.pdeal(0, &x);
            }
            "resp" => {
                let r = approve(&w, &make(0, what).sid, from, st["ok"].as_bool().unwrap(), by(from));
                w.presp(0, d as u32, &r);
            }
            "just" => {
                let deal = make(from, what);
                w.pjust(0, &Just { index: d as u32, idx: from as u32, sid: deal.sid.clone(), deal, sig: vec![1, 2] });
            }
            "timeout" => w.timeout(0),
            "reveal" => w.reveal(0),
            "preveal" => {
                let (mut f0, mut f1) = coeffs(if what == "alt" { &alt } else { &good });
                match what {
                    "half" => (f0, f1) = (s.scalar().sub(&f0, &one), f1 + one),
                    "bad" => f0 = f0 + one,
                    _ => {}
                }
                let mut commitments = vec![s.point().mul(&f0, None), s.point().mul(&f1, None)];
                if what == "short" {
                    commitments.pop();
                }
                let mut x = rb::SecretCommits::<S> { index: d as u32, commitments, session_id: make(0, what).sid, signature: vec![] };
                w.sc_sign(&mut x, by(d));
                w.preveal(0, &x);
            }
            "pcomplaint" => {
                let mut c = Cc::<S> { index: from as u32, dealer: d as u32, deal: make(from, what), sig: vec![] };
                w.cc_sign(&mut c, by(from));
                w.pcomplaint(0, &c);
            }
            "pshare" => {
                let x = if what == "same" { good[0].clone() } else { make(from, what) };
                let mut r = rb::ReconstructCommits::<S> {
                    session_id: x.sid.clone(),
                    index: from as u32,
                    dealer_index: d as u32,
                    share: PriShare { i: x.i, v: x.v },
                    signature: vec![],
                };
                w.rc_sign(&mut r, by(from));
                w.pshare(0, &r);
            }
            x => panic!("script {x}"),
        }
    }
    if d != 0 {
        w.reveal(0);
    }
    for c in &reveals {
        w.preveal(0, c);
    }
    w.finish(false, 0, "");
}
pub fn run_scripts(rows: &[Value], log: &mut Log) {
    for row in rows {
        guard(log, |log| script::<Toy<P61>>(Toy {}, row, log));
    }
}
