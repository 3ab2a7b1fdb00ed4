//! One face for the two verifiable secret sharing modules.
use crate::core::*;
use crate::toy::*;
use kyber_rs::{Group, Point};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub type Sc<S> = <<S as Group>::POINT as Point>::SCALAR;
pub type Pt<S> = <S as Group>::POINT;

/// A deal in the open.  `ri`, `rv` exist in Rabin's scheme only.
#[derive(Clone, Debug, PartialEq)]
pub struct NDeal<S: KvSuite> {
    pub sid: Vec<u8>,
    pub i: usize,
    pub v: Sc<S>,
    pub ri: usize,
    pub rv: Sc<S>,
    pub t: usize,
    pub c: Vec<Pt<S>>,
}
impl<S: KvSuite> NDeal<S> {
    pub fn json(&self) -> Value {
        json!({"sid": hex(&self.sid), "i": self.i, "v": S::stok(&self.v), "ri": self.ri, "rv": S::stok(&self.rv),
               "t": self.t, "c": ptoks::<S>(&self.c)})
    }
}
pub fn ptoks<S: KvSuite>(c: &[Pt<S>]) -> Value {
    Value::from(c.iter().map(|p| S::ptok(p)).collect::<Vec<_>>())
}
#[derive(Clone, Debug)]
pub struct NResp {
    pub sid: Vec<u8>,
    pub idx: u32,
    pub ok: bool,
    pub sig: Vec<u8>,
}
pub struct Obs {
    pub cert: bool,
    pub sid: Vec<u8>,
    pub resp: BTreeMap<u32, bool>,
    pub missing: Vec<usize>,
}
#[derive(Clone)]
pub struct NEnc<P> {
    pub dh: P,
    pub sig: Vec<u8>,
    pub nonce: Vec<u8>,
    pub ct: Vec<u8>,
}

/// Whatever can be printed.
pub trait Show: std::fmt::Display + std::fmt::Debug {}
impl<T: std::fmt::Display + std::fmt::Debug> Show for T {}
pub trait Kind<S: KvSuite>: 'static {
    const NAME: &'static str;
    type D: Serialize + DeserializeOwned + Show + 'static;
    type V: Clone + Serialize + DeserializeOwned + Show + 'static;
    type E: Clone + Serialize + DeserializeOwned + 'static;
    type R: Clone + Serialize + DeserializeOwned + 'static;
    type J: Clone + Serialize + DeserializeOwned + Show + 'static;
    type P: Clone + Serialize + DeserializeOwned + Show + 'static;
    fn new_dealer(s: S, long: Sc<S>, secret: Sc<S>, v: &[Pt<S>], t: usize) -> Out<Self::D>;
    fn dealer_pub(d: &Self::D) -> Pt<S>;
    fn dealer_sid(d: &Self::D) -> Vec<u8>;
    fn coefs(d: &Self::D) -> Vec<Sc<S>>;
    fn deal(d: &mut Self::D, i: usize) -> Option<NDeal<S>>;
    fn set_deal(d: &mut Self::D, i: usize, x: &NDeal<S>);
    fn deal_bytes(x: &NDeal<S>) -> Vec<u8>;
    fn plain(x: &NDeal<S>) -> Self::P;
    fn context(s: S, dealer: &Pt<S>, v: &[Pt<S>]) -> Vec<u8>;
    fn encrypt(d: &Self::D, i: usize) -> Out<Self::E>;
    fn enc_parts(e: &Self::E) -> NEnc<Pt<S>>;
    fn enc_make(e: &NEnc<Pt<S>>) -> Self::E;
    fn verifier(s: S, x: &Sc<S>, dealer: &Pt<S>, v: &[Pt<S>]) -> Out<Self::V>;
    fn vindex(v: &Self::V) -> usize;
    fn threshold(v: &mut Self::V, t: usize) -> Out<()>;
    fn recv(v: &mut Self::V, e: &Self::E) -> Out<Self::R>;
    fn resp_parts(r: &Self::R) -> NResp;
    fn resp_make(r: &NResp) -> Self::R;
    fn dresp(d: &mut Self::D, r: &Self::R) -> Out<Option<Self::J>>;
    fn vresp(v: &mut Self::V, r: &Self::R) -> Out<()>;
    /// session, index, deal, encoded deal, signature
    fn just_parts(j: &Self::J) -> (Vec<u8>, u32, NDeal<S>, Vec<u8>, Vec<u8>);
    fn just_make(sid: &[u8], idx: u32, d: &NDeal<S>, sig: &[u8]) -> Self::J;
    fn vjust(v: &mut Self::V, j: &Self::J) -> Out<()>;
    fn dtimeout(d: &mut Self::D) -> Out<()>;
    fn vtimeout(v: &mut Self::V) -> Out<()>;
    fn dobs(d: &Self::D) -> Out<Obs>;
    fn vobs(v: &Self::V) -> Out<Obs>;
    fn release(d: &Self::D) -> Out<Option<Pt<S>>>;
    /// the commitments as told by the dealer, and by a verifier (if the module has that)
    fn dcommits(d: &Self::D) -> Out<Option<Vec<Pt<S>>>>;
    fn vcommits(v: &Self::V) -> Option<Out<Option<Vec<Pt<S>>>>>;
    fn dkey(d: &Self::D) -> (Sc<S>, Pt<S>);
    fn vkey(v: &Self::V) -> (Sc<S>, Pt<S>);
    fn encrypt_all(d: &Self::D) -> Out<Vec<Self::E>>;
    /// a response put in by the layer above, without a signature
    fn vouch(v: &mut Self::V, idx: u32, ok: bool) -> Out<()>;
    fn handout(v: &Self::V) -> Out<Option<Self::P>>;
    fn recover(s: S, d: Vec<Self::P>, n: usize, t: usize) -> Out<Sc<S>>;
    fn minimum_t(n: usize) -> usize;
    fn parts(p: &Self::P) -> NDeal<S>;
    fn vjson(v: &Self::V) -> Value;
    fn dsecret(d: &Self::D) -> Sc<S>;
}

pub struct Ped;
pub struct Rab;

/// A sharing consistent in itself, made by hand: with any threshold, admissible or not.
pub fn sharing<S: KvSuite, K: Kind<S>>(s: S, dealer: &Pt<S>, v: &[Pt<S>], secret: Sc<S>, t: usize) -> Vec<NDeal<S>> {
    use kyber_rs::{encoding::BinaryMarshaler, Scalar};
    use sha2::{Digest, Sha256};
    let rab = K::NAME == "rab";
    let pick = |k: usize| if k == 0 { secret } else { s.scalar().pick(&mut SeededStream) };
    let f: Vec<Sc<S>> = (0..t).map(pick).collect();
    let r: Vec<Sc<S>> = (0..t).map(|_| s.scalar().pick(&mut SeededStream)).collect();
    let list: Vec<u8> = v.iter().flat_map(|p| p.marshal_binary().unwrap()).collect();
    let h = s.point().pick(&mut s.xof(Some(&list)));
    let c: Vec<Pt<S>> = (0..t)
        .map(|k| {
            let a = s.point().mul(&f[k], None);
            if rab { s.point().add(&a, &s.point().mul(&r[k], Some(&h))) } else { a }
        })
        .collect();
    let mut d = Sha256::new();
    d.update(dealer.marshal_binary().unwrap());
    d.update(&list);
    c.iter().for_each(|p| d.update(p.marshal_binary().unwrap()));
    d.update((t as u32).to_le_bytes());
    let sid = d.finalize().to_vec();
    let at = |f: &[Sc<S>], i: usize| {
        let x = s.scalar().set_int64(i as i64 + 1);
        f.iter().rev().fold(s.scalar().zero(), |a, c| a * x + *c)
    };
    (0..v.len())
        .map(|i| NDeal {
            sid: sid.clone(),
            i,
            v: at(&f, i),
            ri: if rab { i } else { 0 },
            rv: if rab { at(&r, i) } else { s.scalar().zero() },
            t,
            c: c.clone(),
        })
        .collect()
}

macro_rules! common {
    ($ok:ident) => {
        type D = m::Dealer<S>;
        type V = m::Verifier<S>;
        type E = m::EncryptedDeal<Pt<S>>;
        type R = m::Response;
        type J = m::Justification<S>;
        type P = m::Deal<S>;
        fn new_dealer(s: S, long: Sc<S>, secret: Sc<S>, v: &[Pt<S>], t: usize) -> Out<Self::D> {
            call(|| m::new_dealer(s, long, secret, v, t))
        }
        fn dealer_sid(d: &Self::D) -> Vec<u8> {
            d.session_id()
        }
        fn deal(d: &mut Self::D, i: usize) -> Option<NDeal<S>> {
            d.plaintext_deal(i).ok().map(|p| Self::parts(p))
        }
        fn set_deal(d: &mut Self::D, i: usize, x: &NDeal<S>) {
            *d.plaintext_deal(i).unwrap() = Self::plain(x);
        }
        fn plain(x: &NDeal<S>) -> Self::P {
            bincode::deserialize(&Self::deal_bytes(x)).unwrap()
        }
        fn encrypt(d: &Self::D, i: usize) -> Out<Self::E> {
            call(|| d.encrypted_deal(i))
        }
        fn encrypt_all(d: &Self::D) -> Out<Vec<Self::E>> {
            call(|| d.encrypted_deals())
        }
        fn vkey(v: &Self::V) -> (Sc<S>, Pt<S>) {
            v.clone().key()
        }
        fn enc_parts(e: &Self::E) -> NEnc<Pt<S>> {
            let b = bincode::serialize(e).unwrap();
            let (dh, sig, nonce, ct): (Pt<S>, Vec<u8>, Vec<u8>, Vec<u8>) = bincode::deserialize(&b).unwrap();
            NEnc { dh, sig, nonce, ct }
        }
        fn enc_make(e: &NEnc<Pt<S>>) -> Self::E {
            bincode::deserialize(&bincode::serialize(&(&e.dh, &e.sig, &e.nonce, &e.ct)).unwrap()).unwrap()
        }
        fn vindex(v: &Self::V) -> usize {
            v.index()
        }
        fn recv(v: &mut Self::V, e: &Self::E) -> Out<Self::R> {
            call(|| v.process_encrypted_deal(e))
        }
        fn resp_parts(r: &Self::R) -> NResp {
            NResp { sid: r.session_id.clone(), idx: r.index, ok: r.$ok, sig: r.signature.clone() }
        }
        fn resp_make(r: &NResp) -> Self::R {
            m::Response { session_id: r.sid.clone(), index: r.idx, $ok: r.ok, signature: r.sig.clone() }
        }
        fn dresp(d: &mut Self::D, r: &Self::R) -> Out<Option<Self::J>> {
            call(|| d.process_response(r))
        }
        fn vresp(v: &mut Self::V, r: &Self::R) -> Out<()> {
            call(|| v.process_response(r))
        }
        fn vjust(v: &mut Self::V, j: &Self::J) -> Out<()> {
            call(|| v.process_justification(j))
        }
        fn just_parts(j: &Self::J) -> (Vec<u8>, u32, NDeal<S>, Vec<u8>, Vec<u8>) {
            let b = bincode::serialize(j).unwrap();
            let (sid, idx, d, sig): (Vec<u8>, u32, Self::P, Vec<u8>) = bincode::deserialize(&b).unwrap();
            let nd = Self::parts(&d);
            (sid, idx, nd.clone(), bincode::serialize(&d).unwrap(), sig)
        }
        fn just_make(sid: &[u8], idx: u32, d: &NDeal<S>, sig: &[u8]) -> Self::J {
            bincode::deserialize(&bincode::serialize(&(sid.to_vec(), idx, Self::plain(d), sig.to_vec())).unwrap()).unwrap()
        }
        fn dtimeout(d: &mut Self::D) -> Out<()> {
            call_v(|| d.set_timeout())
        }
        fn vtimeout(v: &mut Self::V) -> Out<()> {
            call_v(|| v.set_timeout())
        }
        fn release(d: &Self::D) -> Out<Option<Pt<S>>> {
            call_v(|| d.secret_commit())
        }
        fn handout(v: &Self::V) -> Out<Option<Self::P>> {
            call_v(|| v.deal())
        }
        fn recover(s: S, d: Vec<Self::P>, n: usize, t: usize) -> Out<Sc<S>> {
            call(|| m::recover_secret(s, d, n, t))
        }
        fn minimum_t(n: usize) -> usize {
            m::minimum_t(n)
        }
        fn vjson(v: &Self::V) -> Value {
            serde_json::to_value(v).unwrap()
        }
        fn dsecret(d: &Self::D) -> Sc<S> {
            d.secret
        }
    };
}

fn ids(r: impl Iterator<Item = (u32, bool)>) -> BTreeMap<u32, bool> {
    r.collect()
}

const _: () = {
    use kyber_rs::share::vss::pedersen::vss as m;
    impl<S: KvSuite> Kind<S> for Ped {
        const NAME: &'static str = "ped";
        common!(status);
        fn dealer_pub(d: &Self::D) -> Pt<S> {
            d.key().1
        }
        fn coefs(d: &Self::D) -> Vec<Sc<S>> {
            d.private_poly().coefficients()
        }
        fn dkey(d: &Self::D) -> (Sc<S>, Pt<S>) {
            d.key()
        }
        fn dcommits(d: &Self::D) -> Out<Option<Vec<Pt<S>>>> {
            call_v(|| Some(d.commits()))
        }
        fn vcommits(v: &Self::V) -> Option<Out<Option<Vec<Pt<S>>>>> {
            Some(call_v(|| v.commits()))
        }
        fn vouch(v: &mut Self::V, idx: u32, ok: bool) -> Out<()> {
            call_v(|| v.unsafe_set_response_dkg(idx, ok))
        }
        fn context(s: S, dealer: &Pt<S>, v: &[Pt<S>]) -> Vec<u8> {
            m::context(s, dealer, v)
        }
        fn verifier(s: S, x: &Sc<S>, dealer: &Pt<S>, v: &[Pt<S>]) -> Out<Self::V> {
            call(|| m::new_verifier(s, x, dealer, v))
        }
        fn threshold(v: &mut Self::V, t: usize) -> Out<()> {
            call_v(|| v.set_threshold(t))
        }
        fn deal_bytes(x: &NDeal<S>) -> Vec<u8> {
            bincode::serialize(&(&x.sid, (x.i, &x.v), x.t, &x.c)).unwrap()
        }
        fn parts(p: &Self::P) -> NDeal<S> {
            let (sid, (i, v), t, c): (Vec<u8>, (usize, Sc<S>), usize, Vec<Pt<S>>) =
                bincode::deserialize(&bincode::serialize(p).unwrap()).unwrap();
            NDeal { sid, i, v, ri: 0, rv: S::make().scalar(), t, c }
        }
        fn dobs(d: &Self::D) -> Out<Obs> {
            call_v(|| Obs {
                cert: d.deal_certified(),
                sid: d.session_id(),
                resp: ids(d.responses().iter().map(|(k, r)| (*k, r.status))),
                missing: d.missing_responses(),
            })
        }
        fn vobs(v: &Self::V) -> Out<Obs> {
            call_v(|| Obs {
                cert: v.deal_certified(),
                sid: v.session_id(),
                resp: ids(v.responses().iter().map(|(k, r)| (*k, r.status))),
                missing: v.missing_responses(),
            })
        }
    }
};
const _: () = {
    use kyber_rs::share::vss::rabin::vss as m;
    impl<S: KvSuite> Kind<S> for Rab {
        const NAME: &'static str = "rab";
        common!(approved);
        fn dealer_pub(d: &Self::D) -> Pt<S> {
            d.clone().key().1
        }
        fn coefs(_: &Self::D) -> Vec<Sc<S>> {
            vec![]
        }
        fn dkey(d: &Self::D) -> (Sc<S>, Pt<S>) {
            d.clone().key()
        }
        fn dcommits(d: &Self::D) -> Out<Option<Vec<Pt<S>>>> {
            call_v(|| d.commits())
        }
        fn vcommits(_: &Self::V) -> Option<Out<Option<Vec<Pt<S>>>>> {
            None
        }
        fn vouch(v: &mut Self::V, idx: u32, ok: bool) -> Out<()> {
            call_v(|| v.unsafe_set_response_dkg(idx, ok))
        }
        fn context(s: S, dealer: &Pt<S>, v: &[Pt<S>]) -> Vec<u8> {
            m::context(&s, dealer, v)
        }
        fn verifier(s: S, x: &Sc<S>, dealer: &Pt<S>, v: &[Pt<S>]) -> Out<Self::V> {
            call(|| m::new_verifier(&s, x, dealer, v))
        }
        fn threshold(_: &mut Self::V, _: usize) -> Out<()> {
            Out::Ok(())
        }
        fn deal_bytes(x: &NDeal<S>) -> Vec<u8> {
            bincode::serialize(&(&x.sid, (x.i, &x.v), (x.ri, &x.rv), x.t, &x.c)).unwrap()
        }
        fn parts(p: &Self::P) -> NDeal<S> {
            #[allow(clippy::type_complexity)]
            let (sid, (i, v), (ri, rv), t, c): (Vec<u8>, (usize, Sc<S>), (usize, Sc<S>), usize, Vec<Pt<S>>) =
                bincode::deserialize(&bincode::serialize(p).unwrap()).unwrap();
            NDeal { sid, i, v, ri, rv, t, c }
        }
        fn dobs(d: &Self::D) -> Out<Obs> {
            call_v(|| Obs {
                cert: d.deal_certified(),
                sid: d.session_id(),
                resp: rab_resp::<S>(d),
                missing: vec![],
            })
        }
        fn vobs(v: &Self::V) -> Out<Obs> {
            call_v(|| Obs {
                cert: v.enough_approvals() && v.deal_certified(),
                sid: v.session_id(),
                resp: rab_resp::<S>(v),
                missing: vec![],
            })
        }
    }
    /// The responses are not public in this module; they are part of the serialized state.
    fn rab_resp<S: KvSuite>(a: &m::Aggregator<S>) -> BTreeMap<u32, bool> {
        let v = serde_json::to_value(a).unwrap();
        v["responses"]
            .as_object()
            .unwrap()
            .iter()
            .map(|(k, r)| (k.parse().unwrap(), r["approved"].as_bool().unwrap()))
            .collect()
    }
};
