//! A prime-order group in which the discrete logarithm is the identity map: an element x*G is
//! represented by x mod Q.  It is as insecure as can be, and therefore a perfect oracle: the
//! generic code of kyber-rs runs on it unchanged, and the specification can predict every value.
use core::fmt::{Debug, Display, Formatter};
use core::ops::{Add, Mul};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling, MarshallingError};
use kyber_rs::group::edwards25519::SuiteEd25519;
use kyber_rs::group::{
    HashFactory, PointCanCheckCanonicalAndSmallOrder, PointError, ScalarCanCheckCanonical,
};
use kyber_rs::share::vss::suite::Suite as VssSuite;
use kyber_rs::sign::dss;
use kyber_rs::util::key::{Generator, KeyError, Suite as KeySuite};
use kyber_rs::{Group, Point, Random, Scalar, XOFFactory, XOF};

pub const P61: u64 = (1 << 61) - 1;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Serialize, Deserialize, Hash)]
pub struct TS<const Q: u64>(pub u64);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Serialize, Deserialize, Hash)]
pub struct TP<const Q: u64>(pub u64);
#[derive(Clone, Copy, PartialEq, Eq, Default, Debug, Serialize, Deserialize)]
pub struct Toy<const Q: u64> {}

fn mulm(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 * b as u128) % q as u128) as u64
}
fn addm(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 + b as u128) % q as u128) as u64
}
fn subm(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 + (q - b % q) as u128) % q as u128) as u64
}
fn powm(mut a: u64, mut e: u64, q: u64) -> u64 {
    let mut r = 1 % q;
    a %= q;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, a, q);
        }
        a = mulm(a, a, q);
        e >>= 1;
    }
    r
}
fn rnd<S: Stream + ?Sized>(s: &mut S, q: u64) -> u64 {
    loop {
        let mut b = [0u8; 8];
        s.xor_key_stream(&mut b, &[0; 8]).unwrap();
        let bits = 64 - (q - 1).leading_zeros();
        let v = u64::from_le_bytes(b) & (u64::MAX >> (64 - bits.max(1)));
        if v < q {
            return v;
        }
    }
}

impl<const Q: u64> Debug for TS<Q> {
    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
        write!(f, "s{}", self.0)
    }
}
impl<const Q: u64> Display for TS<Q> {
    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
        write!(f, "s{}", self.0)
    }
}
impl<const Q: u64> Debug for TP<Q> {
    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
        write!(f, "p{}", self.0)
    }
}
impl<const Q: u64> Display for TP<Q> {
    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
        write!(f, "p{}", self.0)
    }
}
impl<const Q: u64> Display for Toy<Q> {
    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
        write!(f, "Toy{Q}")
    }
}
impl<const Q: u64> Add for TS<Q> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        TS(addm(self.0, o.0, Q))
    }
}
impl<const Q: u64> Mul for TS<Q> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        TS(mulm(self.0, o.0, Q))
    }
}

macro_rules! marsh {
    ($t:ident, $id:expr) => {
        impl<const Q: u64> BinaryMarshaler for $t<Q> {
            fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
                Ok(self.0.to_le_bytes().to_vec())
            }
        }
        impl<const Q: u64> BinaryUnmarshaler for $t<Q> {
            fn unmarshal_binary(&mut self, d: &[u8]) -> Result<(), MarshallingError> {
                if d.len() != 8 {
                    return Err(MarshallingError::InvalidInput("length".into()));
                }
                let v = u64::from_le_bytes(d.try_into().unwrap());
                if v >= Q {
                    return Err(MarshallingError::InvalidInput("range".into()));
                }
                self.0 = v;
                Ok(())
            }
        }
        impl<const Q: u64> Marshaling for $t<Q> {
            fn marshal_size(&self) -> usize {
                8
            }
            fn marshal_to(&self, w: &mut impl Write) -> Result<(), MarshallingError> {
                w.write_all(&self.marshal_binary()?)?;
                Ok(())
            }
            fn unmarshal_from(&mut self, r: &mut impl Read) -> Result<(), MarshallingError> {
                let mut b = [0; 8];
                r.read_exact(&mut b)?;
                self.unmarshal_binary(&b)
            }
            fn unmarshal_from_random(&mut self, r: &mut (impl Read + Stream)) {
                self.0 = rnd(r, Q);
            }
            fn marshal_id(&self) -> [u8; 8] {
                *$id
            }
        }
    };
}
marsh!(TS, b"toy.scal");
marsh!(TP, b"toy.poin");

impl<const Q: u64> Scalar for TS<Q> {
    fn set(self, a: &Self) -> Self {
        *a
    }
    fn set_int64(self, v: i64) -> Self {
        TS((v as i128).rem_euclid(Q as i128) as u64)
    }
    fn zero(self) -> Self {
        TS(0)
    }
    fn sub(self, a: &Self, b: &Self) -> Self {
        TS(subm(a.0, b.0, Q))
    }
    fn neg(self, a: &Self) -> Self {
        TS(subm(0, a.0, Q))
    }
    fn one(self) -> Self {
        TS(1 % Q)
    }
    fn div(self, a: &Self, b: &Self) -> Self {
        TS(mulm(a.0, powm(b.0, Q - 2, Q), Q))
    }
    fn inv(self, a: &Self) -> Self {
        TS(powm(a.0, Q - 2, Q))
    }
    fn pick(self, rand: &mut impl Stream) -> Self {
        // like in a large group, zero does not occur by chance
        TS(1 + rnd(rand, Q - 1))
    }
    fn set_bytes(self, bytes: &[u8]) -> Self {
        let mut r = 0u64;
        for b in bytes.iter().rev() {
            r = addm(mulm(r, 256, Q), *b as u64, Q);
        }
        TS(r)
    }
}
impl<const Q: u64> ScalarCanCheckCanonical for TS<Q> {
    fn is_canonical(&self, b: &[u8]) -> bool {
        b.len() == 8 && u64::from_le_bytes(b.try_into().unwrap()) < Q
    }
}
impl<const Q: u64> PointCanCheckCanonicalAndSmallOrder for TP<Q> {
    fn has_small_order(&self) -> bool {
        self.0 == 0
    }
    fn is_canonical(&self, b: &[u8]) -> bool {
        b.len() == 8 && u64::from_le_bytes(b.try_into().unwrap()) < Q
    }
}
impl<const Q: u64> Point for TP<Q> {
    type SCALAR = TS<Q>;
    fn null(self) -> Self {
        TP(0)
    }
    fn base(self) -> Self {
        TP(1)
    }
    fn pick<S: Stream>(self, rand: &mut S) -> Self {
        loop {
            let v = rnd(rand, Q);
            if v != 0 {
                return TP(v);
            }
        }
    }
    fn set(&mut self, p: &Self) -> Self {
        self.0 = p.0;
        *self
    }
    fn embed_len(&self) -> usize {
        4
    }
    fn embed<S: Stream>(self, data: Option<&[u8]>, rand: &mut S) -> Self {
        match data {
            None => self.pick(rand),
            Some(d) => {
                let mut b = [0u8; 8];
                let n = d.len().min(4);
                b[0] = n as u8;
                b[1..1 + n].copy_from_slice(&d[..n]);
                TP(u64::from_le_bytes(b) % Q)
            }
        }
    }
    fn data(&self) -> Result<Vec<u8>, PointError> {
        let b = self.0.to_le_bytes();
        if b[0] > 4 {
            return Err(PointError::EmbedDataLength);
        }
        Ok(b[1..1 + b[0] as usize].to_vec())
    }
    fn add(self, a: &Self, b: &Self) -> Self {
        TP(addm(a.0, b.0, Q))
    }
    fn sub(self, a: &Self, b: &Self) -> Self {
        TP(subm(a.0, b.0, Q))
    }
    fn neg(&mut self, a: &Self) -> Self {
        self.0 = subm(0, a.0, Q);
        *self
    }
    fn mul(self, s: &TS<Q>, p: Option<&Self>) -> Self {
        TP(mulm(s.0, p.map(|p| p.0).unwrap_or(1), Q))
    }
}
impl<const Q: u64> Group for Toy<Q> {
    type POINT = TP<Q>;
    fn scalar_len(&self) -> usize {
        8
    }
    fn scalar(&self) -> TS<Q> {
        TS(0)
    }
    fn point_len(&self) -> usize {
        8
    }
    fn point(&self) -> TP<Q> {
        TP(0)
    }
    fn is_prime_order(&self) -> Option<bool> {
        None
    }
}
impl<const Q: u64> HashFactory for Toy<Q> {
    type T = sha2::Sha256;
}
impl<const Q: u64> XOFFactory for Toy<Q> {
    fn xof(&self, seed: Option<&[u8]>) -> Box<dyn XOF> {
        SuiteEd25519::new_blake3_sha256_ed25519().xof(seed)
    }
}
/// Deterministic stream: the process-wide seeded generator.
pub struct SeededStream;
impl Stream for SeededStream {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        let mut k = vec![0u8; src.len()];
        crate::core::fill(&mut k);
        for i in 0..src.len() {
            dst[i] = src[i] ^ k[i];
        }
        Ok(())
    }
}
impl<const Q: u64> Random for Toy<Q> {
    fn random_stream(&self) -> Box<dyn Stream> {
        Box::new(SeededStream)
    }
}
impl<const Q: u64> Generator<TS<Q>> for Toy<Q> {
    fn new_key<S: Stream>(&self, _s: &mut S) -> Result<Option<TS<Q>>, KeyError> {
        Ok(None)
    }
}
impl<const Q: u64> VssSuite for Toy<Q> {}
impl<const Q: u64> dss::Suite for Toy<Q> {}
impl<const Q: u64> KeySuite for Toy<Q> {}

/// What the drivers need to know about a suite.
pub trait KvSuite:
    VssSuite
    + dss::Suite
    + KeySuite
    + Copy
    + Debug
    + Serialize
    + serde::de::DeserializeOwned
    + 'static
    + PartialEqSuite
    + Group<
        POINT: Copy + PointCanCheckCanonicalAndSmallOrder + Point<SCALAR: Copy + ScalarCanCheckCanonical>,
    >
{
    fn make() -> Self;
    fn grp() -> &'static str;
    fn order() -> String;
    fn stok(s: &<Self::POINT as Point>::SCALAR) -> String;
    fn ptok(p: &Self::POINT) -> String;
    /// an element of small order, in groups that have some
    fn low(_k: u8) -> Option<Self::POINT> {
        None
    }
    /// a secret scalar as it must not be printed; in the toy groups, where everything is small, not at all
    fn hide(_x: &<Self::POINT as Point>::SCALAR) -> Option<Vec<u8>> {
        None
    }
    /// equality, as far as the type at hand has one over this suite
    fn same<T: 'static>(_a: &T, _b: &T) -> bool {
        true
    }
}
pub trait PartialEqSuite {}
impl<const Q: u64> PartialEqSuite for Toy<Q> {}
impl PartialEqSuite for SuiteEd25519 {}
impl<const Q: u64> KvSuite for Toy<Q> {
    fn make() -> Self {
        Toy {}
    }
    fn grp() -> &'static str {
        "toy"
    }
    fn order() -> String {
        Q.to_string()
    }
    fn stok(s: &TS<Q>) -> String {
        s.0.to_string()
    }
    fn ptok(p: &TP<Q>) -> String {
        p.0.to_string()
    }
    fn same<T: 'static>(a: &T, b: &T) -> bool {
        use crate::dkgped::Rd;
        use crate::dss::Own;
        use kyber_rs::share::{dkg, poly, vss};
        let (a, b) = (a as &dyn std::any::Any, b as &dyn std::any::Any);
        macro_rules! any_of { ($($t:ty),* $(,)?) => { $(
            if let (Some(x), Some(y)) = (a.downcast_ref::<$t>(), b.downcast_ref::<$t>()) {
                return x == y && y == x;
            }
        )* } }
        any_of!(
            vss::pedersen::vss::Dealer<Self>, vss::pedersen::vss::Verifier<Self>, vss::pedersen::vss::Justification<Self>, vss::pedersen::vss::Response,
            vss::rabin::vss::Dealer<Self>, vss::rabin::vss::Verifier<Self>, vss::rabin::vss::Justification<Self>, vss::rabin::vss::Response,
            dkg::pedersen::DistKeyGenerator<Self, Rd>, dkg::pedersen::structs::DistKeyShare<Self>, dkg::pedersen::structs::Justification<Self>,
            dkg::pedersen::structs::Response,
            dkg::rabin::DistKeyGenerator<Self>, dkg::rabin::DistKeyShare<Self>, dkg::rabin::Justification<Self>, dkg::rabin::Response,
            dkg::rabin::SecretCommits<Self>, dkg::rabin::ComplaintCommits<Self>, dkg::rabin::ReconstructCommits<Self>,
            dss::DSS<Self, Own<Self>>, dss::DSS<Self, dkg::pedersen::structs::DistKeyShare<Self>>, dss::DSS<Self, dkg::rabin::DistKeyShare<Self>>,
            poly::PriShare<TS<Q>>, poly::PubShare<TP<Q>>, poly::PriPoly<Self>, poly::PubPoly<Self>,
        );
        true
    }
}
impl KvSuite for SuiteEd25519 {
    fn make() -> Self {
        SuiteEd25519::new_blake3_sha256_ed25519()
    }
    fn grp() -> &'static str {
        "ed"
    }
    fn order() -> String {
        "7237005577332262213973186563042994240857116359379907606001950938285454250989".into()
    }
    fn stok(s: &<Self::POINT as Point>::SCALAR) -> String {
        crate::core::dec_le(&s.marshal_binary().unwrap())
    }
    fn ptok(p: &Self::POINT) -> String {
        crate::core::hex(&p.marshal_binary().unwrap())
    }
    fn hide(x: &<Self::POINT as Point>::SCALAR) -> Option<Vec<u8>> {
        let b = x.marshal_binary().unwrap();
        // zero and one and the like are no secrets
        (b.iter().filter(|v| **v != 0).count() > 12).then_some(b)
    }
    fn low(k: u8) -> Option<Self::POINT> {
        let mut p = Self::make().point();
        let enc = crate::core::unhex(crate::sig::TORSION[k as usize % crate::sig::TORSION.len()]);
        p.unmarshal_binary(&enc).ok().map(|_| p)
    }
}
