//! Key pairs and generators (spec/Keys.tla).
use crate::core::*;
use crate::field::Keyed;
use crate::rnd::Finite;
use crate::toy::*;
use crate::vss::put;
use crate::vsskind::{Pt, Sc};
use kyber_rs::cipher::Stream;
use crate::sig::TORSION;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::edwards25519::{Curve, Point as EdPoint, Scalar as EdScalar, SuiteEd25519};
use kyber_rs::group::HashFactory;
use kyber_rs::util::key::{new_key_pair, Generator, KeyError, Pair, Suite as KeySuite};
use kyber_rs::{Group, Point, Random, Scalar, XOFFactory};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fmt::{Debug, Display, Formatter};
use std::io::{Read, Write};

/// How the suite below makes keys, and from what.
#[derive(Clone)]
enum How {
    Clamped,
    Fixed(EdScalar),
    Refuses,
    Nothing,
}
#[derive(Clone)]
enum Src {
    Keyed(u64),
    Bytes(Vec<u8>),
}
thread_local! {
    static HOW: RefCell<How> = const { RefCell::new(How::Nothing) };
    static SRC: RefCell<Src> = const { RefCell::new(Src::Keyed(0)) };
}
/// Ed25519 with a generator and a stream of our own.
#[derive(Clone, Copy, Debug, Default)]
struct Own {
    curve: Curve,
}
impl Group for Own {
    type POINT = EdPoint;
    fn scalar(&self) -> EdScalar {
        self.curve.scalar()
    }
    fn scalar_len(&self) -> usize {
        self.curve.scalar_len()
    }
    fn point(&self) -> EdPoint {
        self.curve.point()
    }
    fn point_len(&self) -> usize {
        self.curve.point_len()
    }
    fn is_prime_order(&self) -> Option<bool> {
        None
    }
}
impl Display for Own {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "own")
    }
}
impl Random for Own {
    fn random_stream(&self) -> Box<dyn Stream> {
        match SRC.with(|s| s.borrow().clone()) {
            Src::Keyed(k) => Box::new(Keyed(k)),
            Src::Bytes(b) => Box::new(Finite(b, 0)),
        }
    }
}
impl HashFactory for Own {
    type T = sha2::Sha256;
}
impl KeySuite for Own {}
impl Generator<EdScalar> for Own {
    fn new_key<S: Stream>(&self, s: &mut S) -> Result<Option<EdScalar>, KeyError> {
        match HOW.with(|h| h.borrow().clone()) {
            How::Clamped => self.curve.new_key(s),
            How::Fixed(x) => Ok(Some(x)),
            How::Refuses => self.curve.new_key(&mut Finite(vec![], 0)),
            How::Nothing => Ok(None),
        }
    }
}

fn sec<P: Point>(p: &Pair<P>) -> Vec<u8> {
    p.private.marshal_binary().unwrap()
}
fn pair_ev<S: KvSuite>(p: &Pair<Pt<S>>) -> Value {
    json!({"sec": hex(&sec(p)), "pub": S::ptok(&p.public), "tor": tor::<S>(p)})
}
/// What the key makes of the elements of small order.
fn torsion(x: &EdScalar) -> Vec<String> {
    TORSION
        .iter()
        .map(|t| {
            let mut p = EdPoint::default();
            p.unmarshal_binary(&unhex(t)).unwrap();
            hex(&EdPoint::default().mul(x, Some(&p)).marshal_binary().unwrap())
        })
        .collect()
}
fn tor<S: KvSuite>(p: &Pair<Pt<S>>) -> Vec<String> {
    (p as &dyn std::any::Any).downcast_ref::<Pair<EdPoint>>().map(|p| torsion(&p.private)).unwrap_or_default()
}
fn shown<S: KvSuite>(log: &mut Log, p: &Pair<Pt<S>>)
where
    Pt<S>: Display,
{
    let out = call_v(|| (format!("{p}"), format!("{p:?}"), format!("{p:#?}")));
    let (x, y) = (sec(p), p.public.to_string());
    let secrets = [x, bincode::serialize(&p.private).unwrap()].into_iter().filter(|x| x.len() > 8 || hex(x).len() > 8).collect::<Vec<_>>();
    let ev = put(&out, json!({"op": "show"}), |(a, b, c)| {
        let leaks = leaks(&[a.clone(), b.clone(), c.clone()], &secrets);
        json!({"leaks": leaks, "shows": a.contains(&y)})
    });
    log.ev(ev);
}
fn wired<S: KvSuite>(log: &mut Log, p: &Pair<Pt<S>>, how: usize)
where
    Pair<Pt<S>>: Serialize + for<'a> Deserialize<'a>,
{
    let out = call(|| match how {
        0 => bincode::serialize(p).map_err(|e| e.to_string()).and_then(|b| bincode::deserialize(&b).map_err(|e| e.to_string())),
        1 => serde_json::to_string(p).map_err(|e| e.to_string()).and_then(|b| serde_json::from_str(&b).map_err(|e| e.to_string())),
        _ => Ok(p.clone()),
    });
    let ev = put(&out, json!({"op": "wire", "sec": hex(&sec(p)), "pub": S::ptok(&p.public)}), |q: &Pair<Pt<S>>| {
        json!({"sec2": hex(&sec(q)), "pub2": S::ptok(&q.public), "eq": q == p && p == q})
    });
    log.ev(ev);
}
fn same<P: Point>(log: &mut Log, p: &Pair<P>, q: &Pair<P>) {
    let out = call_v(|| p == q && !(p != q));
    let show = |p: &Pair<P>| format!("{}:{}", hex(&sec(p)), hex(&p.public.marshal_binary().unwrap()));
    log.ev(put(&out, json!({"op": "same", "a": show(p), "b": show(q)}), |e| json!({"eq": e})));
}

fn pairs<S: KvSuite + Generator<Sc<S>>>(g: &mut Gen, log: &mut Log, gen: &str, fresh: bool, n: usize)
where
    Pair<Pt<S>>: Serialize + for<'a> Deserialize<'a>,
{
    let s = S::make();
    log.begin(json!({"grp": S::grp(), "q": S::order()}));
    let mut all: Vec<Pair<Pt<S>>> = vec![];
    for _ in 0..n {
        let k = g.u64();
        seed_rng(k);
        let out = call(|| new_key_pair(&s));
        seed_rng(k);
        let again = call(|| new_key_pair(&s));
        let mut ev = json!({"op": "pair", "gen": gen, "fresh": fresh});
        if let Some(a) = again.ok() {
            ev["again"] = hex(&sec(&a)).into();
        }
        log.ev(put(&out, ev, pair_ev::<S>));
        let Some(p) = out.ok() else { continue };
        wired::<S>(log, &p, g.below(3));
        if S::grp() == "ed" {
            shown::<S>(log, &p);
        }
        if let Some(q) = all.last() {
            same(log, &p, q);
            same(log, &p, &Pair { public: p.public, private: q.private });
            same(log, &p, &Pair { public: q.public, private: p.private });
        }
        same(log, &p, &p);
        all.push(p);
    }
}

pub fn run(seed: u64, thorough: bool, log: &mut Log) {
    let mut g = Gen::new(seed);
    let k = if thorough { 20 } else { 1 };
    guard(log, |log| pairs::<SuiteEd25519>(&mut g, log, "suite", true, 40 * k));
    guard(log, |log| pairs::<Toy<P61>>(&mut g, log, "none", true, 40 * k));
    guard(log, |log| pairs::<Toy<11>>(&mut g, log, "none", false, 20 * k));
    guard(log, |log| {
        log.begin(json!({"grp": "ed", "q": SuiteEd25519::order()}));
        let own = Own::default();
        for i in 0..60 * k {
            let seed = g.u64();
            let mut first = vec![0u8; 80];
            Keyed(seed).read_exact(&mut first).unwrap();
            if g.chance(1, 3) {
                let edge = *g.pick(&[0u8, 0xff, 0x80, 1]);
                first = vec![edge; 80];
                first[g.below(32)] = g.below(256) as u8;
            }
            let short = first[..*g.pick(&[0usize, 1, 31])].to_vec();
            let (gen, how, src) = match i % 6 {
                0 | 1 => ("clamped", How::Clamped, Src::Bytes(first.clone())),
                2 => ("fixed", How::Fixed(EdScalar::default().set_bytes(&g.bytes(32))), Src::Keyed(seed)),
                3 => ("refuses", How::Refuses, Src::Keyed(seed)),
                4 => ("none", How::Nothing, Src::Keyed(seed)),
                _ => ("dry", [How::Clamped, How::Nothing][g.below(2)].clone(), Src::Bytes(short)),
            };
            let mut ev = json!({"op": "pair", "gen": gen, "fresh": false, "stream": hex(&first)});
            if let How::Fixed(x) = &how {
                ev["want"] = hex(&x.marshal_binary().unwrap()).into();
            }
            HOW.with(|h| *h.borrow_mut() = how);
            SRC.with(|s| *s.borrow_mut() = src);
            let out = call(|| new_key_pair(&own));
            if let Some(a) = call(|| new_key_pair(&own)).ok() {
                ev["again"] = hex(&sec(&a)).into();
            }
            log.ev(put(&out, ev, pair_ev::<SuiteEd25519>));
            if let Some(p) = out.ok() {
                wired::<SuiteEd25519>(log, &p, g.below(3));
                shown::<SuiteEd25519>(log, &p);
            }
        }
    });
    guard(log, |log| {
        log.begin(json!({"grp": "ed", "q": SuiteEd25519::order()}));
        let curve = Curve::default();
        let put_key = |x: &(EdScalar, Vec<u8>, Vec<u8>)| json!({"tor": torsion(&x.0), "sec": hex(&x.0.marshal_binary().unwrap()), "back": hex(&x.1), "pre": hex(&x.2)});
        for i in 0..60 * k {
            let n = *g.pick(&[0usize, 1, 16, 31, 32, 33, 63, 64, 65, 111, 112, 127, 128, 129, 200]);
            let n = g.length(&[n]);
            let input = if g.chance(1, 5) { vec![*g.pick(&[0u8, 0xff]); n] } else { g.bytes(n) };
            let ev = json!({"op": "seeded", "dry": false, "seed": hex(&input)});
            let out = call_v(|| {
                let (a, b, c) = curve.new_key_and_seed_with_input(&input);
                (a, b.to_vec(), c)
            });
            log.ev(put(&out, ev, put_key));
            let n = *g.pick(&[0usize, 1, 31, 32, 33, 64, 64]);
            let b = g.bytes(n);
            let ev = json!({"op": "seeded", "dry": n < 32, "seed": hex(&b[..n.min(32)])});
            let mut s = Finite(b.clone(), 0);
            if i % 2 == 0 {
                let out = call(|| curve.new_key_and_seed(&mut s));
                log.ev(put(&out, ev, put_key));
            } else {
                // the generators give the private key alone
                let out = call(|| if i % 4 == 1 { curve.new_key(&mut s) } else { SuiteEd25519::make().new_key(&mut s) }).ok();
                let out: Out<EdScalar> = match out {
                    Some(Some(x)) => Out::Ok(x),
                    Some(None) => Out::Panic("no key".into()),
                    None => Out::Err("refused".into()),
                };
                let ev2 = ev.clone();
                log.ev(put(&out, ev, |x| {
                    let d = curve.new_key_and_seed_with_input(&b[..n.min(32)]).2;
                    json!({"tor": torsion(x), "sec": hex(&x.marshal_binary().unwrap()), "back": ev2["seed"], "pre": hex(&d)})
                }));
            }
        }
        let s = SuiteEd25519::make();
        for _ in 0..20 * k {
            let n = *g.pick(&[0usize, 1, 55, 56, 63, 64, 65, 128, 200]);
            let n = g.length(&[n]);
            let (data, n) = (g.bytes(n), *g.pick(&[0usize, 1, 32, 63, 64, 65, 128, 129]));
            let (key, m) = (g.bytes(n), g.range(1, 100));
            let none = key.is_empty() && g.chance(1, 2);
            let out = call(|| -> Result<Value, std::io::Error> {
                use sha2::Digest;
                let mut h = s.hash();
                h.update(&data);
                let mut h2 = s.hash();
                h2.write_all(&data)?;
                let (a, b) = (h.finalize().to_vec(), h2.finalize().to_vec());
                let mut x = s.xof(if none { None } else { Some(&key) });
                let mut v = vec![0u8; m];
                x.read_exact(&mut v)?;
                let mut r = [[0u8; 32]; 2];
                for t in r.iter_mut() {
                    s.random_stream().xor_key_stream(t, &[0u8; 32]).map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
                }
                let z: Sc<SuiteEd25519> = s.scalar();
                Ok(json!({"hash": if a == b { hex(&a) } else { "differ".into() }, "xof": hex(&v), "sl": s.scalar_len(), "pl": s.point_len(),
                    "name": s.to_string(), "scalar": hex(&z.marshal_binary().unwrap()), "s1": hex(&r[0]), "s2": hex(&r[1])}))
            });
            log.ev(put(&out, json!({"op": "suite", "data": hex(&data), "key": hex(&key)}), |v| v.clone()));
        }
    });
}
