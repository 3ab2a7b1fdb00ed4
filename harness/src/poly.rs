//! Programs over share/poly.rs (spec/Poly.tla).
use crate::core::*;
use crate::toy::*;
use kyber_rs::share::poly::{self, PriPoly, PriShare, PubPoly, PubShare};
use kyber_rs::{Group, Point, Scalar};
use serde_json::{json, Value};

const NREG: usize = 6;

type Sc<S> = <<S as Group>::POINT as Point>::SCALAR;

struct M<S: KvSuite> {
    s: S,
    pri: Vec<Option<PriPoly<S>>>,
    pubp: Vec<Option<PubPoly<S>>>,
    maxi: usize,
}

fn coeffs<S: KvSuite>(p: &PriPoly<S>) -> Value {
    Value::from(p.coefficients().iter().map(|c| S::stok(c)).collect::<Vec<_>>())
}
fn commits<S: KvSuite>(p: &PubPoly<S>) -> Value {
    Value::from(p.info().1.iter().map(|c| S::ptok(c)).collect::<Vec<_>>())
}
fn base<S: KvSuite>(b: &Option<S::POINT>) -> String {
    b.as_ref().map(|b| S::ptok(b)).unwrap_or_else(|| "none".into())
}
fn sh_json<S: KvSuite>(sh: &[Option<PriShare<Sc<S>>>]) -> Value {
    Value::from(
        sh.iter()
            .map(|s| match s {
                None => json!({"i": -1, "v": ""}),
                Some(s) => json!({"i": s.i, "v": S::stok(&s.v)}),
            })
            .collect::<Vec<_>>(),
    )
}
fn psh_json<S: KvSuite>(sh: &[Option<PubShare<S::POINT>>]) -> Value {
    Value::from(
        sh.iter()
            .map(|s| match s {
                None => json!({"i": -1, "v": ""}),
                Some(s) => json!({"i": s.i, "v": S::ptok(&s.v)}),
            })
            .collect::<Vec<_>>(),
    )
}

impl<S: KvSuite> M<S>
where
    S::POINT: Copy,
    Sc<S>: Copy,
{
    fn new(s: S, maxi: usize) -> Self {
        M { s, pri: (0..NREG).map(|_| None).collect(), pubp: (0..NREG).map(|_| None).collect(), maxi }
    }
    fn put<T>(out: Out<T>, mut ev: Value, ok: impl FnOnce(T) -> Value) -> Value {
        ev["out"] = Value::from(out.tag());
        let why = out.why();
        if !why.is_empty() {
            ev["why"] = Value::from(why);
        }
        set_current(ev.to_string());
        match out {
            Out::Ok(v) => merge(ev, ok(v)),
            _ => ev,
        }
    }
    fn scalar(&self, g: &mut Gen) -> Sc<S> {
        match g.below(8) {
            0 => self.s.scalar().zero(),
            1 => self.s.scalar().one(),
            2 => self.s.scalar().set_int64(-1),
            _ => self.s.scalar().pick(&mut SeededStream),
        }
    }
    fn newpri(&mut self, g: &mut Gen, r: usize, t: usize, log: &mut Log) {
        let secret = if g.chance(1, 2) { Some(self.scalar(g)) } else { None };
        let s = self.s;
        let how = g.below(2);
        let out = call_v(|| {
            if how == 0 {
                poly::new_pri_poly(s, t, secret, SeededStream)
            } else {
                let mut c: Vec<Sc<S>> = (0..t).map(|_| self.scalar(g)).collect();
                if let Some(x) = secret {
                    c[0] = x;
                }
                poly::coefficients_to_pri_poly(&s, &c)
            }
        });
        let sec = secret.map(|x| S::stok(&x)).unwrap_or_else(|| "none".into());
        let p = out.clone().ok();
        log.ev(Self::put(out, json!({"op":"newpri","r":r + 1,"t":t,"secret":sec}), |p| {
            json!({"c": coeffs(&p), "sec": S::stok(&p.secret())})
        }));
        self.pri[r] = p;
    }
    fn commit(&mut self, a: usize, r: usize, b: Option<S::POINT>, log: &mut Log) {
        let Some(p) = self.pri[a].clone() else { return };
        let out = call_v(|| p.commit(b.as_ref()));
        let q = out.clone().ok();
        log.ev(Self::put(out, json!({"op":"commit","a":a+1,"r":r+1,"base":base::<S>(&b)}), |p| {
            json!({"c": commits(&p), "b": base::<S>(&p.info().0), "com": S::ptok(&p.commit()), "t": p.threshold()})
        }));
        self.pubp[r] = q;
    }
    fn index(&self, g: &mut Gen) -> usize {
        if g.chance(1, 6) {
            g.below(self.maxi)
        } else {
            g.below(self.maxi.min(9))
        }
    }
    /// A list of shares of `a`: some distinct indices, absent entries, repetitions, any order.
    fn indices(&self, g: &mut Gen, t: usize) -> Vec<Option<usize>> {
        let want = match g.below(6) {
            0 => t.saturating_sub(1),
            1 | 2 => t,
            _ => t + g.below(4),
        };
        let mut v: Vec<Option<usize>> = vec![];
        let mut tries = 0;
        while v.iter().flatten().count() < want && tries < 60 {
            let i = self.index(g);
            tries += 1;
            if !v.contains(&Some(i)) {
                v.push(Some(i));
            }
        }
        for _ in 0..g.below(3) {
            v.push(None);
        }
        if g.chance(1, 3) && !v.is_empty() {
            let k = *g.pick(&v);
            v.push(k);
        }
        g.shuffle(&mut v);
        v
    }
    fn pri_shares(&self, p: &PriPoly<S>, idx: &[Option<usize>]) -> Vec<Option<PriShare<Sc<S>>>> {
        idx.iter().map(|i| i.map(|i| p.eval(i))).collect()
    }
    fn rec_all(&mut self, kind: usize, sh: Vec<Option<PriShare<Sc<S>>>>, psh: Vec<Option<PubShare<S::POINT>>>, t: usize, n: usize, r: usize, log: &mut Log) {
        let s = self.s;
        match kind {
            0 => {
                let out = call(|| poly::recover_secret(s, &sh, t, n));
                log.ev(Self::put(out, json!({"op":"recsecret","sh":sh_json::<S>(&sh),"t":t,"n":n}), |v| json!({"v": S::stok(&v)})));
            }
            1 => {
                let out = call(|| poly::recover_pri_poly(&s, &sh, t, n));
                let q = out.clone().ok();
                log.ev(Self::put(out, json!({"op":"recpri","r":r+1,"sh":sh_json::<S>(&sh),"t":t,"n":n}), |p| json!({"c": coeffs(&p)})));
                if q.is_some() {
                    self.pri[r] = q;
                }
            }
            2 => {
                let out = call(|| poly::recover_commit(s, &psh, t, n));
                log.ev(Self::put(out, json!({"op":"reccommit","sh":psh_json::<S>(&psh),"t":t,"n":n}), |v| json!({"v": S::ptok(&v)})));
            }
            _ => {
                let out = call(|| poly::recover_pub_poly(s, &psh, t, n));
                let q = out.clone().ok();
                log.ev(Self::put(out, json!({"op":"recpub","r":r+1,"sh":psh_json::<S>(&psh),"t":t,"n":n}), |p| {
                    json!({"c": commits(&p), "b": base::<S>(&p.info().0)})
                }));
                if q.is_some() {
                    self.pubp[r] = q;
                }
            }
        }
    }
    fn step(&mut self, g: &mut Gen, log: &mut Log, heavy: bool) {
        let (a, b, r) = (g.below(NREG), g.below(NREG), g.below(NREG));
        let s = self.s;
        if let Some(p) = self.pri[a].as_mut() {
            stored(log, "private polynomial", 6, p, S::same);
            let sec: Vec<Vec<u8>> = p.coefficients().iter().filter_map(|x| S::hide(x)).collect();
            shown(log, "private polynomial", 4, || prints!(*p), &sec);
        }
        if let Some(p) = self.pubp[b].as_mut() {
            stored(log, "public polynomial", 6, p, S::same);
        }
        match g.below(if heavy { 14 } else { 17 }) {
            0 => {
                let t = g.range(1, if heavy { 4 } else { 5 });
                self.newpri(g, r, t, log)
            }
            1 => {
                let (Some(p), Some(q)) = (self.pri[a].clone(), self.pri[b].clone()) else { return };
                let out = call(|| p.add(&q));
                let z = out.clone().ok();
                log.ev(Self::put(out, json!({"op":"addpri","a":a+1,"a2":b+1,"r":r+1}), |p| json!({"c": coeffs(&p)})));
                if z.is_some() {
                    self.pri[r] = z;
                }
            }
            2 => {
                let (Some(p), Some(q)) = (self.pri[a].clone(), self.pri[b].clone()) else { return };
                if p.threshold() + q.threshold() > 7 {
                    return;
                }
                let out = call_v(|| p.mul(&q));
                let z = out.clone().ok();
                log.ev(Self::put(out, json!({"op":"mulpri","a":a+1,"a2":b+1,"r":r+1}), |p| json!({"c": coeffs(&p)})));
                if z.is_some() {
                    self.pri[r] = z;
                }
            }
            3 => {
                let (Some(p), Some(q)) = (self.pri[a].clone(), self.pri[b].clone()) else { return };
                let out = call(|| p.equal(&q));
                log.ev(Self::put(out, json!({"op":"eqpri","a":a+1,"a2":b+1}), |e| json!({"eq": e})));
            }
            4 => {
                let Some(p) = self.pri[a].clone() else { return };
                let i = self.index(g);
                let out = call_v(|| p.eval(i));
                log.ev(Self::put(out, json!({"op":"evalpri","a":a+1,"i":i}), |s| json!({"v": S::stok(&s.v), "si": s.i})));
            }
            5 => {
                let bp = if g.chance(1, 2) { None } else { Some(s.point().pick(&mut SeededStream)) };
                self.commit(a, r, bp, log)
            }
            6 => {
                let (Some(p), Some(q)) = (self.pubp[a].clone(), self.pubp[b].clone()) else { return };
                let out = call(|| p.add(&q));
                let z = out.clone().ok();
                log.ev(Self::put(out, json!({"op":"addpub","a":a+1,"a2":b+1,"r":r+1}), |p| json!({"c": commits(&p), "b": base::<S>(&p.info().0)})));
                if z.is_some() {
                    self.pubp[r] = z;
                }
            }
            7 => {
                let (Some(p), Some(q)) = (self.pubp[a].clone(), self.pubp[b].clone()) else { return };
                let out = call(|| p.equal(&q));
                log.ev(Self::put(out, json!({"op":"eqpub","a":a+1,"a2":b+1}), |e| json!({"eq": e})));
            }
            8 => {
                let Some(p) = self.pubp[a].clone() else { return };
                let i = self.index(g);
                let out = call_v(|| p.eval(i));
                log.ev(Self::put(out, json!({"op":"evalpub","a":a+1,"i":i}), |s| json!({"v": S::ptok(&s.v), "si": s.i})));
                let sh = p.eval(i);
                let out = call(|| sh.hash(s));
                log.ev(Self::put(out, json!({"op":"hashpub","v":S::ptok(&sh.v),"i":hex(&(sh.i as u32).to_le_bytes())}), |h| json!({"h": hex(&h)})));
            }
            9 | 10 => {
                // the private polynomial and a commitment to it (or to another), a share right or wrong
                let Some(p) = self.pri[a].clone() else { return };
                let bp = if g.chance(1, 2) { None } else { Some(s.point().pick(&mut SeededStream)) };
                self.commit(a, r, bp, log);
                let Some(c) = self.pubp[r].clone() else { return };
                let i = self.index(g);
                let mut shs = vec![p.eval(i)];
                shs.push(PriShare { i, v: shs[0].v + s.scalar().one() });
                shs.push(PriShare { i: i + 1, v: shs[0].v });
                shs.push(PriShare { i, v: self.scalar(g) });
                shs.push(PriShare { i, v: s.scalar().neg(&shs[0].v) });
                for sh in shs {
                    let out = call_v(|| c.check(&sh));
                    log.ev(Self::put(out, json!({"op":"check","a":r+1,"i":sh.i,"v":S::stok(&sh.v)}), |ok| json!({"ok": ok})));
                }
            }
            11 => {
                let Some(p) = self.pri[a].clone() else { return };
                let n = g.below(self.maxi.min(7));
                let out = call_v(|| p.shares(n));
                log.ev(Self::put(out, json!({"op":"sharespri","a":a+1,"n":n}), |l| json!({"sh": sh_json::<S>(&l)})));
            }
            12 => {
                let Some(p) = self.pubp[a].clone() else { return };
                let n = g.below(self.maxi.min(5));
                let out = call_v(|| p.shares(n));
                log.ev(Self::put(out, json!({"op":"sharespub","a":a+1,"n":n}), |l| json!({"sh": psh_json::<S>(&l)})));
            }
            _ => {
                let Some(p) = self.pri[a].clone() else { return };
                let t = p.threshold();
                if t > 5 {
                    return;
                }
                let idx = self.indices(g, t);
                let mut sh = self.pri_shares(&p, &idx);
                if let Some(Some(x)) = sh.first_mut() {
                    stored(log, "private share", 4, x, S::same);
                    let sec: Vec<Vec<u8>> = S::hide(&x.v).into_iter().collect();
                    shown(log, "private share", 2, || prints!(*x), &sec);
                }
                let bp = if g.chance(1, 2) { None } else { Some(s.point().pick(&mut SeededStream)) };
                let c = p.commit(bp.as_ref());
                let mut psh: Vec<_> = idx.iter().map(|i| i.map(|i| c.eval(i))).collect();
                if let Some(Some(x)) = psh.first_mut() {
                    stored(log, "public share", 4, x, S::same);
                }
                let n = idx.iter().flatten().max().map(|m| m + 1).unwrap_or(1);
                let k = g.below(4);
                self.rec_all(k, sh, psh, t, n, r, log);
                if k == 3 && bp.is_none() && self.pubp[r].is_some() {
                    // the recovered commitment polynomial verifies the shares it was recovered from
                    let c = self.pubp[r].clone().unwrap();
                    let sh = p.eval(self.index(g));
                    let out = call_v(|| c.check(&sh));
                    log.ev(Self::put(out, json!({"op":"check","a":r+1,"i":sh.i,"v":S::stok(&sh.v)}), |ok| json!({"ok": ok})));
                }
            }
        }
    }
}

fn random<S: KvSuite>(s: S, maxi: usize, g: &mut Gen, steps: usize, heavy: bool, log: &mut Log)
where
    S::POINT: Copy,
    Sc<S>: Copy,
{
    log.begin(json!({"op":"init","grp":S::grp(),"q":S::order()}));
    let mut m = M::new(s, maxi);
    for r in 0..3 {
        let t = g.range(1, 4);
        m.newpri(g, r, t, log);
    }
    for _ in 0..steps {
        m.step(g, log, heavy);
    }
}

/// Polynomials of a high degree, long lists of shares, far-off indices.
fn large<S: KvSuite>(s: S, t: usize, g: &mut Gen, log: &mut Log)
where
    S::POINT: Copy,
    Sc<S>: Copy,
{
    log.begin(json!({"op":"init","grp":S::grp(),"q":S::order()}));
    let mut m = M::new(s, 1_000_000);
    m.newpri(g, 0, t, log);
    m.newpri(g, 1, t, log);
    let (Some(p), Some(q)) = (m.pri[0].clone(), m.pri[1].clone()) else { return };
    m.commit(0, 0, None, log);
    m.commit(1, 1, None, log);
    let out = call(|| p.add(&q));
    let sum = out.clone().ok();
    log.ev(M::<S>::put(out, json!({"op":"addpri","a":1,"a2":2,"r":3}), |p| json!({"c": coeffs(&p)})));
    m.pri[2] = sum;
    let (Some(cp), Some(cq)) = (m.pubp[0].clone(), m.pubp[1].clone()) else { return };
    let out = call(|| cp.add(&cq));
    let sum = out.clone().ok();
    log.ev(M::<S>::put(out, json!({"op":"addpub","a":1,"a2":2,"r":3}), |p| json!({"c": commits(&p), "b": base::<S>(&p.info().0)})));
    m.pubp[2] = sum;
    let out = call_v(|| p.mul(&q));
    log.ev(M::<S>::put(out, json!({"op":"mulpri","a":1,"a2":2,"r":2}), |p| json!({"c": coeffs(&p)})));
    m.pri[1] = Some(p.mul(&q));
    let n = t + g.below(4);
    let out = call_v(|| p.shares(n));
    log.ev(M::<S>::put(out, json!({"op":"sharespri","a":1,"n":n}), |l| json!({"sh": sh_json::<S>(&l)})));
    let out = call_v(|| cp.shares(n));
    log.ev(M::<S>::put(out, json!({"op":"sharespub","a":1,"n":n}), |l| json!({"sh": psh_json::<S>(&l)})));
    for kind in 0..4 {
        for extra in [-1, 0, 0, 1, 7] {
            let want = (t as i64 + extra) as usize;
            let far = g.chance(1, 2);
            let mut idx: Vec<Option<usize>> = vec![];
            while idx.len() < want {
                let i = if far { g.below(1_000_000) } else { g.below(want + 5) };
                if !idx.contains(&Some(i)) {
                    idx.push(Some(i));
                }
            }
            if g.chance(1, 2) {
                for _ in 0..g.below(t) {
                    idx.push(None);
                }
                g.shuffle(&mut idx);
            }
            if g.chance(1, 3) {
                idx.insert(0, idx[g.below(idx.len())]);
            }
            let sh = m.pri_shares(&p, &idx);
            let psh: Vec<_> = idx.iter().map(|i| i.map(|i| cp.eval(i))).collect();
            let n = idx.iter().flatten().max().map(|m| m + 1).unwrap_or(1);
            m.rec_all(kind, sh, psh, t, n, 2, log);
        }
    }
    for i in [0, t, 255, 256, 300, 65_535, 65_536, 999_999] {
        let mut sh = p.eval(i);
        for _ in 0..2 {
            let out = call_v(|| cp.check(&sh));
            log.ev(M::<S>::put(out, json!({"op":"check","a":1,"i":sh.i,"v":S::stok(&sh.v)}), |ok| json!({"ok": ok})));
            sh.v = sh.v + s.scalar().one();
        }
    }
}

/// Indices far beyond any group of people.
fn far<S: KvSuite>(s: S, t: usize, g: &mut Gen, log: &mut Log)
where
    S::POINT: Copy,
    Sc<S>: Copy,
{
    const EDGES: [u64; 12] = [
        0x7fff_fffd, 0x7fff_fffe, 0x7fff_ffff, 0xffff_fffe, 0xffff_ffff, 1 << 32, (1 << 32) + 1, 1 << 33, (1 << 40) + 3, 1 << 52, 1 << 53, (1 << 62) + 5,
    ];
    log.begin(json!({"op":"init","grp":S::grp(),"q":S::order()}));
    let mut m = M::new(s, 1);
    m.newpri(g, 0, t, log);
    let bp = if g.chance(1, 2) { None } else { Some(s.point().pick(&mut SeededStream)) };
    m.commit(0, 0, bp, log);
    let (Some(p), Some(c)) = (m.pri[0].clone(), m.pubp[0].clone()) else { return };
    let x = |i: usize| (i as u64 + 1).to_string();
    let index = |g: &mut Gen| {
        (match g.below(4) {
            0 => (g.u64() >> 2) & !0xff_ffff_ffff | g.below(4) as u64,
            1 => (g.range(1, 9) as u64) << 32 | g.below(6) as u64,
            _ => *g.pick(&EDGES),
        }) as usize
    };
    for k in 0..EDGES.len() + 4 {
        let i = if k < EDGES.len() { EDGES[k] as usize } else { index(g) };
        let out = call_v(|| p.eval(i));
        let Some(sh) = out.clone().ok() else { return };
        log.ev(M::<S>::put(out, json!({"op":"farpri","a":1,"x":x(i)}), |v| json!({"v": S::stok(&v.v), "sx": x(v.i)})));
        let out = call_v(|| c.eval(i));
        log.ev(M::<S>::put(out, json!({"op":"farpub","a":1,"x":x(i)}), |v| json!({"v": S::ptok(&v.v), "sx": x(v.i)})));
        // at its index, and at one whose low half is the same
        for i in [i, i ^ (1 << 32), i & 0xffff_ffff] {
            let sh = PriShare { i, v: sh.v };
            let out = call_v(|| c.check(&sh));
            log.ev(M::<S>::put(out, json!({"op":"farcheck","a":1,"x":x(i),"v":S::stok(&sh.v)}), |ok| json!({"ok": ok})));
        }
    }
    for _ in 0..3 {
        let mut idx: Vec<usize> = vec![];
        while idx.len() < t {
            let i = if !idx.is_empty() && g.chance(1, 3) { idx[0] ^ (1 << 32) } else if g.chance(1, 4) { g.below(9) } else { index(g) };
            if !idx.contains(&i) {
                idx.push(i);
            }
        }
        let mut sh: Vec<_> = idx.iter().map(|i| Some(p.eval(*i))).collect();
        let mut psh: Vec<_> = idx.iter().map(|i| Some(c.eval(*i))).collect();
        if g.chance(1, 3) {
            sh[0].as_mut().unwrap().v = s.scalar().one();
            psh[0].as_mut().unwrap().v = s.point().base();
        }
        let xs: Vec<String> = idx.iter().map(|i| x(*i)).collect();
        let vs: Vec<_> = sh.iter().flatten().map(|v| S::stok(&v.v)).collect();
        let pvs: Vec<_> = psh.iter().flatten().map(|v| S::ptok(&v.v)).collect();
        let out = call(|| Ok::<_, poly::PolyError>((poly::recover_secret(s, &sh, t, t)?, poly::recover_pri_poly(&s, &sh, t, t)?)));
        log.ev(M::<S>::put(out, json!({"op":"recfarpri","xs":xs,"vs":vs}), |(v, p)| json!({"v": S::stok(&v), "c": coeffs(&p)})));
        let out = call(|| Ok::<_, poly::PolyError>((poly::recover_commit(s, &psh, t, t)?, poly::recover_pub_poly(s, &psh, t, t)?)));
        log.ev(M::<S>::put(out, json!({"op":"recfarpub","xs":xs,"vs":pvs}), |(v, p)| json!({"v": S::ptok(&v), "c": commits(&p)})));
    }
}

/// Every list of at most `len` entries over {absent, 0..n-1}, for each threshold.
fn systematic<S: KvSuite>(s: S, n: usize, len: usize, log: &mut Log)
where
    S::POINT: Copy,
    Sc<S>: Copy,
{
    for t in 1..=3 {
        for kind in 0..4 {
            log.begin(json!({"op":"init","grp":S::grp(),"q":S::order()}));
            let mut m = M::new(s, n);
            let mut g = Gen::new(17 + t as u64);
            m.newpri(&mut g, 0, t, log);
            let Some(p) = m.pri[0].clone() else { continue };
            let c = p.commit(None);
            for l in 0..=len {
                let total = (n + 1).pow(l as u32);
                for mut code in 0..total {
                    let mut idx = vec![];
                    for _ in 0..l {
                        let d = code % (n + 1);
                        code /= n + 1;
                        idx.push(if d == n { None } else { Some(d) });
                    }
                    let sh = m.pri_shares(&p, &idx);
                    let psh: Vec<_> = idx.iter().map(|i| i.map(|i| c.eval(i))).collect();
                    m.rec_all(kind, sh, psh, t, n, 1, log);
                }
            }
        }
    }
}

pub fn run(seed: u64, thorough: bool, log: &mut Log) {
    seed_rng(seed);
    let mut g = Gen::new(seed);
    let k = if thorough { 8 } else { 1 };
    for _ in 0..20 * k {
        random(Toy::<P61> {}, 1_000_000, &mut g, 60, false, log);
    }
    for _ in 0..12 * k {
        random(Toy::<11> {}, 9, &mut g, 60, false, log);
    }
    for _ in 0..6 * k {
        random(kyber_rs::group::edwards25519::SuiteEd25519::make(), 70_000, &mut g, 28, true, log);
    }
    for t in if thorough { vec![6, 7, 8, 9, 10, 12, 16, 17, 33] } else { vec![6, 9, 17] } {
        guard(log, |log| large(Toy::<P61> {}, t, &mut g, log));
    }
    if thorough {
        guard(log, |log| large(kyber_rs::group::edwards25519::SuiteEd25519::make(), 9, &mut g, log));
    }
    for t in if thorough { vec![1, 2, 3, 4, 5, 7] } else { vec![1, 2, 3, 4] } {
        guard(log, |log| far(kyber_rs::group::edwards25519::SuiteEd25519::make(), t, &mut g, log));
    }
    systematic(Toy::<13> {}, 5, if thorough { 4 } else { 3 }, log);
}
