//! X-Wing checks and the X25519 abstraction.
use crate::checks::*;
use crate::exec::*;
use crate::spec;
use crate::term::*;

#[path = "../../replay/src/x25519.rs"]
#[allow(dead_code)]
mod x25519;

const W: [u32; 32] = {
    let mut w = [8; 32];
    w[31] = 7;
    w
};

fn bytes(v: &[u64]) -> Vec<u8> {
    v.iter().map(|&x| x as u8).collect()
}

fn clamp(cx: &mut Ctx, s: &[T]) -> Vec<T> {
    let mut s = s.to_vec();
    let z = cx.konst(3, 0);
    let h = cx.extract(s[0], 3, 5);
    s[0] = cx.concat(&[z, h]);
    let h = cx.extract(s[31], 0, 6);
    let t = cx.konst(2, 1);
    s[31] = cx.concat(&[h, t]);
    s
}

/// X25519 as an uninterpreted function of the clamped scalar and the 255-bit coordinate;
/// base-point results carry the commutativity
/// X25519(a, X25519(b, 9)) = X25519(b, X25519(a, 9)).
pub fn x25519_uf(cx: &mut Ctx, s: &[T], p: Option<&[T]>) -> Vec<T> {
    let s = clamp(cx, s);
    let nine: Vec<T> = (0..32).map(|i| cx.konst(8, if i == 0 { 9 } else { 0 })).collect();
    let p = p.map(|p| p.to_vec()).unwrap_or(nine.clone());
    let mut u = p;
    u[31] = cx.extract(u[31], 0, 7);
    let is_base = u[1..].iter().all(|&t| cx.cval(t) == Some(0)) && cx.cval(u[0]) == Some(9);
    let dh = |v: &[u64]| x25519::x25519(&bytes(&v[..32]), &bytes(&v[32..])).iter().map(|&x| x as u64).collect::<Vec<u64>>();
    let mut outs = if is_base {
        cx.apply_real("x25519-base", &s, &W, &|v: &[u64]| x25519::x25519(&bytes(v), &x25519::base()).iter().map(|&x| x as u64).collect())
    } else if let Some(o) = cx.app_of("x25519-base", &u) {
        let (a, b) = if s <= o { (s, o) } else { (o, s) };
        let args: Vec<T> = a.into_iter().chain(b).collect();
        cx.apply_real("x25519-shared", &args, &W, &|v: &[u64]| {
            let q = x25519::x25519(&bytes(&v[32..]), &x25519::base());
            x25519::x25519(&bytes(&v[..32]), &q).iter().map(|&x| x as u64).collect()
        })
    } else {
        let args: Vec<T> = s.into_iter().chain(u).collect();
        cx.apply_real("x25519", &args, &W, &dh)
    };
    outs[31] = cx.zext(outs[31], 8);
    outs
}

/// equality of X25519 coordinates modulo 2^255 - 19, as an uninterpreted symmetric relation
pub fn mont_eq(cx: &mut Ctx, a: &[T], b: &[T]) -> T {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    a[31] = cx.extract(a[31], 0, 7);
    b[31] = cx.extract(b[31], 0, 7);
    if a == b {
        return cx.tt();
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    a.extend(b);
    cx.apply_real("x25519-coordinates-equal", &a, &[1], &|v: &[u64]| vec![(x25519::canonical(&bytes(&v[..32])) == x25519::canonical(&bytes(&v[32..]))) as u64])[0]
}

pub fn get(ex: &mut Exec, v: &Val, n: u64) -> X<Vec<T>> {
    let p = ex.as_ptr(v)?;
    if p.sym.is_some() {
        return Err(Stop::Unsupported("group operation through a symbolic address".into()));
    }
    ex.get_bytes(p.obj, p.off, n)
}
pub fn put(ex: &mut Exec, v: &Val, b: &[T]) -> X<()> {
    let p = ex.as_ptr(v)?;
    if p.sym.is_some() {
        return Err(Stop::Unsupported("group operation through a symbolic address".into()));
    }
    ex.set_bytes(p.obj, p.off, b);
    Ok(())
}

fn c_mul_clamped(ex: &mut Exec, _: &str, a: &[Val], _: &crate::ir::Ty) -> X<Val> {
    let u = get(ex, &a[1], 32)?;
    let s = get(ex, &a[2], 32)?;
    let r = x25519_uf(&mut ex.cx, &s, Some(&u));
    put(ex, &a[0], &r)?;
    Ok(Val::U)
}
/// Edwards points are represented by their Montgomery coordinate and a filler
fn c_ed_base(ex: &mut Exec, _: &str, a: &[Val], _: &crate::ir::Ty) -> X<Val> {
    let s = get(ex, &a[1], 32)?;
    let mut r = x25519_uf(&mut ex.cx, &s, None);
    let cl = clamp(&mut ex.cx, &s);
    let f = ex.cx.apply("edwards-rest", &cl, &[8; 128]);
    r.extend(f);
    put(ex, &a[0], &r)?;
    Ok(Val::U)
}
fn c_ed_to_mont(ex: &mut Exec, _: &str, a: &[Val], _: &crate::ir::Ty) -> X<Val> {
    let b = get(ex, &a[1], 160)?;
    let cx = &mut ex.cx;
    // a point computed any other way has no Montgomery coordinate in its first 32 bytes
    let ok = match *cx.node(b[32]) {
        Node::Uf(i, _) => cx.apps.apps[i as usize].name == "edwards-rest" && cx.apps.apps[i as usize].outs == b[32..],
        _ => false,
    };
    if !ok && !ex.concrete_only {
        return Err(Stop::Unsupported("conversion of an Edwards point that is not a base-point multiple".into()));
    }
    put(ex, &a[0], &b[..32])?;
    Ok(Val::U)
}
fn c_mont_base(ex: &mut Exec, _: &str, a: &[Val], _: &crate::ir::Ty) -> X<Val> {
    let s = get(ex, &a[1], 32)?;
    let r = x25519_uf(&mut ex.cx, &s, None);
    put(ex, &a[0], &r)?;
    Ok(Val::U)
}
fn c_mont_eq(ex: &mut Exec, _: &str, a: &[Val], _: &crate::ir::Ty) -> X<Val> {
    let x = get(ex, &a[0], 32)?;
    let y = get(ex, &a[1], 32)?;
    let e = mont_eq(&mut ex.cx, &x, &y);
    Ok(Val::I(ex.cx.zext(e, 8)))
}

pub fn install_x25519(ex: &mut Exec) {
    for (p, f) in [
        ("curve25519_dalek*montgomery*15MontgomeryPoint11mul_clamped", c_mul_clamped as CustomFn),
        ("curve25519_dalek*montgomery*15MontgomeryPoint16mul_base_clamped", c_mont_base as CustomFn),
        ("curve25519_dalek*edwards*12EdwardsPoint16mul_base_clamped", c_ed_base as CustomFn),
        ("curve25519_dalek*edwards*12EdwardsPoint13to_montgomery", c_ed_to_mont as CustomFn),
        ("curve25519_dalek*montgomery*15MontgomeryPointNt*ConstantTimeEq5ct_eq", c_mont_eq as CustomFn),
    ] {
        ex.custom.push((p.to_string(), f));
    }
}

const EK: usize = 1216;
const CT: usize = 1120;

impl Run {
    /// simulation values of (seed, randomness, ek, ct) of an honest X-Wing run
    pub fn xhonest(&mut self) -> (Vec<Sims>, Vec<Sims>, Vec<Sims>) {
        let mut r = Run::new(self.ex.m.clone(), "768", &self.pat, self.seed);
        r.ctr = 1 << 30;
        let sk = r.vars("sk", 32);
        let rnd = r.vars("rnd", 64);
        let (ek, ct) = r.spec(|s| {
            let (ek, _, _) = spec::xwing_expand(s, &sk);
            let (_, ct) = spec::xwing_encaps(s, &ek, &rnd);
            (ek, ct)
        });
        (r.sims_of(&sk), r.sims_of(&ek), r.sims_of(&ct))
    }
    fn len(&mut self, n: u64) -> Val {
        Val::I(self.ex.cx.konst(64, n as u128))
    }
    /// C14
    pub fn xkeygen(&mut self) -> X<()> {
        let sk = self.vars("sk", 32);
        let b = self.buf(&sk, "sk");
        let (ek, sk2) = (self.out(EK, "ek"), self.out(32, "sk2"));
        self.call_raw("h_xkeygen", &[b, ek, sk2])?;
        let (ek, sk2) = (self.read(ek, EK)?, self.read(sk2, 32)?);
        let (sek, _, _) = self.spec(|s| spec::xwing_expand(s, &sk));
        self.same("secret bytes", &sk2, &sk);
        self.same("ek", &ek, &sek);
        Ok(())
    }
    pub fn xgenrng(&mut self) -> X<()> {
        let buf = self.vars("buf", 128);
        let b = self.buf(&buf, "rng");
        let n = self.len(128);
        let (sk, ek, sk3) = (self.out(32, "sk"), self.out(EK, "ek"), self.out(32, "sk3"));
        let args = vec![self.ex.p(b), n.clone(), self.ex.p(sk), self.ex.p(ek)];
        let r = self.ex.call_name("h_xgenrng", args)?;
        self.drawn(r, 32)?;
        let args = vec![self.ex.p(b), n, self.ex.p(sk3)];
        let r = self.ex.call_name("h_xgen", args)?;
        self.drawn(r, 32)?;
        let (sk, ek, sk3) = (self.read(sk, 32)?, self.read(ek, EK)?, self.read(sk3, 32)?);
        let (sek, _, _) = self.spec(|s| spec::xwing_expand(s, &buf[..32]));
        self.same("seed of generate_key_pair", &sk, &buf[..32]);
        self.same("seed of DecapsulationKey::generate", &sk3, &buf[..32]);
        self.same("ek", &ek, &sek);
        Ok(())
    }
    /// C15
    pub fn xencaps(&mut self) -> X<()> {
        let (_, hek, _) = self.xhonest();
        let ek = self.ek_vars(&hek);
        let buf = self.vars("buf", 96);
        let (bek, b) = (self.buf(&ek, "ek"), self.buf(&buf, "rng"));
        let n = self.len(96);
        let (ct, ss) = (self.out(CT, "ct"), self.out(32, "ss"));
        let args = vec![self.ex.p(bek), self.ex.p(b), n, self.ex.p(ct), self.ex.p(ss)];
        let r = self.ex.call_name("h_xencaps", args)?;
        self.drawn(r, 64)?;
        let (ct, ss) = (self.read(ct, CT)?, self.read(ss, 32)?);
        let p = crate::spec::P768;
        let (sss, sct) = self.spec(|s| {
            let mut r = spec::reduce_ek(s, &p, &ek[..1184]);
            r.extend_from_slice(&ek[1184..]);
            spec::xwing_encaps(s, &r, &buf[..64])
        });
        self.same("ct", &ct, &sct);
        self.same("ss", &ss, &sss);
        Ok(())
    }
    /// C16
    pub fn xdecaps(&mut self) -> X<()> {
        let (hsk, _, hct) = self.xhonest();
        let mut ct = vec![[0u64; NS]; CT];
        for i in 0..CT {
            for k in 0..NS {
                ct[i][k] = if k < 4 { self.rnd() & 0xff } else { hct[i][k] };
            }
        }
        ct[self.seed as usize * 37 % CT][4] ^= 4;
        let sk = self.vars_sims("sk", &hsk);
        let ct = self.vars_sims("ct", &ct);
        let (bsk, bct, ss) = (self.buf(&sk, "sk"), self.buf(&ct, "ct"), self.out(32, "ss"));
        self.ex.sweep_stores = true;
        self.call_raw("h_xdecaps", &[bsk, bct, ss])?;
        self.ex.sweep_stores = false;
        let ss = self.read(ss, 32)?;
        let sss = self.spec(|s| spec::xwing_decaps(s, &sk, &ct));
        self.same("ss", &ss, &sss);
        Ok(())
    }
    /// C26: one key used for ct, ct2 and (a clone of it) ct again
    pub fn xseqdk(&mut self) -> X<()> {
        let (hsk, _, hct) = self.xhonest();
        let sk = self.vars_sims("sk", &hsk);
        let ct = self.vars_sims("ct", &hct);
        let ct2 = self.other(&ct, "ct2");
        let (bsk, b1, b2) = (self.buf(&sk, "sk"), self.buf(&ct, "ct"), self.buf(&ct2, "ct2"));
        let o: Vec<u32> = (0..3).map(|i| self.out(32, &format!("ss{i}"))).collect();
        let (out, ek) = (self.out(32, "out"), self.out(EK, "ek"));
        self.ex.sweep_stores = true;
        self.call_raw("h_xseqdk", &[bsk, b1, b2, o[0], o[1], o[2], out, ek])?;
        self.ex.sweep_stores = false;
        let (e, s1, s2) = self.spec(|s| {
            let e = spec::xwing_expand(s, &sk).0;
            (e, spec::xwing_decaps(s, &sk, &ct), spec::xwing_decaps(s, &sk, &ct2))
        });
        for (i, w) in [&s1, &s2, &s1].into_iter().enumerate() {
            let x = self.read(o[i], 32)?;
            self.same(&format!("ss of decapsulation {}", i + 1), &x, w);
        }
        let x = self.read(out, 32)?;
        self.same("secret after use", &x, &sk);
        let x = self.read(ek, EK)?;
        self.same("ek after use", &x, &e);
        Ok(())
    }
    pub fn xseqek(&mut self) -> X<()> {
        let (_, hek, _) = self.xhonest();
        let ek = self.ek_vars(&hek);
        let buf = self.vars("buf", 160);
        let (bek, b) = (self.buf(&ek, "ek"), self.buf(&buf, "rng"));
        let n = self.len(160);
        let mut args = vec![self.ex.p(bek), self.ex.p(b), n];
        let mut o = vec![];
        for i in 0..2 {
            o.push(self.out(CT, &format!("ct{i}")));
            o.push(self.out(32, &format!("ss{i}")));
        }
        o.push(self.out(EK, "out"));
        for &x in &o {
            args.push(self.ex.p(x));
        }
        let r = self.ex.call_name("h_xseqek", args)?;
        self.drawn(r, 128)?;
        let p = crate::spec::P768;
        let (r, w) = self.spec(|s| {
            let mut r = spec::reduce_ek(s, &p, &ek[..1184]);
            r.extend_from_slice(&ek[1184..]);
            let a = spec::xwing_encaps(s, &r, &buf[..64]);
            let b = spec::xwing_encaps(s, &r, &buf[64..128]);
            (r, [a, b])
        });
        for i in 0..2 {
            let x = self.read(o[2 * i], CT)?;
            self.same(&format!("ct of encapsulation {}", i + 1), &x, &w[i].1);
            let x = self.read(o[2 * i + 1], 32)?;
            self.same(&format!("ss of encapsulation {}", i + 1), &x, &w[i].0);
        }
        let x = self.read(o[4], EK)?;
        self.same("ek after use", &x, &r);
        Ok(())
    }
    /// C17
    pub fn xrt(&mut self) -> X<()> {
        self.ex.cx.no_canon = true;
        let (ct, ek, sk) = (self.vars("ct", CT), self.vars("ek", EK), self.vars("sk", 32));
        for (f, v) in [("h_xctrt", &ct), ("h_xekrt", &ek), ("h_xskrt", &sk)] {
            let (a, o) = (self.buf(v, "in"), self.out(v.len(), "out"));
            self.call_raw(f, &[a, o])?;
            let o = self.read(o, v.len())?;
            let want = if f == "h_xekrt" {
                let p = crate::spec::P768;
                let mut r = self.spec(|s| spec::reduce_ek(s, &p, &v[..1184]));
                r.extend_from_slice(&v[1184..]);
                r
            } else {
                v.clone()
            };
            self.same(f, &o, &want);
        }
        Ok(())
    }
    pub fn xeq(&mut self, which: &str) -> X<()> {
        let n = if which == "ek" { EK } else { CT };
        self.ex.cx.no_canon = true;
        let a = self.vars(which, n);
        let mut sims: Vec<Sims> = self.sims_of(&a);
        if self.conc.is_some() {
            sims = self.inputs[0].1.iter().map(|x| x.1).collect();
        }
        for k in 2..NS {
            let i = if k < 4 { n - 1 - (self.rnd() % 32) as usize } else { (self.rnd() % n as u64) as usize };
            sims[i][k] ^= 1 << (self.rnd() % 8);
        }
        for s in sims.iter_mut() {
            s[0] = self.rnd() & 0xff;
        }
        let b = self.vars_sims(&format!("{which}2"), &sims);
        let (ba, bb) = (self.buf(&a, "a"), self.buf(&b, "b"));
        let r = self.call_raw(if which == "ek" { "h_xeqek" } else { "h_xeqct" }, &[ba, bb])?;
        let r = self.ex.as_int(&r)?;
        let r = self.ex.cx.extract(r, 0, 1);
        if which == "ct" {
            self.iff_all_equal("ciphertexts", r, &a, &b);
            return Ok(());
        }
        let p = crate::spec::P768;
        let (x, y) = self.spec(|s| (spec::reduce_ek(s, &p, &a[..1184]), spec::reduce_ek(s, &p, &b[..1184])));
        let m = mont_eq(&mut self.ex.cx, &a[1184..], &b[1184..]);
        let (mut x, mut y) = (x, y);
        x.push(m);
        y.push(self.ex.cx.tt());
        self.iff_all_equal("encapsulation keys", r, &x, &y);
        Ok(())
    }
    /// C18
    pub fn xagree(&mut self, f: &str) -> X<()> {
        let p = crate::spec::P768;
        let buf = self.vars("buf", 128);
        let w = self.spec(|s| {
            let (ek, dk, _) = spec::xwing_expand(s, &buf[..32]);
            let (_, ct) = spec::encaps(s, &p, &ek[..1184], &buf[32..64]);
            spec::pke_decrypt_w(s, &p, &dk[..384 * 3], &ct)
        });
        self.no_failure(&w, &buf[32..64]);
        let b = self.buf(&buf, "rng");
        let n = self.len(128);
        let (ct, s1, s2) = (self.out(CT, "ct"), self.out(32, "ss1"), self.out(32, "ss2"));
        self.ex.sweep_stores = true;
        let args = vec![self.ex.p(b), n, self.ex.p(ct), self.ex.p(s1), self.ex.p(s2)];
        self.ex.call_name(f, args)?;
        self.ex.sweep_stores = false;
        let (a, b) = (self.read(s1, 32)?, self.read(s2, 32)?);
        self.same("receiver's secret", &b, &a);
        Ok(())
    }
    /// C19: two values with independent contents leave the same memory behind
    pub fn xwipe(&mut self) -> X<()> {
        self.ex.cx.no_canon = true;
        for (mk, size, n, name) in [("h_xmkdk", "h_xdksize", 32, "sk"), ("h_xmkct", "h_xctsize", CT, "ct")] {
            let a = self.vars(name, n);
            let b = self.vars(&format!("{name}2"), n);
            let sz = self.size_of(size)?;
            let drops: [&str; 2] = if n == 32 { ["h_xdropdk", "h_xzerodk"] } else { ["h_xdropct", "h_xzeroct"] };
            for d in drops {
                let mut slots = vec![];
                for v in [&a, &b] {
                    let i = self.buf(v, name);
                    let o = self.ex.alloc(sz, 16, "slot");
                    let fill: Vec<T> = vec![self.ex.cx.konst(8, 0x33); sz as usize];
                    self.ex.set_bytes(o, 0, &fill);
                    self.call_raw(mk, &[i, o])?;
                    slots.push(o);
                }
                let differ = (0..sz as usize).filter(|&i| self.ex.mem[slots[0] as usize].cells[i] != self.ex.mem[slots[1] as usize].cells[i]).count();
                if differ < n && self.conc.is_none() {
                    return Err(Stop::Unsupported("value memory does not hold the contents".into()));
                }
                for &o in &slots {
                    self.call_raw(d, &[o])?;
                }
                self.cells_same(&format!("memory of {name} after {d}"), slots[0], slots[1])?;
            }
        }
        Ok(())
    }
}
